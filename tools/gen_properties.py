#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None,hook=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title)); P.append(d)

p("P01","A satisfying witness always recovers the key and the exact message",
  "For every circuit that has at least one private signal, every assignment satisfying it and every message (any bytes, any length including zero), encrypting with the public part of the assignment and decrypting with the full assignment returns the identical bytes. The separate encapsulation and decapsulation steps hand out the same 32-byte key on both sides, and the result does not depend on the order in which the input names are written.",
  ["inputs","programs"],"all constraint systems with a private signal x all satisfying assignments x all messages",
  "the repository's end-to-end tests run two fixed circuits with a handful of fixed inputs and messages; nothing varies circuit shape, number of outputs/inputs, message length or content",
  [CLI+"commands.rs",CLI+"circuit.rs",CORE+"algorithm.rs",CLI+"crypto.rs"],
  [("encapsulation / decapsulation",CORE+"algorithm.rs encap, decap"),("command pipeline",CLI+"commands.rs"),("circuit bridge",CLI+"circuit.rs")],
  ["exit status and output files of the command-line tool"])
p("P02","Only a satisfying assignment that agrees with the public inputs decrypts",
  "Recovery of the key (and decryption of the message) fails with an error, producing no key and no plaintext, whenever the supplied assignment violates at least one constraint of the circuit, leaves a signal unassigned, or differs from the public inputs the ciphertext was made for in any position. This holds for every circuit, every ciphertext and every such assignment.",
  ["inputs","programs"],"all circuits x all ciphertexts x all non-satisfying or mismatching assignments, in particular near misses (one wire off by a small or huge amount)",
  "tests try one all-zero solution and one wrong preimage; near-miss witnesses, wrong values at late public positions and circuits with other shapes are never tried",
  [CORE+"algorithm.rs",CLI+"circuit.rs",CLI+"commands.rs",JS+"lib.rs"],
  [("constraint satisfaction gate",CORE+"algorithm.rs decap"),("public input comparison",CORE+"algorithm.rs decap")])
p("P03","The key cannot be computed from the ciphertext without a witness",
  "Nobody who holds only the ciphertext (and the circuit) can compute the key: no bytes of the ciphertext contain it, and no combination of the published group elements that needs no witness hashes to it.",
  ["inputs","programs"],"all circuits x all ciphertexts x a library of witness-free attack strategies",
  "no test looks at the ciphertext from an attacker's side",
  [CORE+"algorithm.rs"],[("key derivation",CORE+"algorithm.rs encap step 5")])
p("P04","Every encapsulation is fresh and independent",
  "Two encapsulations never share randomness: for the same or different circuits and inputs, keys and all randomised ciphertext components differ between calls. Each of the published random group elements is a non-identity element independent of the others and determined by the caller's random source alone, so a different random source gives a different result and the same one gives the same result. None of the five secrets behind them (alpha, beta, delta, the scaling r and the point x) is fixed, small, shared between calls or a function of the others, and the tools draw them from the operating system's randomness at full strength, not from a short seed.",
  ["inputs","histories"],"all sequences of encapsulation calls x all random sources",
  "one test compares a single component of two ciphertexts",
  [CORE+"algorithm.rs",CLI+"commands.rs",JS+"lib.rs"],
  [("parameter sampling",CORE+"algorithm.rs encap step 3"),("system randomness",CLI+"commands.rs OsRng"),("seeding",JS+"lib.rs wasm_encap getrandom")])
p("P05","A ciphertext is bound to all public signals, in order, or is not made at all",
  "A ciphertext produced for a circuit records exactly the values of all its public signals (outputs first, then public inputs), in wire order. When the supplied inputs leave any public signal without a value, encapsulation fails instead of producing a ciphertext bound to fewer signals; inputs that give one signal two different values (under two of its names) are refused as well.",
  ["inputs","programs"],"all circuits with any split of public outputs and inputs x all complete and incomplete input sets",
  "both test circuits have no public output and tests always give complete inputs; nothing inspects what a ciphertext is bound to",
  [CORE+"algorithm.rs",CLI+"commands.rs",CLI+"circuit.rs",JS+"lib.rs",JS+"zkenc.ts"],
  [("public input extraction",CORE+"algorithm.rs encap step 2"),("signal filter",CLI+"commands.rs"),("witness prefix",JS+"zkenc.ts encap")])
p("P06","Ciphertext verification accepts exactly the matching public inputs",
  "Checking a ciphertext against a list of expected public inputs accepts if and only if the list equals the ciphertext's public inputs in length, order and every value.",
  ["inputs"],"all ciphertexts x all candidate lists (equal, one element changed at any position, permuted, truncated, extended)",
  "no test calls the verification function",
  [CORE+"algorithm.rs"],[("verification",CORE+"algorithm.rs verify_ciphertext")])
p("P07","Published query elements encode the circuit's polynomials consistently",
  "For every fully assigned constraint system the three published query vectors have one element per variable and equal the circuit's interpolated constraint polynomials at one common secret point, scaled by common secrets: left elements are r*u(x), right elements r*v(x), and the combined elements (r*beta*u(x)+r*alpha*v(x)+r^2*w(x))/delta. Variables that occur in no constraint get the identity.",
  ["inputs","programs"],"all constraint systems (sparse, dense, repeated variables, constants, sizes around powers of two) x all secrets",
  "tests only reach the path where synthesis stops before any constraint, so every query element is the identity",
  [CORE+"algorithm.rs",CORE+"r1cs_to_qap.rs"],
  [("Lagrange evaluation",CORE+"r1cs_to_qap.rs evaluate_qap_polynomials_at_x"),("query construction",CORE+"algorithm.rs encap step 4")])
p("P08","Ciphertexts and keys survive encoding; damaged encodings are refused",
  "Every ciphertext and key decodes from its compressed or uncompressed encoding to an equal value, the encoded key is exactly its 32 bytes, and a decoded ciphertext still opens with the same witness to the same key. Truncated or otherwise undecodable bytes give an error, never a crash.",
  ["inputs"],"all ciphertexts x all truncations and byte mutations of their encodings",
  "one ciphertext is round-tripped once and only its public inputs are compared; no damaged encoding is tried",
  [CORE+"data_structures.rs",CLI+"commands.rs"],[("derived canonical encoding",CORE+"data_structures.rs")])
p("P09","The synthesised constraint system means what the circuit file says",
  "The constraint system both front ends build from a circuit file has the file's public wires as instance variables in order, the remaining wires as private variables in order, and one constraint per file constraint with the same coefficients. An assignment therefore satisfies it exactly when every constraint of the file holds modulo the BN254 scalar field prime.",
  ["inputs","programs"],"all well-formed circuit files x all assignments",
  "tests only count constraints of one file and use all-zero assignments",
  [CLI+"circuit.rs",JS+"lib.rs"],[("synthesis",CLI+"circuit.rs generate_constraints"),("synthesis (JS)",JS+"lib.rs generate_constraints, build_lc")])
p("P10","Every well-formed R1CS file is decoded exactly",
  "For every well-formed circuit file, whatever the order of its sections, extra unknown sections, field width, constraint shapes and optional label map, the parser returns exactly the header numbers, prime, constraints (wires and coefficient bytes in order) and label map (the identity when there is none) that were written. The reported number of public inputs is outputs plus inputs.",
  ["inputs"],"all well-formed R1CS binaries",
  "a single file is parsed and only its counts are compared with themselves",
  [CLI+"r1cs.rs"],[("two-pass section parser",CLI+"r1cs.rs from_file")],["fields of the parsed circuit"])
p("P11","Malformed R1CS files are refused with an error",
  "A file that is truncated, has a wrong magic or version, lacks a required section, or carries absurd counts or sizes (among them more outputs and public inputs than its wires can hold) is refused with an error: parsing never panics, aborts, hangs or allocates memory out of proportion to the file.",
  ["inputs","fault_sequences"],"all byte strings; in particular truncations at every offset and corrupted length/count fields of valid files",
  "no malformed file is tested",
  [CLI+"r1cs.rs"],[("magic/version/section checks",CLI+"r1cs.rs from_file")])
p("P12","Witness files are decoded exactly; malformed ones are refused",
  "Every well-formed witness file yields exactly its values, each wire mapped to its own field element, for any number of wires and any extra sections. Truncated files, wrong magic or version, missing sections, size mismatches, values not below the field prime and absurd sizes give an error without panic, abort, hang or disproportionate allocation.",
  ["inputs","fault_sequences"],"all well-formed witness binaries and all damaged variants",
  "the two witness tests are ignored by default and check only wire 0",
  [CLI+"witness.rs"],[("section parser",CLI+"witness.rs from_file"),("field conversion",CLI+"witness.rs to_field_elements")])
p("P13","Symbol files map every signal name to its wire, identically in both tools",
  "For every well-formed symbol file (any number of lines, nested components and array indices, optimised-away signals with wire -1, blank lines and other lines that do not have four fields, which are skipped, either line ending) the name-to-wire map contains exactly the signals with a non-negative wire. Selecting input signals keeps exactly the names under the main component, without that prefix, whose wire does not exceed the given maximum; the command-line and JavaScript implementations agree.",
  ["inputs"],"all well-formed symbol files x all maxima",
  "tests check a few names of one fixture",
  [CLI+"sym_parser.rs",JS+"sym_parser.ts"],[("line parser",CLI+"sym_parser.rs parse_sym_file"),("line parser (JS)",JS+"sym_parser.ts parseSymFile")])
p("P14","CLI input JSON binds each value to its named public wire",
  "The command-line tool assigns every value of the input JSON to the wire that the symbol file gives to that signal name, with array elements addressed by their indices at any nesting depth, independent of the order of keys. Numbers and decimal strings denote the same field element, negative values the additive inverse, and values at or above the field prime their residue.",
  ["inputs"],"all symbol files x all input objects x all key orders x all number representations",
  "tests parse two small literals and never look at wire binding, nesting, negative or large values",
  [CLI+"commands.rs",CLI+"sym_parser.rs"],[("input parsing",CLI+"commands.rs parse_circuit_inputs_with_keys"),("wire mapping",CLI+"commands.rs encap_command, encrypt_command")],
  ["public inputs recorded in the produced ciphertext"])
p("P15","JavaScript inputs bind each value to its named public wire",
  "The JavaScript library assigns every value of the input object to the wire the symbol file gives to that signal name: array elements by their indices at any nesting depth, nested objects by dotted names, independent of key order, with names that are not in the symbol file ignored. The values handed to the native layer are the same field elements the command-line tool would use: numbers, decimal strings and big integers alike, negatives as additive inverse, large values reduced.",
  ["inputs"],"all symbol files x all input objects x all key orders x all value representations",
  "tests use flat arrays of small non-negative numbers from one fixture",
  [JS+"sym_parser.ts",JS+"zkenc.ts"],[("wire mapping",JS+"sym_parser.ts mapInputsToWires"),("witness prefix serialisation",JS+"zkenc.ts encap, serializeWitnessSimple")],
  ["witness bytes handed to the native encapsulation"])
p("P16","Input listing flattens every JSON value in row-major order",
  "Reading a circuit input file returns one entry per top-level name whose list holds all scalar leaves of that value (a scalar or arrays of scalars nested to any depth) in document order: strings unchanged, numbers as their decimal text, true/false as 1/0 and null as 0, nothing dropped, duplicated or reordered. A missing file, invalid JSON or a non-object document is an error.",
  ["inputs"],"all JSON objects whose values are scalars or nested arrays, and all invalid documents",
  "one small file with one array is parsed",
  [CLI+"circom.rs"],[("flattening",CLI+"circom.rs parse_inputs, flatten_value")])
p("P17","AES-256-GCM (Rust) round-trips and is standard AES-GCM",
  "For every 32-byte key and every message of any length, encryption gives the 12-byte nonce, the ciphertext of the message's length and the 16-byte tag, in this order, equal to standard AES-256-GCM with that nonce and no associated data. Decryption returns the exact message, also for ciphertexts produced by any other standard implementation.",
  ["inputs"],"all keys x all messages (empty, block boundaries, multi-kilobyte) x all nonces",
  "two fixed messages are round-tripped with one fixed key",
  [CLI+"crypto.rs"],[("authenticated encryption",CLI+"crypto.rs encrypt_gcm, decrypt_gcm")])
p("P18","AES-256-GCM (Rust) rejects every altered message and bad argument",
  "Decryption fails with an error, without panicking, whenever any bit of nonce, ciphertext or tag was changed, bytes were removed, added or reordered, or the key differs in any bit. Keys that are not 32 bytes and inputs shorter than 28 bytes are refused with an error, for encryption and decryption alike.",
  ["inputs","fault_sequences"],"all keys x messages x single and multiple alterations at every position",
  "one wrong key and one short key are tried; no altered ciphertext is",
  [CLI+"crypto.rs"],[("tag verification",CLI+"crypto.rs decrypt_gcm"),("length checks",CLI+"crypto.rs")])
p("P19","AES-256-CTR round-trips, is standard CTR and refuses bad arguments",
  "For every 32-byte key and every message, encryption gives a 16-byte initial counter block followed by a ciphertext of exactly the message's length, equal to AES-256 counter mode with a 64-bit big-endian counter in the low half of the block. Decryption inverts it exactly; keys that are not 32 bytes and inputs shorter than 16 bytes are errors, not panics.",
  ["inputs"],"all keys x all messages x all initial counter blocks (including counters about to wrap)",
  "two fixed messages are round-tripped; the key stream is never compared with a reference",
  [CLI+"crypto.rs"],[("stream cipher",CLI+"crypto.rs encrypt_ctr, decrypt_ctr")])
p("P20","Every symmetric encryption (Rust) uses a fresh unpredictable nonce",
  "Across any sequence of encryptions, in any interleaving of threads, processes (also parts of one that was forked), modes, keys and messages, no nonce or initial counter block repeats, and every byte position of it varies: it does not depend on key, message or call count.",
  ["histories","inputs","schedules"],"all sequences of encryption calls, also from several threads and fresh processes",
  "no test encrypts twice",
  [CLI+"crypto.rs"],[("nonce generation",CLI+"crypto.rs encrypt_gcm OsRng, encrypt_ctr thread_rng")])
p("P21","JavaScript symmetric layer: standard, exact, authenticated and fresh",
  "For every 32-byte key and any message, the JavaScript encryption gives nonce (12 bytes), ciphertext and tag (16 bytes) equal to standard AES-256-GCM, uses a fresh nonce every time, and its decryption returns the exact message for any standard ciphertext, including byte views into larger buffers. Altered data, wrong keys, keys of other sizes and inputs shorter than 28 bytes are refused with an error.",
  ["inputs","histories","fault_sequences"],"all keys x messages x alterations; all call sequences",
  "one or two round trips with text messages",
  [JS+"crypto.ts"],[("Web Crypto wrapper",JS+"crypto.ts aesGcmEncrypt, aesGcmDecrypt")])
p("P22","Circuit snapshots round-trip losslessly in every format",
  "Every circuit, witness and test case survives text, binary and file encoding and decoding with all fields equal, including empty and large collections, extreme numbers and arbitrary label text, and the two copies of the format in the repository read each other's output. Converting a parsed circuit file to a snapshot preserves every header number, the prime and every constraint coefficient in order.",
  ["inputs"],"all snapshot values x all formats; all circuit files",
  "three fixed tiny snapshots without constraints are round-tripped and two fields compared",
  [CLI+"serializable.rs",CORE+"serializable.rs",CLI+"r1cs.rs"],[("derived encodings",CLI+"serializable.rs"),("conversion",CLI+"r1cs.rs to_serializable")])
p("P23","Damaged snapshots are refused without crashing",
  "Decoding a truncated binary or text snapshot, or one whose file is missing, returns an error; decoding arbitrarily damaged bytes returns an error or some snapshot but never panics, aborts or allocates out of proportion to the input.",
  ["inputs","fault_sequences"],"all truncations of all snapshots; all byte mutations",
  "no damaged snapshot is tried",
  [CLI+"serializable.rs",CORE+"serializable.rs"],[("decoders",CLI+"serializable.rs from_json, from_bincode, load_*")])
p("P24","CLI message container has the documented layout; damaged ones are refused",
  "An encrypted file consists of a flag byte, a 4-byte big-endian length with the witness ciphertext, and, exactly when public inputs are included, a 4-byte big-endian length with the verbatim input JSON, followed by nonce, encrypted message and tag; message bytes never appear in clear. Decryption of a truncated container, or of one whose length fields, nonce, encrypted message or tag were altered, fails with an error, without a crash and without writing an output file; no alteration of any kind makes decryption return a different message.",
  ["inputs","fault_sequences"],"all circuits, messages and option values; all truncations and alterations of containers",
  "tests only decrypt what they encrypted",
  [CLI+"commands.rs"],[("container writer",CLI+"commands.rs encrypt_command"),("container reader",CLI+"commands.rs decrypt_command")])
p("P25","JavaScript message container is exact, self-describing and robust",
  "The JavaScript encryption produces the documented container (flag, witness ciphertext, optional public input JSON, encrypted message) without changing its arguments, decryption returns the exact message with or without embedded inputs, and reading the embedded inputs returns an object equal to the one given (big integers as decimal strings). Containers without embedded inputs, truncated containers and containers with inconsistent lengths are refused with an error, for views into larger buffers as well.",
  ["inputs","fault_sequences"],"all inputs, messages and option values; all truncations and length-field alterations",
  "one fixture with two option values; only one truncated container",
  [JS+"zkenc.ts"],[("container writer",JS+"zkenc.ts encrypt"),("container reader",JS+"zkenc.ts decrypt, getPublicInput")])
p("P26","Both tools are interchangeable",
  "A message encrypted by either tool decrypts with the other given the same circuit and a satisfying assignment, the keys match, and a circuit, symbol file and input object give the same recorded public inputs in both tools. Public inputs embedded by the command-line tool can be read back by the JavaScript library.",
  ["inputs","programs"],"all circuits x inputs x messages x both directions",
  "no test in the repository crosses the tools",
  [CLI+"commands.rs",JS+"zkenc.ts",JS+"lib.rs",JS+"witness.ts"],[("shared container and encoding",CLI+"commands.rs; "+JS+"zkenc.ts")])
p("P27","Witness calculation is exact for every circuit program",
  "For every compiled circuit and complete input object, the computed witness (as values, as raw bytes and as a witness file) equals what the circuit defines: inputs reduced into the field (negatives, large values, strings, numbers, big integers, nested arrays in row-major order, keys in any order) and delivered to their signals, all values in wire order in the standard file layout. Reported circuit metadata (version, word count, prime, witness size) equals the program's own.",
  ["inputs","programs"],"all circuit programs (any field width, signal names, array sizes) x all input objects",
  "tests run one real circuit with one input and check sizes",
  [JS+"witness_calculator.ts",JS+"witness.ts"],[("input delivery",JS+"witness_calculator.ts _doCalculateWitness, normalize, fnvHash"),("file writer",JS+"witness_calculator.ts calculateWTNSBin")])
p("P28","Witness calculation refuses wrong inputs and failed assertions",
  "Unknown signal names, too few or too many values for a signal, missing signals, values that are not integers (the empty string included) and inputs violating an assertion of the circuit (including the assertions a program only evaluates in checking mode, whenever the calculator or the call asks for sanity checks, and only then) make the calculation fail with an error; no witness is returned, and a later calculation with correct inputs is unaffected.",
  ["inputs","histories","programs"],"all circuit programs x all incomplete, excessive or violating inputs; sequences of failing and succeeding calls",
  "tests use one invalid input of one circuit",
  [JS+"witness_calculator.ts",JS+"witness.ts"],[("size checks",JS+"witness_calculator.ts _doCalculateWitness"),("exception handler",JS+"witness_calculator.ts witnessCalculatorBuilder")])
p("P29","The script and typed witness calculators agree",
  "The plain script witness calculator shipped next to the typed one returns identical witnesses, raw bytes and witness files for every circuit program and input object, and fails on the same inputs.",
  ["inputs","programs"],"all circuit programs x all input objects, valid and invalid",
  "no test runs the script version",
  [JS+"witness_calculator.js",JS+"witness_calculator.ts"],[("script calculator",JS+"witness_calculator.js")])
p("P30","The JavaScript native layer refuses malformed files with an error",
  "Encapsulation and decapsulation in the JavaScript native layer return an error, never a trap, hang or disproportionate allocation, for truncated or corrupted circuit, witness and ciphertext bytes, and for witnesses whose size does not fit the circuit. Well-formed files are understood exactly as the command-line tool understands them.",
  ["inputs","fault_sequences"],"all byte strings, in particular truncations and corrupted count/length fields of valid files",
  "no malformed bytes reach the native layer in any test",
  [JS+"lib.rs"],[("bounds checks",JS+"lib.rs parse_r1cs, parse_linear_combination, parse_witness")])
p("P31","Failed commands report failure and leave no output; inputs stay untouched",
  "Every command-line run exits with status 0 exactly when it wrote its complete outputs. When an input cannot be used (missing or damaged input file, bad JSON, wrong witness, wrong container) it exits non-zero with a message, does not crash (also when its console cannot be written to), and neither creates nor changes an output file; an output path that cannot be written gives a non-zero exit as well; input files are never modified, and the documented options and their defaults are accepted.",
  ["inputs","fault_sequences","configurations"],"all commands x all single-file faults x option spellings",
  "tests call library functions on good files; the binary and its option parser are never run",
  [CLI+"main.rs",CLI+"commands.rs"],[("error propagation",CLI+"commands.rs"),("argument parser",CLI+"main.rs")])
p("P32","Concurrent JavaScript operations do not interfere",
  "Any number of encryptions, decryptions, encapsulations, reads and witness calculations (also on one calculator object) started concurrently, in any interleaving and including the very first calls, each return what they would return alone; neither changing an argument object between calls, nor changing a result, has any effect on other calls and their results; the native module is initialised before its first use and not more than once.",
  ["schedules","histories"],"all interleavings of concurrent calls, with initialisation and native calls completing in any order",
  "tests await every call before starting the next",
  [JS+"zkenc.ts"],[("one-time initialisation",JS+"zkenc.ts ensureWasmInit")])
p("P33","Keys follow the published formula",
  "The key of an encapsulation is the hash of the compressed pairing value e(alpha, beta) * e(sum of a_i Phi_i over the constant and the recorded public inputs, generator), and the key recovered with a satisfying assignment is the hash of e(alpha + sum a_i U_i, beta + sum a_i V_i) / e(sum a_i Phi_i, delta), with the sums running over as many leading wires (the constant first) as the ciphertext publishes elements for. This holds for every ciphertext, also one that another implementation produced, in the core library, the command-line tool and the JavaScript native layer, so stored ciphertexts and containers stay readable.",
  ["inputs"],"all ciphertexts (any group elements, any list lengths) x all satisfying assignments; all encapsulations",
  "tests only compare encapsulation and decapsulation of one build with each other, so both can change together",
  [CORE+"algorithm.rs",CLI+"commands.rs",JS+"lib.rs"],[("key derivation",CORE+"algorithm.rs encap, decap")])
p("P34","Secrets stay off the console",
  "Neither tool nor library ever prints or puts into an error message the derived key, the message or the values of private wires and inputs, in whole or in part, whether an operation succeeds or fails and whatever the environment variables say; apart from sizes and what a circuit itself logs, nothing printed or reported depends on the message or on private values.",
  ["inputs","fault_sequences"],"all commands and library calls x all keys, messages and witnesses x succeeding and failing runs",
  "tests do not look at console output",
  [CLI+"commands.rs",CORE+"algorithm.rs",JS+"zkenc.ts",JS+"witness_calculator.ts"],[("progress output",CLI+"commands.rs; "+CORE+"algorithm.rs"),("errors",JS+"zkenc.ts")])
p("P35","Concurrent use of the Rust tools does not interfere",
  "Runs of the command-line tool started at the same time, in one directory and on the same input files, and threads using the Rust libraries at the same time each give what they would give alone: keys belong to their ciphertexts, containers to their messages, nothing is mixed up, and no files other than the outputs are left, there or in the temporary or home directory.",
  ["schedules","histories"],"all sets of concurrent runs and threads x start times",
  "tests run one operation at a time",
  [CLI+"commands.rs",CLI+"crypto.rs",CORE+"algorithm.rs",CLI+"r1cs.rs"],[("output files",CLI+"commands.rs"),("absence of shared state",CORE+"algorithm.rs; "+CLI+"crypto.rs")])
p("P36","Only the contents of the named files matter",
  "The result of a command depends only on the contents of the files it is given: not on their names or extensions, on relative, absolute, upward or linked paths, on the working directory or environment variables, on inputs being read-only, on whether a message or container is a file or a pipe, on earlier runs (also when a file has changed since while keeping its size and date), or on what an output file contained before (it is replaced completely), also when input and output are one file.",
  ["inputs","configurations"],"all commands x placements and names of every file x environments",
  "the binary is never run by the tests",
  [CLI+"commands.rs",CLI+"main.rs",CLI+"r1cs.rs",CLI+"witness.rs"],[("file access",CLI+"commands.rs")])
p("P37","Messages of the circuit reach the caller",
  "While a witness is calculated, each log statement of the circuit prints exactly its texts and values (decimal), one line per statement, in order, and nothing else is printed. When an assertion of the circuit fails, or the circuit ends the run for another reason (unknown signal, too many or repeated values, out of memory, access out of bounds), the error says which it was and carries the messages the circuit gave for this failure, and none of an earlier one. Both calculators do the same.",
  ["inputs","histories","programs"],"all circuit programs with log statements and assertions x sequences of succeeding and failing calls on one calculator",
  "tests do not look at the output, and make one failing call",
  [JS+"witness_calculator.ts",JS+"witness_calculator.js"],[("log lines",JS+"witness_calculator.ts writeBufferMessage, printSharedRWMemory"),("assertion messages",JS+"witness_calculator.ts exceptionHandler, printErrorMessage")])
p("P38","Size is no obstacle",
  "Circuits with many constraints, terms, wires or public inputs, long symbol files, large input objects and long numbers, large snapshots and long messages are handled exactly as small ones are, by the Rust libraries, the command-line tool and the JavaScript library: nothing is cut off, wrapped around, mixed up or refused because of its size, no stack overflows, and a change anywhere in a long message is still noticed.",
  ["inputs"],"all inputs up to the limits of the file formats and of memory (explored up to some hundred thousand elements and tens of megabytes)",
  "test inputs are tiny",
  [CLI+"r1cs.rs",CLI+"crypto.rs",CLI+"sym_parser.rs",CLI+"circom.rs",CLI+"commands.rs",JS+"zkenc.ts",JS+"crypto.ts",JS+"lib.rs"],[("length fields",CLI+"commands.rs; "+JS+"zkenc.ts"),("loops over parsed counts",CLI+"r1cs.rs; "+JS+"lib.rs")])
p("P39","Stored files keep their layout",
  "Every file the tools store has one fixed layout, so files written by an earlier release or by another implementation stay readable and new files are readable by them: ciphertexts (elements in the published order, lists preceded by a 64-bit little-endian count, the recorded public inputs last, compressed or uncompressed), 32-byte key files, containers (flag byte, big-endian lengths, embedded input text, nonce, sealed message), and circuit, witness and test-case snapshots as JSON (field names, byte arrays, null for missing labels) and binary (little-endian fixed-width fields, counted lists). The core library, the command-line tool, its snapshot types and the JavaScript native layer all write and read exactly this layout.",
  ["inputs"],"all ciphertexts, keys, containers and snapshots, written by the code and read by an independent reader, and the other way round",
  "tests only round-trip one build with itself, so writer and reader can change together",
  [CORE+"data_structures.rs",CORE+"serializable.rs",CLI+"serializable.rs",CLI+"commands.rs",JS+"lib.rs"],[("ciphertext fields",CORE+"data_structures.rs EncapKey, Ciphertext"),("snapshot types",CLI+"serializable.rs; "+CORE+"serializable.rs"),("container and key file",CLI+"commands.rs")])
p("P40","Circuits and witnesses over another field are refused",
  "All tools work over the scalar field of BN254 only. A circuit or witness file whose header names any other prime, in any field width, is refused with an error and no output, by encapsulation, decapsulation, encryption and decryption in the command-line tool, the Rust library and the JavaScript native layer; its numbers are never reinterpreted modulo another prime. A file that names the BN254 prime is never refused for it.",
  ["inputs","fault_sequences"],"all circuit and witness files x all primes (close to BN254's, other curves', small, sharing some bytes) and field widths",
  "every test file is over BN254",
  [CLI+"circuit.rs",CLI+"witness.rs",CLI+"r1cs.rs",JS+"lib.rs"],[("prime of the circuit",CLI+"circuit.rs from_r1cs; "+JS+"lib.rs parse_r1cs"),("prime of the witness",CLI+"witness.rs to_field_elements; "+JS+"lib.rs parse_witness")])
p("P41","The core library is the same without the standard library",
  "The core library compiles with the `std` feature on and off, and both builds behave identically: for the same circuit, random source, ciphertext, assignment and list of public inputs, encapsulation gives the same ciphertext and key, decoding, decapsulation and verification give the same results, and whatever one build refuses (missing values, an unsatisfied circuit, changed public inputs, damaged ciphertexts) the other refuses with the same kind of error. The feature only adds progress messages.",
  ["inputs","configurations"],"all circuits, allocation orders, random sources, ciphertexts, assignments and lists of public inputs x both settings of the feature",
  "every test is built with the default features; the code that differs is scattered through the algorithm",
  [CORE+"lib.rs",CORE+"algorithm.rs",CORE+"data_structures.rs"],[("conditional compilation",CORE+"lib.rs no_std attribute; "+CORE+"algorithm.rs cfg(feature = \"std\")")])
p("P42","Compiled Circom circuits work end to end",
  "For the compiled circuits the repository ships, the rules of the circuit alone decide who can open a message. Sudoku: whoever knows a grid that fits the puzzle (rows, columns and boxes right, clues kept) opens what was sealed for the puzzle, and no other grid does. Two-of-three multi-signature: any two valid signatures of the message by two different keys of the set open it, whatever the order of the keys and signers and whatever the third key is; changed messages, signatures, keys or signer indices, one signer twice, or signatures out of range do not. Both witness calculators give one and the same witness, which satisfies every constraint of the circuit file and equals the one snarkjs computed; the public values are recorded in the circuit's order (also for the Merkle membership circuit, root then message); messages sealed with the library open with the command-line tool and the other way round.",
  ["inputs","programs"],"all puzzles, grids, key sets, signer orders, signatures (valid and altered), notations of the values, and messages, over real compiler output",
  "tests use one fixed input per circuit, and never exchange data between the tools",
  [CLI+"circuit.rs",CLI+"r1cs.rs",CLI+"circom.rs",CLI+"sym_parser.rs",JS+"lib.rs",JS+"zkenc.ts",JS+"witness_calculator.ts",JS+"witness_calculator.js",CORE+"algorithm.rs"],[("constraints",CLI+"circuit.rs; "+JS+"lib.rs"),("witness calculation",JS+"witness_calculator.ts"),("optimised-away wires",CLI+"sym_parser.rs; "+JS+"sym_parser.ts")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
