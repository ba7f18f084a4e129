From c83daee98e13ee66576e0b8236d28b412a6199ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 01/20] fix: refuse R1CS files whose counts or sizes do not fit
 the file

Section sizes, the field size and the number of public wires are checked
against the file before they are used, and collections grow with what the
file really contains instead of being reserved from untrusted counts.
---
 packages/zkenc-cli/src/r1cs.rs | 37 +++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index f4f739b..8f69084 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -96,6 +96,10 @@ impl R1csFile {
     pub fn from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
         let file = File::open(path.as_ref())
             .with_context(|| format!("Failed to open R1CS file: {:?}", path.as_ref()))?;
+        let file_size = file
+            .metadata()
+            .context("Failed to read R1CS file metadata")?
+            .len();
         let mut reader = BufReader::new(file);
 
         // Parse magic number "r1cs"
@@ -120,6 +124,13 @@ impl R1csFile {
             let section_type = read_u32(&mut reader)?;
             let section_size = read_u64(&mut reader)?;
             let section_pos = reader.stream_position()?;
+            if section_size > file_size.saturating_sub(section_pos) {
+                bail!(
+                    "Invalid R1CS file: section of type {} and size {} exceeds the file",
+                    section_type,
+                    section_size
+                );
+            }
             sections.push((section_type, section_size, section_pos));
             reader.seek_relative(section_size as i64)?;
         }
@@ -131,7 +142,7 @@ impl R1csFile {
                 .find(|(t, _, _)| *t == 0x01)
                 .context("Header section not found")?;
             reader.seek(std::io::SeekFrom::Start(header_section.2))?;
-            Self::parse_header(&mut reader)?
+            Self::parse_header(&mut reader, header_section.1)?
         };
 
         // Parse constraints section
@@ -172,8 +183,14 @@ impl R1csFile {
         })
     }
 
-    fn parse_header(reader: &mut BufReader<File>) -> Result<R1csHeader> {
+    fn parse_header(reader: &mut BufReader<File>, section_size: u64) -> Result<R1csHeader> {
         let field_size = read_u32(reader)?;
+        if field_size as u64 > section_size {
+            bail!(
+                "Invalid R1CS file: field size {} exceeds the header",
+                field_size
+            );
+        }
         let mut prime = vec![0u8; field_size as usize];
         reader.read_exact(&mut prime)?;
 
@@ -184,6 +201,15 @@ impl R1csFile {
         let n_labels = read_u64(reader)?;
         let n_constraints = read_u32(reader)?;
 
+        if 1 + n_pub_out as u64 + n_pub_in as u64 > n_wires as u64 {
+            bail!(
+                "Invalid R1CS file: {} public outputs and {} public inputs do not fit into {} wires",
+                n_pub_out,
+                n_pub_in,
+                n_wires
+            );
+        }
+
         Ok(R1csHeader {
             field_size,
             prime,
@@ -201,7 +227,8 @@ impl R1csFile {
         n_constraints: usize,
         field_size: usize,
     ) -> Result<Vec<Constraint>> {
-        let mut constraints = Vec::with_capacity(n_constraints);
+        // The count is untrusted: grow with what the file really contains
+        let mut constraints = Vec::new();
 
         for _ in 0..n_constraints {
             let a = Self::parse_lc(reader, field_size)?;
@@ -216,7 +243,7 @@ impl R1csFile {
 
     fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
         let n_factors = read_u32(reader)?;
-        let mut factors = Vec::with_capacity(n_factors as usize);
+        let mut factors = Vec::new();
 
         for _ in 0..n_factors {
             let wire_id = read_u32(reader)?;
@@ -229,7 +256,7 @@ impl R1csFile {
     }
 
     fn parse_wire2label(reader: &mut BufReader<File>, n_wires: usize) -> Result<Vec<u64>> {
-        let mut wire2label = Vec::with_capacity(n_wires);
+        let mut wire2label = Vec::new();
         for _ in 0..n_wires {
             wire2label.push(read_u64(reader)?);
         }
-- 
2.43.0


From 24986a7fdc116f5c21e0b99e94cae3e5ada7e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 02/20] fix: map nested array inputs to their wires

Only one array level was looked up in the symbol file, so elements such as
a[0][1] were silently left without a value.
---
 packages/zkenc-js/src/sym_parser.ts | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/packages/zkenc-js/src/sym_parser.ts b/packages/zkenc-js/src/sym_parser.ts
index 01d6be3..26070ab 100644
--- a/packages/zkenc-js/src/sym_parser.ts
+++ b/packages/zkenc-js/src/sym_parser.ts
@@ -95,13 +95,9 @@ export function mapInputsToWires(
     const fullKey = prefix ? `${prefix}.${key}` : key;
 
     if (Array.isArray(value)) {
-      // Handle array inputs
+      // Handle array inputs (elements may be arrays or objects themselves)
       for (let i = 0; i < value.length; i++) {
-        const arrayKey = `${fullKey}[${i}]`;
-        const wireId = wireMap.get(arrayKey);
-        if (wireId !== undefined) {
-          wireValues.set(wireId, value[i].toString());
-        }
+        flattenInput(`${key}[${i}]`, value[i], prefix);
       }
     } else if (typeof value === "object" && value !== null) {
       // Recursively handle nested objects
-- 
2.43.0


From 7908e3ddb9ca311a58a71bd2de11eabdb277875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 03/20] fix: reduce public input values into the field

Negative values were written in two's complement and values of 256 bits or
more were truncated, so the ciphertext was bound to other field elements.
---
 packages/zkenc-js/src/zkenc.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index c0b384c..6b7f7b0 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -205,7 +205,9 @@ function serializeWitnessSimple(witness: bigint[]): Uint8Array {
 
   // Witness values
   for (const value of witness) {
-    const valueBytes = bigIntToLeBytes32(value);
+    // Reduce into the field: negative values are additive inverses
+    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;
+    const valueBytes = bigIntToLeBytes32(reduced);
     bytes.set(valueBytes, offset);
     offset += 32;
   }
-- 
2.43.0


From 5b84473f5c6b30f6ddbf0c30e46772419e1fd2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 04/20] fix: allow any number of inputs in encap

Spreading all wire ids into one call exceeds the engine's argument limit
(about 125000) and made encapsulation of large inputs fail.
---
 packages/zkenc-js/src/zkenc.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index 6b7f7b0..88c939a 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -92,7 +92,10 @@ export async function encap(
   const wireValues = mapInputsToWires(publicInputs, inputSignals);
 
   // Find the maximum wire ID to determine public input range
-  const maxWireId = Math.max(...Array.from(wireValues.keys()));
+  let maxWireId = 0;
+  for (const wireId of wireValues.keys()) {
+    if (wireId > maxWireId) maxWireId = wireId;
+  }
 
   // Create witness array: wire 0 = 1 (constant), then public input wires
   const witnessArray: bigint[] = [1n]; // Wire 0 is always 1
-- 
2.43.0


From a2eacf1a7455caab4efdc609079e1ab2892a59bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 05/20] fix: bind outputs and all public inputs when
 encapsulating with the CLI

The wire limit counted only the public inputs, but the wires of the
outputs come first, so circuits with outputs lost their last inputs.
---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 4cb13e8..9c5a818 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -39,7 +39,7 @@ pub fn encap_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
@@ -176,7 +176,7 @@ pub fn encrypt_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
-- 
2.43.0


From 3e486f4829a17c7d24ba647bdaec38bce6d72e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 06/20] fix: read negative JSON numbers as additive inverses

A negative number was cast to u64, which bound its value modulo 2^64
instead of its value modulo the field prime.
---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 9c5a818..3e1a5fe 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -419,7 +419,7 @@ fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
@@ -471,7 +471,7 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-- 
2.43.0


From 7df38c24366465e0130a135269621fb9e8504dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 07/20] fix: give -c to --circuit alone in encap and decap

Both --circuit and --ciphertext claimed the short option, which made clap
panic in debug builds and left -c ambiguous in release builds.
---
 packages/zkenc-cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/main.rs b/packages/zkenc-cli/src/main.rs
index c6f711f..9d46532 100644
--- a/packages/zkenc-cli/src/main.rs
+++ b/packages/zkenc-cli/src/main.rs
@@ -33,7 +33,7 @@ enum Commands {
         #[arg(short, long)]
         input: String,
         /// Output ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
@@ -48,7 +48,7 @@ enum Commands {
         #[arg(short, long)]
         witness: String,
         /// Ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
-- 
2.43.0


From d80f61aee7020456e56833035763000dbcc9ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 08/20] fix: refuse to encapsulate when a public input has no
 value

The synthesis error was ignored for public inputs too, so the ciphertext
silently recorded only the inputs before the first missing one.
---
 packages/zkenc-core/src/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/zkenc-core/src/algorithm.rs b/packages/zkenc-core/src/algorithm.rs
index 2ad023b..79af03f 100644
--- a/packages/zkenc-core/src/algorithm.rs
+++ b/packages/zkenc-core/src/algorithm.rs
@@ -89,6 +89,11 @@ where
     };
     drop(cs_borrowed); // Release the borrow
 
+    // A public input without a value would leave the ciphertext bound to fewer inputs
+    if public_inputs.len() + 1 != r1cs_to_qap::num_public_inputs(&cs) {
+        return Err(Error::InvalidPublicInputs);
+    }
+
     #[cfg(feature = "std")]
     println!("  ✓ Extracted {} public inputs", public_inputs.len());
 
-- 
2.43.0


From 73cae4056b9e87509ac9e944d2e92498ae62bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 09/20] fix: refuse witness files whose sizes do not fit the
 file

Section and field sizes from the file reserved memory unchecked (aborting
for absurd values), a wrong header size was ignored, and bytes of a value
beyond the field's width were dropped.
---
 packages/zkenc-cli/src/witness.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index d6ee093..a7ac486 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -65,21 +65,22 @@ impl WitnessFile {
                     let field_size = read_u32_le(&mut reader)?;
 
                     // Read prime modulus
-                    prime = vec![0u8; field_size as usize];
-                    reader.read_exact(&mut prime)?;
+                    prime = read_bytes(&mut reader, field_size as u64)?;
 
                     // Read witness count
                     n_witness = read_u32_le(&mut reader)?;
+
+                    if section_size != field_size as u64 + 8 {
+                        bail!("Header section size mismatch in wtns file");
+                    }
                 }
                 2 => {
                     // Witness data section
-                    witness_data = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut witness_data)?;
+                    witness_data = read_bytes(&mut reader, section_size)?;
                 }
                 _ => {
                     // Skip unknown sections
-                    let mut skip = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut skip)?;
+                    read_bytes(&mut reader, section_size)?;
                 }
             }
         }
@@ -124,6 +125,12 @@ impl WitnessFile {
         let mut result = HashMap::new();
 
         for (&wire_id, bytes) in &self.assignments {
+            // Bytes beyond the width of the field would be ignored below
+            let width = (F::MODULUS_BIT_SIZE as usize).div_ceil(8);
+            if bytes.iter().skip(width).any(|&b| b != 0) {
+                bail!("Value of wire {} exceeds the field", wire_id);
+            }
+
             // Deserialize from little-endian bytes
             let value = F::deserialize_uncompressed(&bytes[..]).with_context(|| {
                 format!("Failed to deserialize wire {} as field element", wire_id)
@@ -140,6 +147,16 @@ impl WitnessFile {
     }
 }
 
+/// Read exactly `len` bytes, without reserving memory for bytes the file does not have
+fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(len).read_to_end(&mut buf)?;
+    if buf.len() as u64 != len {
+        bail!("Unexpected end of wtns file");
+    }
+    Ok(buf)
+}
+
 // Helper functions for reading little-endian integers
 
 fn read_u32_le<R: Read>(reader: &mut R) -> Result<u32> {
-- 
2.43.0


From a1983382efc18a948dc6883604d8e08c6a2caa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 10/20] fix: refuse malformed files in the JavaScript native
 layer with an error

Truncated witness files and absurd section lengths, field sizes and wire
counts trapped, a zero field size looped for ever, and files with truncated
trailing sections or values of the wrong total size were accepted.
---
 packages/zkenc-js/src/lib.rs | 95 +++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 45 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 71be291..96f9570 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -122,8 +122,12 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
     let mut sections = Vec::new();
     for _ in 0..n_sections {
         let section_type = read_u32(&mut pos)?;
-        let section_len = read_u64(&mut pos)? as usize;
+        let section_len = read_u64(&mut pos)?;
         let section_start = pos;
+        if section_len > (data.len() - pos) as u64 {
+            return Err("Unexpected end of data".to_string());
+        }
+        let section_len = section_len as usize;
         sections.push((section_type, section_len, section_start));
         pos = section_start + section_len;
     }
@@ -138,7 +142,7 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let mut header_pos = header_section.2;
         let field_size = read_u32(&mut header_pos)?;
         let prime_len = field_size as usize;
-        if header_pos + prime_len > data.len() {
+        if prime_len > data.len() - header_pos {
             return Err("Invalid prime length".to_string());
         }
         header_pos += prime_len; // Skip prime bytes
@@ -150,6 +154,11 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let _n_labels = read_u64(&mut header_pos)?;
         let n_constraints = read_u32(&mut header_pos)?;
 
+        // Wire 0 and all public wires have to exist
+        if u64::from(n_pub_out) + u64::from(n_pub_in) >= u64::from(n_wires) {
+            return Err("Invalid number of wires".to_string());
+        }
+
         R1csHeader {
             field_size,
             n_wires,
@@ -215,7 +224,7 @@ fn parse_linear_combination(
         *pos += 4;
 
         let value_len = field_size as usize;
-        if *pos + value_len > data.len() {
+        if value_len > data.len() - *pos {
             return Err("Unexpected end of data reading factor value".to_string());
         }
         let value = data[*pos..*pos + value_len].to_vec();
@@ -234,66 +243,64 @@ fn parse_linear_combination(
 fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
     let mut pos = 0;
 
+    // Take the next `len` bytes
+    let take = |pos: &mut usize, len: u64| -> Result<&[u8], String> {
+        if len > (data.len() - *pos) as u64 {
+            return Err("Unexpected end of data".to_string());
+        }
+        let bytes = &data[*pos..*pos + len as usize];
+        *pos += len as usize;
+        Ok(bytes)
+    };
+    let to_u32 = |bytes: &[u8]| u32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+
     // Check magic "wtns"
-    if pos + 4 > data.len() || &data[pos..pos + 4] != b"wtns" {
+    if !data.starts_with(b"wtns") {
         return Err("Invalid witness file: wrong magic".to_string());
     }
     pos += 4;
 
     // Version
-    let version = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let version = to_u32(take(&mut pos, 4)?);
     if version != 2 {
         return Err(format!("Unsupported witness version: {}", version));
     }
 
     // Number of sections
-    let n_sections = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let n_sections = to_u32(take(&mut pos, 4)?);
 
-    let mut witness: Vec<Fr> = Vec::new();
-    let mut n8 = 0usize;
+    let mut header: Option<(usize, u32)> = None;
+    let mut values: Option<&[u8]> = None;
 
     for _ in 0..n_sections {
-        let section_type =
-            u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-        pos += 4;
-
-        let section_len = u64::from_le_bytes([
-            data[pos],
-            data[pos + 1],
-            data[pos + 2],
-            data[pos + 3],
-            data[pos + 4],
-            data[pos + 5],
-            data[pos + 6],
-            data[pos + 7],
-        ]) as usize;
-        pos += 8;
-
-        let section_end = pos + section_len;
+        let section_type = to_u32(take(&mut pos, 4)?);
+        let section_len = u64::from(to_u32(take(&mut pos, 4)?))
+            | u64::from(to_u32(take(&mut pos, 4)?)) << 32;
+        let section = take(&mut pos, section_len)?;
 
         if section_type == 1 {
-            // Header section
-            n8 = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]])
-                as usize;
+            // Header section: field size, prime, witness count
+            if section.len() < 8 || to_u32(section) as usize != section.len() - 8 {
+                return Err("Invalid header section".to_string());
+            }
+            header = Some((section.len() - 8, to_u32(&section[section.len() - 4..])));
         } else if section_type == 2 {
             // Witness values section - contains raw witness data (field_size * n_witness bytes)
-            // Read all witness values directly
-            while pos + n8 <= section_end {
-                let mut bytes = vec![0u8; 32];
-                let copy_len = n8.min(32);
-                bytes[..copy_len].copy_from_slice(&data[pos..pos + copy_len]);
-
-                witness.push(Fr::from_le_bytes_mod_order(&bytes));
-                pos += n8;
-            }
+            values = Some(section);
         }
+    }
 
-        pos = section_end;
+    let (n8, n_witness) = header.ok_or("Header section (type 1) not found")?;
+    let values = values.ok_or("Witness section (type 2) not found")?;
+    if n8 == 0 || values.len() as u64 != n8 as u64 * n_witness as u64 {
+        return Err("Witness data size mismatch".to_string());
     }
 
-    Ok(witness)
+    // Read all witness values
+    Ok(values
+        .chunks_exact(n8)
+        .map(CircomCircuit::bytes_to_fr)
+        .collect())
 }
 
 //////////////////////////////////////////////////////////////////////////////
@@ -396,10 +403,8 @@ pub fn wasm_encap(r1cs_bytes: &[u8], witness_bytes: &[u8]) -> Result<EncapResult
     
     // Create witness map with constant and public inputs only
     let mut witness_map = HashMap::new();
-    for i in 0..=(n_pub as u32) {
-        if (i as usize) < witness_values.len() {
-            witness_map.insert(i, witness_values[i as usize]);
-        }
+    for (i, value) in witness_values.iter().take(n_pub + 1).enumerate() {
+        witness_map.insert(i as u32, *value);
     }
 
     // Create circuit with only public inputs assigned
-- 
2.43.0


From c3df0c74f16d29e1300ba0360200f750b441f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 11/20] fix: an assertion error repeats the messages of earlier
 failures of the same calculator

---
 packages/zkenc-js/src/witness_calculator.js | 5 ++++-
 packages/zkenc-js/src/witness_calculator.ts | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-js/src/witness_calculator.js b/packages/zkenc-js/src/witness_calculator.js
index 20e6e20..888a93b 100644
--- a/packages/zkenc-js/src/witness_calculator.js
+++ b/packages/zkenc-js/src/witness_calculator.js
@@ -35,7 +35,10 @@ module.exports = async function builder(code, options) {
 		} else {
 		    err = "Unknown error.\n";
                 }
-                throw new Error(err + errStr);
+                // Report only the messages of this failure, not those of earlier ones
+                const message = err + errStr;
+                errStr = "";
+                throw new Error(message);
             },
 	    printErrorMessage : function() {
 		errStr += getMessage() + "\n";
diff --git a/packages/zkenc-js/src/witness_calculator.ts b/packages/zkenc-js/src/witness_calculator.ts
index 7e15528..ed6ffba 100644
--- a/packages/zkenc-js/src/witness_calculator.ts
+++ b/packages/zkenc-js/src/witness_calculator.ts
@@ -283,7 +283,10 @@ export default async function witnessCalculatorBuilder(
         } else {
           err = "Unknown error.\n";
         }
-        throw new Error(err + errStr);
+        // Report only the messages of this failure, not those of earlier ones
+        const message = err + errStr;
+        errStr = "";
+        throw new Error(message);
       },
       printErrorMessage(): void {
         errStr += getMessage(instance.exports) + "\n";
-- 
2.43.0


From 0c8a42f7327c66d5a7ea6b34baac319d38e15177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:37 +0000
Subject: [PATCH 12/20] fix: witness calculators refuse empty strings instead
 of reading them as zero

---
 packages/zkenc-js/src/witness_calculator.js | 4 ++++
 packages/zkenc-js/src/witness_calculator.ts | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/packages/zkenc-js/src/witness_calculator.js b/packages/zkenc-js/src/witness_calculator.js
index 888a93b..548b613 100644
--- a/packages/zkenc-js/src/witness_calculator.js
+++ b/packages/zkenc-js/src/witness_calculator.js
@@ -320,6 +320,10 @@ function flatArray(a) {
 }
 
 function normalize(n, prime) {
+    // BigInt("") is 0n: a missing value must not become a zero
+    if (typeof n === "string" && n.trim() === "") {
+        throw new Error("Invalid value: empty string");
+    }
     let res = BigInt(n) % prime
     if (res < 0) res += prime
     return res
diff --git a/packages/zkenc-js/src/witness_calculator.ts b/packages/zkenc-js/src/witness_calculator.ts
index ed6ffba..6f6b33d 100644
--- a/packages/zkenc-js/src/witness_calculator.ts
+++ b/packages/zkenc-js/src/witness_calculator.ts
@@ -352,6 +352,10 @@ function flatArray(a: any): bigint[] {
         fillArray(res, a[i]);
       }
     } else {
+      // BigInt("") is 0n: a missing value must not become a zero
+      if (typeof a === "string" && a.trim() === "") {
+        throw new Error("Invalid value: empty string");
+      }
       res.push(BigInt(a));
     }
   }
-- 
2.43.0


From 95cbf6880011f273ec9c41dafba5fcbfa90310e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:37 +0000
Subject: [PATCH 13/20] fix: encap refuses empty strings instead of sealing
 them as zero

---
 packages/zkenc-js/src/zkenc.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index 88c939a..eeb260b 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -105,6 +105,10 @@ export async function encap(
     const value = wireValues.get(i);
     if (value !== undefined) {
       const valueStr = Array.isArray(value) ? value[0] : value;
+      // BigInt("") is 0n: a missing value must not become a zero
+      if (valueStr.trim() === "") {
+        throw new Error(`Invalid value for wire ${i}: empty string`);
+      }
       witnessArray.push(BigInt(valueStr));
     } else {
       // This wire is not a public input, stop here
-- 
2.43.0


From 8ffb24be89bd960c27765f516b9eb19c9ef0952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:37 +0000
Subject: [PATCH 14/20] fix: encrypt embeds public inputs given as big integers

---
 packages/zkenc-js/src/zkenc.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index eeb260b..a01d651 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -336,7 +336,10 @@ export async function encrypt(
   // Step 3: Prepare public input data (if includePublicInput is true)
   let publicInputBytes = new Uint8Array(0);
   if (includePublicInput) {
-    const publicInputJson = JSON.stringify(publicInputs);
+    // JSON has no big integers: they are written as decimal strings
+    const publicInputJson = JSON.stringify(publicInputs, (_key, value) =>
+      typeof value === "bigint" ? value.toString() : value
+    );
     const encoder = new TextEncoder();
     publicInputBytes = encoder.encode(publicInputJson);
   }
-- 
2.43.0


From 993604268a77b99c0acd9d6f9570a48edb91db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 15/20] fix: concurrent calls on one witness calculator no
 longer return each other's witness

---
 packages/zkenc-js/src/witness_calculator.js |  9 +++++----
 packages/zkenc-js/src/witness_calculator.ts | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/packages/zkenc-js/src/witness_calculator.js b/packages/zkenc-js/src/witness_calculator.js
index 548b613..18e3fd8 100644
--- a/packages/zkenc-js/src/witness_calculator.js
+++ b/packages/zkenc-js/src/witness_calculator.js
@@ -131,7 +131,8 @@ class WitnessCalculator {
 	return this.instance.exports.getVersion();
     }
 
-    async _doCalculateWitness(input, sanityCheck) {
+    // Not asynchronous: the result has to be read before another call starts
+    _doCalculateWitness(input, sanityCheck) {
 	//input is assumed to be a map from signals to arrays of bigints
         this.instance.exports.init((this.sanityCheck || sanityCheck) ? 1 : 0);
         const keys = Object.keys(input);
@@ -175,7 +176,7 @@ class WitnessCalculator {
 
         const w = [];
 
-        await this._doCalculateWitness(input, sanityCheck);
+        this._doCalculateWitness(input, sanityCheck);
 
         for (let i=0; i<this.witnessSize; i++) {
             this.instance.exports.getWitness(i);
@@ -194,7 +195,7 @@ class WitnessCalculator {
 
         const buff32 = new Uint32Array(this.witnessSize*this.n32);
 	const buff = new  Uint8Array( buff32.buffer);
-        await this._doCalculateWitness(input, sanityCheck);
+        this._doCalculateWitness(input, sanityCheck);
 
         for (let i=0; i<this.witnessSize; i++) {
             this.instance.exports.getWitness(i);
@@ -212,7 +213,7 @@ class WitnessCalculator {
 
         const buff32 = new Uint32Array(this.witnessSize*this.n32+this.n32+11);
 	const buff = new  Uint8Array( buff32.buffer);
-        await this._doCalculateWitness(input, sanityCheck);
+        this._doCalculateWitness(input, sanityCheck);
   
 	//"wtns"
 	buff[0] = "w".charCodeAt(0)
diff --git a/packages/zkenc-js/src/witness_calculator.ts b/packages/zkenc-js/src/witness_calculator.ts
index 6f6b33d..d6e9320 100644
--- a/packages/zkenc-js/src/witness_calculator.ts
+++ b/packages/zkenc-js/src/witness_calculator.ts
@@ -56,10 +56,11 @@ export class WitnessCalculator {
     return this.version;
   }
 
-  private async _doCalculateWitness(
+  // Not asynchronous: the result has to be read before another call starts
+  private _doCalculateWitness(
     input: CircuitInput,
     sanityCheck?: boolean
-  ): Promise<void> {
+  ): void {
     const exports = this.instance.exports as any;
     exports.init(this.sanityCheck || sanityCheck ? 1 : 0);
 
@@ -112,7 +113,7 @@ export class WitnessCalculator {
     const w: bigint[] = [];
     const exports = this.instance.exports as any;
 
-    await this._doCalculateWitness(input, sanityCheck);
+    this._doCalculateWitness(input, sanityCheck);
 
     for (let i = 0; i < this.witnessSize; i++) {
       exports.getWitness(i);
@@ -134,7 +135,7 @@ export class WitnessCalculator {
     const buff32 = new Uint32Array(this.witnessSize * this.n32);
     const buff = new Uint8Array(buff32.buffer);
 
-    await this._doCalculateWitness(input, sanityCheck);
+    this._doCalculateWitness(input, sanityCheck);
 
     for (let i = 0; i < this.witnessSize; i++) {
       exports.getWitness(i);
@@ -156,7 +157,7 @@ export class WitnessCalculator {
     const buff = new Uint8Array(buff32.buffer);
     const buffView = new DataView(buff32.buffer);
 
-    await this._doCalculateWitness(input, sanityCheck);
+    this._doCalculateWitness(input, sanityCheck);
 
     // "wtns" magic header
     buff[0] = "w".charCodeAt(0);
-- 
2.43.0


From 96dd5dec6cf66557d0be29beedf17e7683ad4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:24 +0000
Subject: [PATCH 16/20] fix: take CTR initialisation vectors from the system,
 not from a generator copied by fork

---
 packages/zkenc-cli/src/crypto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/zkenc-cli/src/crypto.rs b/packages/zkenc-cli/src/crypto.rs
index a42b2bb..4e27cc1 100644
--- a/packages/zkenc-cli/src/crypto.rs
+++ b/packages/zkenc-cli/src/crypto.rs
@@ -108,7 +108,7 @@ pub fn encrypt_ctr(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
     // Generate random IV (16 bytes for AES)
     let mut iv = [0u8; 16];
     use rand::RngCore;
-    rand::thread_rng().fill_bytes(&mut iv);
+    OsRng.fill_bytes(&mut iv);
 
     // Create cipher
     let mut cipher = Aes256Ctr::new(key.into(), &iv.into());
-- 
2.43.0


From bc73c28304c4b61fc37b2441d21753b47545b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:01 +0000
Subject: [PATCH 17/20] fix: refuse circuits and witnesses of another field
 than BN254's scalars

---
 packages/zkenc-cli/src/circuit.rs | 11 +++++++++--
 packages/zkenc-cli/src/witness.rs | 11 ++++++++++-
 packages/zkenc-js/src/lib.rs      | 18 ++++++++++++++++--
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/packages/zkenc-cli/src/circuit.rs b/packages/zkenc-cli/src/circuit.rs
index 0a681a6..ad5bd37 100644
--- a/packages/zkenc-cli/src/circuit.rs
+++ b/packages/zkenc-cli/src/circuit.rs
@@ -1,7 +1,7 @@
 use crate::r1cs::R1csFile;
-use anyhow::Result;
+use anyhow::{bail, Result};
 use ark_bn254::Fr; // Circom uses BN254 (alt_bn128)
-use ark_ff::PrimeField;
+use ark_ff::{BigInteger, PrimeField};
 use ark_relations::gr1cs::{
     ConstraintSynthesizer, ConstraintSystemRef, LinearCombination, SynthesisError, Variable,
     R1CS_PREDICATE_LABEL,
@@ -23,6 +23,13 @@ impl CircomCircuit {
     /// Load a Circom circuit from R1CS file
     pub fn from_r1cs<P: AsRef<Path>>(r1cs_path: P) -> Result<Self> {
         let r1cs = R1csFile::from_file(r1cs_path)?;
+        // Coefficients of another field would be reinterpreted as BN254 scalars
+        let mut prime = r1cs.prime.clone();
+        prime.resize(prime.len().max(32), 0);
+        let (low, high) = prime.split_at(32);
+        if low != Fr::MODULUS.to_bytes_le() || high.iter().any(|&b| b != 0) {
+            bail!("Unsupported circuit: its field is not the scalar field of BN254");
+        }
         Ok(Self {
             r1cs,
             witness: HashMap::new(),
diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index a7ac486..8b184ea 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -9,7 +9,7 @@
 //     - Section 2: Witness data (array of field elements)
 
 use anyhow::{bail, Context, Result};
-use ark_ff::PrimeField;
+use ark_ff::{BigInteger, PrimeField};
 use std::collections::HashMap;
 use std::fs::File;
 use std::io::{BufReader, Read};
@@ -122,6 +122,15 @@ impl WitnessFile {
 
     /// Convert to field elements for a specific prime field
     pub fn to_field_elements<F: PrimeField>(&self) -> Result<HashMap<u32, F>> {
+        // Values of another field would be reinterpreted
+        let (mut prime, mut modulus) = (self.prime.clone(), F::MODULUS.to_bytes_le());
+        let width = prime.len().max(modulus.len());
+        prime.resize(width, 0);
+        modulus.resize(width, 0);
+        if prime != modulus {
+            bail!("The witness was calculated in another field");
+        }
+
         let mut result = HashMap::new();
 
         for (&wire_id, bytes) in &self.assignments {
diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 96f9570..60d2237 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -7,7 +7,7 @@
 //! zkenc-js and zkenc-cli are parallel consumers of zkenc-core.
 
 use ark_bn254::{Bn254, Fr};
-use ark_ff::PrimeField;
+use ark_ff::{BigInteger, PrimeField};
 use ark_relations::gr1cs::{
     ConstraintSynthesizer, ConstraintSystemRef, LinearCombination, SynthesisError, Variable,
     R1CS_PREDICATE_LABEL,
@@ -145,7 +145,10 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         if prime_len > data.len() - header_pos {
             return Err("Invalid prime length".to_string());
         }
-        header_pos += prime_len; // Skip prime bytes
+        if !is_scalar_field(&data[header_pos..header_pos + prime_len]) {
+            return Err("Circuit is not over the scalar field of BN254".to_string());
+        }
+        header_pos += prime_len;
 
         let n_wires = read_u32(&mut header_pos)?;
         let n_pub_out = read_u32(&mut header_pos)?;
@@ -202,6 +205,14 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
     Ok((header, constraints))
 }
 
+/// Values of another field would be reinterpreted: whether these little-endian bytes are our prime
+fn is_scalar_field(prime: &[u8]) -> bool {
+    let modulus = Fr::MODULUS.to_bytes_le();
+    prime.len() >= modulus.len()
+        && prime[..modulus.len()] == modulus[..]
+        && prime[modulus.len()..].iter().all(|&b| b == 0)
+}
+
 fn parse_linear_combination(
     data: &[u8],
     pos: &mut usize,
@@ -283,6 +294,9 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
             if section.len() < 8 || to_u32(section) as usize != section.len() - 8 {
                 return Err("Invalid header section".to_string());
             }
+            if !is_scalar_field(&section[4..section.len() - 4]) {
+                return Err("Witness is not over the scalar field of BN254".to_string());
+            }
             header = Some((section.len() - 8, to_u32(&section[section.len() - 4..])));
         } else if section_type == 2 {
             // Witness values section - contains raw witness data (field_size * n_witness bytes)
-- 
2.43.0


From 119fd5c94d5b935ca185636ea2d0d5ea443dc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:51 +0000
Subject: [PATCH 18/20] fix: refuse inputs that give one signal two different
 values

---
 packages/zkenc-cli/src/commands.rs  | 23 +++++++++++++++++------
 packages/zkenc-js/src/sym_parser.ts | 20 +++++++++++++++++++-
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 3e1a5fe..01f3ead 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -11,6 +11,7 @@ use ark_bn254::{Bn254, Fr};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use std::collections::HashMap;
 use std::fs;
+use std::hash::Hash;
 use std::str::FromStr;
 
 use crate::circuit::CircomCircuit;
@@ -51,15 +52,15 @@ pub fn encap_command(
 
     // Map JSON inputs to wire values using symbol file
     let mut witness = HashMap::new();
-    witness.insert(0, Fr::from(1u64)); // Wire 0 is always 1 (constant)
 
     // Use symbol file to map inputs correctly (key order independent)
     for (key, value) in inputs.iter() {
         // Try to find the wire ID for this input key
         if let Some(&wire_id) = input_signals.get(key) {
-            witness.insert(wire_id, *value);
+            assign(&mut witness, wire_id, *value)?;
         }
     }
+    witness.insert(0, Fr::from(1u64)); // Wire 0 is always 1 (constant)
 
     println!("\n🔐 Running Encap...");
     let mut circuit =
@@ -188,15 +189,15 @@ pub fn encrypt_command(
 
     // Create witness map with constant (wire 0) and public inputs (using sym mapping)
     let mut witness = HashMap::new();
-    witness.insert(0, Fr::from(1u64)); // Wire 0 is always 1 (constant)
 
     // Use symbol file to map inputs correctly (key order independent)
     for (key, value) in inputs.iter() {
         // Try to find the wire ID for this input key
         if let Some(&wire_id) = input_signals.get(key) {
-            witness.insert(wire_id, *value);
+            assign(&mut witness, wire_id, *value)?;
         }
     }
+    witness.insert(0, Fr::from(1u64)); // Wire 0 is always 1 (constant)
 
     let mut circuit =
         CircomCircuit::from_r1cs(&circuit_path).context("Failed to create circuit")?;
@@ -452,6 +453,16 @@ fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
     Ok(result)
 }
 
+/// Give a signal its value; two names of one signal must not ask for different values
+fn assign<K: Eq + Hash>(values: &mut HashMap<K, Fr>, signal: K, value: Fr) -> Result<()> {
+    match values.insert(signal, value) {
+        Some(previous) if previous != value => {
+            anyhow::bail!("Inputs give different values for the same signal")
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Parse circuit inputs from JSON, preserving key names
 fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>> {
     let value: serde_json::Value = serde_json::from_str(json_str).context("Invalid JSON")?;
@@ -475,14 +486,14 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-                result.insert(key.to_string(), num);
+                assign(result, key.to_string(), num)?;
             }
             serde_json::Value::String(s) => {
                 // Parse as field element using FromStr
                 let field_elem = Fr::from_str(s).map_err(|_| {
                     anyhow::anyhow!("Failed to parse string as field element: {}", s)
                 })?;
-                result.insert(key.to_string(), field_elem);
+                assign(result, key.to_string(), field_elem)?;
             }
             serde_json::Value::Array(arr) => {
                 for (idx, item) in arr.iter().enumerate() {
diff --git a/packages/zkenc-js/src/sym_parser.ts b/packages/zkenc-js/src/sym_parser.ts
index 26070ab..dfaf016 100644
--- a/packages/zkenc-js/src/sym_parser.ts
+++ b/packages/zkenc-js/src/sym_parser.ts
@@ -78,6 +78,18 @@ export function getInputSignals(
   return inputSignals;
 }
 
+const BN254_PRIME = BigInt(
+  "21888242871839275222246405745257275088548364400416034343698204186575808495617"
+);
+
+/** Whether two inputs denote the same field element */
+function sameValue(a: string, b: string): boolean {
+  if (a === b) return true;
+  // BigInt("") is 0n: a missing value is not a zero
+  if (a.trim() === "" || b.trim() === "") return false;
+  return (BigInt(a) - BigInt(b)) % BN254_PRIME === 0n;
+}
+
 /**
  * Map JSON inputs to wire values using symbol file
  *
@@ -108,7 +120,13 @@ export function mapInputsToWires(
       // Scalar value
       const wireId = wireMap.get(fullKey);
       if (wireId !== undefined) {
-        wireValues.set(wireId, value.toString());
+        const text: string = value.toString();
+        const previous = wireValues.get(wireId);
+        // Two names of one signal must not ask for different values
+        if (previous !== undefined && !sameValue(String(previous), text)) {
+          throw new Error(`Inputs give different values for wire ${wireId}`);
+        }
+        wireValues.set(wireId, text);
       }
     }
   }
-- 
2.43.0


From 6add779bdf6f6a234025d8375388a4409754e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:51 +0000
Subject: [PATCH 19/20] fix: commands no longer crash when their progress
 output cannot be written

---
 packages/zkenc-cli/src/commands.rs   |  8 ++++++++
 packages/zkenc-core/src/algorithm.rs | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 01f3ead..9a712f2 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -20,6 +20,14 @@ use crate::r1cs::R1csFile;
 use crate::witness::WitnessFile;
 use zkenc_core::{decap, encap, Ciphertext};
 
+/// Progress output: a console that cannot be written to must not stop the work
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+
 /// Encap command: Generate ciphertext and key from circuit + public inputs
 pub fn encap_command(
     circuit_path: &str,
diff --git a/packages/zkenc-core/src/algorithm.rs b/packages/zkenc-core/src/algorithm.rs
index 79af03f..948d9ca 100644
--- a/packages/zkenc-core/src/algorithm.rs
+++ b/packages/zkenc-core/src/algorithm.rs
@@ -12,6 +12,24 @@ use ark_std::vec::Vec;
 use crate::data_structures::{Ciphertext, EncapKey, Key};
 use crate::r1cs_to_qap;
 
+/// Progress output: a console that cannot be written to must not stop the work
+#[cfg(feature = "std")]
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+
+/// Progress output: a console that cannot be written to must not stop the work
+#[cfg(feature = "std")]
+macro_rules! eprintln {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stderr(), $($arg)*);
+    }};
+}
+
 /// Error types for WKEM operations
 #[derive(Debug)]
 pub enum Error {
-- 
2.43.0


From ead7535299185263eca5c4a169d6ebf7224b6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:10 +0000
Subject: [PATCH 20/20] fix: the core library compiles without the standard
 library

---
 packages/zkenc-core/src/algorithm.rs | 1 +
 packages/zkenc-core/src/lib.rs       | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/packages/zkenc-core/src/algorithm.rs b/packages/zkenc-core/src/algorithm.rs
index 948d9ca..201fdb9 100644
--- a/packages/zkenc-core/src/algorithm.rs
+++ b/packages/zkenc-core/src/algorithm.rs
@@ -2,6 +2,7 @@
 //!
 //! Implementation of Encap, Decap, and Verify algorithms.
 
+use alloc::string::String;
 use ark_ec::pairing::Pairing;
 use ark_ec::{AffineRepr, CurveGroup, PrimeGroup, VariableBaseMSM};
 use ark_ff::{Field, One, UniformRand};
diff --git a/packages/zkenc-core/src/lib.rs b/packages/zkenc-core/src/lib.rs
index dc4fdec..9074ace 100644
--- a/packages/zkenc-core/src/lib.rs
+++ b/packages/zkenc-core/src/lib.rs
@@ -7,6 +7,10 @@
 #![allow(clippy::many_single_char_names, clippy::op_ref)]
 #![forbid(unsafe_code)]
 
+// vec!, format! and String without the standard library
+#[macro_use]
+extern crate alloc;
+
 /// Data structures module
 pub mod data_structures;
 
-- 
2.43.0

