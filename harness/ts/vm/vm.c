// A table-driven interpreter with the interface of a compiled Circom circuit.
// The program is the blob in `desc`, which the harness overwrites inside the module.
// Everything is static: no call needs the shadow stack, so an exception thrown through a
// frame leaves nothing behind.
typedef unsigned int u32; typedef unsigned long long u64; typedef int i32;
#define IMP(n) __attribute__((import_module("runtime"), import_name(#n)))
#define EXP(n) __attribute__((export_name(#n)))
IMP(exceptionHandler) void exceptionHandler(i32);
IMP(printErrorMessage) void printErrorMessage(void);
IMP(writeBufferMessage) void writeBufferMessage(void);
IMP(showSharedRWMemory) void showSharedRWMemory(void);
#define MAXL 16
#ifndef MAXS
#define MAXS 6000
#endif
#ifndef DESC
#define DESC 32768
#endif
// header: magic[4], version, n32, nInputs, nValues, nConst, nSig, nOps, nWit, then
// prime[n32], inputs{msb,lsb,size,first}[nInputs], consts[nConst][n32], ops{op,dst,a,b}[nOps], wit[nWit]
volatile u32 desc[DESC] = {0x7a6b7631, 0xc0dec0de, 0x51a7e5, 0x9e3779b9, 2, 1, 0, 0, 0, 1, 0, 1, 7, 0};
static u32 shared[MAXL], sig[MAXS][MAXL], acc[MAXL], tmp[MAXL];
static unsigned char isset[MAXS];
static u32 left; static const char *msg;
#define N (desc[5])
static volatile u32 *prime(void) { return desc + 13; }
static volatile u32 *inputs(void) { return prime() + N; }
static volatile u32 *consts(void) { return inputs() + 4 * desc[6]; }
static volatile u32 *ops(void) { return consts() + desc[8] * N; }
static volatile u32 *wit(void) { return ops() + 4 * desc[10]; }
static int geq(u32 *a) { for (u32 i = N; i-- > 0;) { u32 p = prime()[i]; if (a[i] != p) return a[i] > p; } return 1; }
static void subp(u32 *a) { u64 b = 0; for (u32 i = 0; i < N; i++) { u64 d = (u64)a[i] - prime()[i] - b; a[i] = (u32)d; b = (d >> 63) & 1; } }
static void addm(u32 *a, const u32 *b) { // a = a + b mod p, both below p
  u64 c = 0; for (u32 i = 0; i < N; i++) { c += (u64)a[i] + b[i]; a[i] = (u32)c; c >>= 32; }
  if (c || geq(a)) subp(a);
}
static void negm(u32 *a) { u32 z = 0; for (u32 i = 0; i < N; i++) z |= a[i]; if (!z) return; u64 b = 0; for (u32 i = 0; i < N; i++) { u64 d = (u64)prime()[i] - a[i] - b; a[i] = (u32)d; b = (d >> 63) & 1; } }
static void mulm(u32 *dst, u32 *a, u32 *b) {
  for (u32 i = 0; i < N; i++) acc[i] = 0;
  for (u32 i = N; i-- > 0;) for (int k = 31; k >= 0; k--) { for (u32 j = 0; j < N; j++) tmp[j] = acc[j]; addm(acc, tmp); if (b[i] >> k & 1) addm(acc, a); }
  for (u32 i = 0; i < N; i++) dst[i] = acc[i];
}
static i32 checks;
static void text(const char *t) { msg = t; writeBufferMessage(); }
static void value(u32 a) { for (u32 i = 0; i < N; i++) shared[i] = sig[a][i]; showSharedRWMemory(); }
static void run(void) {
  for (u32 k = 0; k < desc[10]; k++) {
    u32 op = ops()[4 * k], d = ops()[4 * k + 1], a = ops()[4 * k + 2], b = ops()[4 * k + 3];
    switch (op) {
    case 0: for (u32 i = 0; i < N; i++) sig[d][i] = consts()[a * N + i]; break;
    case 1: for (u32 i = 0; i < N; i++) tmp[i] = 0; for (u32 i = 0; i < N; i++) acc[i] = sig[a][i]; addm(acc, sig[b]); for (u32 i = 0; i < N; i++) sig[d][i] = acc[i]; break;
    case 2: for (u32 i = 0; i < N; i++) acc[i] = sig[b][i]; negm(acc); addm(acc, sig[a]); for (u32 i = 0; i < N; i++) sig[d][i] = acc[i]; break;
    case 3: mulm(sig[d], sig[a], sig[b]); break;
    case 4: { u32 v = sig[a][(b / 32) % N] >> (b % 32) & 1; for (u32 i = 0; i < N; i++) sig[d][i] = 0; sig[d][0] = v; break; }
    case 7: if (!checks) break; // fall through
    case 5: { u32 x = 0; for (u32 i = 0; i < N; i++) x |= sig[a][i] ^ sig[b][i]; if (x) { if (d & 3) { msg = d & 1 ? "Error in template Sub_1 line: 3" : "Error in template Range_22 line: 140"; printErrorMessage(); } msg = "Error in template Main_0 line: 7"; printErrorMessage(); exceptionHandler(d >> 2 ? d >> 2 : 4); } break; } // other codes: a circuit may end a run for another reason
    case 6: // log(...): pieces, then the end of the line
      switch (b) {
      case 1: value(a); break;
      case 2: text("hello"); break;
      case 3: text("x ="); value(a); text("and"); value(d); break;
      case 4: text(""); break;
      case 5: value(a); value(d); break;
      case 6: text("  spaced  "); value(a); break;
      case 7: text("%d %s 100%"); value(a); break;
      case 8: value(a); text("\n\n"); text("tail"); break;
      default: text("value:"); value(a);
      }
      text("\n"); break;
    }
  }
}
EXP(init) void init(i32 sanity) {
  checks = sanity; left = desc[7];
  for (u32 i = 0; i < MAXS; i++) isset[i] = 0;
  for (u32 s = 0; s < desc[9]; s++) for (u32 i = 0; i < N; i++) sig[s][i] = 0;
  sig[0][0] = 1;
  if (left == 0) run();
}
EXP(getVersion) i32 getVersion(void) { return desc[4]; }
EXP(getMinorVersion) i32 getMinorVersion(void) { return 1; }
EXP(getPatchVersion) i32 getPatchVersion(void) { return 9; }
EXP(getFieldNumLen32) i32 getFieldNumLen32(void) { return N; }
EXP(getSharedRWMemoryStart) i32 getSharedRWMemoryStart(void) { return (i32)shared; }
EXP(readSharedRWMemory) u32 readSharedRWMemory(i32 i) { return shared[i]; }
EXP(writeSharedRWMemory) void writeSharedRWMemory(i32 i, u32 v) { shared[i] = v; }
EXP(getRawPrime) void getRawPrime(void) { for (u32 i = 0; i < N; i++) shared[i] = prime()[i]; }
EXP(getWitnessSize) i32 getWitnessSize(void) { return desc[11]; }
EXP(getInputSize) i32 getInputSize(void) { return desc[7]; }
static i32 find(u32 m, u32 l) { for (u32 i = 0; i < desc[6]; i++) if (inputs()[4 * i] == m && inputs()[4 * i + 1] == l) return i; return -1; }
EXP(getInputSignalSize) i32 getInputSignalSize(u32 m, u32 l) { i32 i = find(m, l); return i < 0 ? -1 : (i32)inputs()[4 * i + 2]; }
EXP(setInputSignal) void setInputSignal(u32 m, u32 l, u32 pos) {
  i32 i = find(m, l);
  if (left == 0) exceptionHandler(2);
  if (i < 0) exceptionHandler(1);
  if (pos >= inputs()[4 * i + 2]) exceptionHandler(6);
  u32 s = inputs()[4 * i + 3] + pos;
  if (isset[s]) exceptionHandler(3);
  isset[s] = 1;
  for (u32 k = 0; k < N; k++) sig[s][k] = shared[k];
  if (--left == 0) run();
}
EXP(getWitness) void getWitness(i32 i) { u32 s = wit()[i]; for (u32 k = 0; k < N; k++) shared[k] = sig[s][k]; }
EXP(getMessageChar) i32 getMessageChar(void) { if (!msg || !*msg) return 0; return *msg++; }
