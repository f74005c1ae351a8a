// Runs the operations of the runtime library natively, under the sanitizers.
//
// The library believes itself on wasm32: addresses are 32 bits wide, so every
// buffer lies below 2 GB, and the pages of the linear memory are pages of a
// reserved range that become accessible when the library grows its memory.
// The host functions are implemented here; each of them checks the memory it
// is pointed at. What happened is printed line by line and judged by
// js/checks/C10.js, sanitizer reports end the process.
#define _GNU_SOURCE
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((void *)(p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((void *)(p), (n))
#define HAVE_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define HAVE_MSAN 1
#endif
#endif
#ifndef POISON
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

const char *__asan_default_options(void) {
  return "detect_leaks=0:detect_stack_use_after_return=0:handle_sigill=0:exitcode=99";
}
const char *__ubsan_default_options(void) { return "print_stacktrace=1:exitcode=99"; }
const char *__msan_default_options(void) { return "handle_sigill=0:exitcode=99"; }

#define PAGE 65536u
#define HEAP_BASE 0x30000000u
#define HEAP_MAX_PAGES 4096u
#define BLOB_END 0x00300000u
#define NCELLS 16
#define MAXCELLS 4096

// ---------------------------------------------------------------- linear memory
static uint32_t pages_now = 2, pages_max = 64, small_init = 0, in_init = 0;
uint32_t vp_memory_size(int m) {
  (void)m;
  if (in_init && small_init) return 1;
  return HEAP_BASE / PAGE + pages_now;
}
int32_t vp_memory_grow(int m, uint32_t n) {
  (void)m;
  if (n > pages_max || pages_now + n > pages_max || pages_now + n > HEAP_MAX_PAGES) return -1;
  uint32_t before = pages_now;
  if (n) mprotect((void *)(uintptr_t)(HEAP_BASE + before * PAGE), (size_t)n * PAGE, PROT_READ | PROT_WRITE);
  pages_now += n;
  return (int32_t)(HEAP_BASE / PAGE + before);
}

// ------------------------------------------------------------------------ script
static uint8_t *calldata, *code, *retdata;
static int64_t calldata_n, code_n, retdata_n, code_claim = -1, ret_claim = -1;
static int call_status, create_status;
static uint64_t host_u64 = 0x1122334455667788ull;
static uint8_t env_bytes[32];
static uint8_t *cells[MAXCELLS];
static int ncells;

#ifdef VP_ERC20
#endif
static uint32_t fnv(const uint8_t *p, uint64_t n, uint32_t seed) {
  uint32_t h = seed;
  for (uint64_t i = 0; i < n; i++) h = (h ^ p[i]) * 16777619u;
  return h;
}
#define SEED 2166136261u

static void violation(const char *what, const char *who, uint64_t p, uint64_t n) {
  printf("!host-range %s %s len=%llu\n", who, what, (unsigned long long)n);
  fflush(stdout);
  fprintf(stderr, "HOST: %s: %s of %llu bytes at %llx is outside any object\n", who, what, (unsigned long long)n,
          (unsigned long long)p);
  _exit(98);
}
static uint8_t *rd(const char *who, uint64_t p, int64_t n) {
  if (n < 0) n = (uint32_t)n;
  if (n == 0) return (uint8_t *)p;
  if (p == 0 || p >= 0x80000000ull || p + n > 0x80000000ull) violation("read", who, p, n);
#ifdef HAVE_ASAN
  if (__asan_region_is_poisoned((void *)p, n)) violation("read", who, p, n);
#endif
#ifdef HAVE_MSAN
  __msan_check_mem_is_initialized((void *)p, n);
#endif
  return (uint8_t *)p;
}
static uint8_t *wr(const char *who, uint64_t p, int64_t n) {
  if (n < 0) n = (uint32_t)n;
  if (n == 0) return (uint8_t *)p;
  if (p == 0 || p >= 0x80000000ull || p + n > 0x80000000ull) violation("write", who, p, n);
#ifdef HAVE_ASAN
  if (__asan_region_is_poisoned((void *)p, n)) violation("write", who, p, n);
#endif
  return (uint8_t *)p;
}
static sigjmp_buf op_end;
static int ended;
static void end_tx(void) {
  ended = 1;
  siglongjmp(op_end, 1);
}

// -------------------------------------------------------------------------- host
typedef uint64_t A;
static void fill(const char *who, A p, int n, int k) {
  uint8_t *t = wr(who, p, n);
  for (int i = 0; i < n; i++) t[i] = env_bytes[i % 32] ^ (uint8_t)(k * 37);
}
void getAddress(A r) { fill("getAddress", r, 20, 1); }
void getCaller(A r) { fill("getCaller", r, 20, 2); }
void getTxOrigin(A r) { fill("getTxOrigin", r, 20, 3); }
void getBlockCoinbase(A r) { fill("getBlockCoinbase", r, 20, 4); }
void getCallValue(A r) { fill("getCallValue", r, 32, 0); }
void getBlockPrevRandao(A r) { fill("getBlockPrevRandao", r, 32, 6); }
void getTxGasPrice(A r) { fill("getTxGasPrice", r, 32, 7); }
void getBaseFee(A r) { fill("getBaseFee", r, 32, 8); }
void getBlobBaseFee(A r) { fill("getBlobBaseFee", r, 32, 9); }
void getChainId(A r) { fill("getChainId", r, 32, 10); }
static int addr_key(const char *who, A a) { return fnv(rd(who, a, 20), 20, SEED) & 0x3f; }
void getExternalBalance(A a, A r) { fill("getExternalBalance", r, 32, 64 + addr_key("getExternalBalance", a)); }
void getExternalCodeHash(A a, A r) { fill("getExternalCodeHash", r, 32, 128 + addr_key("getExternalCodeHash", a)); }
int32_t getBlockHash(int64_t n, A r) { fill("getBlockHash", r, 32, (int)(n & 0x7f)); return 0; }
int64_t getBlockGasLimit(void) { return host_u64; }
int64_t getBlockTimestamp(void) { return host_u64 + 1; }
int64_t getGasLeft(void) { return host_u64 + 2; }
int64_t getBlockNumber(void) { return host_u64 + 3; }
int32_t getCallDataSize(void) { return (int32_t)calldata_n; }
static void copy_padded(const char *who, A t, const uint8_t *s, int64_t have, int32_t off, int32_t len) {
  // as a host does: everything behind the end reads as zero; a negative length is no length
  if (len < 0) violation("write", who, t, (uint32_t)len);
  uint8_t *d = wr(who, t, len);
  for (int64_t i = 0; i < len; i++) {
    int64_t j = (int64_t)(uint32_t)off + i;
    d[i] = j < have ? s[j] : 0;
  }
}
void callDataCopy(A t, int32_t off, int32_t len) { copy_padded("callDataCopy", t, calldata, calldata_n, off, len); }
int32_t getCodeSize(void) { return (int32_t)(code_claim >= 0 ? code_claim : code_n); }
void codeCopy(A t, int32_t off, int32_t len) { copy_padded("codeCopy", t, code, code_n, off, len); }
int32_t getExternalCodeSize(A a) { return addr_key("getExternalCodeSize", a) * 0x40001; }
void externalCodeCopy(A a, A t, int32_t off, int32_t len) {
  (void)addr_key("externalCodeCopy", a);
  copy_padded("externalCodeCopy", t, code, code_n, off, len);
}
int32_t getReturnDataSize(void) { return (int32_t)(ret_claim >= 0 ? ret_claim : retdata_n); }
void returnDataCopy(A t, int32_t off, int32_t len) {
  uint64_t end = (uint64_t)(uint32_t)off + (uint32_t)len;
  int64_t have = ret_claim >= 0 ? ret_claim : retdata_n;
  if (end > (uint64_t)have) {
    printf("@returnDataCopy out of bounds\n");
    end_tx();
  }
  copy_padded("returnDataCopy", t, retdata, retdata_n, off, len);
}
struct kv { uint8_t k[32], v[32]; };
static struct kv st[2][4096];
static int nst[2];
static uint8_t *slot_of(int w, const uint8_t *k) {
  for (int i = 0; i < nst[w]; i++)
    if (!memcmp(st[w][i].k, k, 32)) return st[w][i].v;
  if (nst[w] == 4096) { fprintf(stderr, "storage full\n"); _exit(97); }
  memcpy(st[w][nst[w]].k, k, 32);
  memset(st[w][nst[w]].v, 0, 32);
  return st[w][nst[w]++].v;
}
static void hexout(const uint8_t *p, int64_t n) {
  for (int64_t i = 0; i < n; i++) printf("%02x", p[i]);
}
static void sload(const char *who, int w, A k, A r, int le) {
  uint8_t key[32];
  memcpy(key, rd(who, k, 32), 32);
  uint8_t *d = wr(who, r, 32), *v = slot_of(w, key);
  for (int i = 0; i < 32; i++) d[i] = v[le ? 31 - i : i];
}
static void sstore(const char *who, int w, A k, A p, int le) {
  uint8_t *key = rd(who, k, 32), *s = rd(who, p, 32), v[32];
  for (int i = 0; i < 32; i++) v[i] = s[le ? 31 - i : i];
  memcpy(slot_of(w, key), v, 32);
  printf("@%s ", w ? "transientStore" : "storageStore");
  hexout(key, 32);
  printf(" ");
  hexout(v, 32);
  printf("\n");
}
void storageLoad(A k, A r) { sload("storageLoad", 0, k, r, 0); }
void storageStore(A k, A v) { sstore("storageStore", 0, k, v, 0); }
void storageLoadLittleEndian(A k, A r) { sload("storageLoadLittleEndian", 0, k, r, 1); }
void storageStoreLittleEndian(A k, A v) { sstore("storageStoreLittleEndian", 0, k, v, 1); }
void transientLoad(A k, A r) { sload("transientLoad", 1, k, r, 0); }
void transientStore(A k, A v) { sstore("transientStore", 1, k, v, 0); }
static void hash32(const uint8_t *p, int64_t n, uint8_t *out) {
  for (int l = 0; l < 8; l++) {
    uint32_t h = fnv(p, n, SEED + l * 0x9e3779b9u);
    h ^= h >> 15;
    for (int i = 0; i < 4; i++) out[l * 4 + i] = h >> (24 - 8 * i);
  }
}
void keccak256(A p, int32_t n, A r) {
  uint8_t h[32];
  hash32(rd("keccak256", p, n), (uint32_t)n, h);
  memcpy(wr("keccak256", r, 32), h, 32);
}
void sha256(A p, int32_t n, A r) { keccak256(p, n, r); }
static void mix(const char *who, A a, A b, A m, A r, int k) {
  uint8_t x[32], *pa = rd(who, a, 32), *pb = rd(who, b, 32), *pm = rd(who, m, 32);
  for (int i = 0; i < 32; i++) x[i] = pa[i] ^ (uint8_t)(pb[i] * 3) ^ (uint8_t)(pm[i] * 5 + k);
  memcpy(wr(who, r, 32), x, 32);
}
void addmod(A a, A b, A m, A r) { mix("addmod", a, b, m, r, 1); }
void mulmod(A a, A b, A m, A r) { mix("mulmod", a, b, m, r, 2); }
static void data_event(const char *name, A p, int32_t n) {
  uint8_t *d = rd(name, p, n);
  printf("@%s %u %08x", name, (uint32_t)n, fnv(d, (uint32_t)n, SEED));
}
static int32_t called(const char *who, int64_t gas, A a, A v, A d, int32_t n) {
  printf("@%s %llu ", who, (unsigned long long)gas);
  hexout(rd(who, a, 20), 20);
  printf(" ");
  if (v) hexout(rd(who, v, 32), 32);
  else printf("-");
  printf(" %u %08x\n", (uint32_t)n, fnv(rd(who, d, n), (uint32_t)n, SEED));
  return call_status;
}
int32_t callContract(int64_t g, A a, A v, A d, int32_t n) { return called("callContract", g, a, v, d, n); }
int32_t callCode(int64_t g, A a, A v, A d, int32_t n) { return called("callCode", g, a, v, d, n); }
int32_t callDelegate(int64_t g, A a, A d, int32_t n) { return called("callDelegate", g, a, 0, d, n); }
int32_t callStatic(int64_t g, A a, A d, int32_t n) { return called("callStatic", g, a, 0, d, n); }
int32_t createContract(A v, A c, int32_t cn, A d, int32_t dn, A salt, int32_t is2, A r) {
  printf("@createContract ");
  hexout(rd("createContract", v, 32), 32);
  printf(" %u %08x %u %08x ", (uint32_t)cn, fnv(rd("createContract", c, cn), (uint32_t)cn, SEED), (uint32_t)dn,
         fnv(rd("createContract", d, dn), (uint32_t)dn, SEED));
  if (is2) hexout(rd("createContract", salt, 32), 32);
  else printf("-");
  printf("\n");
  if (create_status != 3) fill("createContract", r, 20, 77);
  return create_status == 3 ? 1 : create_status;
}
void finish(A p, int32_t n) {
  data_event("finish", p, n);
  printf("\n");
  end_tx();
}
void revert(A p, int32_t n) {
  data_event("revert", p, n);
  printf(" ");
  hexout((uint8_t *)p, (uint32_t)n <= 128 ? n : 0);
  printf("\n");
  end_tx();
}
void invalid(void) {
  printf("@invalid\n");
  end_tx();
}
void emitLogEvent(A p, int32_t n, int32_t k, A t1, A t2, A t3, A t4) {
  A t[4] = {t1, t2, t3, t4};
  data_event("log", p, n);
  for (int i = 0; i < 4; i++) {
    if (i < k) {
      printf(" ");
      hexout(rd("emitLogEvent", t[i], 32), 32);
    }
  }
  printf("\n");
}
void selfDestruct(A a) {
  printf("@selfDestruct ");
  hexout(rd("selfDestruct", a, 20), 20);
  printf("\n");
  end_tx();
}
#ifndef NDEBUG
void debug_bytes(A p, int32_t n) {
  uint8_t *d = rd("debug_bytes", p, n);
  printf("@debug ");
  hexout(d, n);
  printf("\n");
}
#endif

// -------------------------------------------------------------------- operations
// c: address of a cell, i: number, o: as c (a result)
#define OPS(X)                                                                                                         \
  X(wrapper_bytes32_lt, "cc") X(wrapper_bytes32_gt, "cc") X(wrapper_bytes32_eq, "cc") X(wrapper_bytes32_slt, "cc")      \
  X(wrapper_bytes32_sgt, "cc") X(wrapper_bytes32_iszero, "c") X(wrapper_bytes32_not, "co")                             \
  X(wrapper_bytes32_and, "cco") X(wrapper_bytes32_or, "cco") X(wrapper_bytes32_xor, "cco")                             \
  X(wrapper_bytes32_shl, "cio") X(wrapper_u256_shl, "cio") X(wrapper_bytes32_shr, "cio") X(wrapper_u256_shr, "cio")     \
  X(wrapper_bytes32_add, "cco") X(u256_to_big_endian_bytes, "co") X(u256_from_big_endian_bytes, "co")                  \
  X(i32_to_bytes32_big_endian_bytes, "io") X(i32_from_big_endian_bytes32, "c") X(wrapper_exp, "cco")                   \
  X(wrapper_sign_extend, "ico") X(wrapper_addmod, "ccco") X(wrapper_mulmod, "ccco")                                    \
  X(wrapper_calldataload_u256, "io") X(wrapper_calldataload_bytes32, "io") X(wrapper_calldata_load_selector, "")       \
  X(wrapper_calldata_size, "") X(wrapper_calldata_size_minus_4, "") X(wrapper_caller, "o")                             \
  X(wrapper_current_contract, "o") X(wrapper_origin, "o") X(wrapper_block_coin_base, "o")                              \
  X(wrapper_block_prevRandao, "o") X(wrapper_callvalue, "o") X(wrapper_callvalue_not_zero, "")                         \
  X(wrapper_query_balance, "co") X(wrapper_self_balance, "o") X(wrapper_revert, "ii") X(wrapper_stop, "")              \
  X(wrapper_codecopy, "iii") X(wrapper_data_copy, "iii") X(wrapper_memory_guard, "i") X(wrapper_mstore_bytes32, "ic")  \
  X(wrapper_mstore_u256, "ic") X(wrapper_mstore_u32, "ii") X(wrapper_mstore_u64, "ii") X(wrapper_mstore_u8, "ii")      \
  X(wrapper_mload_u256, "io") X(wrapper_mload_u32, "i") X(wrapper_mload_u64, "i") X(wrapper_mload_bytes32, "io")       \
  X(wrapper_mcopy, "iii") X(wrapper_sload_u256, "co") X(wrapper_sload_bytes32, "co") X(wrapper_tload_u256, "co")       \
  X(wrapper_tload_bytes32, "co") X(wrapper_sload_u256_using_little_endian_hostapi, "co")                               \
  X(wrapper_sstore_u256, "cc") X(wrapper_sstore_u256_using_little_endian_hostapi, "cc")                                \
  X(wrapper_sstore_bytes32, "cc") X(wrapper_tstore_u256, "cc") X(wrapper_tstore_bytes32, "cc")                         \
  X(wrapper_setimmutable, "icc") X(wrapper_loadimmutable, "co") X(wrapper_keccak256, "iio") X(wrapper_return, "ii")    \
  X(wrapper_decode_big_endian_i256_from_wasm_mem, "co") X(wrapper_log0, "ii") X(wrapper_log1, "iic")                   \
  X(wrapper_log2, "iicc") X(wrapper_log3, "iiccc") X(wrapper_log4, "iicccc") X(wrapper_time_stamp, "")                 \
  X(wrapper_block_number, "") X(wrapper_current_chainid, "o") X(wrapper_current_base_fee, "o")                         \
  X(wrapper_current_blob_base_fee, "o") X(wrapper_block_hash, "io") X(wrapper_create, "ciio")                          \
  X(wrapper_create2, "ciico") X(wrapper_call_contract, "icciiii") X(wrapper_delegatecall, "iciiii")                    \
  X(wrapper_staticcall, "iciiii") X(wrapper_selfdestruct, "c") X(wrapper_invalid, "") X(wrapper_memory_size, "")       \
  X(wrapper_gas, "") X(wrapper_gas_limit, "") X(wrapper_gas_price, "o") X(wrapper_returndata_size, "")                 \
  X(wrapper_calldata_copy, "iii") X(wrapper_returndata_copy, "iii") X(set_is_deploying_tx, "")                         \
  X(is_deploying_tx, "") X(wrapper_current_contract_code_size, "") X(wrapper_current_contract_pure_contract_size, "")  \
  X(wrapper_extcode_size, "c") X(wrapper_extcode_copy, "ciii") X(wrapper_extcode_hash, "co")                           \
  X(wrapper_set_memptr_global, "i") X(wrapper_get_memptr_global, "") X(wrapper_allocate_memory, "i")                   \
  X(wrapper_optimized_erc20_fun_transfer, "ccc") X(wrapper_debug_i256, "c") X(wrapper_debug_bytes32, "c")              \
  X(debug_i32, "i") X(memory_alloca_bytes32, "") X(memory_alloca_u256, "") X(wrapper_zero_bytes32, "")

#define DECL(n, s) extern __attribute__((weak)) void n(void);
OPS(DECL)
extern __attribute__((weak)) void __init_evm_heap(int32_t);
extern __attribute__((weak)) int int32_to_str(int32_t, char *, int);
extern __attribute__((weak)) _Bool __memcmp(uint8_t *, uint32_t, uint8_t *, uint32_t);
extern __attribute__((weak)) void *vp_memcpy(void *, const void *, uint32_t);
extern __attribute__((weak)) void *vp_memset(void *, uint8_t, size_t);

static struct { const char *name; void (*f)(void); const char *sig; } ops[] = {
#define ROW(n, s) {#n, n, s},
    OPS(ROW)};
#define NOPS (int)(sizeof ops / sizeof *ops)

static uint8_t *unhex(const char *h, int64_t *n) {
  size_t l = strlen(h) / 2;
  if (h[0] == '-') l = 0;
  // the end of the buffer is the end of an accessible page
  uint8_t *b = mmap(0, l + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
  for (size_t i = 0; i < l; i++) {
    unsigned x = 0;
    sscanf(h + 2 * i, "%2x", &x);
    b[i] = x;
  }
  *n = l;
  return b;
}
static void on_sigill(int s) {
  (void)s;
  static const char m[] = "!trap\n";
  fflush(stdout);
  if (write(1, m, sizeof m - 1) < 0) _exit(96);
  _exit(0);
}
static uint8_t *arena, *scratch;
#define SCRATCH 4096
static void run(FILE *f) {
  static char line[1 << 20];
  int lineno = 0;
  while (fgets(line, sizeof line, f)) {
    lineno++;
    char *save = 0, *tok[12];
    int n = 0;
    for (char *t = strtok_r(line, " \n", &save); t && n < 12; t = strtok_r(0, " \n", &save)) tok[n++] = t;
    if (!n) continue;
    const char *op = tok[0];
#define I(k) (strtoull(tok[k], 0, 0))
    if (!strcmp(op, "init")) {  // init <new pages?> <small> <pages> <max pages>
      small_init = I(2);
      pages_now = 0;
      pages_max = I(4);
      vp_memory_grow(0, I(3));
      in_init = 1;
      __init_evm_heap(I(1));
      in_init = 0;
    } else if (!strcmp(op, "calldata")) calldata = unhex(tok[1], &calldata_n);
    else if (!strcmp(op, "code")) code = unhex(tok[1], &code_n);
    else if (!strcmp(op, "retdata")) retdata = unhex(tok[1], &retdata_n);
    else if (!strcmp(op, "claims")) code_claim = (int64_t)I(1), ret_claim = (int64_t)I(2);
    else if (!strcmp(op, "status")) call_status = (int)I(1), create_status = (int)I(2);
    else if (!strcmp(op, "hostu64")) host_u64 = I(1);
    else if (!strcmp(op, "env")) {
      int64_t l;
      memcpy(env_bytes, unhex(tok[1], &l), 32);
    } else if (!strcmp(op, "cell")) {  // cell <index> <hex>
      int64_t l;
      uint8_t *b = unhex(tok[2], &l);
      memcpy(cells[I(1)], b, 32);
      munmap(b, l + 1);
    } else if (!strcmp(op, "blob")) {  // blob <hex>: bytes below the data base, ends at BLOB_END
      int64_t l;
      uint8_t *b = unhex(tok[1], &l);
      memcpy((void *)(uintptr_t)(BLOB_END - l), b, l);
      POISON((uintptr_t)BLOB_END - 0x1000, 0x1000 - (l + 7) / 8 * 8);
    } else if (!strcmp(op, "slots")) {
      for (int w = 0; w < 2; w++) {
        int live = 0;
        uint32_t h = 0;
        for (int i = 0; i < nst[w]; i++) {
          int z = 1;
          for (int j = 0; j < 32; j++) z &= st[w][i].v[j] == 0;
          if (!z) live++, h += fnv(st[w][i].k, 64, SEED);
        }
        printf("=slots %d %d %08x\n", w, live, h);
      }
    } else if (!strcmp(op, "dump")) {
      printf("=cells %d", ncells);
      for (int i = 0; i < ncells; i++) printf(" %08x", fnv(rd("dump", (A)cells[i], 32), 32, SEED));
      printf("\n");
    } else if (!strcmp(op, "str")) {  // str <value> <buffer size>
      int size = (int)I(2);
      char *b = (char *)scratch + 64;
      memset(scratch, 0x55, SCRATCH);
      POISON(scratch, SCRATCH);
      UNPOISON(b, size);
      int len = int32_to_str ? int32_to_str((int32_t)strtoll(tok[1], 0, 0), b, size) : -1;
      UNPOISON(scratch, SCRATCH);
      int clean = 1;
      for (int i = 0; i < SCRATCH; i++) clean &= (i >= 64 && i < 64 + size) || scratch[i] == 0x55;
      printf("=str %d %d ", len, clean);
      for (int i = 0; i < len && i < size; i++) putchar(b[i]);
      printf("%s\n", len >= 0 && len < size ? (b[len] ? " unterminated" : " terminated") : " full");
    } else if (!strcmp(op, "bytes")) {  // bytes <fn> <dst off> <src off> <len>: on a 2 KB buffer of known content
      uint32_t d = I(2), s = I(3), len = I(4);
      for (int i = 0; i < SCRATCH; i++) scratch[i] = (uint8_t)(i * 7 + (i >> 8));
      POISON(scratch, SCRATCH);
      UNPOISON(scratch + 1024 + d / 8 * 8, 0);
      // exactly the named ranges are accessible (rounded to the granule at their beginning)
      UNPOISON(scratch + d, len);
      UNPOISON(scratch + s, len);
      int r = 0;
      if (!strcmp(tok[1], "memcpy") && vp_memcpy) vp_memcpy(scratch + d, scratch + s, len);
      else if (!strcmp(tok[1], "memset") && vp_memset) vp_memset(scratch + d, (uint8_t)s, len);
      else if (!strcmp(tok[1], "memcmp") && __memcmp) r = __memcmp(scratch + d, len, scratch + s, len);
      UNPOISON(scratch, SCRATCH);
      printf("=bytes %d %08x\n", r, fnv(scratch, SCRATCH, SEED));
    } else {
      int k;
      for (k = 0; k < NOPS; k++)
        if (!strcmp(ops[k].name, op)) break;
      if (k == NOPS) {
        fprintf(stderr, "unknown operation %s\n", op);
        _exit(97);
      }
      if (!ops[k].f) {
        printf("=missing\n");
        continue;
      }
      uint64_t a[8] = {0};
      int out = -1;
      for (int i = 0; ops[k].sig[i]; i++) {
        if (ops[k].sig[i] == 'i') a[i] = I(i + 1);
        else {
          a[i] = (uint64_t)cells[I(i + 1)];
          if (ops[k].sig[i] == 'o') out = (int)I(i + 1);
        }
      }
      printf("#%d\n", lineno);
      if (sigsetjmp(op_end, 0) == 0) {
        uint64_t r = ((uint64_t(*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))ops[k].f)(
            a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
        if (!strncmp(op, "memory_alloca", 13) || !strcmp(op, "wrapper_zero_bytes32")) {
          wr(op, (uint32_t)r, 32);
          cells[ncells++] = (uint8_t *)(uintptr_t)(uint32_t)r;
          printf("=cell %d ", ncells - 1);
          hexout(rd(op, (uint32_t)r, 32), 32);
          printf("\n");
        } else {
          printf("=%llu", (unsigned long long)r);
          if (out >= 0) {
            printf(" ");
            hexout(rd(op, (A)cells[out], 32), 32);
          }
          printf("\n");
        }
      }
      if (ended) break;
    }
  }
  printf(ended ? "!end\n" : "!done\n");
}
static void *thread(void *f) {
  run(f);
  return 0;
}
int main(int argc, char **argv) {
  static char obuf[1 << 16];
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  signal(SIGILL, on_sigill);
  FILE *f = argc > 1 ? fopen(argv[1], "r") : stdin;
  if (!f) return 95;
  if (mmap((void *)(uintptr_t)HEAP_BASE, (size_t)HEAP_MAX_PAGES * PAGE, PROT_NONE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED ||
      mmap((void *)(uintptr_t)(BLOB_END - 0x1000), 0x1000, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) {
    fprintf(stderr, "SETUP: the address range is taken\n");
    return 94;
  }
  arena = mmap(0, NCELLS * 256 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
  scratch = mmap(0, SCRATCH + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
  POISON(arena, NCELLS * 256);
  for (ncells = 0; ncells < NCELLS; ncells++) {
    // every fourth cell is not aligned, as those in the data segment of a contract may be
    cells[ncells] = arena + 256 * ncells + 96 + (ncells % 4 == 3 ? ncells : 0);
    UNPOISON(cells[ncells] - (uintptr_t)cells[ncells] % 8, (uintptr_t)cells[ncells] % 8 + 32);
  }
  size_t stack = 4 << 20;
  void *s = mmap(0, stack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, s, stack);
  pthread_t t;
  if (pthread_create(&t, &at, thread, f)) return 93;
  pthread_join(t, 0);
  fflush(stdout);
  return 0;
}
