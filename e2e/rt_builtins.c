/* compiler-rt subset for wasm32 (128-bit helpers LLVM's wasm backend may call). */
typedef unsigned long long u64;
typedef long long i64;
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef union { u128 v; struct { u64 lo, hi; } s; } U;
static u128 mk(u64 hi, u64 lo) { U u; u.s.lo = lo; u.s.hi = hi; return u.v; }
__attribute__((used)) i128 __multi3(i128 a, i128 b) {
  U x, y; x.v = (u128)a; y.v = (u128)b;
  u64 m = 0xffffffffULL;
  u64 al = x.s.lo & m, ah = x.s.lo >> 32, bl = y.s.lo & m, bh = y.s.lo >> 32;
  u64 p0 = al * bl, p1 = al * bh, p2 = ah * bl, p3 = ah * bh;
  u64 mid = (p0 >> 32) + (p1 & m) + (p2 & m);
  u64 lo = (p0 & m) | (mid << 32);
  u64 hi = p3 + (p1 >> 32) + (p2 >> 32) + (mid >> 32);
  hi += x.s.hi * y.s.lo + x.s.lo * y.s.hi;
  return (i128)mk(hi, lo);
}
__attribute__((used)) i128 __ashlti3(i128 a, int n) {
  U x; x.v = (u128)a; n &= 127;
  if (n == 0) return a;
  if (n >= 64) return (i128)mk(x.s.lo << (n - 64), 0);
  return (i128)mk((x.s.hi << n) | (x.s.lo >> (64 - n)), x.s.lo << n);
}
__attribute__((used)) i128 __lshrti3(i128 a, int n) {
  U x; x.v = (u128)a; n &= 127;
  if (n == 0) return a;
  if (n >= 64) return (i128)mk(0, x.s.hi >> (n - 64));
  return (i128)mk(x.s.hi >> n, (x.s.lo >> n) | (x.s.hi << (64 - n)));
}
__attribute__((used)) i128 __ashrti3(i128 a, int n) {
  U x; x.v = (u128)a; n &= 127;
  i64 h = (i64)x.s.hi;
  if (n == 0) return a;
  if (n >= 64) return (i128)mk((u64)(h >> 63), (u64)(h >> (n - 64)));
  return (i128)mk((u64)(h >> n), (x.s.lo >> n) | (x.s.hi << (64 - n)));
}
static u128 udm(u128 n, u128 d, u128 *r) {
  U N, D; N.v = n; D.v = d;
  u64 nh = N.s.hi, nl = N.s.lo, rh = 0, rl = 0, qh = 0, ql = 0;
  for (int i = 0; i < 128; i++) {
    rh = (rh << 1) | (rl >> 63); rl = (rl << 1) | (nh >> 63);
    nh = (nh << 1) | (nl >> 63); nl <<= 1;
    qh = (qh << 1) | (ql >> 63); ql <<= 1;
    if (rh > D.s.hi || (rh == D.s.hi && rl >= D.s.lo)) {
      u64 b = rl < D.s.lo; rl -= D.s.lo; rh = rh - D.s.hi - b; ql |= 1;
    }
  }
  if (r) *r = mk(rh, rl);
  return mk(qh, ql);
}
static u128 neg(u128 v) { U u; u.v = v; u.s.lo = ~u.s.lo + 1; u.s.hi = ~u.s.hi + (u.s.lo == 0); return u.v; }
static int sg(u128 v) { U u; u.v = v; return (i64)u.s.hi < 0; }
__attribute__((used)) u128 __udivti3(u128 a, u128 b) { return udm(a, b, 0); }
__attribute__((used)) u128 __umodti3(u128 a, u128 b) { u128 r; udm(a, b, &r); return r; }
__attribute__((used)) i128 __divti3(i128 a, i128 b) {
  int s = sg((u128)a) ^ sg((u128)b);
  u128 q = udm(sg((u128)a) ? neg((u128)a) : (u128)a, sg((u128)b) ? neg((u128)b) : (u128)b, 0);
  return (i128)(s ? neg(q) : q);
}
__attribute__((used)) i128 __modti3(i128 a, i128 b) {
  u128 r; udm(sg((u128)a) ? neg((u128)a) : (u128)a, sg((u128)b) ? neg((u128)b) : (u128)b, &r);
  return (i128)(sg((u128)a) ? neg(r) : r);
}
