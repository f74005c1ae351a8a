'use strict';
// Keccak-256 (original padding), BigInt-free 32-bit implementation.
const RC = [[0x00000001,0],[0x00008082,0],[0x0000808a,0x80000000],[0x80008000,0x80000000],[0x0000808b,0],[0x80000001,0],
[0x80008081,0x80000000],[0x00008009,0x80000000],[0x0000008a,0],[0x00000088,0],[0x80008009,0],[0x8000000a,0],
[0x8000808b,0],[0x0000008b,0x80000000],[0x00008089,0x80000000],[0x00008003,0x80000000],[0x00008002,0x80000000],
[0x00000080,0x80000000],[0x0000800a,0],[0x8000000a,0x80000000],[0x80008081,0x80000000],[0x00008080,0x80000000],
[0x80000001,0],[0x80008008,0x80000000]];
const ROT = [[0,36,3,41,18],[1,44,10,45,2],[62,6,43,15,61],[28,55,25,21,56],[27,20,39,8,14]];
function keccakF(lo, hi) {
  const clo = new Int32Array(5), chi = new Int32Array(5), blo = new Int32Array(25), bhi = new Int32Array(25);
  for (let r = 0; r < 24; r++) {
    for (let x = 0; x < 5; x++) {
      clo[x] = lo[x] ^ lo[x+5] ^ lo[x+10] ^ lo[x+15] ^ lo[x+20];
      chi[x] = hi[x] ^ hi[x+5] ^ hi[x+10] ^ hi[x+15] ^ hi[x+20];
    }
    for (let x = 0; x < 5; x++) {
      const a = (x+4)%5, b = (x+1)%5;
      const dl = clo[a] ^ ((clo[b] << 1) | (chi[b] >>> 31));
      const dh = chi[a] ^ ((chi[b] << 1) | (clo[b] >>> 31));
      for (let y = 0; y < 25; y += 5) { lo[x+y] ^= dl; hi[x+y] ^= dh; }
    }
    for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) {
      let l = lo[x+5*y], h = hi[x+5*y]; let n = ROT[x][y];
      if (n >= 32) { const t = l; l = h; h = t; n -= 32; }
      let rl = l, rh = h;
      if (n > 0) { rl = (l << n) | (h >>> (32-n)); rh = (h << n) | (l >>> (32-n)); }
      const d = y + 5*((2*x+3*y)%5);
      blo[d] = rl; bhi[d] = rh;
    }
    for (let y = 0; y < 25; y += 5) for (let x = 0; x < 5; x++) {
      lo[x+y] = blo[x+y] ^ (~blo[(x+1)%5+y] & blo[(x+2)%5+y]);
      hi[x+y] = bhi[x+y] ^ (~bhi[(x+1)%5+y] & bhi[(x+2)%5+y]);
    }
    lo[0] ^= RC[r][0]; hi[0] ^= RC[r][1];
  }
}
function keccak256(data) {
  const rate = 136, n = Math.floor(data.length / rate) + 1;
  const p = new Uint8Array(n * rate); p.set(data); p[data.length] ^= 1; p[p.length-1] ^= 0x80;
  const lo = new Int32Array(25), hi = new Int32Array(25);
  const dv = new DataView(p.buffer);
  for (let b = 0; b < n; b++) {
    for (let i = 0; i < 17; i++) { lo[i] ^= dv.getInt32(b*rate+i*8, true); hi[i] ^= dv.getInt32(b*rate+i*8+4, true); }
    keccakF(lo, hi);
  }
  const out = new Uint8Array(32), od = new DataView(out.buffer);
  for (let i = 0; i < 4; i++) { od.setInt32(i*8, lo[i], true); od.setInt32(i*8+4, hi[i], true); }
  return out;
}
module.exports = { keccak256 };
