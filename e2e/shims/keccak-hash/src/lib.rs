//! keccak256(&mut [u8]) as in keccak-hash 0.11: hashes the whole slice and squeezes data.len()
//! bytes of output back into it.
fn f1600(a: &mut [u64; 25]) {
    const RC: [u64; 24] = [
        1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009,
        0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
        0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
    ];
    const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 { c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]; }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { a[x + 5 * y] ^= d; } }
        let mut t = a[1];
        for i in 0..24 { let n = a[PI[i]]; a[PI[i]] = t.rotate_left(ROT[i]); t = n; }
        for y in 0..5 { let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]]; for x in 0..5 { a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]); } }
        a[0] ^= rc;
    }
}
pub fn keccak256(data: &mut [u8]) {
    let rate = 136;
    let mut st = [0u64; 25];
    let xor = |st: &mut [u64; 25], i: usize, b: u8| st[i / 8] ^= (b as u64) << (8 * (i % 8));
    let mut pos = 0;
    for &b in data.iter() { xor(&mut st, pos, b); pos += 1; if pos == rate { f1600(&mut st); pos = 0; } }
    xor(&mut st, pos, 1);
    xor(&mut st, rate - 1, 0x80);
    f1600(&mut st);
    let mut p = 0;
    for o in data.iter_mut() { if p == rate { f1600(&mut st); p = 0; } *o = (st[p / 8] >> (8 * (p % 8))) as u8; p += 1; }
}
#[cfg(test)]
mod t { #[test] fn k() { let mut d = [0u8; 64]; d[0] = 0; super::keccak256(&mut d); assert_eq!(d[0..4], [0xad, 0x32, 0x28, 0xb6]); } }
