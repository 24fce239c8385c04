//! Real functions behind the uninterpreted symbols (used for concrete arguments and by the native replayer).
pub fn sha256(data: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74,
        0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d,
        0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e,
        0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5,
        0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut m = data.to_vec();
    let bl = (data.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&bl.to_be_bytes());
    for ch in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([ch[4 * i], ch[4 * i + 1], ch[4 * i + 2], ch[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let c = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(c).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

// ---- field arithmetic mod p = 2^255 - 19, just enough for the edwards decompression test ----
type F = [u64; 4];
const P: F = [0xffff_ffff_ffff_ffed, 0xffff_ffff_ffff_ffff, 0xffff_ffff_ffff_ffff, 0x7fff_ffff_ffff_ffff];
fn geq(a: &F, b: &F) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &F, b: &F) -> F {
    let mut r = [0; 4];
    let mut br = 0i128;
    for i in 0..4 {
        let t = a[i] as i128 - b[i] as i128 + br;
        r[i] = t as u64;
        br = t >> 64;
    }
    r
}
fn norm(mut a: F) -> F {
    while geq(&a, &P) {
        a = sub_raw(&a, &P);
    }
    a
}
fn fadd(a: &F, b: &F) -> F {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    norm(r)
}
fn fsub(a: &F, b: &F) -> F {
    if geq(a, b) { sub_raw(a, b) } else { fadd(a, &sub_raw(&P, b)) }
}
fn fmul(a: &F, b: &F) -> F {
    let mut t = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let x = a[i] as u128 * b[j] as u128 + t[i + j] as u128 + c;
            t[i + j] = x as u64;
            c = x >> 64;
        }
        t[i + 4] = c as u64;
    }
    // fold the high half: 2^256 = 38 mod p
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let x = t[i] as u128 + t[i + 4] as u128 * 38 + c;
        r[i] = x as u64;
        c = x >> 64;
    }
    let mut c = c * 38;
    loop {
        for i in 0..4 {
            let x = r[i] as u128 + c;
            r[i] = x as u64;
            c = x >> 64;
        }
        if c == 0 {
            break;
        }
        c *= 38;
    }
    norm(r)
}
fn fpow(a: &F, e: &F) -> F {
    let mut r: F = [1, 0, 0, 0];
    for i in (0..256).rev() {
        r = fmul(&r, &r);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = fmul(&r, a);
        }
    }
    r
}
/// Does the 32-byte string decompress to a point of edwards25519 (as curve25519-dalek decides it)?
pub fn on_curve(k: &[u8; 32]) -> bool {
    let mut y: F = [0; 4];
    for i in 0..4 {
        y[i] = u64::from_le_bytes(k[8 * i..8 * i + 8].try_into().unwrap());
    }
    y[3] &= 0x7fff_ffff_ffff_ffff;
    let y = norm(y);
    let one: F = [1, 0, 0, 0];
    // d = -121665/121666
    let n: F = [121665, 0, 0, 0];
    let m: F = [121666, 0, 0, 0];
    let mut pm2 = P;
    pm2[0] -= 2;
    let d = fsub(&[0; 4], &fmul(&n, &fpow(&m, &pm2)));
    let y2 = fmul(&y, &y);
    let u = fsub(&y2, &one);
    let v = fadd(&fmul(&d, &y2), &one);
    // x^2 = u/v; square iff (u*v)^((p-1)/2) in {0,1}
    let mut e = P;
    e[0] -= 1;
    let h: F = [(e[0] >> 1) | (e[1] << 63), (e[1] >> 1) | (e[2] << 63), (e[2] >> 1) | (e[3] << 63), e[3] >> 1];
    let t = fmul(&u, &v);
    let l = fpow(&t, &h);
    l == one || l == [0; 4]
}
fn pda_hash(data: &[u8]) -> [u8; 32] {
    let mut v = data.to_vec();
    v.extend_from_slice(b"ProgramDerivedAddress");
    sha256(&v)
}
/// kinds: 1 sha256; 2 program-derived-address hash of (seeds ‖ bump ‖ program id);
/// 103 bump found for (seeds ‖ program id); 110.. generic non-injective functions (hash with the kind as a prefix)
pub fn uf_native(kind: u64, input: &[u8], outlen: usize) -> Vec<u8> {
    match kind {
        1 => sha256(input)[..outlen].to_vec(),
        2 => pda_hash(input)[..outlen].to_vec(),
        103 => {
            let (seeds, prog) = input.split_at(input.len() - 32);
            let mut bump = 255u8;
            loop {
                let mut v = seeds.to_vec();
                v.push(bump);
                v.extend_from_slice(prog);
                if !on_curve(&pda_hash(&v)) || bump == 0 {
                    return vec![bump];
                }
                bump -= 1;
            }
        }
        104 => {
            let mut k = [0u8; 32];
            k.copy_from_slice(input);
            vec![on_curve(&k) as u8]
        }
        120 => {
            let mut k = [0u8; 32];
            k.copy_from_slice(input);
            reduce_l(&k)[..outlen].to_vec()
        }
        _ => {
            let mut v = kind.to_le_bytes().to_vec();
            v.extend_from_slice(input);
            let mut o = vec![];
            let mut c = 0u8;
            while o.len() < outlen {
                let mut x = v.clone();
                x.push(c);
                o.extend_from_slice(&sha256(&x));
                c += 1;
            }
            o.truncate(outlen);
            o
        }
    }
}

/// Little-endian 256-bit integer modulo the order of the curve25519 prime-order group.
pub fn reduce_l(k: &[u8; 32]) -> [u8; 32] {
    const L: F = [0x5812_631a_5cf5_d3ed, 0x14de_f9de_a2f7_9cd6, 0, 0x1000_0000_0000_0000];
    let mut x: F = [0; 4];
    for i in 0..4 {
        x[i] = u64::from_le_bytes(k[8 * i..8 * i + 8].try_into().unwrap());
    }
    while geq(&x, &L) {
        x = sub_raw(&x, &L);
    }
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&x[i].to_le_bytes());
    }
    o
}
