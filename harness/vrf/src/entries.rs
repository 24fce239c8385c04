use crate::sym::{self, Key};
use crate::world::*;
use curve25519_dalek::ristretto::CompressedRistretto;
use curve25519_dalek::Scalar;
use ephemeral_vrf::vrf as off;
use ephemeral_vrf_api::verify as on;
use solana_curve25519::ristretto::PodRistrettoPoint;
use solana_curve25519::scalar::PodScalar;
use solana_sdk::signature::Keypair;

#[derive(Clone)]
struct Proof {
    out: Key,
    cb: Key,
    ch: Key,
    s: Key,
}
fn any_proof(n: &str) -> Proof {
    let _ = n;
    Proof { out: sym::bytes("out"), cb: sym::bytes("cb"), ch: sym::bytes("ch"), s: sym::bytes("s") }
}
fn scalar(b: &Key) -> Option<Scalar> {
    Option::<Scalar>::from(Scalar::from_canonical_bytes(*b))
}
/// A scalar without a fork: the bytes are assumed canonical.
fn sc(b: &Key) -> Scalar {
    sym::assume(toy::scalar_ok(b));
    scalar(b).unwrap()
}
fn verify_off(pk: &Key, input: &Key, p: &Proof) -> bool {
    let c = CompressedRistretto;
    let Some(pk) = c(*pk).decompress() else { return false };
    let Some(s) = scalar(&p.s) else { return false };
    off::verify_vrf(pk, input, c(p.out), (c(p.cb), c(p.ch), s))
}
fn verify_on(pk: &Key, input: &Key, p: &Proof) -> bool {
    let c = PodRistrettoPoint;
    on::verify_vrf(&c(*pk), input, &c(p.out), (&c(p.cb), &c(p.ch), &PodScalar(p.s)))
}
fn verify(chain: bool, pk: &Key, input: &Key, p: &Proof) -> bool {
    if chain {
        verify_on(pk, input, p)
    } else {
        verify_off(pk, input, p)
    }
}
fn h_scalar(input: &Key) -> Key {
    toy::reduce(&sha(&[b"VRF-Ephem-HashToPoint", input]))
}
fn prove(sk: &Key, input: &Key) -> Proof {
    let (out, (cb, ch, s)) = off::compute_vrf(sc(sk), input);
    Proof { out: out.to_bytes(), cb: cb.to_bytes(), ch: ch.to_bytes(), s: s.to_bytes() }
}
/// What an honest oracle computes is accepted by both verifiers and is the same every time.
#[no_mangle]
pub extern "C" fn h_vrf_complete() {
    let kp = Keypair(sym::bytes("keypair"));
    let (sk, pk) = off::generate_vrf_keypair(&kp);
    let (sk, pk) = (sk.to_bytes(), pk.compress().to_bytes());
    let input: Key = sym::bytes("input");
    sym::check(toy::scalar_ok(&sk), "key-not-canonical");
    sym::check(sym::eq(&pk, &toy::mul(&sk, &toy::base())), "public-key-of-another-secret");
    let p = prove(&sk, &input);
    sym::check(toy::scalar_ok(&p.s) & toy::point_ok(&p.out) & toy::point_ok(&p.cb) & toy::point_ok(&p.ch), "proof-not-canonical");
    sym::check(verify_on(&pk, &input, &p), "honest-proof-refused-on-chain");
    sym::check(verify_off(&pk, &input, &p), "honest-proof-refused-off-chain");
    sym::check(sym::eq(&p.out, &toy::mul(&sk, &toy::mul(&h_scalar(&input), &toy::base()))), "output-is-not-the-function-of-key-and-input");
    let q = prove(&sk, &input);
    sym::check(sym::eq(&p.out, &q.out) & sym::eq(&p.cb, &q.cb) & sym::eq(&p.ch, &q.ch) & sym::eq(&p.s, &q.s), "not-deterministic");
    let (sk2, pk2) = off::generate_vrf_keypair(&kp);
    sym::check(sym::eq(&sk2.to_bytes(), &sk) & sym::eq(&pk2.compress().to_bytes(), &pk), "key-not-deterministic");
    sym::cover("proved");
}
/// The two verifiers give the same answer on every proof.
#[no_mangle]
pub extern "C" fn h_vrf_agree() {
    let (pk, input): (Key, Key) = (sym::bytes("pk"), sym::bytes("input"));
    let p = any_proof("");
    let (a, b) = (verify_on(&pk, &input, &p), verify_off(&pk, &input, &p));
    sym::check(a == b, "verifiers-disagree");
    sym::cover(if a { "accepted" } else { "refused" });
}
/// The same against proofs that satisfy either equation: points are multiples of the basepoint or of the input's point.
#[no_mangle]
pub extern "C" fn h_vrf_agree_forged() {
    let input: Key = sym::bytes("input");
    let g = toy::base();
    let h = toy::mul(&h_scalar(&input), &g);
    let (a, b, c, d): (Key, Key, Key, Key) = (sym::bytes("fpk"), sym::bytes("fout"), sym::bytes("fcb"), sym::bytes("fch"));
    let pk = toy::mul(&a, &g);
    let p = Proof { out: toy::mul(&b, &h), cb: toy::mul(&c, &g), ch: toy::mul(&d, &h), s: sym::bytes("s") };
    let (a, b) = (verify_on(&pk, &input, &p), verify_off(&pk, &input, &p));
    sym::check(a == b, "verifiers-disagree");
    sym::cover(if a { "accepted" } else { "refused" });
}
/// The same for what an honest prover computes, and for that with one of its parts replaced.
#[no_mangle]
pub extern "C" fn h_vrf_agree_honest() {
    let (sk, input): (Key, Key) = (sym::bytes("sk"), sym::bytes("input"));
    let p = prove(&sk, &input);
    let mut pk = toy::mul(&sk, &toy::base());
    let q = p;
    let mut to = input;
    match sym::choose(3, "replaced") {
        0 => {}
        1 => to = sym::bytes("other"),
        _ => pk = sym::bytes("other"),
    }
    let (a, b) = (verify_on(&pk, &to, &q), verify_off(&pk, &to, &q));
    sym::check(a == b, "verifiers-disagree");
    sym::cover(if a { "accepted" } else { "refused" });
}
/// Special soundness: commitments and output that can answer two challenges (which differ by a unit) have the output
/// that belongs to the key. (Checked for one component of the encodings at a time.)
fn sound(comps: &[usize]) {
    let chain = sym::choose(2, "verifier") == 1;
    // the stand-in group is a product of rings; one of its components is arbitrary, the others are zero
    let i = sym::pick(comps, "component");
    let g = toy::base();
    let zero = toy::sub(&g, &g);
    let at = |z: &Key, t: &str| {
        let mut k = *z;
        k[i] = sym::u8(t);
        k
    };
    let (sk, input): (Key, Key) = (at(&[0; 32], "sk"), sym::bytes("input"));
    let pk = toy::mul(&sk, &g);
    let h = toy::mul(&h_scalar(&input), &g);
    let p = Proof { out: at(&zero, "out"), cb: at(&zero, "cb"), ch: at(&zero, "ch"), s: at(&[0; 32], "s") };
    let q = Proof { s: at(&[0; 32], "s2"), ..p.clone() };
    w().reduced.clear();
    w().salt = 1;
    let a = verify(chain, &pk, &input, &p);
    let c1 = challenge_of(&input);
    w().salt = 2;
    w().reduced.clear();
    let b = verify(chain, &pk, &input, &q);
    let c2 = challenge_of(&input);
    w().salt = 0;
    if !(a & b) {
        sym::cover("refused");
        return;
    }
    sym::check(c1.len() == 1 && c2.len() == 1, "no-challenge");
    if c1.len() != 1 || c2.len() != 1 {
        return;
    }
    let d = c1[0].1[i].wrapping_sub(c2[0].1[i]);
    sym::assume(d & 1 == 1);
    let want = toy::mul(&sk, &h);
    sym::check(p.out[i] == want[i], "two-outputs-for-one-key-and-input");
    sym::cover("accepted");
}
#[no_mangle]
pub extern "C" fn h_vrf_sound() {
    sound(&[31]);
}
/// The reductions of a run other than that of the input's point.
fn challenge_of(input: &Key) -> Vec<(Key, Key)> {
    let h = sha(&[b"VRF-Ephem-HashToPoint", input]);
    w().reduced.iter().filter(|x| !sym::eq(&x.0, &h)).cloned().collect()
}
/// Fiat-Shamir binding: proofs that differ in key, input, output or a commitment are checked against challenges whose
/// preimages differ.
#[no_mangle]
pub extern "C" fn h_vrf_bind() {
    unsafe { toy::FLAT = true };
    let chain = sym::choose(2, "verifier") == 1;
    let (pk, input): (Key, Key) = (sym::bytes("pk"), sym::bytes("input"));
    let p = any_proof("");
    let (mut pk2, mut input2, mut q) = (pk, input, p.clone());
    let x: Key = sym::bytes("changed");
    let part = sym::choose(5, "part");
    let f = [&mut pk2, &mut input2, &mut q.out, &mut q.cb, &mut q.ch].into_iter().nth(part).unwrap();
    sym::assume(!sym::eq(f, &x));
    *f = x;
    for k in [&pk, &pk2, &p.out, &q.out, &p.cb, &q.cb, &p.ch, &q.ch] {
        sym::assume(toy::point_ok(k));
    }
    sym::assume(toy::scalar_ok(&p.s));
    w().reduced.clear();
    verify(chain, &pk, &input, &p);
    let c1 = challenge_of(&input);
    w().reduced.clear();
    verify(chain, &pk2, &input2, &q);
    let c2 = challenge_of(&input2);
    sym::check(c1.len() == 1 && c2.len() == 1, "no-challenge");
    if c1.len() == 1 && c2.len() == 1 {
        sym::check(!sym::eq(&c1[0].0, &c2[0].0), "challenge-does-not-bind");
    }
    sym::cover("compared");
}
/// The prover's nonce: derived afresh for every (key, input), unlike the key and the challenge, and never published.
#[no_mangle]
pub extern "C" fn h_vrf_nonce() {
    let (sk, input): (Key, Key) = (sym::bytes("sk"), sym::bytes("input"));
    let (mut sk2, mut input2) = (sk, input);
    let x: Key = sym::bytes("changed");
    let f = if sym::choose(2, "part") == 0 { &mut sk2 } else { &mut input2 };
    sym::assume(!sym::eq(f, &x));
    *f = x;
    let run = |sk: &Key, input: &Key| {
        sym::assume(toy::scalar_ok(sk));
        w().reduced.clear();
        let p = prove(sk, input);
        // distinct hashes reduce to distinct multiples of the basepoint
        let mut log: Vec<(Key, Key)> = vec![];
        for r in w().reduced.iter() {
            if !log.iter().any(|x| sym::eq(&x.0, &r.0)) {
                for x in log.iter() {
                    sym::assume(!sym::eq(&toy::mul(&x.1, &toy::base()), &toy::mul(&r.1, &toy::base())));
                }
                log.push(*r);
            }
        }
        let n: Vec<(Key, Key)> = log.iter().filter(|r| sym::eq(&toy::mul(&r.1, &toy::base()), &p.cb)).cloned().collect();
        (p, n, log)
    };
    let (p, n1, _) = run(&sk, &input);
    let (_, n2, _) = run(&sk2, &input2);
    sym::check(n1.len() == 1 && n2.len() == 1, "nonce-not-derived-by-hashing");
    if n1.len() != 1 || n2.len() != 1 {
        return;
    }
    sym::check(!sym::eq(&n1[0].0, &n2[0].0), "nonce-reused");
    // not what anyone can compute from the input or the proof
    let ph = sha(&[b"VRF-Ephem-HashToPoint", &input]);
    let pc = sha(&[b"VRF-Ephem-HashToScalar", &sha(&[b"VRF-Ephem-Challenge", &p.out, &p.cb, &p.ch, &toy::mul(&sk, &toy::base()), &input])]);
    sym::check(!sym::eq(&n1[0].0, &ph) & !sym::eq(&n1[0].0, &pc), "nonce-is-public");
    sym::check(sym::eq(&p.ch, &toy::mul(&n1[0].1, &toy::mul(&h_scalar(&input), &toy::base()))), "commitments-differ-in-nonce");
    sym::cover("derived");
}
/// Keys: distinct identities have independently derived keys; a key is never the nonce of some proof.
#[no_mangle]
pub extern "C" fn h_vrf_keys() {
    let k1: [u8; 64] = sym::bytes("keypair");
    let mut k2 = k1;
    let half: Key = sym::bytes("changed");
    let o = 32 * sym::choose(2, "half");
    sym::assume(!sym::eq(&half, &k2[o..o + 32]));
    k2[o..o + 32].copy_from_slice(&half);
    w().reduced.clear();
    let (sk, _) = off::generate_vrf_keypair(&Keypair(k1));
    let _ = off::generate_vrf_keypair(&Keypair(k2));
    let r = w().reduced.clone();
    sym::check(r.len() == 2, "key-not-derived-by-hashing");
    if r.len() != 2 {
        return;
    }
    sym::check(sym::eq(&r[0].1, &sk.to_bytes()), "key-not-derived-by-hashing");
    sym::check(!sym::eq(&r[0].0, &r[1].0), "key-shared-by-identities");
    w().reduced.clear();
    let input: Key = sym::bytes("input");
    prove(&sk.to_bytes(), &input);
    for x in w().reduced.iter() {
        sym::check(!sym::eq(&x.0, &r[0].0), "key-doubles-as-nonce");
    }
    sym::cover("derived");
}
/// The output must not be computable from what is public before the proof appears: the input and the public key.
#[no_mangle]
pub extern "C" fn h_vrf_unpredictable() {
    let sk: Key = sym::bytes("sk");
    let input: Key = sym::bytes("input");
    let p = prove(&sk, &input);
    let pk = toy::mul(&sk, &toy::base());
    let t = h_scalar(&input);
    sym::check(!sym::eq(&p.out, &toy::mul(&t, &pk)), "output-is-public");
    // an output that does not even involve the key
    let sk2: Key = sym::bytes("sk2");
    let q = prove(&sk2, &input);
    sym::assume((sk[0] ^ sk2[0]) & 1 == 1);
    sym::assume(t[0] & 1 == 1);
    sym::check(!sym::eq(&p.out, &q.out), "output-ignores-the-key");
    sym::cover("computed");
}
