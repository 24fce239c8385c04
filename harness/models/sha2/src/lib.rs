//! SHA-2 as collision-free uninterpreted functions.
extern "C" {
    fn sym_uf(kind: u64, i: *const u8, il: u64, o: *mut u8, ol: u64);
}
fn uf(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    unsafe { sym_uf(1, b.as_ptr(), b.len() as u64, o.as_mut_ptr(), 32) };
    o
}
pub trait Digest: Sized + Clone {
    type Out: AsRef<[u8]>;
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self {
        self.update(d);
        self
    }
    fn new_with_prefix(d: impl AsRef<[u8]>) -> Self {
        Self::new().chain_update(d)
    }
    fn finalize(self) -> Self::Out;
    fn digest(d: impl AsRef<[u8]>) -> Self::Out {
        Self::new().chain_update(d).finalize()
    }
}
#[derive(Clone, Default)]
pub struct Sha256(Vec<u8>);
#[derive(Clone, Default)]
pub struct Sha512(Vec<u8>);
impl Digest for Sha256 {
    type Out = [u8; 32];
    fn new() -> Self {
        Self::default()
    }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.0.extend_from_slice(d.as_ref())
    }
    fn finalize(self) -> [u8; 32] {
        uf(&self.0)
    }
}
impl Digest for Sha512 {
    type Out = [u8; 64];
    fn new() -> Self {
        Self::default()
    }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.0.extend_from_slice(d.as_ref())
    }
    fn finalize(self) -> [u8; 64] {
        let mut o = [0u8; 64];
        for i in 0..2 {
            let mut v = b"model-sha512".to_vec();
            v.push(i);
            v.extend_from_slice(&self.0);
            o[32 * i as usize..][..32].copy_from_slice(&uf(&v));
        }
        o
    }
}
