//! HKDF as an injective function of (hash, salt, input key material, info, block index).
extern "C" {
    fn sym_uf(kind: u64, i: *const u8, il: u64, o: *mut u8, ol: u64);
}
fn sha(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    unsafe { sym_uf(1, b.as_ptr(), b.len() as u64, o.as_mut_ptr(), 32) };
    o
}
#[derive(Debug, Clone, Copy)]
pub struct InvalidLength;
impl core::fmt::Display for InvalidLength {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for InvalidLength {}
#[derive(Clone)]
pub struct Hkdf<H> {
    prk: [u8; 32],
    p: core::marker::PhantomData<H>,
}
impl<H> Hkdf<H> {
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        // an absent salt is a string of zeros
        let z = [0u8; 64];
        let s = salt.unwrap_or(&z);
        let mut v = b"model-hkdf-extract-".to_vec();
        v.extend_from_slice(core::any::type_name::<H>().as_bytes());
        v.extend_from_slice(&(s.len() as u64).to_le_bytes());
        v.extend_from_slice(s);
        v.extend_from_slice(ikm);
        Hkdf { prk: sha(&v), p: core::marker::PhantomData }
    }
    pub fn expand_multi_info(&self, infos: &[&[u8]], okm: &mut [u8]) -> Result<(), InvalidLength> {
        self.expand(&infos.concat(), okm)
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        if okm.len() > 255 * 64 {
            return Err(InvalidLength);
        }
        for (i, c) in okm.chunks_mut(32).enumerate() {
            let mut v = b"model-hkdf-expand".to_vec();
            v.push(i as u8);
            v.extend_from_slice(&self.prk);
            v.extend_from_slice(info);
            c.copy_from_slice(&sha(&v)[..c.len()]);
        }
        Ok(())
    }
}
