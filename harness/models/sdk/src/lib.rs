//! Stand-in for the off-chain solana-sdk: the real on-chain types, keys as plain bytes, transactions as the list of
//! instructions with payer, signers and blockhash (no wire format, no ed25519).
pub use solana_program::*;
pub mod signer {
    use solana_program::pubkey::Pubkey;
    pub use crate::signature::Signature;
    #[derive(Debug)]
    pub struct SignerError;
    pub trait Signer {
        fn pubkey(&self) -> Pubkey;
        fn try_pubkey(&self) -> Result<Pubkey, SignerError> {
            Ok(self.pubkey())
        }
        fn sign_message(&self, m: &[u8]) -> Signature;
        fn is_interactive(&self) -> bool {
            false
        }
    }
    impl<T: Signer + ?Sized> Signer for &T {
        fn pubkey(&self) -> Pubkey {
            (**self).pubkey()
        }
        fn sign_message(&self, m: &[u8]) -> Signature {
            (**self).sign_message(m)
        }
    }
    pub mod keypair {
        pub use crate::signature::Keypair;
    }
    pub mod signers {
        use super::*;
        pub trait Signers {
            fn pubkeys(&self) -> Vec<Pubkey>;
        }
        impl<'a, T: Signer + ?Sized> Signers for [&'a T] {
            fn pubkeys(&self) -> Vec<Pubkey> {
                self.iter().map(|s| s.pubkey()).collect()
            }
        }
        impl<'a, T: Signer + ?Sized, const N: usize> Signers for [&'a T; N] {
            fn pubkeys(&self) -> Vec<Pubkey> {
                self.iter().map(|s| s.pubkey()).collect()
            }
        }
        impl<'a, T: Signer + ?Sized> Signers for Vec<&'a T> {
            fn pubkeys(&self) -> Vec<Pubkey> {
                self.iter().map(|s| s.pubkey()).collect()
            }
        }
    }
}
pub use signer::signers;
pub mod signature {
    use solana_program::pubkey::Pubkey;
    pub use crate::signer::{self, Signer};
    #[derive(Debug)]
    pub struct ParseSignatureError;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    pub struct Signature(pub [u8; 64]);
    impl Default for Signature {
        fn default() -> Self {
            Signature([0; 64])
        }
    }
    impl From<[u8; 64]> for Signature {
        fn from(b: [u8; 64]) -> Self {
            Signature(b)
        }
    }
    impl AsRef<[u8]> for Signature {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    /// Text form: two characters per byte.
    impl core::fmt::Display for Signature {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            let mut t = [0u8; 128];
            for i in 0..64 {
                t[2 * i] = b'a' + (self.0[i] >> 4);
                t[2 * i + 1] = b'a' + (self.0[i] & 15);
            }
            f.write_str(unsafe { core::str::from_utf8_unchecked(&t) })
        }
    }
    impl core::str::FromStr for Signature {
        type Err = ParseSignatureError;
        fn from_str(s: &str) -> Result<Self, ParseSignatureError> {
            let b = s.as_bytes();
            if b.len() != 128 {
                return Err(ParseSignatureError);
            }
            let mut o = [0u8; 64];
            for i in 0..64 {
                o[i] = (b[2 * i].wrapping_sub(b'a') << 4) | b[2 * i + 1].wrapping_sub(b'a');
            }
            Ok(Signature(o))
        }
    }
    pub struct Keypair(pub [u8; 64]);
    /// Keys the harness knows by name instead of by their base58 text.
    pub static mut NAMED: Vec<(&str, [u8; 64])> = vec![];
    impl Keypair {
        #[allow(static_mut_refs)]
        pub fn from_base58_string(s: &str) -> Self {
            for (n, k) in unsafe { NAMED.iter() } {
                if *n == s {
                    return Keypair(*k);
                }
            }
            let mut o = [0u8; 64];
            for c in s.bytes() {
                let a = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
                let mut v = a.iter().position(|x| *x == c).expect("base58") as u32;
                for b in o.iter_mut().rev() {
                    v += *b as u32 * 58;
                    *b = v as u8;
                    v >>= 8;
                }
                assert!(v == 0);
            }
            Keypair(o)
        }
        pub fn to_bytes(&self) -> [u8; 64] {
            self.0
        }
        pub fn secret_bytes(&self) -> &[u8; 32] {
            self.0[..32].try_into().unwrap()
        }
        pub fn insecure_clone(&self) -> Self {
            Keypair(self.0)
        }
        pub fn pubkey(&self) -> Pubkey {
            Signer::pubkey(self)
        }
    }
    impl Signer for Keypair {
        fn pubkey(&self) -> Pubkey {
            Pubkey::new_from_array(self.0[32..].try_into().unwrap())
        }
        fn sign_message(&self, _: &[u8]) -> Signature {
            Signature::default()
        }
    }
}
pub mod transaction {
    use crate::signers::Signers;
    use solana_program::{hash::Hash, instruction::Instruction, pubkey::Pubkey};
    #[derive(Clone, Debug, Default)]
    pub struct Transaction {
        pub instructions: Vec<Instruction>,
        pub payer: Option<Pubkey>,
        pub signers: Vec<Pubkey>,
        pub blockhash: Hash,
    }
    impl Transaction {
        pub fn new_with_payer(ixs: &[Instruction], payer: Option<&Pubkey>) -> Self {
            Transaction { instructions: ixs.to_vec(), payer: payer.copied(), signers: vec![], blockhash: Hash::default() }
        }
        pub fn new_signed_with_payer<T: Signers + ?Sized>(ixs: &[Instruction], payer: Option<&Pubkey>, s: &T, blockhash: Hash) -> Self {
            let mut t = Self::new_with_payer(ixs, payer);
            t.sign(s, blockhash);
            t
        }
        pub fn sign<T: Signers + ?Sized>(&mut self, s: &T, blockhash: Hash) {
            self.signers.extend(s.pubkeys());
            // as the real one does
            for k in self.payer.iter().chain(self.instructions.iter().flat_map(|i| i.accounts.iter()).filter(|m| m.is_signer).map(|m| &m.pubkey)) {
                assert!(self.signers.contains(k), "Transaction::sign failed with error NotEnoughSigners");
            }
            self.blockhash = blockhash;
        }
    }
}
