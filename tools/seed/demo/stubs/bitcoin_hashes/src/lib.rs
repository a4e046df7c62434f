//! Stand-in for `bitcoin_hashes`: digests come from an oracle of the harness.
#![no_std]
extern crate alloc;
extern "C" {
    fn lsx_oracle_hash(alg: u32, m: *const u8, ml: usize, out: *mut u8, ol: usize);
}
pub trait HashEngine: Clone + Default {
    type MidState;
    const BLOCK_SIZE: usize;
    fn midstate(&self) -> Self::MidState;
    fn input(&mut self, data: &[u8]);
    fn n_bytes_hashed(&self) -> usize;
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FromSliceError {
    expected: usize,
    got: usize,
}
pub trait Hash: Copy + Clone + PartialEq + Eq + PartialOrd + Ord + core::hash::Hash + AsRef<[u8]> {
    type Engine: HashEngine;
    type Bytes: Copy;
    const LEN: usize;
    const DISPLAY_BACKWARD: bool = false;
    fn engine() -> Self::Engine {
        Self::Engine::default()
    }
    fn from_engine(e: Self::Engine) -> Self;
    fn hash(data: &[u8]) -> Self {
        let mut e = Self::engine();
        e.input(data);
        Self::from_engine(e)
    }
    fn from_slice(sl: &[u8]) -> Result<Self, FromSliceError>;
    fn to_byte_array(self) -> Self::Bytes;
    fn as_byte_array(&self) -> &Self::Bytes;
    fn from_byte_array(b: Self::Bytes) -> Self;
    fn all_zeros() -> Self;
}
macro_rules! hash {
    ($m:ident, $id:expr, $n:expr, $block:expr) => {
        pub mod $m {
            use alloc::vec::Vec;
            #[derive(Clone, Default)]
            pub struct HashEngine(Vec<u8>);
            impl crate::HashEngine for HashEngine {
                type MidState = ();
                const BLOCK_SIZE: usize = $block;
                fn midstate(&self) {}
                fn input(&mut self, data: &[u8]) {
                    self.0.extend_from_slice(data)
                }
                fn n_bytes_hashed(&self) -> usize {
                    self.0.len()
                }
            }
            #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
            pub struct Hash([u8; $n]);
            impl crate::Hash for Hash {
                type Engine = HashEngine;
                type Bytes = [u8; $n];
                const LEN: usize = $n;
                fn from_engine(e: HashEngine) -> Self {
                    let mut out = [0u8; $n];
                    unsafe { crate::lsx_oracle_hash($id, e.0.as_ptr(), e.0.len(), out.as_mut_ptr(), $n) };
                    Hash(out)
                }
                fn from_slice(sl: &[u8]) -> Result<Self, crate::FromSliceError> {
                    if sl.len() != $n {
                        return Err(crate::FromSliceError { expected: $n, got: sl.len() });
                    }
                    let mut o = [0u8; $n];
                    o.copy_from_slice(sl);
                    Ok(Hash(o))
                }
                fn to_byte_array(self) -> [u8; $n] {
                    self.0
                }
                fn as_byte_array(&self) -> &[u8; $n] {
                    &self.0
                }
                fn from_byte_array(b: [u8; $n]) -> Self {
                    Hash(b)
                }
                fn all_zeros() -> Self {
                    Hash([0; $n])
                }
            }
            impl AsRef<[u8]> for Hash {
                fn as_ref(&self) -> &[u8] {
                    &self.0
                }
            }
            impl core::ops::Index<usize> for Hash {
                type Output = u8;
                fn index(&self, i: usize) -> &u8 {
                    &self.0[i]
                }
            }
            impl core::borrow::Borrow<[u8]> for Hash {
                fn borrow(&self) -> &[u8] {
                    &self.0
                }
            }
        }
    };
}
hash!(sha1, 1, 20, 64);
hash!(sha256, 2, 32, 64);
hash!(sha512, 3, 64, 128);
hash!(sha512_256, 4, 32, 128);
hash!(ripemd160, 5, 20, 64);
