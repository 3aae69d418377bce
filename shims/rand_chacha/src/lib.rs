//! Stand-in for rand_chacha: the k-th draw of the generator seeded with s is an arbitrary value
//! D(s, k) supplied by the checking environment; equal seeds give equal streams.
#![allow(missing_docs)]
pub use rand_core;
use rand_core::block::{BlockRng, BlockRngCore};
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};
use std::fmt;

extern "C-unwind" {
    fn symx_stream(seed: u64, idx: u64) -> u64;
    fn symx_fresh_stream() -> u64;
}

#[derive(Copy, Clone)]
#[repr(transparent)]
pub struct Array64<T>([T; 64]);
impl<T: Default + Copy> Default for Array64<T> {
    fn default() -> Self {
        Self([T::default(); 64])
    }
}
impl<T> AsRef<[T]> for Array64<T> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}
impl<T> AsMut<[T]> for Array64<T> {
    fn as_mut(&mut self) -> &mut [T] {
        &mut self.0
    }
}
impl<T> fmt::Debug for Array64<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Array64 {{}}")
    }
}

fn hash(seed: &[u8; 32]) -> u64 {
    // seeds that are a zero-extended u64 keep their value; others are folded
    let w = |i: usize| u64::from_le_bytes([seed[i], seed[i + 1], seed[i + 2], seed[i + 3], seed[i + 4], seed[i + 5], seed[i + 6], seed[i + 7]]);
    let (a, b, c, d) = (w(0), w(8), w(16), w(24));
    (a ^ b.rotate_left(17).wrapping_mul(0x9e3779b97f4a7c15) ^ c.rotate_left(34).wrapping_mul(0xbf58476d1ce4e5b9) ^ d.rotate_left(51)) | (1 << 63)
}

macro_rules! imp {
    ($core:ident, $rng:ident) => {
        #[derive(Clone, PartialEq, Eq)]
        pub struct $core {
            stream: u64,
            pos: u64,
        }
        impl fmt::Debug for $core {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "ChaChaXCore {{}}")
            }
        }
        impl BlockRngCore for $core {
            type Item = u32;
            type Results = Array64<u32>;
            fn generate(&mut self, r: &mut Self::Results) {
                for k in 0..32 {
                    let x = unsafe { symx_stream(self.stream, self.pos) };
                    self.pos += 1;
                    r.0[2 * k] = x as u32;
                    r.0[2 * k + 1] = (x >> 32) as u32;
                }
            }
        }
        impl SeedableRng for $core {
            type Seed = [u8; 32];
            fn from_seed(seed: Self::Seed) -> Self {
                $core { stream: hash(&seed), pos: 0 }
            }
            fn seed_from_u64(s: u64) -> Self {
                $core { stream: s, pos: 0 }
            }
            fn from_rng<R: RngCore>(_: R) -> Result<Self, Error> {
                // used for thread-local generators seeded by the operating system
                Ok($core { stream: unsafe { symx_fresh_stream() }, pos: 0 })
            }
        }
        impl CryptoRng for $core {}

        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $rng {
            stream: u64,
            nonce: u64,
            pos: u64,
        }
        impl $rng {
            fn draw(&mut self) -> u64 {
                let s = if self.nonce == 0 { self.stream } else { self.stream ^ self.nonce.wrapping_mul(0x9e3779b97f4a7c15) };
                let x = unsafe { symx_stream(s, self.pos) };
                self.pos += 1;
                x
            }
            pub fn get_word_pos(&self) -> u128 {
                self.pos as u128 * 2
            }
            pub fn set_word_pos(&mut self, w: u128) {
                self.pos = (w / 2) as u64;
            }
            pub fn set_stream(&mut self, stream: u64) {
                self.nonce = stream;
            }
            pub fn get_stream(&self) -> u64 {
                self.nonce
            }
            pub fn get_seed(&self) -> [u8; 32] {
                let mut s = [0u8; 32];
                s[..8].copy_from_slice(&self.stream.to_le_bytes());
                s
            }
        }
        impl SeedableRng for $rng {
            type Seed = [u8; 32];
            fn from_seed(seed: Self::Seed) -> Self {
                $rng { stream: hash(&seed), nonce: 0, pos: 0 }
            }
            fn seed_from_u64(s: u64) -> Self {
                $rng { stream: s, nonce: 0, pos: 0 }
            }
            fn from_rng<R: RngCore>(mut r: R) -> Result<Self, Error> {
                let s = r.next_u64();
                Ok($rng { stream: s, nonce: 0, pos: 0 })
            }
            fn from_entropy() -> Self {
                $rng { stream: unsafe { symx_fresh_stream() }, nonce: 0, pos: 0 }
            }
        }
        impl RngCore for $rng {
            fn next_u32(&mut self) -> u32 {
                self.draw() as u32
            }
            fn next_u64(&mut self) -> u64 {
                self.draw()
            }
            fn fill_bytes(&mut self, bytes: &mut [u8]) {
                for c in bytes.chunks_mut(8) {
                    let x = self.draw().to_le_bytes();
                    c.copy_from_slice(&x[..c.len()]);
                }
            }
            fn try_fill_bytes(&mut self, bytes: &mut [u8]) -> Result<(), Error> {
                self.fill_bytes(bytes);
                Ok(())
            }
        }
        impl CryptoRng for $rng {}
        impl From<$core> for $rng {
            fn from(c: $core) -> Self {
                $rng { stream: c.stream, nonce: 0, pos: c.pos }
            }
        }
    };
}
imp!(ChaCha20Core, ChaCha20Rng);
imp!(ChaCha12Core, ChaCha12Rng);
imp!(ChaCha8Core, ChaCha8Rng);
#[allow(dead_code)]
type Unused = BlockRng<ChaCha20Core>;
pub type ChaChaRng = ChaCha20Rng;
pub type ChaChaCore = ChaCha20Core;
