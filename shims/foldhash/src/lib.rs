//! A stand-in for `foldhash` in which the harness chooses the hashes.
//!
//! `hashbrown` walks its buckets in index order and places an entry in the bucket named by the low bits of its
//! hash, so choosing the low bits chooses the iteration order. With an order set, a key whose written bytes sum to
//! `r` gets the low bits `rank[r % rank.len()]`; without one, the hash is FNV-1a mixed with a settable seed, so
//! that a run is always reproducible.
#![cfg_attr(not(feature = "std"), no_std)]

pub mod control {
    use core::sync::atomic::{AtomicU64, Ordering};
    pub static DEFAULT_SEED: AtomicU64 = AtomicU64::new(0);

    #[cfg(feature = "std")]
    mod tl {
        use std::cell::Cell;
        #[derive(Clone, Copy)]
        pub struct Order {
            pub ranks: [u8; 8],
            pub n: u8,
            pub seed: u64,
        }
        thread_local! {
            pub static ORDER: Cell<Order> = const { Cell::new(Order { ranks: [0; 8], n: 0, seed: 0 }) };
        }
    }
    #[cfg(feature = "std")]
    pub use tl::Order;

    ///Use these ranks (at most eight) from now on in this thread.
    #[cfg(feature = "std")]
    pub fn set_order(ranks: &[u8]) {
        let mut o = Order { ranks: [0; 8], n: ranks.len() as u8, seed: 0 };
        o.ranks[..ranks.len()].copy_from_slice(ranks);
        tl::ORDER.with(|c| c.set(o));
    }
    ///No ranks, but this seed from now on in this thread.
    #[cfg(feature = "std")]
    pub fn set_seed(seed: u64) {
        tl::ORDER.with(|c| c.set(Order { ranks: [0; 8], n: 0, seed }));
    }
    #[cfg(feature = "std")]
    pub(crate) fn current() -> ([u8; 8], u8, u64) {
        tl::ORDER.with(|c| {
            let o = c.get();
            (o.ranks, o.n, o.seed ^ DEFAULT_SEED.load(Ordering::Relaxed))
        })
    }
    #[cfg(not(feature = "std"))]
    pub(crate) fn current() -> ([u8; 8], u8, u64) {
        ([0; 8], 0, DEFAULT_SEED.load(Ordering::Relaxed))
    }
}

mod imp {
    use core::hash::{BuildHasher, Hasher};

    ///Captured when the map is made, so that a map never changes its mind about its keys.
    #[derive(Clone, Copy, Debug)]
    pub struct RandomState {
        ranks: [u8; 8],
        n: u8,
        seed: u64,
    }
    impl Default for RandomState {
        fn default() -> Self {
            let (ranks, n, seed) = crate::control::current();
            Self { ranks, n, seed }
        }
    }
    impl BuildHasher for RandomState {
        type Hasher = FoldHasher;
        fn build_hasher(&self) -> FoldHasher {
            FoldHasher { state: *self, sum: 0, fnv: 0xcbf2_9ce4_8422_2325 ^ self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) }
        }
    }
    #[derive(Clone, Debug)]
    pub struct FoldHasher {
        state: RandomState,
        sum: u64,
        fnv: u64,
    }
    impl Hasher for FoldHasher {
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                //0xFF ends a string
                if *b != 0xFF {
                    self.sum = self.sum.wrapping_add(u64::from(*b));
                }
                self.fnv = (self.fnv ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3);
            }
        }
        fn finish(&self) -> u64 {
            let mut h = self.fnv;
            h ^= h >> 32;
            h = h.wrapping_mul(0xD6E8_FEB8_6659_FD93);
            h ^= h >> 32;
            if self.state.n == 0 {
                h
            } else {
                (h << 8) | u64::from(self.state.ranks[(self.sum % u64::from(self.state.n)) as usize])
            }
        }
    }

    ///Never varies.
    #[derive(Clone, Copy, Debug, Default)]
    pub struct FixedState;
    impl BuildHasher for FixedState {
        type Hasher = FoldHasher;
        fn build_hasher(&self) -> FoldHasher {
            FoldHasher { state: RandomState { ranks: [0; 8], n: 0, seed: 0 }, sum: 0, fnv: 0xcbf2_9ce4_8422_2325 }
        }
    }
}

pub mod fast {
    pub use crate::imp::{FixedState, FoldHasher, RandomState};
}
pub mod quality {
    pub use crate::imp::{FixedState, FoldHasher, RandomState};
}
