// VERIFICATION REPLACEMENT of rand 0.8.5's thread-local generator.
//
// `ThreadRng` draws its raw 64-bit words from a per-thread *tape* that the model checker fills, so that
// every random decision of the code under test is an enumerated choice. Beyond the end of the tape (or with
// no tape at all) it falls back to a fixed default fraction or to a deterministic SplitMix64 stream.
//! Thread-local random number generator (controlled)

use crate::{CryptoRng, Error, RngCore};
use std::cell::RefCell;

/// Control of the raw draws of `ThreadRng` on this thread.
pub mod tape {
    use super::TAPE;
    use std::vec::Vec;

    pub(super) struct Tape {
        pub words: Vec<u64>,
        pub pos: usize,
        pub used: usize,
        pub default: Option<u64>,
        pub state: u64,
        pub shift: Option<u64>,
    }

    impl Tape {
        #[inline]
        pub fn next(&mut self) -> u64 {
            self.used += 1;
            if self.pos < self.words.len() {
                self.pos += 1;
                return self.words[self.pos - 1];
            }
            if let Some(d) = self.default {
                return d;
            }
            self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.state;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            let w = z ^ (z >> 31);
            match self.shift {
                // normal-friendly stream: layer 0 of the ziggurat, never the tail
                Some(_) => {
                    let x = 0.1 + 0.8 * ((w >> 12) as f64 / 4503599627370496.0);
                    super::tape::word(x)
                }
                None => w,
            }
        }
    }

    /// Raw word whose uniform float value is `x` (0 <= x < 1), whose index in 0..n is floor(x*n), and whose
    /// standard normal value is `3.910757959537090045 * (2x-1)` (first ziggurat layer; keep 0.04 < x < 0.96).
    pub fn word(x: f64) -> u64 {
        let m = (x.max(0.0) * 4503599627370496.0) as u64;
        m.min(4503599627370495) << 12
    }

    /// Use exactly these fractions, then `default` forever.
    pub fn set(fractions: &[f64], default: f64) {
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            t.words.clear();
            t.words.extend(fractions.iter().map(|&x| word(x)));
            t.pos = 0;
            t.used = 0;
            t.default = Some(word(default));
        })
    }
    /// Deterministic pseudo-random stream.
    pub fn free(seed: u64) {
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            t.words.clear();
            t.pos = 0;
            t.used = 0;
            t.default = None;
            t.shift = None;
            t.state = seed.wrapping_mul(0xD1342543DE82EF95).wrapping_add(0x1234567);
        })
    }
    /// Deterministic pseudo-random stream restricted to fractions 0.1..0.9 (bounded normal deviates).
    pub fn free_mild(seed: u64) {
        free(seed);
        TAPE.with(|t| t.borrow_mut().shift = Some(1));
    }
    /// Number of raw draws since the last `set`/`free`.
    pub fn used() -> usize {
        TAPE.with(|t| t.borrow().used)
    }
}

std::thread_local!(
    static TAPE: RefCell<tape::Tape> = RefCell::new(tape::Tape {
        words: std::vec::Vec::new(), pos: 0, used: 0, default: None, state: 0x5eed, shift: None });
);

/// A reference to the thread-local generator
#[derive(Clone, Debug)]
pub struct ThreadRng {
    _not_send: std::marker::PhantomData<std::rc::Rc<()>>,
}

/// Retrieve the thread-local random number generator
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: std::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    #[inline]
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    #[inline]
    fn next_u64(&mut self) -> u64 {
        TAPE.with(|t| t.borrow_mut().next())
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
