//! Generation of raw words, from which all values are built.
use proptest::prelude::*;

/// A stream of generated words. Values are built by consuming words, so that shrinking the words
/// shrinks the value, and a replay file only has to hold the words.
pub struct Src<'a> {
    words: &'a [u32],
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(words: &'a [u32]) -> Self {
        Src { words, pos: 0 }
    }

    pub fn next(&mut self) -> u32 {
        let n = self.words.len();
        let pos = self.pos;
        self.pos += 1;
        if n == 0 {
            0
        } else if pos < n {
            self.words[pos]
        } else {
            // Reuse the words, but make them different each time around
            let w = self.words[pos % n];
            if w == 0 {
                0
            } else {
                w.rotate_left((pos / n) as u32 * 5).wrapping_add((pos / n) as u32)
            }
        }
    }

    pub fn below(&mut self, n: u32) -> u32 {
        self.next() % n.max(1)
    }
}

/// Words with a bias to values that matter to bit-level encodings.
pub fn word() -> impl Strategy<Value = u32> + Clone {
    prop_oneof![
        3 => 0u32..6,
        2 => prop::sample::select(vec![
            u32::MAX,
            u32::MAX - 1,
            0x8000_0000,
            0x7fff_ffff,
            0x7f80_0000, // inf
            0x7f80_0001, // signalling NaN
            0x7fc0_1234, // NaN with payload
            0xffc0_0001, // negative NaN with payload
            0x8000_0001,
            0xff,
            0x100,
            0x7f,
            0x80,
            0xff80,
            0x7fff,
            0x8000,
            0xffff,
            0x1_0000,
            0x3f80_0000, // 1.0
            0xbf80_0000,
        ]),
        3 => any::<u32>(),
        1 => 0u32..100_000,
    ]
}

pub fn words(max: usize) -> impl Strategy<Value = Vec<u32>> + Clone {
    prop::collection::vec(word(), 0..=max)
}

/// A cheap stream of noise, to fill slabs with.
pub fn noise(seed: u32, n: usize) -> Vec<u32> {
    let mut s = seed as u64 ^ 0x5851f42d4c957f2d;
    (0..n)
        .map(|_| {
            s = crate::mix(s);
            s as u32
        })
        .collect()
}
