//! Deterministic expansion of generated seeds, and small generators shared by the properties.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// A small deterministic generator used to expand seeds drawn by proptest.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0xA5A5_5A5A_1234_9876)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 32) as u8
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let b = self.next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&b[..n]);
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

/// File contents: every byte depends on the seed and its position.
pub fn content(len: usize, seed: u64) -> Vec<u8> {
    let mut v = vec![0u8; len];
    Rng::new(seed).fill(&mut v);
    v
}

pub fn show_bytes(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(24) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 24 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// Describe the first difference of two byte strings.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got
        .iter()
        .zip(want.iter())
        .position(|(a, b)| a != b)
        .unwrap_or_else(|| got.len().min(want.len()));
    format!(
        "{} bytes instead of {}, first difference at {} (got {}, want {})",
        got.len(),
        want.len(),
        i,
        show_bytes(&got[i.min(got.len())..]),
        show_bytes(&want[i.min(want.len())..])
    )
}

/// File lengths, concentrated around multiples of the 254 data bytes of a block.
pub fn len_strategy(max_blocks: usize) -> BoxedStrategy<usize> {
    let max = max_blocks * 254;
    prop_oneof![
        2 => 0usize..600,
        4 => (0usize..=max_blocks, -2i64..=2)
            .prop_map(|(b, d)| ((b * 254) as i64 + d).max(0) as usize),
        1 => Just(0usize),
        2 => 0usize..=max.max(1),
    ]
    .boxed()
}

/// CBM names of up to 16 bytes that do not end in the pad byte.
pub fn name_strategy() -> BoxedStrategy<Vec<u8>> {
    let byte = prop_oneof![
        6 => 0x41u8..=0x5a,
        2 => 0x30u8..=0x39,
        1 => Just(0x20u8),
        1 => Just(0xa0u8),
        1 => any::<u8>(),
    ];
    prop_oneof![
        6 => prop::collection::vec(0x41u8..=0x48, 1..=3),
        4 => prop::collection::vec(byte.clone(), 0..=16),
        2 => prop::collection::vec(byte, 15..=16),
    ]
    .prop_map(trim_name)
    .boxed()
}

pub fn trim_name(mut n: Vec<u8>) -> Vec<u8> {
    while n.last() == Some(&0xa0) {
        n.pop();
    }
    n
}

/// Read to the end, but not more than `limit` bytes.
pub fn drain(r: &mut dyn std::io::Read, limit: usize, v: &mut Vec<u8>) -> std::io::Result<usize> {
    let mut buf = vec![0; 1 << 16];
    let start = v.len();
    loop {
        let n = match r.read(&mut buf) {
            Ok(n) => n,
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        };
        if n == 0 {
            return Ok(v.len() - start);
        }
        v.extend_from_slice(&buf[..n]);
        if v.len() - start > limit {
            panic!("a reader delivers more than {} bytes", limit);
        }
    }
}
