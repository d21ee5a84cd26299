//! Sources of randomness used by the workloads. All implement the library's
//! own `Source` trait, so that the real sampling code runs on top of them.
use probability::source::Source;

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// xoshiro256**.
#[derive(Clone)]
pub struct Mix([u64; 4]);

impl Mix {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0xA5A5_1234_DEAD_BEEF;
        Mix([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    #[inline(always)]
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

impl Source for Mix {
    #[inline(always)]
    fn read_u64(&mut self) -> u64 {
        self.next()
    }
}

/// A source whose first few words are hostile (extremes, powers of two, ziggurat
/// corner words) and whose remaining words are ordinary. It counts reads and
/// stops a runaway consumer by panicking, which is a logical-step bound.
pub struct Scripted {
    script: Vec<u64>,
    mix: Mix,
    pub reads: u64,
    pub limit: u64,
}

pub const EXTREME: [u64; 16] = [
    0,
    u64::MAX,
    1,
    u64::MAX - 1,
    1 << 63,
    (1 << 63) - 1,
    (1 << 63) + 1024,
    u64::MAX - 1023,
    1023,
    1 << 11,
    0x7F,                  // the base layer of a ziggurat, at the origin
    0xFF,                  // the same with the other sign
    0xFFFF_FF7F,           // the base layer, farthest out
    0xFFFF_FFFF,           // the same with the other sign
    0xFFFF_FF00,           // the top layer, farthest out
    0xFFFF_FFFF_FFFF_FF80, // large, top layer
];

impl Scripted {
    /// Seeds below 4096 enumerate all triples of extreme words.
    pub fn new(seed: u64) -> Self {
        let mut mix = Mix::new(seed ^ 0x5C21);
        if seed < 4096 {
            let script = (0..3).map(|k| EXTREME[(seed >> (8 - 4 * k) & 15) as usize]).collect();
            return Scripted { script, mix, reads: 0, limit: 100_000 };
        }
        let n = mix.below(7) as usize;
        let script = (0..n)
            .map(|_| match mix.below(12) {
                0 => 0,
                1 => u64::MAX,
                2 => 1,
                3 => u64::MAX - mix.below(4096),
                4 => mix.below(4096),
                5 => 1u64 << mix.below(64),
                6 => !(1u64 << mix.below(64)),
                7 => 1u64 << 63,
                8 => (1u64 << 63).wrapping_add(mix.below(4096)).wrapping_sub(2048),
                9 => mix.next() >> mix.below(64),
                10 => !(mix.next() >> mix.below(64)),
                _ => mix.next(),
            })
            .collect();
        Scripted { script, mix, reads: 0, limit: 100_000 }
    }
    pub fn words(script: Vec<u64>, seed: u64) -> Self {
        Scripted { script, mix: Mix::new(seed), reads: 0, limit: 100_000 }
    }
}

impl Source for Scripted {
    fn read_u64(&mut self) -> u64 {
        let i = self.reads as usize;
        self.reads += 1;
        if self.reads > self.limit {
            panic!("runaway: more than {} words read for one sample", self.limit);
        }
        if i < self.script.len() {
            self.script[i]
        } else {
            self.mix.next()
        }
    }
}
