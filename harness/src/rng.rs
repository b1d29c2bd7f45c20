//! Small deterministic PRNG (splitmix64 seeding + xoshiro256**).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn for_case(seed: u64, prop: &str, idx: u64) -> Rng {
        let h = hash_bytes(format!("{}/{}/{}", seed, prop, idx).as_bytes());
        Rng::new(h)
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.next() % n
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn byte(&mut self, lo: u8, hi: u8) -> u8 {
        self.range(lo as u64, hi as u64) as u8
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if r < x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// A file name without its extension, up to about 200 bytes long, of characters of one to four bytes.
pub fn odd_stem(rng: &mut Rng) -> String {
    let most = *rng.pick(&[3usize, 12, 30, 45, 70, 130, 200]);
    let wide = rng.chance(2, 3);
    let mut s = String::new();
    while s.len() < most {
        let c = match rng.below(if wide { 12 } else { 6 }) {
            0 => *rng.pick(&[' ', '-', '_', '(', ')', '\'', ',', '%', '{', '}', '#', '=', '[', ']', '+', '~', '!']),
            1 => '.',
            2..=5 => (b'a' + rng.below(26) as u8) as char,
            6..=7 => *rng.pick(&['é', 'ü', 'ñ', 'Ω', 'ж']),
            8..=9 => *rng.pick(&['音', '楽', 'ひ', '한', '…']),
            _ => *rng.pick(&['\u{1F3B5}', '\u{10348}', '\u{1D11E}']),
        };
        if s.is_empty() && !c.is_alphabetic() {
            continue;
        }
        s.push(c);
    }
    s
}
