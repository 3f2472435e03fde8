//! Small deterministic PRNG (splitmix64 seeded xoshiro256**): every random choice of the
//! harness comes from here and is derived from (VERIF_SEED, property, section, case).

use chrono::NaiveDateTime;

/// What a case has made so far: values come back, exactly or almost, in other places of the same case.
#[derive(Clone, Default)]
struct Seen {
    texts: Vec<String>,
    names: Vec<String>,
    times: Vec<NaiveDateTime>,
}

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    seen: Seen,
}

const KEPT: usize = 6;

fn keep<T>(list: &mut Vec<T>, x: T, at: usize) {
    if list.len() < KEPT {
        list.push(x);
    } else {
        list[at % KEPT] = x;
    }
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h ^= u64::from(x);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    let mut h2 = h;
    splitmix(&mut h2)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut x = 0x1234_5678_9abc_def0u64;
        for p in parts {
            x ^= *p;
            x = splitmix(&mut x);
        }
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s, seen: Seen::default() }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (0 if n == 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % (n as u64)) as usize
        }
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        let span = (hi - lo) as u64 + 1;
        lo + (self.u64() % span) as i64
    }
    /// true once in n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// small numbers are likely, up to max
    pub fn small(&mut self, max: usize) -> usize {
        let m = match self.below(10) {
            0..=5 => max.min(3),
            6..=8 => max.min(12),
            _ => max,
        };
        self.below(m + 1)
    }

    pub fn keep_text(&mut self, x: &str) {
        if x.len() <= 400 {
            let at = self.s[0] as usize;
            keep(&mut self.seen.texts, x.to_owned(), at);
        }
    }
    pub fn keep_name(&mut self, x: &str) {
        let at = self.s[0] as usize;
        keep(&mut self.seen.names, x.to_owned(), at);
    }
    pub fn keep_time(&mut self, x: NaiveDateTime) {
        let at = self.s[0] as usize;
        keep(&mut self.seen.times, x, at);
    }
    /// once in n a text of this case again, or one that is almost the same
    pub fn echo_text(&mut self, n: usize) -> Option<String> {
        if self.seen.texts.is_empty() || !self.one_in(n) {
            return None;
        }
        let at = self.below(self.seen.texts.len());
        let x = self.seen.texts[at].clone();
        Some(self.almost(x))
    }
    pub fn echo_name(&mut self, n: usize) -> Option<String> {
        if self.seen.names.is_empty() || !self.one_in(n) {
            return None;
        }
        let at = self.below(self.seen.names.len());
        let x = self.seen.names[at].clone();
        Some(self.almost(x))
    }
    pub fn echo_time(&mut self, n: usize) -> Option<NaiveDateTime> {
        if self.seen.times.is_empty() || !self.one_in(n) {
            return None;
        }
        let at = self.below(self.seen.times.len());
        Some(self.seen.times[at])
    }
    fn almost(&mut self, x: String) -> String {
        match self.below(12) {
            0 => {
                let n = self.below(x.chars().count() + 1);
                x.chars().take(n).collect()
            }
            1 => format!("{x}{}", (b'a' + self.below(26) as u8) as char),
            2 => x.to_ascii_uppercase(),
            3 => x.to_ascii_lowercase(),
            _ => x,
        }
    }
}
