//! The choice tape: every random decision of a generator is one `u32` draw.  A run records the
//! draws, so a case is a pure function of its tape; shrinking edits the tape and regenerates.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ b.rotate_left(32));
    r.next()
}

pub struct Gen {
    replay: Option<Vec<u32>>,
    pos: usize,
    rng: Rng,
    pub tape: Vec<u32>,
    /// set when a generator hits a dead end: the case is skipped (and counted)
    pub reject: Option<&'static str>,
}

impl Gen {
    pub fn random(seed: u64) -> Gen {
        Gen { replay: None, pos: 0, rng: Rng::new(seed), tape: vec![], reject: None }
    }
    pub fn replay(t: &[u32]) -> Gen {
        Gen { replay: Some(t.to_vec()), pos: 0, rng: Rng::new(0), tape: vec![], reject: None }
    }
    /// 0..n, where 0 is the simplest choice
    pub fn n(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(t) => {
                let x = t.get(self.pos).copied().unwrap_or(0) as usize;
                x.min(n - 1)
            }
            None => (self.rng.next() % n as u64) as usize,
        };
        self.pos += 1;
        self.tape.push(v as u32);
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// true with probability p percent; false is the simpler outcome
    pub fn pct(&mut self, p: usize) -> bool {
        self.n(100) >= 100 - p.min(100)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
    /// index chosen with the given weights
    pub fn w(&mut self, ws: &[usize]) -> usize {
        let tot: usize = ws.iter().sum();
        let mut x = self.n(tot.max(1));
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
    pub fn u32(&mut self) -> u32 {
        self.n(1 << 32) as u32
    }
    pub fn u64(&mut self) -> u64 {
        let a = self.u32() as u64;
        (a << 32) | self.u32() as u64
    }
    pub fn byte(&mut self) -> u8 {
        self.n(256) as u8
    }
}

/// Simpler variants of a tape, most aggressive first.
pub fn candidates(t: &[u32]) -> Vec<Vec<u32>> {
    let mut out = vec![];
    let n = t.len();
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i + k <= n {
            let mut c = t[..i].to_vec();
            c.extend_from_slice(&t[i + k..]);
            out.push(c);
            i += k.max(1);
        }
        if k == 1 {
            break;
        }
        k /= 2;
    }
    let mut k = (n / 4).max(1);
    loop {
        let mut i = 0;
        while i < n {
            let e = (i + k).min(n);
            if t[i..e].iter().any(|x| *x != 0) {
                let mut c = t.to_vec();
                for x in &mut c[i..e] {
                    *x = 0;
                }
                out.push(c);
            }
            i = e;
        }
        if k == 1 {
            break;
        }
        k = (k / 4).max(1);
    }
    for i in 0..n {
        if t[i] > 1 {
            let mut c = t.to_vec();
            c[i] = t[i] / 2;
            out.push(c.clone());
            c[i] = t[i] - 1;
            out.push(c);
        }
    }
    out
}

fn key(t: &[u32]) -> (usize, u64) {
    (t.len(), t.iter().map(|x| *x as u64).sum())
}

/// Greedy shrinking.  `fails` runs a batch of candidate tapes and says, for each, the tape it
/// actually consumed if it still fails.
pub fn shrink(
    start: Vec<u32>,
    batch: usize,
    max_batches: usize,
    mut fails: impl FnMut(&[Vec<u32>]) -> Vec<Option<Vec<u32>>>,
) -> Vec<u32> {
    let mut best = start;
    let mut spent = 0;
    'outer: loop {
        let cands: Vec<_> = candidates(&best).into_iter().filter(|c| key(c) < key(&best)).collect();
        for chunk in cands.chunks(batch) {
            if spent >= max_batches {
                return best;
            }
            spent += 1;
            let r = fails(chunk);
            for t in r.into_iter().flatten() {
                if key(&t) < key(&best) {
                    best = t;
                    continue 'outer;
                }
            }
        }
        return best;
    }
}
