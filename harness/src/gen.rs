//! Choice-sequence generator: every random decision of a case is one bounded `u64`
//! choice. A case is a pure function of its choice list, so a failing case is
//! replayed from the list and shrunk by editing the list.
use ark_bls12_381::Fr;
use ark_ff::{One, UniformRand, Zero};
use rand_chacha::rand_core::{RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;

pub struct Gen {
    prefix: Option<Vec<u64>>, // replay: choices to use, then zeros
    rng: ChaCha8Rng,
    pub used: Vec<u64>,
    pub tags: Vec<&'static str>,
    pub log: String,
    /// sizes in the hundreds of rows, with long runs of equal values
    pub large: bool,
    /// sizes around 2^16 rows
    pub huge: bool,
    /// long histories, many items
    pub long: bool,
    /// how small domain values are spread over the field: 0 as they are, see `lift`
    pub limb: u8,
    /// columns, selectors and whole bags of one case often coincide
    pub twins: bool,
    past: [Vec<Vec<Fr>>; 2],
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Gen { prefix: None, rng: ChaCha8Rng::seed_from_u64(seed), used: vec![], tags: vec![], log: String::new(), large: false, huge: false, long: false, limb: 0, twins: false, past: [vec![], vec![]] }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Gen { prefix: Some(choices), rng: ChaCha8Rng::seed_from_u64(0), used: vec![], tags: vec![], log: String::new(), large: false, huge: false, long: false, limb: 0, twins: false, past: [vec![], vec![]] }
    }
    /// A choice in 0..bound. Zero is always the simplest value.
    pub fn below(&mut self, bound: u64) -> u64 {
        assert!(bound > 0);
        let v = match &self.prefix {
            Some(p) => {
                let i = self.used.len();
                if i < p.len() { p[i] % bound } else { 0 }
            }
            None => self.rng.next_u64() % bound,
        };
        self.used.push(v);
        v
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// a number of variables: small, or mostly 6 to 10 in a large case
    pub fn nv(&mut self, lo: usize, hi: usize) -> usize {
        if !self.large { return self.size(lo, hi); }
        if self.chance(1, 4) { return self.size(lo, hi); }
        if self.huge { self.size(16, 17) } else { self.size(6, 10) }
    }
    /// a value domain (0: the whole field): as given, or one that gives long runs or hundreds of distinct values
    pub fn dom(&mut self, d: u64) -> u64 {
        if !self.large || d == 0 { return d; }
        if self.huge { return *self.pick(&[1, 2, d]); }
        *self.pick(&[2, d, 400])
    }
    /// `small`, or `big` in a large case
    pub fn or(&self, small: u64, big: u64) -> u64 { if self.large { big } else { small } }
    /// `small`, or `big` in a long case
    pub fn lor(&self, small: usize, big: usize) -> usize { if self.long { big } else { small } }
    /// A value of a small domain as a field element, injective up to 2^60. In the "-limbs" families
    /// groups of values share all but one 64-bit limb of the canonical or of the Montgomery form,
    /// or differ in the sign, or lie at both ends of the field.
    pub fn lift(&self, x: u64) -> Fr {
        use ark_ff::BigInt;
        let mut l = [0u64; 4];
        match self.limb {
            0 => Fr::from(x),
            1 => { l[0] = x / 4; l[(x % 4) as usize] += 1 << 40; Fr::new(BigInt::new(l)) }
            2 => { l[0] = x / 4; l[(x % 4) as usize] += 1 << 40; Fr::new_unchecked(BigInt::new(l)) }
            3 => { let y = Fr::from(x / 2); if x % 2 == 1 { -y - Fr::one() } else { y } }
            _ => { l[3] = x / 4; l[2] = 7; l[1] = 1 << 63; l[0] = x % 4; Fr::new(BigInt::new(l)) }
        }
    }
    /// the column (kind 0) or selector (kind 1), or an earlier one of the same length instead
    pub fn twin(&mut self, kind: usize, v: Vec<Fr>) -> Vec<Fr> {
        if !self.twins { return v; }
        let fit: Vec<usize> = (0..self.past[kind].len()).filter(|i| self.past[kind][*i].len() == v.len()).collect();
        if !fit.is_empty() && self.chance(1, 3) { let i = *self.pick(&fit); return self.past[kind][i].clone(); }
        self.past[kind].push(v.clone());
        v
    }
    pub fn forget(&mut self) { self.past = [vec![], vec![]]; }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index by weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut r = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if r < *x { return i; }
            r -= x;
        }
        unreachable!()
    }
    pub fn tag(&mut self, t: &'static str) { if !self.tags.contains(&t) { self.tags.push(t); } }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.log.len() < 4000 { self.log.push_str(s.as_ref()); self.log.push_str("; "); }
    }
    /// deterministic random stream seeded by one choice
    pub fn rng(&mut self) -> ChaCha8Rng {
        let s = self.below(1 << 48);
        ChaCha8Rng::seed_from_u64(s ^ 0x5EED_0000)
    }
    /// uniformly random field element (0 when the choice shrinks to 0)
    pub fn fr_random(&mut self) -> Fr {
        let s = self.below(1 << 48);
        if s == 0 { return Fr::zero(); }
        Fr::rand(&mut ChaCha8Rng::seed_from_u64(s))
    }
    /// field element, with small and special values frequent
    pub fn fr(&mut self) -> Fr {
        match self.weighted(&[4, 4, 2, 6, 2, 8, 1]) {
            0 => Fr::zero(),
            1 => Fr::one(),
            2 => -Fr::one(),
            3 => Fr::from(self.below(16)),
            4 => -Fr::from(self.below(16)),
            6 => { let mut l = [0u64; 4]; l[1 + self.below(3) as usize] = 1; l[0] = self.below(3); Fr::new(ark_ff::BigInt::new(l)) }
            _ => self.fr_random(),
        }
    }
    pub fn fr_vec(&mut self, n: usize) -> Vec<Fr> {
        if n <= 64 { return (0..n).map(|_| self.fr()).collect(); }
        // one choice for the whole table
        let mut r = self.rng();
        (0..n).map(|_| match r.next_u32() % 8 { 0 => Fr::zero(), 1 => Fr::one(), 2 => -Fr::one(), 3 => Fr::from(r.next_u32() % 16), _ => Fr::rand(&mut r) }).collect()
    }
    /// non-zero
    pub fn fr_nz(&mut self) -> Fr {
        let x = self.fr();
        if x.is_zero() { Fr::one() } else { x }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.below((v.len() - i) as u64) as usize;
            v.swap(i, j);
        }
    }
}

/// Shrink: `fails` re-runs a candidate choice list and says whether it still fails.
pub fn shrink(start: Vec<u64>, max_runs: usize, budget: std::time::Duration, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let mut best = start;
    let mut runs = 0usize;
    let mut improved = true;
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    while improved && runs < max_runs && t0.elapsed() < budget {
        improved = false;
        // delete chunks
        let mut k = best.len().max(1) / 2;
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                if runs >= max_runs || t0.elapsed() > budget { return best; }
                let mut c = best.clone();
                c.drain(i..i + k);
                runs += 1;
                match fails(&c) {
                    Some(u) if better(&u, &best) => { best = u; improved = true; }
                    _ => i += k,
                }
            }
            k /= 2;
        }
        // zero / reduce single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for cand in [0, v / 2, v.saturating_sub(1)] {
                if cand >= best.get(i).copied().unwrap_or(0) { continue; }
                if runs >= max_runs || t0.elapsed() > budget { return best; }
                let mut c = best.clone();
                c[i] = cand;
                runs += 1;
                if let Some(u) = fails(&c) {
                    if better(&u, &best) { best = u; improved = true; if cand == 0 { break; } }
                }
            }
            i += 1;
        }
    }
    best
}
