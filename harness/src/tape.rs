//! Choice tape: every random decision of a case is one bounded draw that is recorded, so that a
//! case is a pure function of its tape, and shrinking works on the tape (smaller draw = simpler).

pub fn splitmix(state: &mut u64) -> u64 {
  *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
  let mut z = *state;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
  z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf2_9ce4_8422_2325;
  for b in bytes {
    h ^= *b as u64;
    h = h.wrapping_mul(0x100_0000_01b3);
  }
  let mut s = h;
  splitmix(&mut s)
}

pub struct Src {
  replay: Option<Vec<u64>>,
  pos: usize,
  rng: u64,
  pub out: Vec<u64>,
  /// What the generators want said about the case.
  pub marks: Vec<&'static str>,
  /// Per feature of the generators, whether this case goes without it (0), as usual (1), or makes
  /// much of it (2); as usual beyond the end.
  pub swarm: Vec<u8>,
}

impl Src {
  pub fn fresh(seed: u64) -> Self {
    Src { replay: None, pos: 0, rng: seed, out: Vec::new(), marks: Vec::new(), swarm: Vec::new() }
  }

  pub fn replay(tape: &[u64]) -> Self {
    Src { replay: Some(tape.to_vec()), pos: 0, rng: 0, out: Vec::new(), marks: Vec::new(), swarm: Vec::new() }
  }

  /// A draw in `0..n`.
  pub fn below(&mut self, n: u64) -> u64 {
    if n <= 1 {
      return 0;
    }
    let v = match &self.replay {
      Some(t) => t.get(self.pos).copied().unwrap_or(0).min(n - 1),
      None => {
        let r = splitmix(&mut self.rng);
        ((r as u128 * n as u128) >> 64) as u64
      }
    };
    self.pos += 1;
    self.out.push(v);
    v
  }

  pub fn idx(&mut self, n: usize) -> usize {
    self.below(n as u64) as usize
  }

  /// A draw in `lo..=hi`.
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below((hi - lo + 1) as u64) as usize
  }

  /// True with probability `num / den`; the simplest draw is false.
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.below(den) >= den - num.min(den)
  }

  /// Decides for this case which features to go without and which to make much of, so that cases
  /// differ in kind and rare combinations come up together.
  pub fn swarm(&mut self, features: usize) {
    self.swarm.clear();
    if self.chance(1, 3) {
      let calm = self.range(1, 6) as u32;
      self.swarm = (0..features).map(|_| [1, 0, 2][self.weighted(&[calm, 1, 1])]).collect();
    }
  }

  /// How this case takes a feature.
  pub fn mood(&self, feature: usize) -> u8 {
    self.swarm.get(feature).copied().unwrap_or(1)
  }

  /// `chance`, unless this case goes without the feature or makes much of it.
  pub fn feat(&mut self, feature: usize, num: u64, den: u64) -> bool {
    match self.mood(feature) {
      0 => false,
      2 => self.chance(7, 8),
      _ => self.chance(num, den),
    }
  }

  /// `n`, unless this case goes without the feature or makes much of it; then a number between
  /// the bounds.
  pub fn many(&mut self, feature: usize, few: (usize, usize), lots: (usize, usize), n: impl FnOnce(&mut Src) -> usize) -> usize {
    match self.mood(feature) {
      0 => self.range(few.0, few.1),
      2 => self.range(lots.0, lots.1),
      _ => n(self),
    }
  }

  pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
    let i = self.idx(items.len());
    &items[i]
  }

  /// Index drawn by weight; earlier is simpler.
  pub fn weighted(&mut self, w: &[u32]) -> usize {
    let total: u64 = w.iter().map(|x| *x as u64).sum();
    let mut v = self.below(total);
    for (i, x) in w.iter().enumerate() {
      if v < *x as u64 {
        return i;
      }
      v -= *x as u64;
    }
    0
  }

  /// A heavy-tailed size: mostly small, now and then up to `max`.
  pub fn size(&mut self, typical: usize, max: usize) -> usize {
    match self.below(16) {
      0..=12 => self.range(0, typical),
      13 | 14 => self.range(0, (typical * 3).min(max)),
      _ => self.range(0, max),
    }
  }

  pub fn shuffle<T>(&mut self, v: &mut [T]) {
    // all draws 0 keep the order
    for i in 0..v.len() {
      let j = i + self.idx(v.len() - i);
      v.swap(i, j);
    }
  }
}

/// Shrinks a failing tape; `fails` must return the normalised tape when the case still fails in
/// the same way. Work is bounded by `budget` evaluations.
pub fn shrink(mut best: Vec<u64>, budget: usize, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
  let mut used = 0;
  let key = |t: &Vec<u64>| (t.len(), t.iter().map(|x| (*x).min(1 << 40)).sum::<u64>());
  let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, used: &mut usize| -> bool {
    *used += 1;
    if let Some(norm) = fails(&cand) {
      let n = if key(&norm) < key(best) { norm } else { return false };
      *best = n;
      return true;
    }
    false
  };
  loop {
    let before = key(&best);
    // remove chunks
    let mut chunk = (best.len() / 2).max(1);
    while chunk >= 1 {
      let mut i = best.len().saturating_sub(chunk) as isize;
      while i >= 0 {
        if used >= budget {
          return best;
        }
        let iu = i as usize;
        if iu + chunk <= best.len() {
          let mut c = best.clone();
          c.drain(iu..iu + chunk);
          if !attempt(c, &mut best, &mut used) && chunk <= 4 && iu > 0 {
            // also lower the count that probably governs this chunk
            for back in 1..=3usize {
              if iu >= back && best.get(iu - back).copied().unwrap_or(0) > 0 && iu + chunk <= best.len() {
                let mut c = best.clone();
                c[iu - back] -= 1;
                c.drain(iu..iu + chunk);
                if attempt(c, &mut best, &mut used) {
                  break;
                }
              }
            }
          }
        }
        i -= chunk as isize;
      }
      if chunk == 1 {
        break;
      }
      chunk /= 2;
    }
    // zero runs
    for run in [8usize, 3, 1] {
      let mut i = 0;
      while i < best.len() {
        if used >= budget {
          return best;
        }
        let end = (i + run).min(best.len());
        if best[i..end].iter().any(|x| *x != 0) {
          let mut c = best.clone();
          for x in &mut c[i..end] {
            *x = 0;
          }
          attempt(c, &mut best, &mut used);
        }
        i += run;
      }
    }
    // lower single values
    let mut i = 0;
    while i < best.len() {
      let (mut lo, mut hi) = (0u64, best[i]);
      while lo < hi && i < best.len() {
        if used >= budget {
          return best;
        }
        let mid = lo + (hi - lo) / 2;
        let mut c = best.clone();
        c[i] = mid;
        if attempt(c, &mut best, &mut used) {
          hi = mid;
        } else {
          lo = mid + 1;
        }
      }
      i += 1;
    }
    if key(&best) == before {
      return best;
    }
  }
}
