//! A small exact difference-bound matrix, written for the oracles (not shared with the stand-in
//! library that the code under test uses).
use crate::rng::Rng;

/// Clock values and constants are scaled by this, so that sampled points fit between integers.
pub const SC: i64 = 1 << 14;
const INF: i64 = i64::MAX / 4;
const LE0: i64 = 1;

/// `<= c` or `< c` for a scaled c.
pub fn bound(c: i64, strict: bool) -> i64 {
    (c << 1) | (!strict) as i64
}

fn add(a: i64, b: i64) -> i64 {
    if a >= INF || b >= INF {
        INF
    } else {
        (((a >> 1) + (b >> 1)) << 1) | (a & b & 1)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dbm {
    n: usize,
    m: Vec<i64>,
    empty: bool,
}

impl Dbm {
    /// All clocks at least 0; `clocks` does not count the zero clock.
    pub fn all(clocks: usize) -> Dbm {
        let n = clocks + 1;
        let mut m = vec![INF; n * n];
        for i in 0..n {
            m[i] = LE0;
            m[i * n + i] = LE0;
        }
        Dbm { n, m, empty: false }
    }
    pub fn zero(clocks: usize) -> Dbm {
        let n = clocks + 1;
        Dbm { n, m: vec![LE0; n * n], empty: false }
    }
    pub fn is_empty(&self) -> bool {
        self.empty
    }
    /// Forgets what lies beyond the largest constants (negative: the clock is never looked at).
    pub fn extrapolate(&mut self, max: &[i64]) {
        if self.empty {
            return;
        }
        let n = self.n;
        for c in 1..n {
            if max[c - 1] < 0 {
                self.free(c);
            }
        }
        let m = |i: usize| if i == 0 { 0 } else { max[i - 1].max(0) };
        let mut changed = false;
        for i in 0..n {
            for j in 0..n {
                let b = self.at(i, j);
                if i == j || b >= INF {
                    continue;
                }
                if i != 0 && b > bound(m(i), false) {
                    self.m[i * n + j] = INF;
                    changed = true;
                } else if b < bound(-m(j), true) {
                    self.m[i * n + j] = bound(-m(j), true);
                    changed = true;
                }
            }
        }
        if changed {
            for k in 0..n {
                for i in 0..n {
                    for j in 0..n {
                        let b = add(self.at(i, k), self.at(k, j));
                        if b < self.at(i, j) {
                            self.m[i * n + j] = b;
                        }
                    }
                }
            }
        }
    }
    pub fn includes(&self, o: &Dbm) -> bool {
        o.empty || (!self.empty && self.m.iter().zip(&o.m).all(|(a, b)| a >= b))
    }
    pub fn unbounded(&self, clock: usize) -> bool {
        self.at(clock, 0) >= INF
    }
    fn at(&self, i: usize, j: usize) -> i64 {
        self.m[i * self.n + j]
    }
    /// Clock i minus clock j within b (0 is the zero clock).
    pub fn and(&mut self, i: usize, j: usize, b: i64) {
        if self.empty || b >= self.at(i, j) {
            return;
        }
        if add(b, self.at(j, i)) < LE0 {
            self.empty = true;
            return;
        }
        let n = self.n;
        self.m[i * n + j] = b;
        for x in 0..n {
            for y in 0..n {
                let v = add(add(self.at(x, i), b), self.at(j, y));
                if v < self.m[x * n + y] {
                    self.m[x * n + y] = v;
                }
            }
        }
        for x in 0..n {
            if self.at(x, x) < LE0 {
                self.empty = true;
            }
        }
    }
    pub fn fix(&mut self, clock: usize, v: i64) {
        self.and(clock, 0, bound(v, false));
        self.and(0, clock, bound(-v, false));
    }
    pub fn up(&mut self) {
        for i in 1..self.n {
            self.m[i * self.n] = INF;
        }
    }
    pub fn free(&mut self, x: usize) {
        let n = self.n;
        for i in 0..n {
            if i != x {
                self.m[x * n + i] = INF;
                self.m[i * n + x] = self.at(i, 0);
            }
        }
        self.m[x] = LE0;
    }
    pub fn reset(&mut self, x: usize, v: i64) {
        let n = self.n;
        for i in 0..n {
            if i != x {
                self.m[x * n + i] = add(bound(v, false), self.at(0, i));
                self.m[i * n + x] = add(self.at(i, 0), bound(-v, false));
            }
        }
    }
    pub fn has(&self, v: &[i64]) -> bool {
        if self.empty {
            return false;
        }
        let val = |i: usize| if i == 0 { 0 } else { v[i - 1] };
        for i in 0..self.n {
            for j in 0..self.n {
                let b = self.at(i, j);
                if b < INF {
                    let d = val(i) - val(j);
                    if d > b >> 1 || (d == b >> 1 && b & 1 == 0) {
                        return false;
                    }
                }
            }
        }
        true
    }
    /// A point of the zone: clocks in random order, each at a bound, close to one, or in between.
    pub fn sample(&self, r: &mut Rng) -> Option<Vec<i64>> {
        if self.empty {
            return None;
        }
        let mut z = self.clone();
        let mut order: Vec<usize> = (1..self.n).collect();
        r.shuffle(&mut order);
        let mut v = vec![0; self.n - 1];
        for x in order {
            let lo = -(z.at(0, x) >> 1);
            let lo_strict = z.at(0, x) & 1 == 0;
            let hb = z.at(x, 0);
            let (hi, hi_strict) = if hb >= INF { (lo.max(0) + 3 * SC, true) } else { (hb >> 1, hb & 1 == 0) };
            let w = hi - lo;
            let mut cands = vec![];
            if !lo_strict {
                cands.push(lo);
            }
            if !hi_strict {
                cands.push(hi);
            }
            if w >= 2 {
                cands.push(lo + w / 2);
                cands.push(lo + w / 2);
                if w >= 16 {
                    cands.push(lo + w / 8);
                    cands.push(hi - w / 8);
                }
                // an integer inside
                let k = (lo.div_euclid(SC) + 1 + r.below(3) as i64) * SC;
                if k > lo && k < hi {
                    cands.push(k);
                }
            }
            if cands.is_empty() {
                return None;
            }
            let c = *r.pick(&cands);
            v[x - 1] = c;
            z.fix(x, c);
            if z.empty {
                return None;
            }
        }
        Some(v)
    }
    /// Keeps the points from which some point of the zone with these clock values fixed remains.
    pub fn can(&self, fixed: &[(usize, i64)]) -> bool {
        let mut z = self.clone();
        for (c, v) in fixed {
            z.fix(*c, *v);
        }
        !z.empty
    }
}

#[derive(Clone, Debug, Default)]
pub struct Fed(pub Vec<Dbm>);

impl Fed {
    pub fn has(&self, v: &[i64]) -> bool {
        self.0.iter().any(|z| z.has(v))
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|z| z.is_empty())
    }
    /// What is in this one and not in the other; None if that grows too large.
    pub fn minus(&self, o: &Fed) -> Option<Fed> {
        let mut cur: Vec<Dbm> = self.0.iter().filter(|z| !z.is_empty()).cloned().collect();
        for b in o.0.iter().filter(|z| !z.is_empty()) {
            let mut next = vec![];
            for a in cur {
                let mut rest = a;
                for i in 0..b.n {
                    for j in 0..b.n {
                        let c = b.at(i, j);
                        if i == j || c >= INF || rest.is_empty() {
                            continue;
                        }
                        // the part outside this bound: j - i < -c, or <= if the bound is strict
                        let mut out = rest.clone();
                        out.and(j, i, bound(-(c >> 1), c & 1 == 1));
                        if !out.is_empty() {
                            next.push(out);
                        }
                        rest.and(i, j, c);
                    }
                }
                if next.len() > 4000 {
                    return None;
                }
            }
            cur = next;
        }
        Some(Fed(cur))
    }
    pub fn and(&self, o: &Fed) -> Fed {
        let mut v = vec![];
        for a in &self.0 {
            for b in &o.0 {
                let mut z = a.clone();
                for i in 0..z.n {
                    for j in 0..z.n {
                        if i != j {
                            z.and(i, j, b.at(i, j));
                        }
                    }
                }
                if !z.is_empty() && !b.is_empty() {
                    v.push(z);
                }
            }
        }
        Fed(v)
    }
    pub fn sample(&self, r: &mut Rng) -> Option<Vec<i64>> {
        let v: Vec<&Dbm> = self.0.iter().filter(|z| !z.is_empty()).collect();
        if v.is_empty() {
            return None;
        }
        r.pick(&v).sample(r)
    }
}
