use crate::util::bounds::Bounds;
use crate::util::constraints::*;
use std::fmt;
use std::ops;

/// A canonical, non-empty zone: `m[i*dim+j]` bounds `x_i - x_j`.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Zone {
    dim: usize,
    m: Vec<RawInequality>,
}

impl Zone {
    fn universe(dim: usize) -> Zone {
        let mut m = vec![INF; dim * dim];
        for i in 0..dim {
            m[i * dim + i] = LE_ZERO;
            m[i] = LE_ZERO;
        }
        Zone { dim, m }
    }
    fn zero(dim: usize) -> Zone {
        Zone { dim, m: vec![LE_ZERO; dim * dim] }
    }
    #[inline]
    fn at(&self, i: usize, j: usize) -> RawInequality {
        self.m[i * self.dim + j]
    }
    #[inline]
    fn set(&mut self, i: usize, j: usize, v: RawInequality) {
        self.m[i * self.dim + j] = v
    }
    /// Canonicalise after arbitrary changes; `None` if empty.
    fn close(mut self) -> Option<Zone> {
        let n = self.dim;
        for k in 0..n {
            for i in 0..n {
                let ik = self.at(i, k);
                if ik.is_inf() {
                    continue;
                }
                for j in 0..n {
                    let s = ik.add(self.at(k, j));
                    if s < self.at(i, j) {
                        self.set(i, j, s);
                    }
                }
            }
            for i in 0..n {
                if self.at(i, i) < LE_ZERO {
                    return None;
                }
            }
        }
        Some(self)
    }
    /// Intersect with one constraint; `None` if empty.
    fn constrain(mut self, i: usize, j: usize, b: RawInequality) -> Option<Zone> {
        if i == j {
            return if b < LE_ZERO { None } else { Some(self) };
        }
        if b >= self.at(i, j) {
            return Some(self);
        }
        if b.add(self.at(j, i)) < LE_ZERO {
            return None;
        }
        self.set(i, j, b);
        let n = self.dim;
        for p in 0..n {
            let pi = self.at(p, i);
            if pi.is_inf() {
                continue;
            }
            let pib = pi.add(b);
            for q in 0..n {
                let s = pib.add(self.at(j, q));
                if s < self.at(p, q) {
                    self.set(p, q, s);
                }
            }
        }
        Some(self)
    }
    fn intersection(&self, o: &Zone) -> Option<Zone> {
        let mut r = self.clone();
        let mut changed = false;
        for (a, b) in r.m.iter_mut().zip(o.m.iter()) {
            if *b < *a {
                *a = *b;
                changed = true;
            }
        }
        if changed {
            r.close()
        } else {
            Some(r)
        }
    }
    fn subset_eq(&self, o: &Zone) -> bool {
        self.m.iter().zip(o.m.iter()).all(|(a, b)| a <= b)
    }
    fn up(mut self) -> Zone {
        for i in 1..self.dim {
            self.set(i, 0, INF);
        }
        self
    }
    fn down(mut self) -> Zone {
        for i in 1..self.dim {
            let mut b = LE_ZERO;
            for j in 1..self.dim {
                let v = self.at(j, i);
                if v < b {
                    b = v;
                }
            }
            self.set(0, i, b);
        }
        self.close().expect("down of a non-empty zone is non-empty")
    }
    fn free(mut self, c: usize) -> Zone {
        for k in 0..self.dim {
            if k != c {
                self.set(c, k, INF);
                let v = self.at(k, 0);
                self.set(k, c, v);
            }
        }
        self.set(0, c, LE_ZERO);
        self.close().expect("free of a non-empty zone is non-empty")
    }
    fn can_delay_indefinitely(&self) -> bool {
        (1..self.dim).all(|i| self.at(i, 0).is_inf())
    }
    /// `self \ o` as disjoint zones.
    fn subtract(&self, o: &Zone) -> Vec<Zone> {
        if self.intersection(o).is_none() {
            return vec![self.clone()];
        }
        let mut out = vec![];
        let mut rest = self.clone();
        for (i, j, b) in o.minimal() {
            if b >= rest.at(i, j) {
                continue;
            }
            if let Some(piece) = rest.clone().constrain(j, i, b.negated()) {
                out.push(piece);
            }
            match rest.constrain(i, j, b) {
                Some(r) => rest = r,
                None => return out,
            }
        }
        out
    }
    /// A minimal set of constraints that (with non-negativity of clocks) defines the zone.
    fn minimal(&self) -> Vec<(usize, usize, RawInequality)> {
        let n = self.dim;
        // Equivalence classes of clocks at fixed difference.
        let mut class = vec![usize::MAX; n];
        let mut reps = vec![];
        for i in 0..n {
            if class[i] != usize::MAX {
                continue;
            }
            reps.push(i);
            class[i] = i;
            for j in i + 1..n {
                if class[j] == usize::MAX
                    && !self.at(i, j).is_inf()
                    && self.at(i, j).add(self.at(j, i)) == LE_ZERO
                {
                    class[j] = i;
                }
            }
        }
        let mut keep = vec![];
        for &i in &reps {
            for &j in &reps {
                if i == j || self.at(i, j).is_inf() {
                    continue;
                }
                let redundant = reps
                    .iter()
                    .any(|&k| k != i && k != j && self.at(i, k).add(self.at(k, j)) <= self.at(i, j));
                if !redundant {
                    keep.push((i, j, self.at(i, j)));
                }
            }
        }
        for &r in &reps {
            let members: Vec<_> = (0..n).filter(|&x| class[x] == r).collect();
            if members.len() > 1 {
                for w in 0..members.len() {
                    let (a, b) = (members[w], members[(w + 1) % members.len()]);
                    keep.push((a, b, self.at(a, b)));
                }
            }
        }
        // x >= 0 is implied by the clock domain
        let base = Zone::universe(n);
        keep.retain(|&(i, j, b)| b < base.at(i, j));
        keep.sort_by_key(|&(i, j, _)| (i, j));
        keep
    }
    fn extrapolate(mut self, bounds: &Bounds) -> Zone {
        let n = self.dim;
        let max: Vec<i64> = (0..n).map(|i| if i == 0 { 0 } else { bounds.max(i) as i64 }).collect();
        let mut changed = false;
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    continue;
                }
                let b = self.at(i, j);
                if b.is_inf() {
                    continue;
                }
                if i != 0 && b.wide_bound() > max[i] {
                    self.set(i, j, INF);
                    changed = true;
                } else if b.wide_bound() < -max[j] {
                    self.set(i, j, RawInequality::ls(-max[j]));
                    changed = true;
                }
            }
        }
        if changed {
            self.close().expect("extrapolation only grows zones")
        } else {
            self
        }
    }
}

/// A finite union of zones, always kept exact.
#[derive(Clone, Debug)]
pub struct OwnedFederation {
    dim: ClockIndex,
    zones: Vec<Zone>,
}

fn diff(a: &[Zone], b: &[Zone]) -> Vec<Zone> {
    let mut cur = a.to_vec();
    for z in b {
        if cur.is_empty() {
            break;
        }
        let mut next = vec![];
        for c in &cur {
            next.extend(c.subtract(z));
        }
        cur = next;
    }
    cur
}

impl OwnedFederation {
    fn of(dim: ClockIndex, zones: Vec<Zone>) -> Self {
        let mut f = OwnedFederation { dim, zones: Vec::with_capacity(zones.len()) };
        for z in zones {
            f.add_zone(z);
        }
        f
    }
    fn add_zone(&mut self, z: Zone) {
        if self.zones.iter().any(|o| z.subset_eq(o)) {
            return;
        }
        self.zones.retain(|o| !o.subset_eq(&z));
        self.zones.push(z);
    }
    fn map(self, f: impl Fn(Zone) -> Option<Zone>) -> Self {
        let dim = self.dim;
        Self::of(dim, self.zones.into_iter().filter_map(f).collect())
    }
    fn check(&self, o: &Self) {
        assert_eq!(self.dim, o.dim, "federations must have the same dimension");
    }
    fn check_clock(&self, c: ClockIndex) {
        assert!(c < self.dim, "clock {c} out of range for dimension {}", self.dim);
    }

    pub fn universe(dim: ClockIndex) -> Self {
        assert!(dim > 0);
        OwnedFederation { dim, zones: vec![Zone::universe(dim)] }
    }
    pub fn empty(dim: ClockIndex) -> Self {
        assert!(dim > 0);
        OwnedFederation { dim, zones: vec![] }
    }
    /// All clocks zero, then any delay: what the original's `init` denotes.
    pub fn init(dim: ClockIndex) -> Self {
        assert!(dim > 0);
        OwnedFederation { dim, zones: vec![Zone::zero(dim).up()] }
    }
    pub fn zero(dim: ClockIndex) -> Self {
        assert!(dim > 0);
        OwnedFederation { dim, zones: vec![Zone::zero(dim)] }
    }
    pub fn dim(&self) -> ClockIndex {
        self.dim
    }
    pub fn size(&self) -> usize {
        self.zones.len()
    }
    pub fn set_empty(mut self) -> Self {
        self.zones.clear();
        self
    }
    pub fn set_universe(self) -> Self {
        Self::universe(self.dim)
    }
    pub fn set_init(self) -> Self {
        Self::init(self.dim)
    }
    pub fn set_zero(self) -> Self {
        Self::zero(self.dim)
    }
    pub fn is_empty(&self) -> bool {
        self.zones.is_empty()
    }
    pub fn is_universe(&self) -> bool {
        diff(&[Zone::universe(self.dim)], &self.zones).is_empty()
    }
    pub fn is_init(&self) -> bool {
        self.equals(&Self::init(self.dim))
    }
    pub fn subset_eq(&self, o: &Self) -> bool {
        self.check(o);
        diff(&self.zones, &o.zones).is_empty()
    }
    pub fn superset_eq(&self, o: &Self) -> bool {
        o.subset_eq(self)
    }
    pub fn equals(&self, o: &Self) -> bool {
        self.subset_eq(o) && o.subset_eq(self)
    }
    pub fn has_intersection(&self, o: &Self) -> bool {
        self.check(o);
        self.zones.iter().any(|a| o.zones.iter().any(|b| a.intersection(b).is_some()))
    }
    pub fn intersects(&self, o: &Self) -> bool {
        self.has_intersection(o)
    }
    pub fn intersection(&self, o: &Self) -> Self {
        self.check(o);
        let mut out = vec![];
        for a in &self.zones {
            for b in &o.zones {
                out.extend(a.intersection(b));
            }
        }
        Self::of(self.dim, out)
    }
    pub fn union(&self, o: &Self) -> Self {
        self.check(o);
        let mut r = self.clone();
        for z in &o.zones {
            r.add_zone(z.clone());
        }
        r
    }
    pub fn subtraction(&self, o: &Self) -> Self {
        self.check(o);
        Self::of(self.dim, diff(&self.zones, &o.zones))
    }
    pub fn inverse(&self) -> Self {
        Self::universe(self.dim).subtraction(self)
    }
    pub fn constrain(self, i: ClockIndex, j: ClockIndex, ineq: Inequality) -> Self {
        self.constrain_raw(i, j, ineq.into())
    }
    pub fn constrain_raw(self, i: ClockIndex, j: ClockIndex, b: RawInequality) -> Self {
        self.check_clock(i);
        self.check_clock(j);
        self.map(|z| z.constrain(i, j, b))
    }
    pub fn constrain_eq(self, c: ClockIndex, val: i32) -> Self {
        self.constrain(c, 0, Inequality::LE(val)).constrain(0, c, Inequality::LE(-val))
    }
    pub fn constrain_many(self, cs: Vec<Constraint>) -> Self {
        cs.into_iter().fold(self, |f, c| f.constrain_raw(c.i, c.j, c.inequality))
    }
    pub fn satisfies(&self, i: ClockIndex, j: ClockIndex, ineq: Inequality) -> bool {
        !self.clone().constrain(i, j, ineq).is_empty()
    }
    pub fn update_clock_val(self, c: ClockIndex, val: i32) -> Self {
        self.free_clock(c).constrain_eq(c, val)
    }
    pub fn update_clock_clock(self, x: ClockIndex, y: ClockIndex) -> Self {
        if x == y {
            return self;
        }
        self.free_clock(x).constrain(x, y, Inequality::LE(0)).constrain(y, x, Inequality::LE(0))
    }
    pub fn free_clock(self, c: ClockIndex) -> Self {
        self.check_clock(c);
        if c == 0 {
            return self;
        }
        self.map(|z| Some(z.free(c)))
    }
    pub fn up(self) -> Self {
        self.map(|z| Some(z.up()))
    }
    pub fn down(self) -> Self {
        self.map(|z| Some(z.down()))
    }
    pub fn delay(self) -> Self {
        self.up()
    }
    pub fn can_delay_indefinitely(&self) -> bool {
        self.zones.iter().any(|z| z.can_delay_indefinitely())
    }
    pub fn extrapolate_max_bounds(self, bounds: &Bounds) -> Self {
        self.map(|z| Some(z.extrapolate(bounds)))
    }
    /// The constants the federation compares clocks with.
    pub fn get_bounds(&self) -> Bounds {
        let mut b = Bounds::new(self.dim);
        for z in &self.zones {
            for i in 1..self.dim {
                let u = z.at(i, 0);
                if !u.is_inf() {
                    b.add_upper(i, u.bound().abs());
                }
                let l = z.at(0, i);
                b.add_lower(i, -l.bound());
            }
        }
        b
    }
    /// States of which a delay leads into `self` while `avoid` is not touched on the way.
    pub fn predt(&self, avoid: &Self) -> Self {
        self.check(avoid);
        let one = |z: Zone| Self::of(self.dim, vec![z]);
        let mut result = Self::empty(self.dim);
        for g in &self.zones {
            let good = one(g.clone());
            let mut acc = good.clone().down();
            for b in &avoid.zones {
                let bad = one(b.clone());
                let bdown = bad.clone().down();
                let clear = good.clone().down().subtraction(&bdown);
                let before = good.intersection(&bdown).subtraction(&bad).down();
                acc = acc.intersection(&clear.union(&before.subtraction(&bad)));
            }
            result = result.union(&acc);
        }
        result
    }
    pub fn reduce(self, _try_everything: bool) -> Self {
        self
    }
    pub fn expensive_reduce(self) -> Self {
        let dim = self.dim;
        let mut zones = self.zones;
        let mut n = 0;
        while n < zones.len() {
            let z = zones.remove(n);
            if diff(&[z.clone()], &zones).is_empty() {
                continue;
            }
            zones.insert(n, z);
            n += 1;
        }
        OwnedFederation { dim, zones }
    }
    pub fn merge_exact_reduce(self) -> Self {
        self
    }
    pub fn minimal_constraints(&self) -> Disjunction {
        let f = self.clone().expensive_reduce();
        Disjunction::new(
            f.zones
                .iter()
                .map(|z| {
                    Conjunction::new(
                        z.minimal().into_iter().map(|(i, j, b)| Constraint::new(i, j, b)).collect(),
                    )
                })
                .collect(),
        )
    }
    pub fn from_disjunction(d: &Disjunction, dim: ClockIndex) -> Self {
        let mut f = Self::empty(dim);
        for c in &d.conjunctions {
            let part = Self::universe(dim).constrain_many(c.constraints.clone());
            f = f.union(&part);
        }
        f
    }
}

impl ops::Add for OwnedFederation {
    type Output = OwnedFederation;
    fn add(self, o: Self) -> Self {
        self.union(&o)
    }
}
impl ops::Add<&OwnedFederation> for OwnedFederation {
    type Output = OwnedFederation;
    fn add(self, o: &Self) -> Self {
        self.union(o)
    }
}
impl ops::AddAssign for OwnedFederation {
    fn add_assign(&mut self, o: Self) {
        *self = self.union(&o);
    }
}
impl ops::AddAssign<&OwnedFederation> for OwnedFederation {
    fn add_assign(&mut self, o: &Self) {
        *self = self.union(o);
    }
}
impl ops::Sub for OwnedFederation {
    type Output = OwnedFederation;
    fn sub(self, o: Self) -> Self {
        self.subtraction(&o)
    }
}
impl ops::Sub<&OwnedFederation> for OwnedFederation {
    type Output = OwnedFederation;
    fn sub(self, o: &Self) -> Self {
        self.subtraction(o)
    }
}
impl ops::SubAssign for OwnedFederation {
    fn sub_assign(&mut self, o: Self) {
        *self = self.subtraction(&o);
    }
}
impl ops::BitAnd for OwnedFederation {
    type Output = OwnedFederation;
    fn bitand(self, o: Self) -> Self {
        self.intersection(&o)
    }
}
impl ops::BitOr for OwnedFederation {
    type Output = OwnedFederation;
    fn bitor(self, o: Self) -> Self {
        self.union(&o)
    }
}
impl ops::Not for OwnedFederation {
    type Output = OwnedFederation;
    fn not(self) -> Self {
        self.inverse()
    }
}
impl ops::Not for &OwnedFederation {
    type Output = OwnedFederation;
    fn not(self) -> OwnedFederation {
        self.inverse()
    }
}
impl PartialEq for OwnedFederation {
    fn eq(&self, o: &Self) -> bool {
        self.dim == o.dim && self.equals(o)
    }
}
impl Eq for OwnedFederation {}

impl fmt::Display for OwnedFederation {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_empty() {
            return write!(f, "{{false}}");
        }
        write!(f, "{{{}}}", self.minimal_constraints())
    }
}
