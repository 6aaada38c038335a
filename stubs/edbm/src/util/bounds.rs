use super::constraints::ClockIndex;
use std::fmt;

/// Upper and lower bound constants per clock.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bounds {
    pub dim: ClockIndex,
    upper: Vec<Option<i32>>,
    lower: Vec<Option<i32>>,
}

impl Bounds {
    pub fn new(dim: ClockIndex) -> Self {
        Bounds { dim, upper: vec![None; dim], lower: vec![None; dim] }
    }
    pub fn add_upper(&mut self, clock: ClockIndex, bound: i32) {
        if clock < self.dim {
            self.upper[clock] = Some(self.upper[clock].map_or(bound, |b| b.max(bound)));
        }
    }
    pub fn add_lower(&mut self, clock: ClockIndex, bound: i32) {
        if clock < self.dim {
            self.lower[clock] = Some(self.lower[clock].map_or(bound, |b| b.max(bound)));
        }
    }
    pub fn get_upper(&self, clock: ClockIndex) -> Option<i32> {
        self.upper.get(clock).copied().flatten()
    }
    pub fn get_lower(&self, clock: ClockIndex) -> Option<i32> {
        self.lower.get(clock).copied().flatten()
    }
    pub fn add_bounds(&mut self, other: &Bounds) {
        for c in 0..self.dim.min(other.dim) {
            if let Some(b) = other.upper[c] {
                self.add_upper(c, b);
            }
            if let Some(b) = other.lower[c] {
                self.add_lower(c, b);
            }
        }
    }
    /// The largest constant any constraint compares the clock with (0 if none).
    pub fn max(&self, clock: ClockIndex) -> i32 {
        self.get_upper(clock).unwrap_or(0).max(self.get_lower(clock).unwrap_or(0)).max(0)
    }
}

impl fmt::Display for Bounds {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
