use std::fmt;

pub type ClockIndex = usize;

/// An upper bound on a clock difference.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Inequality {
    /// Strict: less than
    LS(i32),
    /// Non-strict: less than or equal
    LE(i32),
}

impl Inequality {
    pub const fn bound(&self) -> i32 {
        match self {
            Inequality::LS(b) | Inequality::LE(b) => *b,
        }
    }
    pub const fn is_strict(&self) -> bool {
        matches!(self, Inequality::LS(_))
    }
}

impl fmt::Display for Inequality {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Inequality::LS(b) => write!(f, "<{b}"),
            Inequality::LE(b) => write!(f, "<={b}"),
        }
    }
}

/// A bound encoded so that comparison of encodings is comparison of bounds.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RawInequality(i64);

pub const INF: RawInequality = RawInequality(i64::MAX);
pub const LE_ZERO: RawInequality = RawInequality(1);
pub const LS_ZERO: RawInequality = RawInequality(0);

impl RawInequality {
    pub const fn from_inequality(ineq: &Inequality) -> Self {
        match ineq {
            Inequality::LS(b) => RawInequality((*b as i64) * 2),
            Inequality::LE(b) => RawInequality((*b as i64) * 2 + 1),
        }
    }
    pub const fn le(b: i64) -> Self {
        RawInequality(b * 2 + 1)
    }
    pub const fn ls(b: i64) -> Self {
        RawInequality(b * 2)
    }
    pub const fn is_inf(&self) -> bool {
        self.0 == i64::MAX
    }
    pub const fn is_strict(&self) -> bool {
        self.0 & 1 == 0
    }
    pub const fn bound(&self) -> i32 {
        (self.0 >> 1) as i32
    }
    pub const fn wide_bound(&self) -> i64 {
        self.0 >> 1
    }
    pub fn as_inequality(&self) -> Inequality {
        if self.is_strict() {
            Inequality::LS(self.bound())
        } else {
            Inequality::LE(self.bound())
        }
    }
    pub const fn add(self, o: Self) -> Self {
        if self.is_inf() || o.is_inf() {
            return INF;
        }
        let b = (self.0 >> 1) + (o.0 >> 1);
        RawInequality(b * 2 + ((self.0 & 1) & (o.0 & 1)))
    }
    /// The complement bound: not (x - y <~ b) is y - x <~' -b.
    pub const fn negated(self) -> Self {
        let b = -(self.0 >> 1);
        RawInequality(b * 2 + (1 - (self.0 & 1)))
    }
}

impl From<Inequality> for RawInequality {
    fn from(i: Inequality) -> Self {
        RawInequality::from_inequality(&i)
    }
}

/// `i - j <~ bound`.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Constraint {
    pub i: ClockIndex,
    pub j: ClockIndex,
    pub inequality: RawInequality,
}

impl Constraint {
    pub const fn new(i: ClockIndex, j: ClockIndex, inequality: RawInequality) -> Self {
        Constraint { i, j, inequality }
    }
    pub fn ineq(&self) -> Inequality {
        self.inequality.as_inequality()
    }
    pub fn raw_ineq(&self) -> RawInequality {
        self.inequality
    }
}

impl fmt::Display for Constraint {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "c{}-c{}{}", self.i, self.j, self.ineq())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Conjunction {
    pub constraints: Vec<Constraint>,
}

impl Conjunction {
    pub fn new(constraints: Vec<Constraint>) -> Self {
        Conjunction { constraints }
    }
    pub fn iter(&self) -> impl Iterator<Item = &Constraint> {
        self.constraints.iter()
    }
}

impl fmt::Display for Conjunction {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (n, c) in self.constraints.iter().enumerate() {
            if n > 0 {
                write!(f, " && ")?;
            }
            write!(f, "{c}")?;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Disjunction {
    pub conjunctions: Vec<Conjunction>,
}

impl Disjunction {
    pub fn new(conjunctions: Vec<Conjunction>) -> Self {
        Disjunction { conjunctions }
    }
    pub fn iter(&self) -> impl Iterator<Item = &Conjunction> {
        self.conjunctions.iter()
    }
}

impl fmt::Display for Disjunction {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (n, c) in self.conjunctions.iter().enumerate() {
            if n > 0 {
                write!(f, " || ")?;
            }
            write!(f, "({c})")?;
        }
        Ok(())
    }
}
