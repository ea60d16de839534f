//! Stand-in for `cfg-symbol` (the `cfg` repository is not available offline).
use std::collections::HashMap;
use std::fmt;
use std::marker::PhantomData;
use std::num::NonZero;
use std::rc::Rc;

pub trait SymbolPrimitive: Copy + Eq + Ord + std::hash::Hash + fmt::Debug {
    fn to_usize(self) -> usize;
    fn from_usize(n: usize) -> Self;
}

/// Stored with an offset of one, so that `Option<Symbol>` is as small as `Symbol`.
impl SymbolPrimitive for NonZero<u32> {
    fn to_usize(self) -> usize {
        (self.get() - 1) as usize
    }
    fn from_usize(n: usize) -> Self {
        NonZero::new(u32::try_from(n + 1).expect("symbol id too large")).unwrap()
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Symbol<T: SymbolPrimitive = NonZero<u32>> {
    n: T,
}

impl<T: SymbolPrimitive> Symbol<T> {
    #[inline]
    pub fn usize(self) -> usize {
        self.n.to_usize()
    }
}

impl Symbol {
    /// Inverse of `usize` for symbols that fit in 32 bits.
    #[inline]
    pub fn from_raw(n: u32) -> Self {
        Symbol {
            n: SymbolPrimitive::from_usize(n as usize),
        }
    }
}

impl<T: SymbolPrimitive> Default for Symbol<T> {
    fn default() -> Self {
        Symbol { n: T::from_usize(0) }
    }
}

impl<T: SymbolPrimitive> fmt::Debug for Symbol<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "g{}", self.usize())
    }
}

impl<T: SymbolPrimitive> fmt::Display for Symbol<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "g{}", self.usize())
    }
}

#[cfg(feature = "serde")]
impl serde::Serialize for Symbol {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.usize() as u32)
    }
}

#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for Symbol {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Symbol::from_raw(<u32 as serde::Deserialize>::deserialize(d)?))
    }
}

mod mini {
    use super::Symbol;
    use miniserde::de::{Deserialize, Visitor};
    use miniserde::ser::{Fragment, Serialize};
    use miniserde::{make_place, Error, Result};

    impl Serialize for Symbol {
        fn begin(&self) -> Fragment<'_> {
            Fragment::U64(self.usize() as u64)
        }
    }

    make_place!(Place);

    impl Visitor for Place<Symbol> {
        fn nonnegative(&mut self, n: u64) -> Result<()> {
            if n >= u32::MAX as u64 {
                return Err(Error);
            }
            self.out = Some(Symbol::from_raw(n as u32));
            Ok(())
        }
    }

    impl Deserialize for Symbol {
        fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
            Place::new(out)
        }
    }
}

pub type SymbolName = Rc<str>;

/// A source of symbols 0, 1, 2, ... with optional names.
#[derive(Clone, Debug)]
pub struct SymbolSource<T: SymbolPrimitive = NonZero<u32>> {
    names: Vec<Option<SymbolName>>,
    marker: PhantomData<T>,
}

impl<T: SymbolPrimitive> Default for SymbolSource<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T: SymbolPrimitive> SymbolSource<T> {
    pub fn new() -> Self {
        SymbolSource {
            names: vec![],
            marker: PhantomData,
        }
    }
    /// Every symbol in order, starting with symbol 0.
    pub fn generate_fresh() -> impl Iterator<Item = Symbol<T>> + Clone {
        (0..u32::MAX as usize - 1).map(|n| Symbol { n: T::from_usize(n) })
    }
    pub fn num_syms(&self) -> usize {
        self.names.len()
    }
    pub fn next_sym(&mut self, name: Option<&str>) -> Symbol<T> {
        self.names.push(name.map(Rc::from));
        Symbol {
            n: T::from_usize(self.names.len() - 1),
        }
    }
    pub fn sym<const N: usize>(&mut self) -> [Symbol<T>; N] {
        [(); N].map(|()| self.next_sym(None))
    }
    pub fn with_names<const N: usize>(&mut self, names: [Option<&str>; N]) -> [Symbol<T>; N] {
        names.map(|name| self.next_sym(name))
    }
    pub fn names(&self) -> impl Iterator<Item = Option<SymbolName>> + '_ {
        self.names.iter().cloned()
    }
    pub fn name_of(&self, sym: Symbol<T>) -> Option<SymbolName> {
        self.names[sym.usize()].clone()
    }
    pub fn name_map(&self) -> HashMap<SymbolName, Symbol<T>> {
        self.names
            .iter()
            .enumerate()
            .filter_map(|(i, name)| Some((name.clone()?, Symbol { n: T::from_usize(i) })))
            .collect()
    }
    /// Renumbers: new symbol `i` takes the name of old symbol `old[i]`.
    pub fn permute(&mut self, old: &[Symbol<T>]) {
        self.names = old.iter().map(|s| self.names[s.usize()].clone()).collect();
    }
}

pub mod intern {
    use super::Symbol;

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(miniserde::Serialize, miniserde::Deserialize, Clone, Default, Debug)]
    pub struct Mapping {
        pub to_internal: Vec<Option<Symbol>>,
        pub to_external: Vec<Symbol>,
    }
}
