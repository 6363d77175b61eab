//! Adapters: every index type and every storage type of the library behind one harness-side interface, and the
//! reference model they are compared with (an index is the sequence of its cell numbers).
//! Nothing here uses the library's own bit tricks, number conversions or axis tables.
use crate::ctx::*;
use crate::ens;
use morton_index::dimensions::{Dim2D, Dim3D, Dimension, Octant, OctantOrdering, Quadrant, QuadrantOrdering};
use morton_index::nalgebra::{Vector2, Vector3};
pub use morton_index::{
    DynamicStorage2D, DynamicStorage3D, FixedDepthStorage2D, FixedDepthStorage3D, MortonIndex2D, MortonIndex3D,
    StaticStorage2D, StaticStorage3D,
};
use morton_index::{Error, MortonIndex, MortonIndexNaming, Storage, VariableDepthMortonIndex, VariableDepthStorage};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;
use std::num::NonZeroUsize;

pub const WORD: usize = usize::BITS as usize;

// ---------------------------------------------------------------- dimensions
pub trait Dm: Sized + 'static {
    type L: Dimension<Cell = Self::C, GridIndex = Self::G, CellOrdering = Self::O>;
    type C: Copy + Ord + Debug + Hash + Send + Sync + 'static;
    type G: Clone + PartialEq + Debug;
    type O;
    const N: usize;
    const NC: u8;
    const NAME: &'static str;
    /// letter i names the axis taken from bit i of a cell
    const ORDS: &'static [&'static str];
    fn c(i: u8) -> Self::C;
    fn i(c: Self::C) -> u8;
    fn o(i: usize) -> Self::O;
    fn g(g: [usize; 3]) -> Self::G;
    fn ug(g: &Self::G) -> [usize; 3];
}
/// For each axis (X, Y, Z) the bit of the cell number it is taken from, from the ordering's documented name.
pub fn bitpos<D: Dm>(o: usize) -> [usize; 3] {
    let mut r = [0; 3];
    for (bit, ch) in D::ORDS[o].bytes().enumerate() {
        r[(ch - b'X') as usize] = bit;
    }
    r
}

pub struct Two;
impl Dm for Two {
    type L = Dim2D;
    type C = Quadrant;
    type G = Vector2<usize>;
    type O = QuadrantOrdering;
    const N: usize = 2;
    const NC: u8 = 4;
    const NAME: &'static str = "2D";
    const ORDS: &'static [&'static str] = &["XY", "YX"];
    fn c(i: u8) -> Quadrant {
        [Quadrant::Zero, Quadrant::One, Quadrant::Two, Quadrant::Three][i as usize]
    }
    fn i(c: Quadrant) -> u8 {
        match c {
            Quadrant::Zero => 0,
            Quadrant::One => 1,
            Quadrant::Two => 2,
            Quadrant::Three => 3,
        }
    }
    fn o(i: usize) -> QuadrantOrdering {
        match i {
            0 => QuadrantOrdering::XY,
            _ => QuadrantOrdering::YX,
        }
    }
    fn g(g: [usize; 3]) -> Vector2<usize> {
        Vector2::new(g[0], g[1])
    }
    fn ug(g: &Vector2<usize>) -> [usize; 3] {
        [g.x, g.y, 0]
    }
}

pub struct Three;
impl Dm for Three {
    type L = Dim3D;
    type C = Octant;
    type G = Vector3<usize>;
    type O = OctantOrdering;
    const N: usize = 3;
    const NC: u8 = 8;
    const NAME: &'static str = "3D";
    const ORDS: &'static [&'static str] = &["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX"];
    fn c(i: u8) -> Octant {
        [
            Octant::Zero,
            Octant::One,
            Octant::Two,
            Octant::Three,
            Octant::Four,
            Octant::Five,
            Octant::Six,
            Octant::Seven,
        ][i as usize]
    }
    fn i(c: Octant) -> u8 {
        match c {
            Octant::Zero => 0,
            Octant::One => 1,
            Octant::Two => 2,
            Octant::Three => 3,
            Octant::Four => 4,
            Octant::Five => 5,
            Octant::Six => 6,
            Octant::Seven => 7,
        }
    }
    fn o(i: usize) -> OctantOrdering {
        match i {
            0 => OctantOrdering::XYZ,
            1 => OctantOrdering::XZY,
            2 => OctantOrdering::YXZ,
            3 => OctantOrdering::YZX,
            4 => OctantOrdering::ZXY,
            _ => OctantOrdering::ZYX,
        }
    }
    fn g(g: [usize; 3]) -> Vector3<usize> {
        Vector3::new(g[0], g[1], g[2])
    }
    fn ug(g: &Vector3<usize>) -> [usize; 3] {
        [g.x, g.y, g.z]
    }
}

// ---------------------------------------------------------------- subjects
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Fixed,
    Static,
    Dyn,
}

pub type Cells<S> = Vec<<<S as Sub>::D as Dm>::C>;

/// A type under test. `Option`s that are `None` mean "this type does not offer the operation".
pub trait Sub: Clone + Default + Ord + Eq + Hash + Debug + 'static {
    type D: Dm;
    const NAME: &'static str;
    const KIND: Kind;
    /// capacity in levels, computed by the harness from the storage width
    const CAP: Option<usize>;
    /// storage width in bits (0: dynamic)
    const BITS_W: usize;
    /// is it one of the MortonIndex types (as opposed to a bare storage)?
    const INDEX: bool;

    fn slice(c: &[<Self::D as Dm>::C]) -> Result<Self, Error>;
    fn array(c: &[<Self::D as Dm>::C]) -> Option<Result<Self, Error>>;
    fn zero(depth: usize) -> Option<Option<Self>>;
    fn depth(&self) -> usize;
    /// checked get (bare storages: unchecked, the harness stays inside the contract)
    fn get(&self, l: usize) -> <Self::D as Dm>::C;
    fn get_u(&self, l: usize) -> <Self::D as Dm>::C;
    fn set(&mut self, l: usize, c: <Self::D as Dm>::C);
    fn set_u(&mut self, l: usize, c: <Self::D as Dm>::C);
    /// cells by iteration, at most `limit` of them
    fn iter(&self, limit: usize) -> Cells<Self>;
    /// the other ways an iterator is consumed agree with `cells`
    fn iter_laws(&self, cells: &[<Self::D as Dm>::C]) -> Result<(), String>;
    /// folds the cells as iterated, without collecting them
    fn walk(&self) -> (usize, u64);
    fn max_depth() -> Option<usize>;
    /// (name, reported, expected) of the constants that speak about the capacity
    fn consts() -> Vec<(&'static str, usize, usize)>;

    fn grid_new(_g: [usize; 3], _depth: usize, _o: usize) -> Option<Result<Self, Error>> {
        None
    }
    fn to_grid(&self, _o: usize) -> Option<[usize; 3]> {
        None
    }
    fn name(&self, _n: MortonIndexNaming) -> Option<String> {
        None
    }
    fn inv(&self) -> Option<Self> {
        None
    }
    fn anc(&self, _n: usize) -> Option<Option<Self>> {
        None
    }
    fn desc(&self, _c: &[<Self::D as Dm>::C]) -> Option<Option<Self>> {
        None
    }
    fn parent(&self) -> Option<Option<Self>> {
        None
    }
    fn with_depth(&self, _d: usize) -> Option<Option<Self>> {
        None
    }
    fn child(&self, _c: <Self::D as Dm>::C) -> Option<Option<Self>> {
        None
    }
    fn raw(_bits: u128, _depth: usize) -> Option<Self> {
        None
    }
    /// conversions to the other flavors keep the cells
    fn conv_out(&self, _cells: &[u8]) -> Result<(), String> {
        Ok(())
    }
    /// the same cells obtained by conversion from the other flavors
    fn conv_routes(_cells: &[u8]) -> Vec<(&'static str, Self)> {
        vec![]
    }
}

fn laws<C: Copy + PartialEq + Debug, I: Iterator<Item = C>>(mk: impl Fn() -> I, cells: &[C]) -> Result<(), String> {
    let n = cells.len();
    let (lo, hi) = mk().size_hint();
    ens!(lo <= n && hi.map_or(true, |h| h >= n), "size_hint ({lo}, {hi:?}) for {n} cells");
    let cnt = mk().take(n + 2).count();
    ens!(cnt == n, "iteration count {cnt} for {n} cells");
    for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1] {
        let got = mk().nth(k);
        ens!(got == cells.get(k).copied(), "nth({k}) of the cells is {got:?}, expected {:?}", cells.get(k));
        let got = mk().skip(k).take(n + 2).count();
        ens!(got == n.saturating_sub(k), "skip({k}) leaves {got} of {n} cells");
    }
    ens!(mk().take(n + 2).last() == cells.last().copied(), "last cell");
    // an iterator that has already been advanced goes on from where it is
    for a in [1, 2, n / 2, n.saturating_sub(1), n] {
        if a == 0 || a > n {
            continue;
        }
        for k in [0, 1, (n - a) / 2, n - a, n - a + 1] {
            let mut it = mk();
            for _ in 0..a {
                it.next();
            }
            let (lo, hi) = it.size_hint();
            ens!(lo <= n - a && hi.map_or(true, |h| h >= n - a), "size_hint ({lo}, {hi:?}) with {} of {n} cells left", n - a);
            let got = it.nth(k);
            ens!(got == cells.get(a + k).copied(), "nth({k}) after {a} cells is {got:?}, expected {:?}", cells.get(a + k));
            let rest = it.take(n + 2).collect::<Vec<_>>();
            let want = &cells[(a + k + 1).min(n)..];
            ens!(rest == want, "after {a} cells and nth({k}) the iteration goes on with {rest:?}, expected {want:?}");
        }
        let mut it = mk();
        for _ in 0..a {
            it.next();
        }
        let got = it.step_by(2).take(n + 2).collect::<Vec<_>>();
        ens!(got == cells[a..].iter().copied().step_by(2).collect::<Vec<_>>(), "step_by(2) after {a} cells yields {got:?}");
        let mut it = mk();
        for _ in 0..a {
            it.next();
        }
        let got = it.by_ref().take(n + 2).count();
        ens!(got == n - a, "{got} cells left after {a} of {n}");
        ens!(it.next().is_none(), "iteration continues after the last cell");
    }
    let got = mk().take(n + 2).fold(0usize, |k, c| if k < n && c == cells[k] { k + 1 } else { usize::MAX / 2 });
    ens!(got == n, "folding the cells goes over other cells");
    // two interleaved iterators, at different paces
    let (mut a, mut b) = (mk(), mk());
    for k in 0..n {
        ens!(a.next() == Some(cells[k]), "interleaved iteration differs at level {k}");
        if k % 2 == 0 {
            ens!(b.next() == Some(cells[k / 2]), "second iterator differs at level {}", k / 2);
        }
    }
    ens!(a.next().is_none(), "iteration continues after the last cell");
    Ok(())
}

macro_rules! arr_dispatch {
    ($ty:ty, $c:expr; $($n:literal)*) => {
        match $c.len() {
            $( $n => { let a: [_; $n] = std::array::from_fn(|i| $c[i]); Some(<$ty>::try_from(a)) } )*
            _ => None,
        }
    };
}
// array lengths: all of them where arrays are the point (each is a function of its own to compile), else the boundaries
#[cfg(any(feature = "c01", feature = "c10"))]
macro_rules! arr {
    ($ty:ty, $c:expr) => {
        arr_dispatch!($ty, $c; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 85 86 96 127 128 129 255 256 257 300)
    };
}
#[cfg(not(any(feature = "c01", feature = "c10")))]
macro_rules! arr {
    ($ty:ty, $c:expr) => {
        arr_dispatch!($ty, $c; 0 1 2 3 4 5 8 9 10 11 13 16 17 20 21 22 31 32 33 41 42 43 63 64 65 86 129 257)
    };
}
fn storage_consts<St: Storage<<S::D as Dm>::L>, S: Sub>() -> Vec<(&'static str, usize, usize)> {
    use morton_index::StorageType;
    vec![
        ("StorageType::MAX_LEVELS", <St::StorageType as StorageType>::MAX_LEVELS, S::CAP.unwrap_or(0)),
        ("StorageType::DIMENSIONALITY", <St::StorageType as StorageType>::DIMENSIONALITY, <S::D as Dm>::N),
        ("StorageType::max_depth()", <St::StorageType as StorageType>::max_depth().unwrap_or(0), S::CAP.unwrap_or(0)),
        ("Dimension::DIMENSIONALITY", <<S::D as Dm>::L as Dimension>::DIMENSIONALITY, <S::D as Dm>::N),
    ]
}
// the 3D types of bounded storage have constants of their own
macro_rules! more_consts {
    (MortonIndex3D, FixedDepthStorage3D<$B:ty>, $v:ident) => {
        $v.push(("MAX_LEVELS", Self::MAX_LEVELS, Self::CAP.unwrap()));
        $v.push(("MAX_LEVELS_BITMASK", Self::MAX_LEVELS_BITMASK, lowmask(Self::CAP.unwrap())));
    };
    (MortonIndex3D, StaticStorage3D<$B:ty>, $v:ident) => {
        $v.push(("MAX_LEVELS", Self::MAX_LEVELS, Self::CAP.unwrap()));
    };
    ($MI:ident, $St:ty, $v:ident) => {
        let _ = &mut $v;
    };
}
macro_rules! common_index {
    ($MI:ident, $($St:tt)*) => {
        fn slice(c: &[<Self::D as Dm>::C]) -> Result<Self, Error> {
            <Self>::try_from(c)
        }
        fn array(c: &[<Self::D as Dm>::C]) -> Option<Result<Self, Error>> {
            arr!(Self, c)
        }
        fn depth(&self) -> usize {
            MortonIndex::depth(self)
        }
        fn get(&self, l: usize) -> <Self::D as Dm>::C {
            self.get_cell_at_level(l)
        }
        fn get_u(&self, l: usize) -> <Self::D as Dm>::C {
            unsafe { self.get_cell_at_level_unchecked(l) }
        }
        fn set(&mut self, l: usize, c: <Self::D as Dm>::C) {
            self.set_cell_at_level(l, c)
        }
        fn set_u(&mut self, l: usize, c: <Self::D as Dm>::C) {
            unsafe { self.set_cell_at_level_unchecked(l, c) }
        }
        fn iter(&self, limit: usize) -> Cells<Self> {
            self.cells().take(limit).collect()
        }
        fn iter_laws(&self, cells: &[<Self::D as Dm>::C]) -> Result<(), String> {
            laws(|| self.cells(), cells)
        }
        fn walk(&self) -> (usize, u64) {
            self.cells().fold((0, 0), |a, c| (a.0 + 1, mix(a.1, <Self::D as Dm>::i(c) as u64)))
        }
        fn max_depth() -> Option<usize> {
            <$($St)* as Storage<<Self::D as Dm>::L>>::max_depth()
        }
        fn consts() -> Vec<(&'static str, usize, usize)> {
            let mut v = storage_consts::<$($St)*, Self>();
            more_consts!($MI, $($St)*, v);
            v
        }
        fn to_grid(&self, o: usize) -> Option<[usize; 3]> {
            Some(<Self::D as Dm>::ug(&self.to_grid_index(<Self::D as Dm>::o(o))))
        }
        fn name(&self, n: MortonIndexNaming) -> Option<String> {
            Some(MortonIndex::to_string(self, n))
        }
        fn inv(&self) -> Option<Self> {
            Some(self.inverted())
        }
    };
}
macro_rules! var_index {
    () => {
        fn anc(&self, n: usize) -> Option<Option<Self>> {
            Some(VariableDepthMortonIndex::ancestor(self, NonZeroUsize::new(n).unwrap()))
        }
        fn desc(&self, c: &[<Self::D as Dm>::C]) -> Option<Option<Self>> {
            Some(VariableDepthMortonIndex::descendant(self, c))
        }
        fn parent(&self) -> Option<Option<Self>> {
            Some(VariableDepthMortonIndex::parent(self))
        }
        fn with_depth(&self, d: usize) -> Option<Option<Self>> {
            Some(VariableDepthMortonIndex::with_depth(self, d))
        }
        fn child(&self, c: <Self::D as Dm>::C) -> Option<Option<Self>> {
            Some(VariableDepthMortonIndex::child(self, c))
        }
    };
}
macro_rules! common_storage {
    () => {
        fn slice(c: &[<Self::D as Dm>::C]) -> Result<Self, Error> {
            <Self>::try_from(c)
        }
        fn array(c: &[<Self::D as Dm>::C]) -> Option<Result<Self, Error>> {
            arr!(Self, c)
        }
        fn depth(&self) -> usize {
            Storage::depth(self)
        }
        fn get(&self, l: usize) -> <Self::D as Dm>::C {
            assert!(l < Storage::depth(self), "harness: level outside contract");
            unsafe { self.get_cell_at_level_unchecked(l) }
        }
        fn get_u(&self, l: usize) -> <Self::D as Dm>::C {
            unsafe { self.get_cell_at_level_unchecked(l) }
        }
        fn set(&mut self, l: usize, c: <Self::D as Dm>::C) {
            assert!(l < Storage::depth(self), "harness: level outside contract");
            unsafe { self.set_cell_at_level_unchecked(l, c) }
        }
        fn set_u(&mut self, l: usize, c: <Self::D as Dm>::C) {
            unsafe { self.set_cell_at_level_unchecked(l, c) }
        }
        fn iter(&self, limit: usize) -> Cells<Self> {
            self.into_iter().take(limit).collect()
        }
        fn iter_laws(&self, cells: &[<Self::D as Dm>::C]) -> Result<(), String> {
            laws(|| self.into_iter(), cells)
        }
        fn walk(&self) -> (usize, u64) {
            self.into_iter().fold((0, 0), |a, c| (a.0 + 1, mix(a.1, <Self::D as Dm>::i(c) as u64)))
        }
        fn max_depth() -> Option<usize> {
            <Self as Storage<<Self::D as Dm>::L>>::max_depth()
        }
        fn consts() -> Vec<(&'static str, usize, usize)> {
            storage_consts::<Self, Self>()
        }
    };
}
macro_rules! var_storage {
    () => {
        fn anc(&self, n: usize) -> Option<Option<Self>> {
            Some(VariableDepthStorage::ancestor(self, NonZeroUsize::new(n).unwrap()))
        }
        fn desc(&self, c: &[<Self::D as Dm>::C]) -> Option<Option<Self>> {
            Some(VariableDepthStorage::descendant(self, c))
        }
    };
}

/// the integer with these low bits
pub trait Fr {
    fn fr(bits: u128) -> Self;
}
macro_rules! fr {
    ($($t:ty)*) => { $(impl Fr for $t {
        fn fr(bits: u128) -> Self {
            bits as $t
        }
    })* };
}
fr!(u8 u16 u32 u64 u128 usize);

macro_rules! raw_fixed {
    (Two, $B:ty) => {};
    (Three, $B:ty) => {
        fn raw(bits: u128, _depth: usize) -> Option<Self> {
            Some(Self::from_raw_index(<$B as Fr>::fr(bits)))
        }
    };
}
macro_rules! raw_static {
    (Two, $B:ty) => {};
    (Three, $B:ty) => {
        fn raw(bits: u128, depth: usize) -> Option<Self> {
            Some(Self::from_raw_index(<$B as Fr>::fr(bits), depth as u8))
        }
    };
}

macro_rules! width {
    ($D:ident, $MI:ident, $F:ident, $S:ident, $Y:ident, $B:ty, $bits:expr) => {
        impl Sub for $MI<$F<$B>> {
            type D = $D;
            const NAME: &'static str = concat!(stringify!($MI), "<Fixed<", stringify!($B), ">>");
            const KIND: Kind = Kind::Fixed;
            const CAP: Option<usize> = Some($bits / <$D as Dm>::N);
            const BITS_W: usize = $bits;
            const INDEX: bool = true;
            common_index!($MI, $F<$B>);
            fn zero(_depth: usize) -> Option<Option<Self>> {
                None
            }
            fn grid_new(g: [usize; 3], _depth: usize, o: usize) -> Option<Result<Self, Error>> {
                Some(Ok(Self::from_grid_index($D::g(g), $D::o(o))))
            }
            raw_fixed!($D, $B);
            fn conv_out(&self, c: &[u8]) -> Result<(), String> {
                canon(&<$MI<$S<$B>>>::from(self.clone()), c).map_err(|e| format!("as static: {e}"))?;
                canon(&<$MI<$Y>>::from(self.clone()), c).map_err(|e| format!("as dynamic: {e}"))
            }
            fn conv_routes(cells: &[u8]) -> Vec<(&'static str, Self)> {
                let c: Vec<_> = cells.iter().map(|c| $D::c(*c)).collect();
                let s = <$MI<$S<$B>>>::try_from(c.as_slice()).unwrap();
                let y = <$MI<$Y>>::try_from(c.as_slice()).unwrap();
                vec![("Fixed::from(static)", Self::from(s)), ("Fixed::try_from(dynamic)", Self::try_from(y).unwrap())]
            }
        }
        impl Sub for $MI<$S<$B>> {
            type D = $D;
            const NAME: &'static str = concat!(stringify!($MI), "<Static<", stringify!($B), ">>");
            const KIND: Kind = Kind::Static;
            const CAP: Option<usize> = Some($bits / <$D as Dm>::N);
            const BITS_W: usize = $bits;
            const INDEX: bool = true;
            common_index!($MI, $S<$B>);
            var_index!();
            fn zero(depth: usize) -> Option<Option<Self>> {
                if depth > 255 {
                    return None;
                }
                Some(Self::zeroed(depth as u8))
            }
            fn grid_new(g: [usize; 3], depth: usize, o: usize) -> Option<Result<Self, Error>> {
                Some(Self::from_grid_index($D::g(g), depth, $D::o(o)))
            }
            raw_static!($D, $B);
            fn conv_out(&self, c: &[u8]) -> Result<(), String> {
                canon(&<$MI<$F<$B>>>::from(self.clone()), &pad::<$MI<$F<$B>>>(c)).map_err(|e| format!("as fixed: {e}"))?;
                canon(&<$MI<$Y>>::from(self.clone()), c).map_err(|e| format!("as dynamic: {e}"))
            }
            fn conv_routes(cells: &[u8]) -> Vec<(&'static str, Self)> {
                let c: Vec<_> = cells.iter().map(|c| $D::c(*c)).collect();
                let y = <$MI<$Y>>::try_from(c.as_slice()).unwrap();
                let mut v = vec![("Static::try_from(dynamic)", Self::try_from(y).unwrap())];
                let f = <$MI<$F<$B>>>::try_from(c.as_slice()).unwrap();
                // a fixed index has full depth; cut it back
                let full = Self::from(f);
                if let Some(x) = VariableDepthMortonIndex::with_depth(&full, c.len()) {
                    v.push(("Static::from(fixed).with_depth", x));
                }
                v
            }
        }
        impl Sub for $F<$B> {
            type D = $D;
            const NAME: &'static str = concat!(stringify!($F), "<", stringify!($B), ">");
            const KIND: Kind = Kind::Fixed;
            const CAP: Option<usize> = Some($bits / <$D as Dm>::N);
            const BITS_W: usize = $bits;
            const INDEX: bool = false;
            common_storage!();
            fn zero(_depth: usize) -> Option<Option<Self>> {
                None
            }
        }
        impl Sub for $S<$B> {
            type D = $D;
            const NAME: &'static str = concat!(stringify!($S), "<", stringify!($B), ">");
            const KIND: Kind = Kind::Static;
            const CAP: Option<usize> = Some($bits / <$D as Dm>::N);
            const BITS_W: usize = $bits;
            const INDEX: bool = false;
            common_storage!();
            var_storage!();
            fn zero(_depth: usize) -> Option<Option<Self>> {
                None
            }
        }
        impl Conv for ($D, $B) {
            type D = $D;
            type F = $MI<$F<$B>>;
            type S = $MI<$S<$B>>;
            type Y = $MI<$Y>;
            fn f2s(x: Self::F) -> Self::S {
                x.into()
            }
            fn f2y(x: Self::F) -> Self::Y {
                x.into()
            }
            fn s2f(x: Self::S) -> Self::F {
                x.into()
            }
            fn s2y(x: Self::S) -> Self::Y {
                x.into()
            }
            fn y2f(x: Self::Y) -> Result<Self::F, Error> {
                x.try_into()
            }
            fn y2s(x: Self::Y) -> Result<Self::S, Error> {
                x.try_into()
            }
        }
    };
}
macro_rules! dynamic {
    ($D:ident, $MI:ident, $F:ident, $S:ident, $Y:ident) => {
        impl Sub for $MI<$Y> {
            type D = $D;
            const NAME: &'static str = concat!(stringify!($MI), "<Dynamic>");
            const KIND: Kind = Kind::Dyn;
            const CAP: Option<usize> = None;
            const BITS_W: usize = 0;
            const INDEX: bool = true;
            common_index!($MI, $Y);
            var_index!();
            fn zero(depth: usize) -> Option<Option<Self>> {
                Some(Some(Self::zeroed(depth)))
            }
            fn grid_new(g: [usize; 3], depth: usize, o: usize) -> Option<Result<Self, Error>> {
                Some(Ok(Self::from_grid_index($D::g(g), depth, $D::o(o))))
            }
            fn conv_routes(cells: &[u8]) -> Vec<(&'static str, Self)> {
                let c: Vec<_> = cells.iter().map(|c| $D::c(*c)).collect();
                let mut v = vec![];
                macro_rules! via {
                    ($B:ty, $n:literal) => {
                        if c.len() <= $n / <$D as Dm>::N {
                            let s = <$MI<$S<$B>>>::try_from(c.as_slice()).unwrap();
                            v.push((concat!("Dynamic::from(static ", stringify!($B), ")"), Self::from(s)));
                            let f = <$MI<$F<$B>>>::try_from(c.as_slice()).unwrap();
                            let full = Self::from(f);
                            if let Some(x) = VariableDepthMortonIndex::with_depth(&full, c.len()) {
                                v.push((concat!("Dynamic::from(fixed ", stringify!($B), ").with_depth"), x));
                            }
                        }
                    };
                }
                via!(u8, 8);
                via!(u16, 16);
                via!(u32, 32);
                via!(u64, 64);
                via!(u128, 128);
                v
            }
        }
        impl Sub for $Y {
            type D = $D;
            const NAME: &'static str = stringify!($Y);
            const KIND: Kind = Kind::Dyn;
            const CAP: Option<usize> = None;
            const BITS_W: usize = 0;
            const INDEX: bool = false;
            common_storage!();
            var_storage!();
            fn zero(depth: usize) -> Option<Option<Self>> {
                Some(Some(<$Y>::zeroed(depth)))
            }
        }
    };
}

pub trait Conv: 'static {
    type D: Dm;
    type F: Sub<D = Self::D>;
    type S: Sub<D = Self::D>;
    type Y: Sub<D = Self::D>;
    fn f2s(x: Self::F) -> Self::S;
    fn f2y(x: Self::F) -> Self::Y;
    fn s2f(x: Self::S) -> Self::F;
    fn s2y(x: Self::S) -> Self::Y;
    fn y2f(x: Self::Y) -> Result<Self::F, Error>;
    fn y2s(x: Self::Y) -> Result<Self::S, Error>;
}

macro_rules! all_widths {
    ($D:ident, $MI:ident, $F:ident, $S:ident, $Y:ident) => {
        width!($D, $MI, $F, $S, $Y, u8, 8);
        width!($D, $MI, $F, $S, $Y, u16, 16);
        width!($D, $MI, $F, $S, $Y, u32, 32);
        width!($D, $MI, $F, $S, $Y, u64, 64);
        width!($D, $MI, $F, $S, $Y, u128, 128);
        width!($D, $MI, $F, $S, $Y, usize, WORD);
        dynamic!($D, $MI, $F, $S, $Y);
    };
}
all_widths!(Two, MortonIndex2D, FixedDepthStorage2D, StaticStorage2D, DynamicStorage2D);
all_widths!(Three, MortonIndex3D, FixedDepthStorage3D, StaticStorage3D, DynamicStorage3D);

#[cfg(feature = "c27")]
mod own {
    use super::*;
    use crate::ext::*;
    macro_rules! ext_widths {
        ($D:ident, $MI:ident, $F:ident, $S:ident, $Y:ident) => {
            width!($D, $MI, $F, $S, $Y, By<3>, 24);
            width!($D, $MI, $F, $S, $Y, By<5>, 40);
            width!($D, $MI, $F, $S, $Y, By<12>, 96);
            width!($D, $MI, $F, $S, $Y, By<15>, 120);
            width!($D, $MI, $F, $S, $Y, By<31>, 248);
            width!($D, $MI, $F, $S, $Y, U24, 24);
        };
    }
    ext_widths!(Two, MortonIndex2D, FixedDepthStorage2D, StaticStorage2D, DynamicStorage2D);
    ext_widths!(Three, MortonIndex3D, FixedDepthStorage3D, StaticStorage3D, DynamicStorage3D);
    macro_rules! own_index {
        ($D:ident, $MI:ident, $T:ty, $Own:ident, $cap:literal, $kind:expr) => {
            impl Sub for $T {
                type D = $D;
                const NAME: &'static str = stringify!($T);
                const KIND: Kind = $kind;
                const CAP: Option<usize> = if $cap == 0 { None } else { Some($cap) };
                const BITS_W: usize = <$D as Dm>::N * $cap;
                const INDEX: bool = true;
                common_index!(Own, $Own<$cap>);
                var_index!();
                // made by the harness: the library has no part in these
                fn zero(depth: usize) -> Option<Option<Self>> {
                    Some(Self::slice(&tc::<Self>(&vec![0; depth])).ok())
                }
                fn grid_new(g: [usize; 3], depth: usize, o: usize) -> Option<Result<Self, Error>> {
                    if $cap > 0 && depth > $cap {
                        return Some(Err(Error::DepthLimitedExceeded { max_depth: $cap }));
                    }
                    Some(Self::slice(&tc::<Self>(&model_from_grid::<$D>(g, depth, o))))
                }
            }
        };
    }
    own_index!(Two, MortonIndex2D, MortonIndex2D<Own2<0>>, Own2, 0, Kind::Dyn);
    own_index!(Three, MortonIndex3D, MortonIndex3D<Own3<0>>, Own3, 0, Kind::Dyn);
    own_index!(Two, MortonIndex2D, MortonIndex2D<Own2<7>>, Own2, 7, Kind::Static);
    own_index!(Three, MortonIndex3D, MortonIndex3D<Own3<40>>, Own3, 40, Kind::Static);
    own_index!(Two, MortonIndex2D, OwnIndex2<0>, Own2, 0, Kind::Dyn);
    own_index!(Three, MortonIndex3D, OwnIndex3<0>, Own3, 0, Kind::Dyn);
    own_index!(Three, MortonIndex3D, OwnIndex3<9>, Own3, 9, Kind::Static);
}

/// calls `$m!(Type)` for every index type
#[cfg(not(feature = "c27"))]
#[macro_export]
macro_rules! for_indices {
    ($m:ident) => {
        $crate::for_indices!(@ $m, MortonIndex2D, FixedDepthStorage2D, StaticStorage2D, DynamicStorage2D);
        $crate::for_indices!(@ $m, MortonIndex3D, FixedDepthStorage3D, StaticStorage3D, DynamicStorage3D);
    };
    (@ $m:ident, $MI:ident, $F:ident, $S:ident, $Y:ident) => {
        $m!($MI<$Y>);
        $m!($MI<$S<u128>>); $m!($MI<$F<u128>>);
        $m!($MI<$S<u64>>); $m!($MI<$F<u64>>);
        $m!($MI<$S<u32>>); $m!($MI<$F<u32>>);
        $m!($MI<$S<u16>>); $m!($MI<$F<u16>>);
        $m!($MI<$S<u8>>); $m!($MI<$F<u8>>);
        $m!($MI<$S<usize>>); $m!($MI<$F<usize>>);
    };
}
#[cfg(not(feature = "c27"))]
#[macro_export]
macro_rules! for_storages {
    ($m:ident) => {
        $crate::for_storages!(@ $m, FixedDepthStorage2D, StaticStorage2D, DynamicStorage2D);
        $crate::for_storages!(@ $m, FixedDepthStorage3D, StaticStorage3D, DynamicStorage3D);
    };
    (@ $m:ident, $F:ident, $S:ident, $Y:ident) => {
        $m!($Y);
        $m!($S<u128>); $m!($F<u128>);
        $m!($S<u64>); $m!($F<u64>);
        $m!($S<u32>); $m!($F<u32>);
        $m!($S<u16>); $m!($F<u16>);
        $m!($S<u8>); $m!($F<u8>);
        $m!($S<usize>); $m!($F<usize>);
    };
}
#[macro_export]
macro_rules! for_all {
    ($m:ident) => {
        $crate::for_indices!($m);
        $crate::for_storages!($m);
    };
}
#[cfg(not(feature = "c27"))]
#[macro_export]
macro_rules! for_convs {
    ($m:ident) => {
        $m!((Two, u8)); $m!((Two, u16)); $m!((Two, u32)); $m!((Two, u64)); $m!((Two, u128)); $m!((Two, usize));
        $m!((Three, u8)); $m!((Three, u16)); $m!((Three, u32)); $m!((Three, u64)); $m!((Three, u128)); $m!((Three, usize));
    };
}

/// the types of C27 instead: what a user plugs in
#[cfg(feature = "c27")]
#[macro_export]
macro_rules! for_indices {
    ($m:ident) => {
        $crate::for_indices!(@ $m, MortonIndex2D, FixedDepthStorage2D, StaticStorage2D);
        $crate::for_indices!(@ $m, MortonIndex3D, FixedDepthStorage3D, StaticStorage3D);
        $m!(MortonIndex2D<$crate::ext::Own2<0>>); $m!(MortonIndex3D<$crate::ext::Own3<0>>);
        $m!(MortonIndex2D<$crate::ext::Own2<7>>); $m!(MortonIndex3D<$crate::ext::Own3<40>>);
        $m!($crate::ext::OwnIndex2<0>); $m!($crate::ext::OwnIndex3<0>); $m!($crate::ext::OwnIndex3<9>);
    };
    (@ $m:ident, $MI:ident, $F:ident, $S:ident) => {
        $m!($MI<$S<$crate::ext::By<15>>>); $m!($MI<$F<$crate::ext::By<15>>>);
        $m!($MI<$S<$crate::ext::By<12>>>); $m!($MI<$F<$crate::ext::By<12>>>);
        $m!($MI<$S<$crate::ext::By<5>>>); $m!($MI<$F<$crate::ext::By<5>>>);
        $m!($MI<$S<$crate::ext::By<3>>>); $m!($MI<$F<$crate::ext::By<3>>>);
        $m!($MI<$S<$crate::ext::U24>>); $m!($MI<$F<$crate::ext::U24>>);
    };
}
#[cfg(feature = "c27")]
#[macro_export]
macro_rules! for_storages {
    ($m:ident) => {
        $crate::for_storages!(@ $m, FixedDepthStorage2D, StaticStorage2D);
        $crate::for_storages!(@ $m, FixedDepthStorage3D, StaticStorage3D);
    };
    (@ $m:ident, $F:ident, $S:ident) => {
        $m!($S<$crate::ext::By<5>>); $m!($F<$crate::ext::By<5>>);
        $m!($S<$crate::ext::U24>); $m!($F<$crate::ext::U24>);
    };
}
#[cfg(feature = "c27")]
#[macro_export]
macro_rules! for_convs {
    ($m:ident) => {
        $m!((Two, $crate::ext::U24)); $m!((Two, $crate::ext::By<3>)); $m!((Two, $crate::ext::By<5>)); $m!((Two, $crate::ext::By<12>));
        $m!((Three, $crate::ext::U24)); $m!((Three, $crate::ext::By<3>)); $m!((Three, $crate::ext::By<5>)); $m!((Three, $crate::ext::By<12>));
    };
}
/// `for_all` and, among what a user plugs in, an integer wider than any of the built-in ones
#[macro_export]
macro_rules! for_all_wide {
    ($m:ident) => {
        $crate::for_all!($m);
        #[cfg(feature = "c27")]
        $crate::for_all_wide!(@ $m, MortonIndex2D, FixedDepthStorage2D, StaticStorage2D);
        #[cfg(feature = "c27")]
        $crate::for_all_wide!(@ $m, MortonIndex3D, FixedDepthStorage3D, StaticStorage3D);
    };
    (@ $m:ident, $MI:ident, $F:ident, $S:ident) => {
        $m!($MI<$S<$crate::ext::By<31>>>); $m!($MI<$F<$crate::ext::By<31>>>);
        $m!($S<$crate::ext::By<31>>); $m!($F<$crate::ext::By<31>>);
    };
}

// ---------------------------------------------------------------- model helpers
pub fn tc<S: Sub>(cells: &[u8]) -> Cells<S> {
    cells.iter().map(|c| <S::D as Dm>::c(*c)).collect()
}
/// cells as the type will report them: fixed types pad with zero cells
pub fn pad<S: Sub>(cells: &[u8]) -> Vec<u8> {
    let mut v = cells.to_vec();
    if S::KIND == Kind::Fixed {
        v.resize(S::CAP.unwrap(), 0);
    }
    v
}
pub fn mk<S: Sub>(cells: &[u8]) -> Result<S, String> {
    S::slice(&tc::<S>(cells)).map_err(|e| format!("building from {} cells failed: {e:?}", cells.len()))
}
pub fn show(cells: &[u8]) -> String {
    let mut s = String::from("[");
    for c in cells {
        s.push((b'0' + c) as char);
    }
    s.push(']');
    s
}
/// x reports exactly these cells, by depth, checked access and iteration
pub fn same<S: Sub>(x: &S, cells: &[u8]) -> Result<(), String> {
    ens!(x.depth() == cells.len(), "depth() = {} but the cells are {} (depth {})", x.depth(), show(cells), cells.len());
    for (l, c) in cells.iter().enumerate() {
        let got = <S::D as Dm>::i(x.get(l));
        ens!(got == *c, "level {l} reads {got}, expected {c}; expected cells {}, index {x:?}", show(cells));
    }
    Ok(())
}
pub fn same_iter<S: Sub>(x: &S, cells: &[u8]) -> Result<(), String> {
    let it = x.iter(cells.len() + 2);
    let it: Vec<u8> = it.into_iter().map(<S::D as Dm>::i).collect();
    ens!(it == cells, "iteration yields {}, expected {}", show(&it), show(cells));
    Ok(())
}
fn sip<T: Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn sip_slice<T: Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    T::hash_slice(std::slice::from_ref(t), &mut h);
    h.finish()
}
/// x is indistinguishable (==, Hash, cmp) from y
pub fn twin<S: Sub>(x: &S, y: &S) -> Result<(), String> {
    ens!(x == y && y == x, "not equal to an index with the same cells: {x:?} vs {y:?}");
    ens!(!(x != y), "!= holds between indices with the same cells: {x:?} vs {y:?}");
    ens!(sip(x) == sip(y) && fnv(x) == fnv(y), "hashes differ for the same cells: {x:?} vs {y:?}");
    ens!(sip_slice(x) == sip_slice(y), "hashes of slices differ for the same cells: {x:?} vs {y:?}");
    ens!(
        x.cmp(y) == Ordering::Equal && y.cmp(x) == Ordering::Equal && x.partial_cmp(y) == Some(Ordering::Equal),
        "cmp is not Equal for the same cells: {x:?} vs {y:?}"
    );
    Ok(())
}
/// x reports the cells and is indistinguishable from an index freshly built from them
pub fn canon<S: Sub>(x: &S, cells: &[u8]) -> Result<(), String> {
    same(x, cells)?;
    same_iter(x, cells)?;
    twin(x, &mk::<S>(cells)?)
}
/// grid coordinates of the cells, from the documentation of the orderings; depth must fit the machine word
pub fn model_grid<D: Dm>(cells: &[u8], o: usize) -> [usize; 3] {
    let bp = bitpos::<D>(o);
    let mut g = [0usize; 3];
    for a in 0..D::N {
        let mut v = 0usize;
        for c in cells {
            v = v.wrapping_mul(2) + ((*c as usize >> bp[a]) & 1);
        }
        g[a] = v;
    }
    g
}
/// cells of the index of this depth at these coordinates
pub fn model_from_grid<D: Dm>(g: [usize; 3], depth: usize, o: usize) -> Vec<u8> {
    let bp = bitpos::<D>(o);
    (0..depth)
        .map(|l| {
            let sh = depth - 1 - l;
            let mut c = 0u8;
            for a in 0..D::N {
                let bit = if sh < WORD { (g[a] >> sh) & 1 } else { 0 };
                c |= (bit as u8) << bp[a];
            }
            c
        })
        .collect()
}
pub fn lowmask(bits: usize) -> usize {
    if bits >= WORD {
        usize::MAX
    } else {
        (1usize << bits) - 1
    }
}
