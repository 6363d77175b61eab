//! C27: what a user of the library may plug in: integers of other widths (`Bits`), storages with their own
//! representation (`Storage`, `VariableDepthStorage`) and index types of their own (`MortonIndex`).
use crate::ctx::*;
use crate::sub::*;
use morton_index::dimensions::{Dim2D, Dim3D, Dimension, Octant, OctantOrdering, Quadrant, QuadrantOrdering};
use morton_index::nalgebra::{Vector2, Vector3};
use morton_index::number::{Bits, Endianness};
use morton_index::{Error, MortonIndex, MortonIndexNaming, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage};
use std::cmp::Ordering;
use std::num::NonZeroUsize;
use std::ops::Range;

// ---------------------------------------------------------------- integers
/// an unsigned integer of N bytes
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct By<const N: usize>([u8; N]);
impl<const N: usize> By<N> {
    pub fn new(le: &[u8]) -> Self {
        By(std::array::from_fn(|i| le[i]))
    }
    pub fn bytes(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> Default for By<N> {
    fn default() -> Self {
        By([0; N])
    }
}
impl<const N: usize> PartialOrd for By<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for By<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
/// an unsigned integer of 24 bits that occupies four bytes
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default, PartialOrd, Ord)]
pub struct U24(u32);

trait Int: Sized {
    fn low(&self) -> u128;
    fn from_low(v: u128) -> Self;
    fn bit(&self, i: usize) -> bool;
    fn put(&mut self, i: usize, b: bool);
}
impl<const N: usize> Int for By<N> {
    fn low(&self) -> u128 {
        self.0.iter().take(16).enumerate().fold(0, |a, (i, b)| a | (*b as u128) << (8 * i))
    }
    fn from_low(v: u128) -> Self {
        By(std::array::from_fn(|i| if i < 16 { (v >> (8 * i)) as u8 } else { 0 }))
    }
    fn bit(&self, i: usize) -> bool {
        i < 8 * N && self.0[i / 8] >> (i % 8) & 1 == 1
    }
    fn put(&mut self, i: usize, b: bool) {
        if i < 8 * N {
            self.0[i / 8] = self.0[i / 8] & !(1 << (i % 8)) | (b as u8) << (i % 8);
        }
    }
}
impl Int for U24 {
    fn low(&self) -> u128 {
        self.0 as u128
    }
    fn from_low(v: u128) -> Self {
        U24(v as u32 & 0xff_ffff)
    }
    fn bit(&self, i: usize) -> bool {
        i < 24 && self.0 >> i & 1 == 1
    }
    fn put(&mut self, i: usize, b: bool) {
        if i < 24 {
            self.0 = self.0 & !(1 << i) | (b as u32) << i;
        }
    }
}
macro_rules! bits {
    ($bits:expr, $slice:expr, $slice_mut:expr) => {
        const BITS: usize = $bits;
        unsafe fn get_bits(&self, r: Range<usize>) -> Self {
            let mut v = Self::default();
            for (k, i) in r.enumerate() {
                v.put(k, self.bit(i));
            }
            v
        }
        unsafe fn get_bits_as_usize(&self, r: Range<usize>) -> usize {
            self.get_bits(r).low() as usize
        }
        unsafe fn set_bits(&mut self, r: Range<usize>, v: Self) {
            for (k, i) in r.enumerate() {
                self.put(i, v.bit(k));
            }
        }
        unsafe fn set_bits_from_usize(&mut self, r: Range<usize>, v: usize) {
            self.set_bits(r, Self::from_low(v as u128))
        }
        unsafe fn as_u8(self) -> u8 {
            self.low() as u8
        }
        unsafe fn as_u16(self) -> u16 {
            self.low() as u16
        }
        unsafe fn as_u32(self) -> u32 {
            self.low() as u32
        }
        unsafe fn as_u64(self) -> u64 {
            self.low() as u64
        }
        unsafe fn as_u128(self) -> u128 {
            self.low()
        }
        unsafe fn as_usize(self) -> usize {
            self.low() as usize
        }
        unsafe fn as_u8_slice(&self) -> &[u8] {
            $slice(self)
        }
        unsafe fn as_u8_slice_mut(&mut self) -> &mut [u8] {
            $slice_mut(self)
        }
        unsafe fn from_u8(v: u8) -> Self {
            Self::from_low(v as u128)
        }
        unsafe fn from_u16(v: u16) -> Self {
            Self::from_low(v as u128)
        }
        unsafe fn from_u32(v: u32) -> Self {
            Self::from_low(v as u128)
        }
        unsafe fn from_u64(v: u64) -> Self {
            Self::from_low(v as u128)
        }
        unsafe fn from_u128(v: u128) -> Self {
            Self::from_low(v)
        }
        unsafe fn from_usize(v: usize) -> Self {
            Self::from_low(v as u128)
        }
        unsafe fn from_u8_slice(bytes: &[u8], e: Endianness) -> Self {
            let n = $bits / 8;
            let mut b = bytes[..bytes.len().min(n)].to_vec();
            b.resize(n, 0);
            if e == Endianness::BigEndian {
                b.reverse();
            }
            let mut v = Self::default();
            for i in 0..$bits {
                v.put(i, b[i / 8] >> (i % 8) & 1 == 1);
            }
            v
        }
        fn size(&self) -> usize {
            $bits / 8
        }
    };
}
/// the bytes of a number in the order of the machine (little-endian: these types are only used natively)
impl<const N: usize> Bits for By<N> {
    bits!(8 * N, |x: &'_ Self| -> &'_ [u8] { unsafe { std::slice::from_raw_parts(x.0.as_ptr(), N) } }, |x: &'_ mut Self| -> &'_ mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(x.0.as_mut_ptr(), N) }
    });
}
impl Bits for U24 {
    bits!(24, |x: &'_ Self| -> &'_ [u8] { unsafe { std::slice::from_raw_parts(x as *const _ as *const u8, 3) } }, |x: &'_ mut Self| -> &'_ mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(x as *mut _ as *mut u8, 3) }
    });
}
impl<const N: usize> Fr for By<N> {
    fn fr(v: u128) -> Self {
        Self::from_low(v)
    }
}
impl Fr for U24 {
    fn fr(v: u128) -> Self {
        Self::from_low(v)
    }
}

// ---------------------------------------------------------------- storages and indices
/// no part of the library may look for cells here
pub struct OwnType<D: Dm, const CAP: usize>(std::marker::PhantomData<D>);
impl<D: Dm, const CAP: usize> StorageType for OwnType<D, CAP> {
    type Dimension = D::L;
    const MAX_LEVELS: usize = CAP;
    const DIMENSIONALITY: usize = D::N;
    fn max_depth() -> Option<usize> {
        if CAP == 0 {
            None
        } else {
            Some(CAP)
        }
    }
    unsafe fn get_cell_at_level_unchecked<T: Bits>(_bits: &T, _level: usize) -> D::C {
        panic!("the storage keeps its cells elsewhere")
    }
    unsafe fn set_cell_at_level_unchecked<T: Bits>(_bits: &mut T, _level: usize, _cell: D::C) {
        panic!("the storage keeps its cells elsewhere")
    }
}
macro_rules! own {
    ($D:ident, $L:ident, $C:ident, $O:ident, $V:ident, $Own:ident, $OwnIndex:ident, $MI:ident) => {
        /// a storage that keeps its cells one by one, the last one first
        #[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
        pub struct $Own<const CAP: usize> {
            rev: std::collections::VecDeque<$C>,
            none: Vec<u8>,
        }
        impl<const CAP: usize> $Own<CAP> {
            fn of(c: &[$C]) -> Result<Self, Error> {
                if CAP > 0 && c.len() > CAP {
                    return Err(Error::DepthLimitedExceeded { max_depth: CAP });
                }
                Ok($Own { rev: c.iter().rev().copied().collect(), none: vec![] })
            }
            fn list(&self) -> Vec<$C> {
                self.rev.iter().rev().copied().collect()
            }
        }
        impl<const CAP: usize> PartialOrd for $Own<CAP> {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl<const CAP: usize> Ord for $Own<CAP> {
            fn cmp(&self, o: &Self) -> Ordering {
                self.rev.iter().rev().cmp(o.rev.iter().rev())
            }
        }
        impl<const CAP: usize> Storage<$L> for $Own<CAP> {
            type StorageType = OwnType<$D, CAP>;
            type Bits = Vec<u8>;
            fn bits(&self) -> &Vec<u8> {
                &self.none
            }
            fn bits_mut(&mut self) -> &mut Vec<u8> {
                &mut self.none
            }
            fn depth(&self) -> usize {
                self.rev.len()
            }
            unsafe fn get_cell_at_level_unchecked(&self, level: usize) -> $C {
                self.rev[self.rev.len() - 1 - level]
            }
            unsafe fn set_cell_at_level_unchecked(&mut self, level: usize, cell: $C) {
                let n = self.rev.len();
                self.rev[n - 1 - level] = cell;
            }
        }
        impl<const CAP: usize> VariableDepthStorage<$L> for $Own<CAP> {
            fn ancestor(&self, generations: NonZeroUsize) -> Option<Self> {
                let l = self.list();
                Self::of(&l[..l.len().checked_sub(generations.get())?]).ok()
            }
            fn descendant(&self, cells: &[$C]) -> Option<Self> {
                let mut l = self.list();
                l.extend(cells);
                Self::of(&l).ok()
            }
        }
        impl<'a, const CAP: usize> TryFrom<&'a [$C]> for $Own<CAP> {
            type Error = Error;
            fn try_from(c: &'a [$C]) -> Result<Self, Error> {
                Self::of(c)
            }
        }
        impl<const CAP: usize, const N: usize> TryFrom<[$C; N]> for $Own<CAP> {
            type Error = Error;
            fn try_from(c: [$C; N]) -> Result<Self, Error> {
                Self::of(&c)
            }
        }
        impl<'a, const CAP: usize> IntoIterator for &'a $Own<CAP> {
            type Item = $C;
            type IntoIter = std::iter::Copied<std::iter::Rev<std::collections::vec_deque::Iter<'a, $C>>>;
            fn into_iter(self) -> Self::IntoIter {
                self.rev.iter().rev().copied()
            }
        }
        /// an index type of the user's: only the required methods of the traits
        #[derive(Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
        pub struct $OwnIndex<const CAP: usize>($Own<CAP>);
        impl<const CAP: usize> $OwnIndex<CAP> {
            pub fn cells(&self) -> <&'_ $Own<CAP> as IntoIterator>::IntoIter {
                (&self.0).into_iter()
            }
        }
        impl<'a, const CAP: usize> TryFrom<&'a [$C]> for $OwnIndex<CAP> {
            type Error = Error;
            fn try_from(c: &'a [$C]) -> Result<Self, Error> {
                $Own::of(c).map($OwnIndex)
            }
        }
        impl<const CAP: usize, const N: usize> TryFrom<[$C; N]> for $OwnIndex<CAP> {
            type Error = Error;
            fn try_from(c: [$C; N]) -> Result<Self, Error> {
                $Own::of(&c).map($OwnIndex)
            }
        }
        impl<const CAP: usize> MortonIndex for $OwnIndex<CAP> {
            type Dimension = $L;
            fn get_cell_at_level(&self, level: usize) -> $C {
                assert!(level < self.depth());
                unsafe { self.0.get_cell_at_level_unchecked(level) }
            }
            unsafe fn get_cell_at_level_unchecked(&self, level: usize) -> $C {
                self.0.get_cell_at_level_unchecked(level)
            }
            fn set_cell_at_level(&mut self, level: usize, cell: $C) {
                assert!(level < self.depth());
                unsafe { self.0.set_cell_at_level_unchecked(level, cell) }
            }
            unsafe fn set_cell_at_level_unchecked(&mut self, level: usize, cell: $C) {
                self.0.set_cell_at_level_unchecked(level, cell)
            }
            fn depth(&self) -> usize {
                self.0.depth()
            }
            fn to_string(&self, naming: MortonIndexNaming) -> String {
                let c: Vec<u8> = self.cells().map(<$D as Dm>::i).collect();
                let digits: String = c.iter().map(|c| (b'0' + c) as char).collect();
                match naming {
                    MortonIndexNaming::CellConcatenation => digits,
                    MortonIndexNaming::CellConcatenationWithRoot => format!("r{digits}"),
                    MortonIndexNaming::GridIndex => {
                        let g = model_grid::<$D>(&c, 0);
                        let mut s = format!("{}", c.len());
                        for a in 0..<$D as Dm>::N {
                            s += &format!("-{}", g[a]);
                        }
                        s
                    }
                }
            }
            fn to_grid_index(&self, ordering: $O) -> $V<usize> {
                let c: Vec<u8> = self.cells().map(<$D as Dm>::i).collect();
                let mut g = [0usize; 3];
                for (i, x) in c.iter().enumerate() {
                    let u = <$D as Dm>::ug(&ordering.to_index(<$D as Dm>::c(*x)));
                    for a in 0..3 {
                        g[a] |= u[a] << (c.len() - 1 - i);
                    }
                }
                <$D as Dm>::g(g)
            }
        }
        impl<const CAP: usize> VariableDepthMortonIndex for $OwnIndex<CAP> {
            fn ancestor(&self, generations: NonZeroUsize) -> Option<Self> {
                self.0.ancestor(generations).map($OwnIndex)
            }
            fn descendant(&self, cells: &[$C]) -> Option<Self> {
                self.0.descendant(cells).map($OwnIndex)
            }
        }
    };
}
own!(Two, Dim2D, Quadrant, QuadrantOrdering, Vector2, Own2, OwnIndex2, MortonIndex2D);
own!(Three, Dim3D, Octant, OctantOrdering, Vector3, Own3, OwnIndex3, MortonIndex3D);
