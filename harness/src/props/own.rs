//! C28: the crate's storage-type helpers and default trait methods over dimensions, bit containers and index types that
//! the user brings along.
use crate::ctx::*;
use crate::ens;
use crate::ext::By;
use morton_index::dimensions::{Dim2D, Dim3D, Dimension, Octant, Quadrant};
use morton_index::number::Bits;
use morton_index::{
    DynamicStorage, Error, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming, StaticStorage, Storage,
    StorageType, VariableDepthMortonIndex,
};
use std::marker::PhantomData;
use std::num::NonZeroUsize;

/// a cell of an N-dimensional tree
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Cl<const N: usize>(u8);
impl<const N: usize> TryFrom<usize> for Cl<N> {
    type Error = Error;
    fn try_from(v: usize) -> Result<Self, Error> {
        if v < 1 << N {
            Ok(Cl(v as u8))
        } else {
            Err(Error::CellIndexOutOfRange)
        }
    }
}
impl<const N: usize> From<Cl<N>> for usize {
    fn from(c: Cl<N>) -> usize {
        c.0 as usize
    }
}
/// N axes
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Axes<const N: usize>;
impl<const N: usize> Dimension for Axes<N> {
    type Cell = Cl<N>;
    type GridIndex = [usize; N];
    type CellOrdering = ();
    const DIMENSIONALITY: usize = N;
}

/// a container of bits, seen bit by bit
pub trait Box_: Bits + Clone + Default + PartialEq + Eq + PartialOrd + Ord + std::fmt::Debug + std::hash::Hash + 'static {
    const NM: &'static str;
    /// the bytes from the least significant on
    fn of(le: &[u8]) -> Self;
    fn lebytes(&self) -> Vec<u8>;
    /// sizes it can have in bytes
    fn sizes() -> Vec<usize>;
}
macro_rules! boxes {
    ($($t:ty)*) => { $(impl Box_ for $t {
        const NM: &'static str = stringify!($t);
        fn of(le: &[u8]) -> Self {
            let mut b = [0; std::mem::size_of::<$t>()];
            b.copy_from_slice(le);
            <$t>::from_le_bytes(b)
        }
        fn lebytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
        fn sizes() -> Vec<usize> { vec![std::mem::size_of::<$t>()] }
    })* };
}
boxes!(u8 u16 u32 u64 u128 usize);
impl Box_ for Vec<u8> {
    const NM: &'static str = "Vec<u8>";
    fn of(le: &[u8]) -> Self {
        le.to_vec()
    }
    fn lebytes(&self) -> Vec<u8> {
        self.clone()
    }
    fn sizes() -> Vec<usize> {
        vec![1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 33, 40, 65, 300]
    }
}
impl<const N: usize> Box_ for By<N> {
    const NM: &'static str = "own integer";
    fn of(le: &[u8]) -> Self {
        By::new(le)
    }
    fn lebytes(&self) -> Vec<u8> {
        self.bytes().to_vec()
    }
    fn sizes() -> Vec<usize> {
        vec![N]
    }
}
fn read(le: &[u8], from: usize, n: usize) -> usize {
    (0..n).fold(0, |a, k| a | ((le[(from + k) / 8] >> ((from + k) % 8) & 1) as usize) << k)
}
fn write(le: &mut [u8], from: usize, n: usize, v: usize) {
    for k in 0..n {
        let i = from + k;
        le[i / 8] = le[i / 8] & !(1 << (i % 8)) | ((v >> k & 1) as u8) << (i % 8);
    }
}

/// a storage of the user's that gets its cells from one of the crate's helpers
struct Carried<D, H, T> {
    bits: T,
    depth: usize,
    p: PhantomData<(fn() -> D, fn() -> H)>,
}
impl<D, H, T: Box_> PartialEq for Carried<D, H, T> {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o).is_eq()
    }
}
impl<D, H, T: Box_> Eq for Carried<D, H, T> {}
impl<D, H, T: Box_> PartialOrd for Carried<D, H, T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<D, H, T: Box_> Ord for Carried<D, H, T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (&self.bits, self.depth).cmp(&(&o.bits, o.depth))
    }
}
impl<D, H, T: Box_> std::hash::Hash for Carried<D, H, T> {
    fn hash<A: std::hash::Hasher>(&self, a: &mut A) {
        (&self.bits, self.depth).hash(a)
    }
}
impl<D, H, T: Box_> std::fmt::Debug for Carried<D, H, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}/{}", self.bits, self.depth)
    }
}
impl<D, H, T: Box_> Default for Carried<D, H, T> {
    fn default() -> Self {
        Carried { bits: T::default(), depth: 0, p: PhantomData }
    }
}
/// marks: which helper
struct Fx<B>(PhantomData<B>);
struct Sx<B>(PhantomData<B>);
struct Dx;
trait Helper<D: Dimension> {
    type St: StorageType<Dimension = D>;
    /// bits of the integer it is made for; 0: as many as the container has
    const W: usize;
}
impl<D: Dimension, B: FixedStorageType> Helper<D> for Fx<B> {
    type St = FixedDepthStorage<D, B>;
    const W: usize = B::BITS;
}
impl<D: Dimension, B: FixedStorageType> Helper<D> for Sx<B> {
    type St = StaticStorage<D, B>;
    const W: usize = B::BITS;
}
impl<D: Dimension> Helper<D> for Dx {
    type St = DynamicStorage<D>;
    const W: usize = 0;
}
impl<D: Dimension, H: Helper<D>, T: Box_> Storage<D> for Carried<D, H, T> {
    type StorageType = H::St;
    type Bits = T;
    fn bits(&self) -> &T {
        &self.bits
    }
    fn bits_mut(&mut self) -> &mut T {
        &mut self.bits
    }
    fn depth(&self) -> usize {
        self.depth
    }
}

fn usz<D: Dimension>(c: D::Cell) -> usize {
    c.into()
}
fn cl<D: Dimension>(v: usize) -> D::Cell {
    match D::Cell::try_from(v) {
        Ok(c) => c,
        Err(_) => panic!("harness: cell {v}"),
    }
}

/// one helper over one container, without types
struct Ops {
    n: usize,
    w: usize,
    helper: String,
    container: &'static str,
    sizes: Vec<usize>,
    /// MAX_LEVELS, DIMENSIONALITY, max_depth, max_depth of a storage
    numbers: (usize, usize, Option<usize>, Option<usize>),
    get: fn(&[u8], usize) -> Vec<usize>,
    set: fn(&[u8], usize, usize) -> Vec<u8>,
    history: fn(&[u8], usize, &[(usize, usize)]) -> Vec<u8>,
}
fn ops<D: Dimension + 'static, H: Helper<D> + 'static, T: Box_>() -> Ops {
    Ops {
        n: D::DIMENSIONALITY,
        w: H::W,
        helper: std::any::type_name::<H::St>().replace("morton_index::indices::storage::", "").replace("morton_index::dimensions::", ""),
        container: T::NM,
        sizes: T::sizes(),
        numbers: (
            <H::St as StorageType>::MAX_LEVELS,
            <H::St as StorageType>::DIMENSIONALITY,
            <H::St as StorageType>::max_depth(),
            <Carried<D, H, T> as Storage<D>>::max_depth(),
        ),
        get: |le, levels| {
            let bits = T::of(le);
            let v = (0..levels).map(|l| usz::<D>(unsafe { <H::St as StorageType>::get_cell_at_level_unchecked(&bits, l) })).collect();
            assert!(bits.lebytes() == le, "reading changed the bits");
            v
        },
        set: |le, l, v| {
            let mut b = T::of(le);
            unsafe { <H::St as StorageType>::set_cell_at_level_unchecked(&mut b, l, cl::<D>(v)) };
            b.lebytes()
        },
        history: |le, depth, writes| {
            let mut s = Carried::<D, H, T> { bits: T::of(le), depth, p: PhantomData };
            for (l, v) in writes {
                unsafe { s.set_cell_at_level_unchecked(*l, cl::<D>(*v)) };
                let g = usz::<D>(unsafe { s.get_cell_at_level_unchecked(*l) });
                assert!(g == *v, "a storage over it reads {g} at level {l}, wrote {v}");
            }
            s.bits.lebytes()
        },
    }
}
fn helper(ctx: &mut Ctx, o: &Ops) {
    let n = o.n;
    let hn = &o.helper;
    ctx.run(mix(n as u64, fnv(&hn.as_bytes())), true, || format!("{hn}: reported numbers"), || {
        let m = o.w / n;
        let e = if o.w == 0 { None } else { Some(m) };
        ens!(o.numbers == (m, n, e, e), "(MAX_LEVELS, DIMENSIONALITY, max_depth, max_depth of a storage) = {:?}", o.numbers);
        Ok(())
    });
    let mut cells = 0;
    for bytes in o.sizes.iter().copied() {
        // the integer's bits are the low ones of the container
        if bytes * 8 < o.w {
            continue;
        }
        let top = if o.w == 0 { bytes * 8 } else { o.w };
        let levels = top / n;
        for round in 0..ctx.iters(if bytes > 40 { 30 } else { 150 }, 1) {
            if ctx.done() {
                return;
            }
            let mut le: Vec<u8> = (0..bytes).map(|_| ctx.rng.u64() as u8).collect();
            match round % 6 {
                0 => le.fill(0xff),
                1 => le.fill(0),
                2 if !le.is_empty() => {
                    let i = ctx.rng.below(bytes * 8);
                    le.fill(0);
                    le[i / 8] = 1 << (i % 8);
                }
                _ => {}
            }
            let seed = ctx.rng.u64();
            ctx.run(
                mix(mix(fnv(&hn.as_bytes()), fnv(&o.container)), mix(bytes as u64, fnv(&le))),
                levels > 0,
                || format!("{hn} over {} with bytes {le:02x?} (seed {seed})", o.container),
                || {
                    let mut r = Rng(seed);
                    let got = (o.get)(&le, levels);
                    for l in 0..levels {
                        let e = read(&le, top - (l + 1) * n, n);
                        ens!(got[l] == e, "level {l} of {levels} reads {}, the bits there are {e}", got[l]);
                    }
                    // writes, one by one and as a history
                    let step = if levels > 64 { levels / 32 } else { 1 };
                    let mut writes = vec![];
                    let mut model = le.clone();
                    for l in (0..levels).step_by(step) {
                        let v = r.below(1 << n);
                        for v in [0, (1 << n) - 1, v] {
                            let b = (o.set)(&le, l, v);
                            let mut e = le.clone();
                            write(&mut e, top - (l + 1) * n, n, v);
                            ens!(b == e, "writing {v} at level {l} leaves {b:02x?}, expected {e:02x?}");
                        }
                        let l2 = r.below(levels);
                        writes.push((l2, v));
                        write(&mut model, top - (l2 + 1) * n, n, v);
                    }
                    let b = (o.history)(&le, levels, &writes);
                    ens!(b == model, "after the writes {writes:?}: {b:02x?}, expected {model:02x?}");
                    cells += levels;
                    Ok(())
                },
            );
        }
    }
    ctx.ev("cells_read", cells as u64);
}

/// an index of the user's over any number of axes: only what the traits require
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Tree<const N: usize>(Vec<Cl<N>>, usize);
impl<const N: usize> MortonIndex for Tree<N> {
    type Dimension = Axes<N>;
    fn get_cell_at_level(&self, level: usize) -> Cl<N> {
        self.0[level]
    }
    unsafe fn get_cell_at_level_unchecked(&self, level: usize) -> Cl<N> {
        self.0[level]
    }
    fn set_cell_at_level(&mut self, level: usize, cell: Cl<N>) {
        self.0[level] = cell;
    }
    unsafe fn set_cell_at_level_unchecked(&mut self, level: usize, cell: Cl<N>) {
        self.0[level] = cell;
    }
    fn depth(&self) -> usize {
        self.0.len()
    }
    fn to_string(&self, naming: MortonIndexNaming) -> String {
        let c: Vec<String> = self.0.iter().map(|c| c.0.to_string()).collect();
        match naming {
            MortonIndexNaming::CellConcatenation => c.join("."),
            MortonIndexNaming::CellConcatenationWithRoot => format!("r{}", c.join(".")),
            MortonIndexNaming::GridIndex => format!("{:?}", self.to_grid_index(())),
        }
    }
    fn to_grid_index(&self, _: ()) -> [usize; N] {
        std::array::from_fn(|a| self.0.iter().fold(0, |v, c| v << 1 | (c.0 >> a & 1) as usize))
    }
}
impl<const N: usize> VariableDepthMortonIndex for Tree<N> {
    fn ancestor(&self, generations: NonZeroUsize) -> Option<Self> {
        Some(Tree(self.0[..self.0.len().checked_sub(generations.get())?].to_vec(), self.1))
    }
    fn descendant(&self, cells: &[Cl<N>]) -> Option<Self> {
        if self.0.len() + cells.len() > self.1 {
            return None;
        }
        Some(Tree(self.0.iter().chain(cells).copied().collect(), self.1))
    }
}
fn tree<const N: usize>(ctx: &mut Ctx) {
    for i in 0..ctx.iters(8000, 20) {
        if ctx.done() {
            return;
        }
        let depth = if i < 70 { i as usize } else { ctx.rng.below(if i % 50 == 0 { 700 } else { 40 }) };
        let cap = depth + ctx.rng.below(3);
        let c: Vec<Cl<N>> = (0..depth).map(|_| Cl(ctx.rng.below(1 << N) as u8)).collect();
        let x = Tree(c.clone(), cap);
        let bytes: Vec<u8> = c.iter().map(|c| c.0).collect();
        ctx.run(mix(key(N as u64, &bytes), cap as u64), depth > 0, || format!("an own index over {N} axes with cells {bytes:?} and room for {cap}"), || {
            let t = |c: &[Cl<N>]| Tree(c.to_vec(), cap);
            let mut rev = c.clone();
            rev.reverse();
            ens!(x.inverted() == t(&rev), "inverted: {:?}", x.inverted());
            ens!(x.inverted().inverted() == x, "inverted twice: {:?}", x.inverted().inverted());
            let p = x.parent();
            ens!(p == (depth > 0).then(|| t(&c[..depth.max(1) - 1])), "parent: {p:?}");
            for d in (0..=depth + 2).chain([usize::MAX, 1 << 32, depth + 256, depth + 65536]) {
                let w = x.with_depth(d);
                ens!(w == c.get(..d).map(t), "with_depth({d}): {w:?}");
            }
            for v in 0..1usize << N {
                let k = x.child(Cl(v as u8));
                let mut e = c.clone();
                e.push(Cl(v as u8));
                ens!(k == (depth < cap).then(|| t(&e)), "child({v}): {k:?}");
            }
            ens!(x.0 == c, "the index changed");
            Ok(())
        });
    }
    ctx.ev("own_indices", 1);
}

pub fn c28(v: &mut Vec<Task>) {
    macro_rules! h {
        ($D:ty; $($H:ty)|*; $($T:ty)*) => { h!(@ $D; $($H)|*; [$($T)*]) };
        (@ $D:ty; $($H:ty)|*; $t:tt) => { $( h!(@@ $D; $H; $t); )* };
        (@@ $D:ty; $H:ty; [$($T:ty)*]) => { $( {
            let o = ops::<$D, $H, $T>();
            task(v, format!("{} over {}", o.helper, std::any::type_name::<$T>().rsplit("::").next().unwrap()), move |ctx: &mut Ctx| helper(ctx, &o));
        } )* };
    }
    macro_rules! dims {
        ($($D:ty),*) => { $(
            h!($D; Fx<u8> | Sx<u8> | Dx; u8 u16 usize Vec<u8>);
            h!($D; Fx<u16> | Sx<By<3>> | Dx; u32 By<5> Vec<u8>);
            h!($D; Fx<u32> | Sx<usize>; u64 Vec<u8>);
            h!($D; Fx<By<12>> | Sx<u64>; u128 By<12> Vec<u8>);
            h!($D; Fx<u128> | Sx<u128> | Dx; u128 By<31> Vec<u8>);
        )* };
    }
    dims!(Dim2D, Dim3D, Axes<1>, Axes<4>, Axes<5>, Axes<7>, Axes<8>);
    // and the rest of the integers
    macro_rules! dims2 {
        ($($D:ty),*) => { $(
            h!($D; Sx<u16> | Sx<u32> | Fx<u64> | Fx<usize> | Fx<By<31>> | Dx; u64 By<40>);
        )* };
    }
    dims2!(Dim2D, Dim3D, Axes<6>);
    task(v, "own index 1 and 2 axes", |ctx: &mut Ctx| {
        tree::<1>(ctx);
        tree::<2>(ctx);
    });
    task(v, "own index 4 axes", tree::<4>);
    task(v, "own index 5 axes", tree::<5>);
    task(v, "own index 7 axes", tree::<7>);
}
