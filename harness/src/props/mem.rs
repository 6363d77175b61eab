//! C26: where indices live. A counting allocator watches every heap request of the thread that runs a case.
use crate::ctx::*;
use crate::gen::*;
use crate::sub::*;
use crate::{ens, for_all, for_convs};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;
thread_local! {
    static REQUESTS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn note(requests: u64, live: i64) {
    let _ = REQUESTS.try_with(|c| c.set(c.get() + requests));
    let _ = LIVE.try_with(|c| c.set(c.get() + live));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(1, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static HEAP: Counting = Counting;

fn requests() -> u64 {
    REQUESTS.with(|c| c.get())
}
fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// result of `f` and the number of heap requests it made
fn heap<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let r0 = requests();
    let x = std::hint::black_box(f());
    (x, requests() - r0)
}
struct NoHeap {
    ops: u64,
}
impl NoHeap {
    /// runs an operation that must not touch the heap
    fn op<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        let (x, n) = heap(f);
        ens!(n == 0, "{name} makes {n} heap allocation{}", if n == 1 { "" } else { "s" });
        self.ops += 1;
        Ok(x)
    }
}
fn sip<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// every operation of a bounded type
fn bounded<S: Sub>(a: &[u8], b: &[u8], seed: u64) -> Result<u64, String> {
    let mut r = Rng(seed);
    let nc = <S::D as Dm>::NC;
    let cap = S::CAP.unwrap();
    let (ca, cb) = (tc::<S>(a), tc::<S>(b));
    let more = cap + r.range(1, 9);
    let over = tc::<S>(&rcells(&mut r, nc, more));
    let mut h = NoHeap { ops: 0 };
    let x = h.op("building from a slice", || S::slice(&ca))?.map_err(|e| format!("refused: {e:?}"))?;
    let y = h.op("building from a slice", || S::slice(&cb))?.map_err(|e| format!("refused: {e:?}"))?;
    let z = h.op("building from an array", || S::array(&ca))?;
    if let Some(z) = z {
        ens!(z.map_err(|e| format!("refused: {e:?}"))? == x, "array and slice construction differ");
    }
    ens!(h.op("refusing a slice", || S::slice(&over).is_err())?, "more cells than levels accepted");
    h.op("refusing an array", || S::array(&over))?;
    h.op("default", S::default)?;
    for d in [0, cap / 2, cap, cap + 1] {
        h.op("zeroed", || S::zero(d))?;
    }
    h.op("depth", || x.depth())?;
    h.op("max_depth", S::max_depth)?;
    let p = pad::<S>(a);
    for l in 0..p.len() {
        let c = h.op("checked read", || x.get(l))?;
        ens!(<S::D as Dm>::i(c) == p[l], "level {l} reads {c:?}");
        h.op("unchecked read", || x.get_u(l))?;
    }
    let (n, _) = h.op("iteration", || x.walk())?;
    ens!(n == p.len(), "iterates {n} cells of {}", p.len());
    let mut w = h.op("clone", || x.clone())?;
    h.op("clone_from", || w.clone_from(&y))?;
    h.op("clone_from", || w.clone_from(&x))?;
    for _ in 0..4 {
        if p.is_empty() {
            break;
        }
        let l = r.below(p.len());
        let c = <S::D as Dm>::c(r.below(nc as usize) as u8);
        h.op("checked write", || w.set(l, c))?;
        h.op("unchecked write", || w.set_u(l, c))?;
    }
    h.op("==", || (x == y, y == x, x == w))?;
    h.op("cmp", || (x.cmp(&y), y.cmp(&x), x.partial_cmp(&w), x < w, x >= y))?;
    h.op("max and min", || (x.clone().max(y.clone()), x.clone().min(y.clone())))?;
    h.op("hashing", || (sip(&x), fnv(&w)))?;
    // navigation
    let d = x.depth();
    for g in [1, d / 2, d, d + 1, usize::MAX] {
        if g > 0 {
            h.op("ancestor", || x.anc(g))?;
        }
    }
    h.op("parent", || x.parent())?;
    for nd in [0, d / 3, d, d + 1] {
        h.op("with_depth", || x.with_depth(nd))?;
    }
    let room = cap.saturating_sub(d);
    for k in [0, 1.min(room), room / 2, room, room + 1] {
        let e = tc::<S>(&rcells(&mut r, nc, k));
        h.op("descendant", || x.desc(&e))?;
    }
    h.op("child", || x.child(<S::D as Dm>::c(r.0 as u8 % nc)))?;
    h.op("inverted", || x.inv())?;
    // grid
    if S::INDEX && p.len() <= WORD {
        for o in 0..<S::D as Dm>::ORDS.len() {
            if let Some(g) = h.op("to_grid_index", || x.to_grid(o))? {
                let b = h.op("from_grid_index", || S::grid_new(g, p.len(), o))?;
                ens!(b.unwrap().map_err(|e| format!("{e:?}"))? == x, "the grid does not lead back");
            }
        }
        if S::KIND == Kind::Static {
            h.op("refusing a grid depth", || S::grid_new([1, 2, 3], cap + 1, 0))?;
        }
    }
    let raw = r.u128() & if S::BITS_W >= 128 { u128::MAX } else { (1 << S::BITS_W) - 1 };
    h.op("from_raw_index", || S::raw(raw, d))?;
    Ok(h.ops)
}

fn need<S: Sub>(depth: usize) -> i64 {
    (4 * ((depth * <S::D as Dm>::N + 7) / 8) + 64) as i64
}
/// heap held by the result of `f`, which is then dropped
fn held<S: Sub>(what: &str, deepest: usize, f: impl FnOnce() -> Option<S>) -> Result<i64, String> {
    let l0 = live();
    let x = f();
    let h = live() - l0;
    let d = x.as_ref().map_or(0, |x| x.depth());
    let some = x.is_some();
    drop(x);
    let left = live() - l0;
    ens!(left == 0, "{what}: {left} bytes of heap are not given back");
    ens!(some || h == 0, "{what}: {h} bytes of heap held by nothing");
    ens!(h <= need::<S>(deepest.max(d)), "{what}: an index of depth {d} holds {h} bytes of heap");
    Ok(h)
}
fn dynamic<S: Sub>(a: &[u8], b: &[u8], seed: u64) -> Result<u64, String> {
    let mut r = Rng(seed);
    let nc = <S::D as Dm>::NC;
    let (ca, cb) = (tc::<S>(a), tc::<S>(b));
    let l0 = live();
    let mut bytes = 0;
    {
        let deep = a.len();
        bytes += held::<S>("slice", 0, || S::slice(&ca).ok())?;
        bytes += held::<S>("array", 0, || S::array(&ca).and_then(|x| x.ok()))?;
        bytes += held::<S>("zeroed", 0, || S::zero(deep).flatten())?;
        held::<S>("default", 0, || Some(S::default()))?;
        let x = S::slice(&ca).unwrap();
        let y = S::slice(&cb).unwrap();
        // reading, comparing and hashing leave nothing behind
        let l1 = live();
        let _ = std::hint::black_box((x.walk(), x == y, x.cmp(&y), y.cmp(&x), sip(&x), x.depth()));
        for l in 0..deep.min(40) {
            std::hint::black_box((x.get(l), x.get_u(deep - 1 - l)));
        }
        let mut w = x.clone();
        let l2 = live();
        for _ in 0..6 {
            if deep > 0 {
                let (l, c) = (r.below(deep), <S::D as Dm>::c(r.below(nc as usize) as u8));
                w.set(l, c);
                w.set_u(l, c);
            }
        }
        ens!(live() == l2, "writing cells changes the heap held by {} bytes", live() - l2);
        drop(w);
        ens!(live() == l1, "reading, comparing and cloning leave {} bytes of heap behind", live() - l1);
        held::<S>("clone", 0, || Some(x.clone()))?;
        held::<S>("clone_from", deep, || {
            let mut w = x.clone();
            w.clone_from(&y);
            Some(w)
        })?;
        for g in [1, deep / 2, deep, deep + 1] {
            if g > 0 {
                held::<S>("ancestor", deep, || x.anc(g).flatten())?;
            }
        }
        held::<S>("parent", deep, || x.parent().flatten())?;
        for nd in [0, deep / 3, deep, deep + 1] {
            held::<S>("with_depth", deep, || x.with_depth(nd).flatten())?;
        }
        held::<S>("descendant", deep, || x.desc(&cb).flatten())?;
        held::<S>("child", deep, || x.child(<S::D as Dm>::c(0)).flatten())?;
        held::<S>("inverted", deep, || x.inv())?;
        if S::INDEX && deep <= WORD / 2 {
            for o in 0..<S::D as Dm>::ORDS.len() {
                let g = x.to_grid(o).unwrap();
                held::<S>("from_grid_index", deep, || S::grid_new(g, deep, o).and_then(|x| x.ok()))?;
            }
        }
        // a long life: the heap held follows the deepest state, not the number of operations
        let mut z = S::slice(&cb).unwrap();
        let mut deepest = b.len().max(deep);
        for step in 0..40 {
            let d = z.depth();
            z = match r.below(5) {
                0 => z.anc(r.range(1, d + 1)).flatten().unwrap_or(z),
                1 if d < 6000 => z.desc(&tc::<S>(&rcells(&mut r, nc, step % 7 + 1))).flatten().unwrap(),
                2 => z.inv().unwrap_or(z),
                3 => {
                    let mut q = z.clone();
                    q.clone_from(&x);
                    if r.chance(2) {
                        q
                    } else {
                        z
                    }
                }
                _ if d < 3000 => z.desc(&ca).flatten().unwrap(),
                _ => z.anc(d - d / 4).flatten().unwrap_or(z),
            };
            deepest = deepest.max(z.depth());
        }
        let before = live();
        let d = z.depth();
        drop(z);
        let h = before - live();
        ens!(h >= 0 && h <= need::<S>(deepest), "after a history that reached depth {deepest}, an index of depth {d} held {h} bytes");
        bytes += h;
    }
    ens!(live() == l0, "{} bytes of heap are left after everything was dropped", live() - l0);
    Ok(bytes as u64)
}

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotCopy {
    fn copies(&self) -> bool {
        false
    }
}
impl<T> NotCopy for Probe<T> {}
impl<T: Copy> Probe<T> {
    fn copies(&self) -> bool {
        true
    }
}

pub fn c26(v: &mut Vec<Task>) {
    fn t<S: Sub>(ctx: &mut Ctx) {
        let miri = ctx.miri();
        let mut ops = 0;
        let mut held = 0;
        let one = |ctx: &mut Ctx, a: &[u8], b: &[u8]| -> u64 {
            let seed = ctx.rng.u64();
            let mut n = 0;
            ctx.run(
                mix(key(26, a), key(1, b)),
                !a.is_empty(),
                || format!("{} cells {} and {}: heap use (seed {seed})", S::NAME, show(a), show(b)),
                || {
                    n = if S::KIND == Kind::Dyn { dynamic::<S>(a, b, seed)? } else { bounded::<S>(a, b, seed)? };
                    Ok(())
                },
            );
            n
        };
        let n = ctx.iters(60, 1);
        thin::<S>(ctx, if S::KIND == Kind::Dyn { 8 } else { 3 }, n, |ctx, a| {
            let d = rdepth::<S>(&mut ctx.rng);
            let b = if ctx.rng.chance(3) { neighbour::<S>(&mut ctx.rng, a) } else { rcells(&mut ctx.rng, <S::D as Dm>::NC, d) };
            let n = one(ctx, a, &b);
            if S::KIND == Kind::Dyn {
                held += n;
            } else {
                ops += n;
            }
        });
        if S::KIND == Kind::Dyn && !miri {
            for d in [1000, 4097, 20000] {
                let a = rcells(&mut ctx.rng, <S::D as Dm>::NC, d);
                let b = rcells(&mut ctx.rng, <S::D as Dm>::NC, d / 7);
                held += one(ctx, &a, &b);
            }
        }
        ctx.ev("operations_without_heap", ops);
        ctx.ev("heap_bytes_held_and_released", held);
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_all!(m);
    // conversions
    fn tc_<K: Conv>(ctx: &mut Ctx) {
        let n = ctx.iters(60, 1);
        thin::<K::S>(ctx, 3, n, |ctx, a| {
            let mut ops = 0;
            ctx.run(key(27, a), !a.is_empty(), || format!("{} cells {}: heap use of conversions", K::S::NAME, show(a)), || {
                let mut h = NoHeap { ops: 0 };
                let s = mk::<K::S>(a)?;
                let f = h.op("static to fixed", || K::s2f(s.clone()))?;
                let s2 = h.op("fixed to static", || K::f2s(f.clone()))?;
                ens!(s2.depth() == f.depth(), "depth changed");
                ops = h.ops;
                let l0 = live();
                let y = K::s2y(s.clone());
                let full = K::f2y(f.clone());
                for (what, x) in [("static", &y), ("fixed", &full)] {
                    ens!(x.depth() <= f.depth(), "depth {} from {what}", x.depth());
                }
                let held = live() - l0;
                ens!(held <= 2 * need::<K::Y>(f.depth()), "two dynamic indices of depth {} and {} hold {held} bytes", y.depth(), full.depth());
                let _ = std::hint::black_box((K::y2s(y.clone()).is_ok(), K::y2f(full.clone()).is_ok()));
                drop((K::y2s(y), K::y2f(full)));
                ens!(live() == l0, "conversions leave {} bytes of heap behind", live() - l0);
                Ok(())
            });
            ctx.ev("operations_without_heap", ops);
        });
    }
    macro_rules! m { ($t:ty) => { task(v, format!("conversions {}", <<$t as Conv>::S as Sub>::NAME), tc_::<$t>); }; }
    for_convs!(m);
    // sizes, Copy
    task(v, "sizes", |ctx: &mut Ctx| {
        macro_rules! m {
            ($t:ty) => {
                ctx.run(fnv(&<$t as Sub>::NAME.as_bytes()), true, || format!("{}: size and Copy", <$t as Sub>::NAME), || {
                    let size = std::mem::size_of::<$t>();
                    let bytes = <$t as Sub>::BITS_W / 8;
                    match <$t as Sub>::KIND {
                        Kind::Fixed => ens!(size == bytes, "{size} bytes large, its storage integer has {bytes}"),
                        Kind::Static => ens!(
                            size <= bytes + std::mem::align_of::<$t>() && std::mem::align_of::<$t>() <= bytes,
                            "{size} bytes large, its storage integer has {bytes}"
                        ),
                        Kind::Dyn => {}
                    }
                    let c = Probe::<$t>(std::marker::PhantomData).copies();
                    ens!(c || <$t as Sub>::KIND == Kind::Dyn, "not Copy");
                    Ok(())
                });
            };
        }
        for_all!(m);
    });
}
