//! C19 (undefined behaviour), C20 (platform independence), C21 (purity): a workload that calls every operation within
//! its contract and folds everything observable into a digest. The sanitizer, interpreter or second platform it runs
//! on is the oracle; results are also compared with the model.
use crate::ctx::*;
use crate::ens;
use crate::gen::*;
use crate::props::num::{lm, rbytes, rint, vget, vset, Int};
use crate::sub::*;
use crate::{for_all, for_convs, for_indices};
use morton_index::number::*;
use morton_index::MortonIndexNaming;
use std::cmp::Ordering;

fn oc(o: Ordering) -> u64 {
    (o as i8 + 1) as u64
}
fn fold_cells<S: Sub>(h: u64, x: &S) -> u64 {
    let mut h = mix(h, x.depth() as u64);
    for c in x.iter(x.depth() + 2) {
        h = mix(h, <S::D as Dm>::i(c) as u64);
    }
    h
}
fn fold_opt<S: Sub>(h: u64, x: &Option<S>) -> u64 {
    match x {
        Some(x) => fold_cells(mix(h, 1), x),
        None => mix(h, 0),
    }
}
fn fold_str(h: u64, s: &str) -> u64 {
    key(h, s.as_bytes())
}
/// Everything observable about the index with these cells and a second index `w`, driven by `seed`.
/// Depends only on the arguments. `grid`: largest depth for which grid operations are asked for.
pub fn obs<S: Sub>(c: &[u8], w: &[u8], seed: u64, grid: usize) -> Result<u64, String> {
    let mut r = Rng(seed);
    let nc = <S::D as Dm>::NC;
    let no = <S::D as Dm>::ORDS.len();
    let p = pad::<S>(c);
    let n = p.len();
    let x = mk::<S>(c)?;
    same(&x, &p)?;
    same_iter(&x, &p)?;
    let mut h = fold_cells(1, &x);
    // what must be refused
    if r.chance(3) {
        if S::INDEX {
            for l in [n, n + 1, n + r.below(40), usize::MAX] {
                let get = guard(|| <S::D as Dm>::i(x.get(l)));
                ens!(get.is_err(), "reading level {l} of an index of depth {n} returned {get:?}");
                let mut y = x.clone();
                let set = guard(|| y.set(l, <S::D as Dm>::c(nc - 1)));
                ens!(set.is_err(), "writing level {l} of an index of depth {n} is accepted");
                ens!(y == x, "a refused write changed the index");
                h = fold_cells(mix(h, get.is_err() as u64 * 2 + set.is_err() as u64), &y);
            }
        }
        if let Some(cap) = S::CAP {
            for k in [cap + 1, 256, 256 + r.below(cap + 1)] {
                if k <= cap {
                    continue;
                }
                let a = S::slice(&tc::<S>(&vec![nc - 1; k]));
                ens!(a.is_err(), "{k} cells are accepted");
                h = fold_str(h, &format!("{:?}", a.err()));
                if S::KIND == Kind::Static {
                    if k < 256 {
                        ens!(S::zero(k).map_or(true, |z| z.is_none()), "zeroed({k}) is accepted");
                    }
                    ens!(x.desc(&tc::<S>(&vec![1; k - n])).unwrap().is_none(), "descendant at level {k} is accepted");
                    if let Some(g) = S::grid_new([1, 1, 1], k, 0) {
                        ens!(g.is_err(), "grid depth {k} is accepted");
                        h = fold_str(h, &format!("{:?}", g.err()));
                    }
                }
            }
        }
    }
    if let Some(a) = S::array(&tc::<S>(c)) {
        let a = a.map_err(|e| format!("{e:?}"))?;
        h = fold_cells(h, &a);
        h = mix(h, (a == x) as u64);
    }
    for l in 0..n {
        h = mix(h, <S::D as Dm>::i(x.get_u(l)) as u64);
    }
    // writes
    let mut y = x.clone();
    let mut m = p.clone();
    for _ in 0..n.min(6) {
        let l = r.below(n);
        m[l] = r.below(nc as usize) as u8;
        if r.chance(2) {
            y.set(l, <S::D as Dm>::c(m[l]));
        } else {
            y.set_u(l, <S::D as Dm>::c(m[l]));
        }
    }
    same(&y, &m)?;
    h = fold_cells(h, &y);
    // comparisons
    let z = mk::<S>(w)?;
    for (a, b) in [(&x, &y), (&x, &z), (&z, &y), (&x, &x)] {
        h = mix(h, oc(a.cmp(b)) << 8 | (a == b) as u64);
        h = mix(h, (a < b) as u64 | ((a <= b) as u64) << 1 | ((a > b) as u64) << 2 | ((a >= b) as u64) << 3);
        ens!(a != b || fnv(a) == fnv(b), "equal indices hash differently");
    }
    ens!(x.cmp(&z) == p.cmp(&pad::<S>(w)), "cmp {:?}", x.cmp(&z));
    h = mix(h, format!("{x:?}").is_empty() as u64);
    if S::KIND != Kind::Fixed {
        for g in [1, 2, n / 2 + 1, n.max(1), n + 1, r.below(n + 2) + 1, usize::MAX] {
            let a = x.anc(g).unwrap();
            ens!(a.is_some() == (g <= n), "ancestor({g}) of depth {n}");
            if let Some(a) = &a {
                same(a, &p[..n - g])?;
            }
            h = fold_opt(h, &a);
        }
        for k in [0, 1, 3, S::CAP.map_or(9, |cap| cap - n), S::CAP.map_or(17, |cap| cap - n + 1)] {
            let e = rcells(&mut r, nc, k);
            let a = x.desc(&tc::<S>(&e)).unwrap();
            if let Some(a) = &a {
                same(a, &[&p[..], &e[..]].concat())?;
            }
            h = fold_opt(h, &a);
        }
        if let Some(a) = x.parent() {
            h = fold_opt(h, &a);
        }
        if let Some(a) = x.child(<S::D as Dm>::c(r.below(nc as usize) as u8)) {
            h = fold_opt(h, &a);
        }
        for d in [0, n / 2, n, n + 1] {
            if let Some(a) = x.with_depth(d) {
                h = fold_opt(h, &a);
            }
        }
        if let Some(a) = S::zero(n) {
            h = fold_opt(h, &a);
        }
    }
    if S::INDEX {
        let i = x.inv().unwrap();
        let mut q = p.clone();
        q.reverse();
        same(&i, &q)?;
        h = fold_cells(h, &i);
        h = fold_str(h, &x.name(MortonIndexNaming::CellConcatenation).unwrap());
        h = fold_str(h, &x.name(MortonIndexNaming::CellConcatenationWithRoot).unwrap());
        if n <= grid {
            h = fold_str(h, &x.name(MortonIndexNaming::GridIndex).unwrap());
            for o in 0..no {
                let g = x.to_grid(o).unwrap();
                ens!(g == model_grid::<S::D>(&p, o), "to_grid_index {g:?}");
                for a in g {
                    h = mix(h, a as u64);
                }
                if S::KIND != Kind::Dyn || n <= grid / 2 {
                    let b = S::grid_new(g, n, o).unwrap().map_err(|e| format!("{e:?}"))?;
                    same(&b, &p)?;
                    h = fold_cells(h, &b);
                }
            }
        }
        for (_, a) in S::conv_routes(c) {
            same(&a, &p)?;
            h = fold_cells(h, &a);
        }
        if <S::D as Dm>::N == 3 && S::CAP.is_some() {
            let d = if S::KIND == Kind::Fixed { n } else { r.below(S::CAP.unwrap() + 1) };
            let b = r.u128() & if S::BITS_W == 128 { u128::MAX } else { (1 << S::BITS_W) - 1 };
            if let Some(a) = S::raw(b, d) {
                h = fold_cells(h, &a);
            }
        }
    }
    h = fold_cells(h, &x);
    Ok(h)
}

/// the operations of a deep dynamic index, each once and cheap enough for the interpreter
pub fn obs_deep<S: Sub>(c: &[u8], seed: u64) -> Result<u64, String> {
    let mut r = Rng(seed);
    let nc = <S::D as Dm>::NC;
    let n = c.len();
    let x = mk::<S>(c)?;
    let it = x.walk();
    ens!(it.0 == n, "iterates {} cells", it.0);
    let mut h = mix(7, n as u64);
    let far = |r: &mut Rng| if r.chance(2) { n - 1 - r.below(n.min(9)) } else { r.below(n) };
    // a twin that differs in one level
    let mut y = x.clone();
    let mut m = c.to_vec();
    let l = far(&mut r);
    m[l] = (m[l] + 1 + r.below(nc as usize - 1) as u8) % nc;
    y.set(l, <S::D as Dm>::c(m[l]));
    ens!(<S::D as Dm>::i(y.get(l)) == m[l], "level {l} reads something else than written");
    ens!(x != y && x.cmp(&y) == c.cmp(&m[..]), "cmp of indices differing at level {l}: {:?}", x.cmp(&y));
    y.set_u(l, <S::D as Dm>::c(c[l]));
    ens!(x == y && (cfg!(miri) || x.cmp(&y).is_eq()) && fnv(&x) == fnv(&y), "written back at level {l}, but not equal");
    // children and other descendants, compared with the original
    for k in [1, 2 + r.below(15)] {
        let e = rcells(&mut r, nc, k);
        let d = x.desc(&tc::<S>(&e)).flatten().ok_or("no descendant")?;
        let all = [c, &e[..]].concat();
        ens!(d.depth() == all.len(), "depth of the descendant {}", d.depth());
        for l in (n.saturating_sub(9)..all.len()).chain(0..9) {
            ens!(<S::D as Dm>::i(d.get_u(l)) == all[l], "descendant, level {l}: {:?}", d.get_u(l));
        }
        ens!(x < d, "the descendant does not sort after the original");
        ens!(cfg!(miri) || d > x && d != x, "the original does not sort before the descendant");
        let b = d.anc(k).flatten().ok_or("no ancestor")?;
        ens!(b == x, "ancestor of the descendant");
        h = mix(h, fnv(&d));
    }
    for g in [1, 2 + r.below(7), n / 2, n - 9, n] {
        let a = x.anc(g).flatten().ok_or("no ancestor")?;
        ens!(a.depth() == n - g, "ancestor({g}) has depth {}", a.depth());
        for l in ((n - g).saturating_sub(9)..n - g).chain(0..(n - g).min(9)) {
            ens!(<S::D as Dm>::i(a.get_u(l)) == c[l], "ancestor({g}), level {l}: {:?}", a.get_u(l));
        }
        h = mix(h, fnv(&a));
    }
    if S::INDEX {
        if let Some(a) = x.with_depth(n - 1) {
            let p = x.parent().flatten();
            ens!(a == p, "with_depth({}) is not the parent", n - 1);
        }
        let i = x.inv().unwrap();
        let mut q = c.to_vec();
        q.reverse();
        same(&i, &q)?;
        let t = x.name(MortonIndexNaming::CellConcatenationWithRoot).unwrap();
        ens!(t.len() == n + 1 && t.bytes().skip(1).zip(c).all(|(a, b)| a == b'0' + b), "name {t}");
        h = fold_str(h, &t);
    }
    if let Some(Some(z)) = S::zero(n) {
        ens!(z.depth() == n && (0..n).step_by(7).all(|l| <S::D as Dm>::i(z.get_u(l)) == 0), "zeroed({n})");
        h = mix(h, fnv(&z));
    }
    Ok(h)
}

/// what the library says about conversions between flavors of one width
pub fn obs_conv<C: Conv>(c: &[u8]) -> Result<u64, String> {
    let f = mk::<C::F>(c)?;
    let s = mk::<C::S>(c)?;
    let y = mk::<C::Y>(c)?;
    let p = pad::<C::F>(c);
    let e = |e: morton_index::Error| format!("{e:?}");
    let mut h = 5;
    let a = C::f2s(f.clone());
    same(&a, &p)?;
    h = fold_cells(h, &a);
    let a = C::f2y(f);
    same(&a, &p)?;
    h = fold_cells(h, &a);
    let a = C::s2f(s.clone());
    same(&a, &p)?;
    h = fold_cells(h, &a);
    let a = C::s2y(s);
    same(&a, c)?;
    h = fold_cells(h, &a);
    let a = C::y2f(y.clone()).map_err(e)?;
    same(&a, &p)?;
    h = fold_cells(h, &a);
    let a = C::y2s(y).map_err(e)?;
    same(&a, c)?;
    h = fold_cells(h, &a);
    let over = vec![1u8; C::F::CAP.unwrap() + 1];
    let y = mk::<C::Y>(&over)?;
    h = mix(h, C::y2f(y.clone()).is_err() as u64 * 2 + C::y2s(y).is_err() as u64);
    Ok(h)
}

pub fn obs_int<T: Int>(seed: u64) -> Result<u64, String> {
    let mut r = Rng(seed);
    let w = T::W;
    let x = rint(&mut r, w);
    let mut h = 9;
    let s = r.below(w + 1);
    let e = r.range(s, w);
    unsafe {
        for (s, e) in [(s, e), (0, w), (s, w), (0, e), (w - 1, w), (w, w), (0, 0)] {
            let g = T::f(x).get_bits(s..e).t();
            ens!(g == x.checked_shr(s as u32).unwrap_or(0) & lm(e - s), "{}: {x:#x}.get_bits({s}..{e}) = {g:#x}", T::NM);
            h = mix(mix(h, g as u64), (g >> 64) as u64);
            if e > s {
                let n = rint(&mut r, e - s);
                let mut v = T::f(x);
                v.set_bits(s..e, T::f(n));
                ens!(v.t() == (x & !(lm(e - s) << s)) | n << s, "{}: {x:#x}.set_bits({s}..{e}, {n:#x}) = {:#x}", T::NM, v.t());
                h = mix(mix(h, v.t() as u64), (v.t() >> 64) as u64);
                if n <= u32::MAX as u128 {
                    v = T::f(x);
                    v.set_bits_from_usize(s..e, n as usize);
                    h = mix(mix(h, v.t() as u64), (v.t() >> 64) as u64);
                }
            }
            if e - s <= 32 {
                h = mix(h, T::f(x).get_bits_as_usize(s..e) as u64);
            }
        }
        let v = T::f(x);
        h = mix(h, v.as_u8() as u64);
        h = mix(h, v.as_u16() as u64);
        h = mix(h, v.as_u32() as u64);
        h = mix(h, v.as_u64());
        h = mix(h, v.as_u128() as u64);
        h = mix(h, v.as_u8_slice().iter().fold(0, |a, b| a ^ *b as u64));
        let y = rint(&mut r, 128);
        for z in [T::from_u8(y as u8), T::from_u16(y as u16), T::from_u32(y as u32), T::from_u64(y as u64), T::from_u128(y)] {
            h = mix(mix(h, z.t() as u64), (z.t() >> 64) as u64);
        }
        let k = r.below(w / 8 + 3);
        let b = rbytes(&mut r, k);
        for z in [T::from_u8_slice(&b, Endianness::LittleEndian), T::from_u8_slice(&b, Endianness::BigEndian)] {
            h = mix(mix(h, z.t() as u64), (z.t() >> 64) as u64);
        }
    }
    // alignment, where the answer is representable
    let a = rint(&mut r, w) >> r.below(w);
    let top = if a == 0 { x } else { lm(w) / a * a };
    if x <= top {
        let g = T::f(x).align(T::f(a)).t();
        h = mix(mix(h, g as u64), (g >> 64) as u64);
    }
    Ok(h)
}

pub fn obs_vec(seed: u64) -> Result<u64, String> {
    let mut r = Rng(seed);
    let len = if r.chance(10) { r.range(1, 100) } else { r.range(1, 20) };
    let x = rbytes(&mut r, len);
    let mut h = 11;
    unsafe {
        for _ in 0..4 {
            let s = r.below(len * 8 + 1);
            let e = if r.chance(3) { len * 8 } else { r.range(s, len * 8) };
            let g = x.get_bits(s..e);
            ens!(g == vget(&x, s..e), "{x:?}.get_bits({s}..{e}) = {g:?}");
            h = key(h, &g);
            if e - s <= 32 {
                h = mix(h, x.get_bits_as_usize(s..e) as u64);
            }
            if e > s {
                let k = (e - s + 7) / 8 + r.below(3);
                let n = rbytes(&mut r, k);
                let mut v = x.clone();
                v.set_bits(s..e, n.clone());
                let mut m = x.clone();
                vset(&mut m, s..e, &n);
                ens!(v == m, "{x:?}.set_bits({s}..{e}, {n:?}) = {v:?}");
                h = key(h, &v);
                if e - s <= 32 {
                    let mut v = x.clone();
                    let n = r.u64() as u32 as usize;
                    v.set_bits_from_usize(s..e, n);
                    let mut m = x.clone();
                    vset(&mut m, s..e, &(n as u32).to_le_bytes());
                    ens!(v == m, "{x:?}.set_bits_from_usize({s}..{e}, {n:#x}) = {v:?}");
                    h = key(h, &v);
                }
            }
        }
        let y = r.u128();
        ens!(<Vec<u8> as Bits>::from_u8(y as u8).as_u8() == y as u8, "Vec u8");
        ens!(<Vec<u8> as Bits>::from_u16(y as u16).as_u16() == y as u16, "Vec u16");
        ens!(<Vec<u8> as Bits>::from_u32(y as u32).as_u32() == y as u32, "Vec u32");
        ens!(<Vec<u8> as Bits>::from_u64(y as u64).as_u64() == y as u64, "Vec u64");
        ens!(<Vec<u8> as Bits>::from_u128(y).as_u128() == y, "Vec u128");
        ens!(<Vec<u8> as Bits>::from_usize(y as usize).as_usize() == y as usize, "Vec usize");
        let mut z = x.clone();
        ens!(z.as_u8_slice() == &x[..] && z.as_u8_slice_mut().len() == len && z.size() == len, "slices");
    }
    Ok(h)
}
pub fn obs_misc(seed: u64) -> u64 {
    use morton_index::dimensions::{Octant, Quadrant};
    let mut r = Rng(seed);
    let mut h = 13;
    let x = r.u64();
    h = mix(h, add_zero_before_every_bit_u8(x as u8) as u64);
    h = mix(h, add_zero_behind_every_bit_u8((x >> 8) as u8) as u64);
    h = mix(h, add_zero_before_every_bit_u16((x >> 16) as u16) as u64);
    h = mix(h, add_two_zeroes_before_every_bit_u8((x >> 32) as u8) as u64);
    h = mix(h, add_two_zeroes_before_every_bit_u32((x >> 32) as u32));
    let n = (r.u64() >> r.range(32, 63)) as usize;
    h = mix(h, Quadrant::try_from(n).map_or(99, |q| q.index()) as u64);
    h = mix(h, Octant::try_from(n).map_or(99, |q| q.index()) as u64);
    for o in 0..6 {
        let c = r.below(8) as u8;
        let g = Three::ug(&Three::o(o).to_index(Three::c(c)));
        let (a, b, d) = Three::o(o).get_bit_shifts_for_xyz();
        h = mix(h, (g[0] + 2 * g[1] + 4 * g[2]) as u64 | (a << 8 | b << 12 | d << 16) as u64);
        let g = Two::ug(&Two::o(o % 2).to_index(Two::c(c & 3)));
        h = mix(h, (g[0] + 2 * g[1]) as u64);
    }
    h
}

/// `portable`: only what 32-bit machines can represent too
pub fn obs_tasks(v: &mut Vec<Task>, portable: bool) {
    fn t<S: Sub>(ctx: &mut Ctx, portable: bool) {
        let nc = <S::D as Dm>::NC;
        let grid = if portable { 32 } else { WORD };
        let it = ctx.iters(4000, 1 + 2 * ctx.scale);
        for k in 0..it {
            if ctx.done() {
                return;
            }
            let r = &mut ctx.rng;
            let mut d = rdepth::<S>(r);
            if k == 0 {
                d = S::CAP.unwrap_or(37);
            }
            if k == 1 {
                d = S::CAP.map_or(8, |c| c / 2 + 1).min(31);
            }
            if k == 2 {
                d = S::CAP.map_or(133, |c| c.min(3));
            }
            if cfg!(miri) {
                d = d.min(140);
            }
            let c = rcells(r, nc, d);
            let w = neighbour::<S>(r, &c);
            let seed = r.u64();
            let mut h = 0;
            ctx.run(key(key(seed, &w), &c), !c.is_empty(), || format!("{}: every operation on cells {} and {} (seed {seed})", S::NAME, show(&c), show(&w)), || {
                h = obs::<S>(&c, &w, seed, grid)?;
                Ok(())
            });
            ctx.observe(h);
        }
        ctx.ev("index_observations", it);
    }
    fn tc_<C: Conv>(ctx: &mut Ctx) {
        let it = ctx.iters(4000, 2 * ctx.scale);
        for _ in 0..it {
            if ctx.done() {
                return;
            }
            let d = ctx.rng.below(C::F::CAP.unwrap() + 1);
            let c = rcells(&mut ctx.rng, <C::D as Dm>::NC, d);
            let mut h = 0;
            ctx.run(key(2, &c), !c.is_empty(), || format!("{} width {}: all conversions of cells {}", <C::D as Dm>::NAME, C::F::BITS_W, show(&c)), || {
                h = obs_conv::<C>(&c)?;
                Ok(())
            });
            ctx.observe(h);
        }
        ctx.ev("conversion_observations", it);
    }
    fn ti<T: Int>(ctx: &mut Ctx) {
        let it = ctx.iters(15000, 20 * ctx.scale);
        for _ in 0..it {
            if ctx.done() {
                return;
            }
            let seed = ctx.rng.u64();
            let mut h = 0;
            ctx.run(seed, true, || format!("{}: number operations (seed {seed})", T::NM), || {
                h = obs_int::<T>(seed)?;
                Ok(())
            });
            ctx.observe(h);
        }
        ctx.ev("number_observations", it);
    }
    macro_rules! m {
        ($t:ty) => {
            // usize storage differs between platforms by design
            if !(portable && <$t as Sub>::NAME.contains("usize")) {
                task(v, <$t as Sub>::NAME, move |c| t::<$t>(c, portable));
            }
        };
    }
    for_all!(m);
    // deep dynamic ones: every remainder by 8, depths the interpreter can still walk
    fn deep<S: Sub>(ctx: &mut Ctx, around: usize) {
        let it = ctx.iters(60, 1);
        for k in 0..it {
            if ctx.done() {
                return;
            }
            let n = around + if k == 0 { 0 } else { ctx.rng.below(16) };
            let c = rcells(&mut ctx.rng, <S::D as Dm>::NC, n);
            let seed = ctx.rng.u64();
            let mut h = 0;
            ctx.run(key(seed, &c), true, || format!("{} at depth {n}: every operation on cells {} (seed {seed})", S::NAME, show(&c)), || {
                h = obs_deep::<S>(&c, seed)?;
                Ok(())
            });
            ctx.observe(h);
        }
        ctx.ev("deep_index_observations", it);
    }
    macro_rules! md {
        ($t:ty) => {
            // under the interpreter fewer: the storage below an index has the same code
            if <$t as Sub>::KIND == Kind::Dyn && !(cfg!(miri) && (portable || !<$t as Sub>::INDEX)) {
                for r in 0..8 {
                    for around in [256, 600, 1024, 2048] {
                        if !(cfg!(miri) && (around > 1000 || around == 256 && r % 2 > 0)) {
                            task(v, format!("{} deep {}", <$t as Sub>::NAME, around + r), move |c: &mut Ctx| deep::<$t>(c, around + r));
                        }
                    }
                }
            }
        };
    }
    for_all!(md);
    macro_rules! mc {
        ($t:ty) => {
            if !(portable && stringify!($t).contains("usize")) {
                task(v, concat!("conv", stringify!($t)), tc_::<$t>);
            }
        };
    }
    for_convs!(mc);
    macro_rules! mi {
        ($t:ty) => {
            if !(portable && stringify!($t) == "usize") {
                task(v, concat!("int ", stringify!($t)), ti::<$t>);
            }
        };
    }
    mi!(u8);
    mi!(u16);
    mi!(u32);
    mi!(u64);
    mi!(u128);
    mi!(usize);
    task(v, "byte vectors", |ctx: &mut Ctx| {
        let it = ctx.iters(30000, 30 * ctx.scale);
        for _ in 0..it {
            if ctx.done() {
                return;
            }
            let seed = ctx.rng.u64();
            let mut h = 0;
            ctx.run(seed, true, || format!("byte vector operations (seed {seed})"), || {
                h = obs_vec(seed)?;
                Ok(())
            });
            ctx.observe(h);
        }
        ctx.ev("byte_vector_observations", it);
    });
    task(v, "spreading and cells", |ctx: &mut Ctx| {
        let it = ctx.iters(30000, 30 * ctx.scale);
        for _ in 0..it {
            let seed = ctx.rng.u64();
            let mut h = 0;
            ctx.run(seed, true, || format!("spreading, cells and orderings (seed {seed})"), || {
                h = obs_misc(seed);
                Ok(())
            });
            ctx.observe(h);
        }
        ctx.ev("helper_observations", it);
    });
}

// ---------------------------------------------------------------- C21
#[cfg(feature = "c21")]
pub fn c21(v: &mut Vec<Task>) {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    use std::hash::Hash;
    use std::sync::Barrier;
    /// lets shared references cross threads even if the type under test were not Sync (that is checked separately)
    struct Sh<T>(T);
    unsafe impl<T> Sync for Sh<T> {}
    unsafe impl<T> Send for Sh<T> {}
    impl<T> Sh<T> {
        fn get(&self) -> &T {
            &self.0
        }
    }
    /// read-only observations of a shared index
    fn read<S: Sub>(x: &S, y: &S, grid: usize) -> u64 {
        let mut h = fold_cells(3, x);
        for l in 0..x.depth() {
            h = mix(h, <S::D as Dm>::i(x.get(l)) as u64);
        }
        h = mix(h, oc(x.cmp(y)) * 4 + (x == y) as u64);
        h = mix(h, fnv(x));
        h = fold_cells(h, &x.clone());
        if S::KIND != Kind::Fixed {
            h = fold_opt(h, &x.anc(1).unwrap());
            h = fold_opt(h, &x.anc(x.depth() / 2 + 1).unwrap());
            h = fold_opt(h, &x.desc(&[<S::D as Dm>::c(1)]).unwrap());
            h = fold_opt(h, &x.desc(&[]).unwrap());
        }
        if S::INDEX {
            h = fold_cells(h, &x.inv().unwrap());
            h = fold_str(h, &x.name(MortonIndexNaming::CellConcatenationWithRoot).unwrap());
            if x.depth() <= grid {
                for o in 0..<S::D as Dm>::ORDS.len() {
                    for a in x.to_grid(o).unwrap() {
                        h = mix(h, a as u64);
                    }
                }
                h = fold_str(h, &x.name(MortonIndexNaming::GridIndex).unwrap());
            }
        }
        h
    }
    fn t<S: Sub>(ctx: &mut Ctx) {
        let nc = <S::D as Dm>::NC;
        let (inputs, threads, rounds) = if ctx.miri() { (2usize, 3usize, 1u64) } else { (24, 4, 12 * ctx.scale) };
        let mut interleavings: std::collections::HashSet<u64> = Default::default();
        let mut reads = 0u64;
        for round in 0..rounds {
            if ctx.done() {
                return;
            }
            let mut cs: Vec<(Vec<u8>, Vec<u8>, u64)> = vec![];
            for i in 0..inputs {
                let c = if i % 3 == 2 {
                    // close relatives, so that a confused cache would mix them up
                    neighbour::<S>(&mut ctx.rng, &cs[i - 1].0.clone())
                } else {
                    let mut d = rdepth::<S>(&mut ctx.rng);
                    if ctx.miri() {
                        d = d.min(12);
                    }
                    rcells(&mut ctx.rng, nc, d)
                };
                let w = neighbour::<S>(&mut ctx.rng, &c);
                cs.push((c, w, ctx.rng.u64()));
            }
            let order: Vec<usize> = {
                let mut o: Vec<usize> = (0..inputs).collect();
                for i in (1..inputs).rev() {
                    o.swap(i, ctx.rng.below(i + 1));
                }
                o
            };
            let k = cs.iter().fold(round, |h, c| key(h, &c.0));
            let cs = &cs;
            let desc = |w: &str| format!("{}: {w}, cells {}", S::NAME, cs.iter().map(|c| show(&c.0)).collect::<Vec<_>>().join(" "));
            // history independence
            let mut first = vec![];
            ctx.run(k, true, || desc("the same calls again, in another order and interleaved"), || {
                for c in cs {
                    first.push(obs::<S>(&c.0, &c.1, c.2, WORD)?);
                }
                for i in &order {
                    let h = obs::<S>(&cs[*i].0, &cs[*i].1, cs[*i].2, WORD)?;
                    ens!(h == first[*i], "repeating the calls on cells {} gave other results", show(&cs[*i].0));
                }
                // objects alive together, read in turns: nobody's reads or copies disturb another
                let xs: Vec<S> = cs.iter().map(|c| mk::<S>(&c.0)).collect::<Result<_, _>>()?;
                let copies = xs.clone();
                let a: Vec<u64> = (0..inputs).map(|i| read(&xs[i], &xs[(i + 1) % inputs], WORD)).collect();
                for i in &order {
                    ens!(read(&xs[*i], &xs[(*i + 1) % inputs], WORD) == a[*i], "reading cells {} again gave other results", show(&cs[*i].0));
                    // a copy is overwritten; the original stays
                    let mut y = xs[*i].clone();
                    for l in 0..y.depth() {
                        y.set(l, <S::D as Dm>::c(nc - 1));
                    }
                    same(&xs[*i], &pad::<S>(&cs[*i].0)).map_err(|e| format!("after its copy was overwritten: {e}"))?;
                    drop(y);
                }
                // read, written and read again: the second reading is that of a fresh index
                for i in &order {
                    let mut r = Rng(cs[*i].2 ^ 0x77);
                    let mut y = xs[*i].clone();
                    let mut m = pad::<S>(&cs[*i].0);
                    if m.is_empty() {
                        continue;
                    }
                    for _ in 0..3 {
                        read(&y, &xs[0], WORD);
                        let l = r.below(m.len());
                        m[l] = r.below(nc as usize) as u8;
                        y.set(l, <S::D as Dm>::c(m[l]));
                        ens!(read(&y, &xs[0], WORD) == read(&mk::<S>(&m)?, &xs[0], WORD), "cells {}: read, then level {l} := {}, then read: other results than from a fresh index", show(&cs[*i].0), m[l]);
                    }
                }
                for i in 0..inputs {
                    twin(&xs[i], &copies[i]).map_err(|e| format!("copy and original part: {e}"))?;
                    canon(&copies[i], &pad::<S>(&cs[i].0))?;
                }
                Ok(())
            });
            if first.len() != inputs {
                continue;
            }
            // the same on threads, on shared objects and on fresh ones
            let first = &first;
            let mut log: Vec<u64> = vec![];
            ctx.run(k ^ 0x55, true, || desc("concurrently on several threads"), || {
                let xs: Vec<Sh<S>> = cs.iter().map(|c| mk::<S>(&c.0).map(Sh)).collect::<Result<_, _>>()?;
                let base: Vec<u64> = (0..inputs).map(|i| read(xs[i].get(), xs[(i + 1) % inputs].get(), WORD)).collect();
                let (xs, base) = (&xs, &base);
                let clock = AtomicU64::new(0);
                let clock = &clock;
                let bar = Barrier::new(threads);
                let bar = &bar;
                let errs: Vec<(Result<(), String>, Vec<(u64, u64)>)> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..threads)
                        .map(|t| {
                            s.spawn(move || {
                                let mut evs = vec![];
                                let f = || -> Result<(), String> {
                                    bar.wait();
                                    for j in 0..inputs {
                                        let i = (j + t * 7) % inputs;
                                        evs.push((clock.fetch_add(1, Relaxed), t as u64));
                                        let h = read(xs[i].get(), xs[(i + 1) % inputs].get(), WORD);
                                        ens!(h == base[i], "thread {t} reads other results from the shared index with cells {}", show(&cs[i].0));
                                        if j % 4 == t % 4 {
                                            let h = obs::<S>(&cs[i].0, &cs[i].1, cs[i].2, WORD)?;
                                            ens!(h == first[i], "thread {t} gets other results for cells {}", show(&cs[i].0));
                                        }
                                    }
                                    Ok(())
                                };
                                let r = guard(f).unwrap_or_else(Err);
                                (r, evs)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let mut all = vec![];
                for (r, evs) in errs {
                    r?;
                    all.extend(evs);
                }
                all.sort();
                log = all.into_iter().map(|e| e.1).collect();
                for (x, c) in xs.iter().zip(cs) {
                    canon(x.get(), &pad::<S>(&c.0)).map_err(|e| format!("after the concurrent reads: {e}"))?;
                }
                Ok(())
            });
            reads += log.len() as u64;
            interleavings.insert(log.iter().fold(1, |h, t| mix(h, *t)));
        }
        ctx.ev("concurrent_reads", reads);
        ctx.ev("distinct_thread_interleavings", interleavings.len() as u64);
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_indices!(m);
    // in the middle of something else: refused operations in between, from inside a hasher or a text sink, and while a thread ends
    struct Nested<'a> {
        bytes: Vec<u8>,
        then: &'a mut dyn FnMut(),
    }
    impl std::hash::Hasher for Nested<'_> {
        fn finish(&self) -> u64 {
            0
        }
        fn write(&mut self, b: &[u8]) {
            self.bytes.extend_from_slice(b);
            (self.then)();
        }
    }
    impl std::fmt::Write for Nested<'_> {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.bytes.extend_from_slice(s.as_bytes());
            (self.then)();
            Ok(())
        }
    }
    struct OnExit(Option<Box<dyn FnOnce()>>);
    impl Drop for OnExit {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                f()
            }
        }
    }
    thread_local! {
        static FIRST: std::cell::RefCell<OnExit> = std::cell::RefCell::new(OnExit(None));
        static LAST: std::cell::RefCell<OnExit> = std::cell::RefCell::new(OnExit(None));
    }
    /// operations that are refused, whatever their way to say so
    fn refused<S: Sub>(x: &S, r: &mut Rng) -> Result<(), String> {
        let nc = <S::D as Dm>::NC;
        let mut y = x.clone();
        let n = x.depth();
        let c = <S::D as Dm>::c(nc - 1);
        ens!(guard(|| y.get(n + r.below(9))).is_err(), "a read below the index is not refused");
        ens!(guard(|| y.set(n + r.below(9), c)).is_err(), "a write below the index is not refused");
        if let Some(a) = x.anc(n + 1) {
            ens!(a.is_none(), "an ancestor above the root");
        }
        if let Some(a) = x.with_depth(n + 1) {
            ens!(a.is_none(), "with_depth to a deeper level");
        }
        if let Some(cap) = S::CAP {
            let extra = r.range(1, 9);
            let c = tc::<S>(&rcells(r, nc, cap + extra));
            ens!(S::slice(&c).is_err(), "{} cells accepted", c.len());
            if let Some(a) = S::array(&c) {
                ens!(a.is_err(), "an array of {} cells accepted", c.len());
            }
            if let Some(d) = x.desc(&c) {
                ens!(d.is_none(), "{} more cells accepted", c.len());
            }
            if let Some(Some(z)) = S::zero(cap + 1) {
                return Err(format!("zeroed beyond the capacity gives {z:?}"));
            }
        }
        // deeper grids than the type has levels are refused; dynamic ones beyond half a word may be
        let _ = guard(|| S::grid_new([r.below(9), r.below(9), r.below(9)], S::CAP.unwrap_or(WORD) + r.range(1, 9), 0).map(|x| x.is_ok()));
        Ok(())
    }
    fn nested<S: Sub + morton_index::MortonIndex>(ctx: &mut Ctx) {
        let nc = <S::D as Dm>::NC;
        let rounds = ctx.iters(60, 1);
        let mut calls = 0u64;
        for round in 0..rounds {
            if ctx.done() {
                return;
            }
            let mut cs: Vec<Vec<u8>> = vec![];
            for i in 0..4 {
                let mut d = rdepth::<S>(&mut ctx.rng);
                if ctx.miri() {
                    d = d.min(9);
                }
                let c = if i % 2 == 1 { neighbour::<S>(&mut ctx.rng, &cs[i - 1].clone()) } else { rcells(&mut ctx.rng, nc, d) };
                cs.push(c);
            }
            let seed = ctx.rng.u64();
            let all = || cs.iter().map(|c| show(c)).collect::<Vec<_>>().join(" ");
            let mut n = 0u64;
            ctx.run(key(mix(7, round), &cs[0]), true, || format!("{}: refused operations in between, cells {} (seed {seed})", S::NAME, all()), || {
                let mut r = Rng(seed);
                let xs: Vec<S> = cs.iter().map(|c| mk::<S>(c)).collect::<Result<_, _>>()?;
                let before: Vec<u64> = (0..4).map(|i| read(&xs[i], &xs[(i + 1) % 4], WORD)).collect();
                let made: Vec<u64> = cs.iter().enumerate().map(|(i, c)| obs::<S>(c, &cs[(i + 1) % 4], seed, WORD)).collect::<Result<_, _>>()?;
                for i in 0..4 {
                    refused(&xs[(i + 2) % 4], &mut r)?;
                    ens!(read(&xs[i], &xs[(i + 1) % 4], WORD) == before[i], "after refused operations on cells {}, reading cells {} gives other results", show(&cs[(i + 2) % 4]), show(&cs[i]));
                    refused(&xs[i], &mut r)?;
                    ens!(obs::<S>(&cs[i], &cs[(i + 1) % 4], seed, WORD)? == made[i], "after refused operations, the same calls on cells {} give other results", show(&cs[i]));
                }
                Ok(())
            });
            ctx.run(key(mix(8, round), &cs[0]), true, || format!("{}: from inside a hasher and a text sink, cells {}", S::NAME, all()), || {
                let xs: Vec<S> = cs.iter().map(|c| mk::<S>(c)).collect::<Result<_, _>>()?;
                let base: Vec<u64> = (0..4).map(|i| read(&xs[i], &xs[(i + 1) % 4], WORD)).collect();
                let feed = |which: usize, i: usize, then: &mut dyn FnMut()| -> Vec<u8> {
                    use std::fmt::Write;
                    let mut h = Nested { bytes: vec![], then };
                    match which {
                        0 => xs[i].hash(&mut h),
                        1 => xs[i..].hash(&mut h),
                        2 => write!(h, "{:?}", xs[i]).unwrap(),
                        _ => write!(h, "{}", morton_index::helper::make_displayable(&xs[i..], MortonIndexNaming::CellConcatenationWithRoot)).unwrap(),
                    }
                    h.bytes
                };
                for which in 0..4 {
                    for i in 0..4 {
                        let what = ["hashing", "hashing a slice from", "debug printing", "displaying a slice from"][which];
                        let plain = feed(which, i, &mut || {});
                        let mut bad = None;
                        let inside = feed(which, i, &mut || {
                            for j in 0..4 {
                                n += 1;
                                if read(&xs[j], &xs[(j + 1) % 4], WORD) != base[j] {
                                    bad = Some(j);
                                }
                                feed(which, j, &mut || {});
                            }
                        });
                        if let Some(j) = bad {
                            return Err(format!("while {what} cells {}, reading cells {} gives other results", show(&cs[i]), show(&cs[j])));
                        }
                        ens!(inside == plain, "{what} cells {} produces other bytes when the receiver uses indices itself", show(&cs[i]));
                    }
                }
                Ok(())
            });
            calls += n;
            if round % 8 > 0 {
                continue;
            }
            ctx.run(key(mix(9, round), &cs[0]), true, || format!("{}: while a thread ends, cells {}", S::NAME, all()), || {
                let base: Vec<u64> = cs.iter().enumerate().map(|(i, c)| obs::<S>(c, &cs[(i + 1) % 4], seed, WORD)).collect::<Result<_, _>>()?;
                let got: std::sync::Arc<std::sync::Mutex<Vec<Result<Result<u64, String>, String>>>> = Default::default();
                let work = {
                    let cs = cs.clone();
                    move || -> Vec<Result<Result<u64, String>, String>> {
                        cs.iter().enumerate().map(|(i, c)| guard(|| obs::<S>(c, &cs[(i + 1) % 4], seed, WORD))).collect()
                    }
                };
                let sent = got.clone();
                let t = std::thread::spawn(move || {
                    let at_exit = || {
                        let (work, sent) = (work.clone(), sent.clone());
                        OnExit(Some(Box::new(move || {
                            let r = work();
                            sent.lock().unwrap().extend(r);
                        })))
                    };
                    FIRST.with(|f| *f.borrow_mut() = at_exit());
                    let r = work();
                    sent.lock().unwrap().extend(r);
                    LAST.with(|f| *f.borrow_mut() = at_exit());
                });
                t.join().map_err(|_| "the thread panicked".to_string())?;
                let got = std::mem::take(&mut *got.lock().unwrap());
                ens!(got.len() == 12, "{} of 12 results from the ending thread", got.len());
                for (i, g) in got.into_iter().enumerate() {
                    let g = g.map_err(|e| format!("cells {} {}: {e}", show(&cs[i % 4]), if i < 4 { "on another thread" } else { "while the thread ends" }))??;
                    ens!(g == base[i % 4], "cells {}: other results {}", show(&cs[i % 4]), if i < 4 { "on another thread" } else { "while the thread ends" });
                }
                Ok(())
            });
        }
        ctx.ev("nested_reads", calls);
    }
    macro_rules! mn { ($t:ty) => { task(v, concat!("nested ", stringify!($t)), nested::<$t>); }; }
    for_indices!(mn);
    // the number operations on threads
    task(v, "number operations", |ctx: &mut Ctx| {
        let rounds = ctx.iters(60, 1);
        for round in 0..rounds {
            let n = if ctx.miri() { 3 } else { 200 };
            let seeds: Vec<u64> = (0..n).map(|_| ctx.rng.u64()).collect();
            let seeds = &seeds;
            ctx.run(mix(round, seeds[0]), true, || format!("number operations concurrently (seeds {seeds:?})"), || {
                fn all(s: u64) -> Result<u64, String> {
                    let mut h = obs_vec(s)?;
                    h = mix(h, obs_misc(s));
                    h = mix(h, obs_int::<u8>(s)?);
                    h = mix(h, obs_int::<u16>(s)?);
                    h = mix(h, obs_int::<u32>(s)?);
                    h = mix(h, obs_int::<u64>(s)?);
                    h = mix(h, obs_int::<u128>(s)?);
                    h = mix(h, obs_int::<usize>(s)?);
                    Ok(h)
                }
                let first: Vec<u64> = seeds.iter().map(|s| all(*s)).collect::<Result<_, _>>()?;
                for (i, s) in seeds.iter().enumerate().rev() {
                    ens!(all(*s)? == first[i], "other results the second time (seed {s})");
                }
                let first = &first;
                let rs: Vec<Result<(), String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..4)
                        .map(|t| {
                            sc.spawn(move || {
                                guard(|| {
                                    for j in 0..n {
                                        let i = (j * (2 * t + 1) + t) % n;
                                        ens!(all(seeds[i])? == first[i], "thread {t} gets other results (seed {})", seeds[i]);
                                    }
                                    Ok(())
                                })
                                .unwrap_or_else(Err)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                rs.into_iter().collect()
            });
        }
    });
    // thread-safety of the types, observed through specialisation on the concrete type
    struct Probe<T>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    trait NotSync {
        fn shares(&self) -> bool {
            false
        }
    }
    impl<T> NotSync for Probe<T> {}
    impl<T: Sync> Probe<T> {
        fn shares(&self) -> bool {
            true
        }
    }
    struct ProbeS<T>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    trait NotSend {
        fn sends(&self) -> bool {
            false
        }
    }
    impl<T> NotSend for ProbeS<T> {}
    impl<T: Send> ProbeS<T> {
        fn sends(&self) -> bool {
            true
        }
    }
    task(v, "Send and Sync", |ctx: &mut Ctx| {
        macro_rules! m {
            ($t:ty) => {
                ctx.run(fnv(&<$t as Sub>::NAME.as_bytes()), true, || format!("{} is Send and Sync", <$t as Sub>::NAME), || {
                    ens!(ProbeS::<$t>(std::marker::PhantomData).sends(), "not Send");
                    ens!(Probe::<$t>(std::marker::PhantomData).shares(), "not Sync");
                    Ok(())
                });
            };
        }
        for_all!(m);
    });
}
#[allow(unused_imports)]
use for_indices as _;
