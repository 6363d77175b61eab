//! C07 ancestors, C08 descendants, C12 inversion, C22 deep dynamic indices.
use crate::ctx::*;
use crate::ens;
use crate::gen::*;
use crate::sub::*;
use crate::{for_all, for_all_wide, for_indices};

fn dh<S: Sub>(c: &[u8], how: u64) -> String {
    format!("{}: cells {} (made in way {how})", S::NAME, show(c))
}
fn var<S: Sub>() -> bool {
    S::KIND != Kind::Fixed
}
/// x works like a fresh index of these cells in a few later operations
fn behaves<S: Sub>(x: &S, c: &[u8], r: u64) -> Result<(), String> {
    canon(x, c)?;
    let nc = <S::D as Dm>::NC;
    let cell = (r % nc as u64) as u8;
    if S::CAP.map_or(true, |cap| c.len() < cap) {
        let mut w = c.to_vec();
        w.push(cell);
        let y = x.desc(&[<S::D as Dm>::c(cell)]).unwrap();
        ens!(y.is_some(), "no descendant below the result");
        canon(&y.unwrap(), &w).map_err(|e| format!("child {cell} of the result: {e}"))?;
    }
    if !c.is_empty() {
        let l = (r / 8) as usize % c.len();
        let mut w = c.to_vec();
        w[l] = cell;
        let mut y = x.clone();
        y.set(l, <S::D as Dm>::c(cell));
        canon(&y, &w).map_err(|e| format!("result with level {l} := {cell}: {e}"))?;
        let y = x.anc(1).unwrap();
        ens!(y.is_some(), "no parent of the result");
        canon(&y.unwrap(), &c[..c.len() - 1]).map_err(|e| format!("parent of the result: {e}"))?;
    } else {
        ens!(x.anc(1).unwrap().is_none(), "the result is the root but has an ancestor");
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
#[cfg(feature = "c07")]
pub fn c07(v: &mut Vec<Task>) {
    fn gens(n: usize, r: &mut Rng) -> Vec<usize> {
        let mut v: Vec<usize> = if n <= 12 { (1..=n + 2).collect() } else { vec![1, 2, 3, 4, 5, n / 2, n - 1, n, n + 1, n + 2] };
        if n > 12 {
            for _ in 0..4 {
                v.push(r.range(1, n));
            }
        }
        v.extend([255, 256, 257, 256 + n / 2, 256 + n, 65536, 65536 + n / 2, usize::MAX, usize::MAX / 2 + 1, usize::MAX - 1]);
        if WORD == 64 {
            v.push((1u64 << 32) as usize + n / 2);
        }
        v.retain(|g| *g > 0);
        v
    }
    fn t<S: Sub>(ctx: &mut Ctx) {
        let (mut some, mut none) = (0u64, 0u64);
        thin::<S>(ctx, 16, 2500, |ctx, c| {
            let n = c.len();
            let gs = gens(n, &mut ctx.rng);
            let r = ctx.rng.u64();
            let how = ctx.rng.u64();
            for g in gs {
                if g <= n { some += 1 } else { none += 1 }
                ctx.run(key(g as u64, c), n > 0, || format!("{} then ancestor({g})", dh::<S>(c, how)), || {
                    let x = made::<S>(c, how)?;
                    let a = x.anc(g).unwrap();
                    ens!(a.is_some() == (g <= n), "ancestor({g}) of depth {n}: is_some = {}", a.is_some());
                    if let Some(a) = a {
                        behaves(&a, &c[..n - g], r)?;
                    }
                    canon(&x, c).map_err(|e| format!("original: {e}"))
                });
            }
            ctx.run(key(0, c), n > 0, || format!("{} then parent()", dh::<S>(c, how)), || {
                let x = made::<S>(c, how)?;
                if let Some(p) = x.parent() {
                    ens!(p.is_some() == (n > 0), "parent of depth {n}: is_some = {}", p.is_some());
                    if let Some(p) = p {
                        behaves(&p, &c[..n - 1], r)?;
                    }
                    // all the way up
                    let (mut y, mut k) = (x.clone(), n);
                    while let Some(p) = y.parent().unwrap() {
                        ens!(k > 0, "parent() of the root");
                        k -= 1;
                        same(&p, &c[..k]).map_err(|e| format!("{} parents up: {e}", n - k))?;
                        y = p;
                    }
                    ens!(k == 0, "the chain of parents ends at depth {k}");
                    twin(&y, &S::default()).map_err(|e| format!("root reached by parents: {e}"))?;
                }
                canon(&x, c).map_err(|e| format!("original: {e}"))
            });
            let mut ds: Vec<usize> = if n <= 12 { (0..=n + 2).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1, n + 2, ctx.rng.below(n)] };
            ds.extend([255, 256, 256 + n / 2, 65536, usize::MAX, usize::MAX / 2 + 1]);
            for k in ds {
                ctx.run(key(mix(0x100, k as u64), c), n > 0, || format!("{} then with_depth({k})", dh::<S>(c, how)), || {
                    let x = made::<S>(c, how)?;
                    if let Some(w) = x.with_depth(k) {
                        ens!(w.is_some() == (k <= n), "with_depth({k}) of depth {n}: is_some = {}", w.is_some());
                        if let Some(w) = w {
                            behaves(&w, &c[..k], r)?;
                        }
                    }
                    canon(&x, c).map_err(|e| format!("original: {e}"))
                });
            }
        });
        ctx.ev("ancestors_observed", some);
        ctx.ev("refusals_observed", none);
    }
    macro_rules! m { ($t:ty) => { if var::<$t>() { task(v, <$t as Sub>::NAME, t::<$t>); } }; }
    for_all_wide!(m);
}

// ---------------------------------------------------------------- C08
#[cfg(feature = "c08")]
pub fn c08(v: &mut Vec<Task>) {
    fn t<S: Sub>(ctx: &mut Ctx) {
        let nc = <S::D as Dm>::NC;
        let (mut some, mut none) = (0u64, 0u64);
        thin::<S>(ctx, 16, 2500, |ctx, c| {
            let n = c.len();
            let room = S::CAP.map(|cap| cap - n);
            let mut ls = vec![0usize, 1, 2];
            match room {
                Some(r) => ls.extend([r / 2, r.saturating_sub(1), r, r + 1, r + 2, r + 7]),
                None => ls.extend([3, 4, 5, 7, 8, 9, 16, 30]),
            }
            if ctx.rng.chance(8) {
                ls.extend([255, 256, 256usize.saturating_sub(n), 257, 257usize.saturating_sub(n), 260]);
            }
            ls.push(ctx.rng.below(room.unwrap_or(40) + 1));
            ls.sort();
            ls.dedup();
            for k in ls {
                let ext = rcells(&mut ctx.rng, nc, k);
                let r = ctx.rng.u64();
                let how = ctx.rng.u64();
                let fits = room.map_or(true, |r| k <= r);
                if fits { some += 1 } else { none += 1 }
                ctx.run(key(key(1, &ext), c), n + k > 0, || format!("{} then descendant({})", dh::<S>(c, how), show(&ext)), || {
                    let x = made::<S>(c, how)?;
                    let y = x.desc(&tc::<S>(&ext)).unwrap();
                    ens!(y.is_some() == fits, "descendant({k} cells) of depth {n}: is_some = {}, capacity {:?}", y.is_some(), S::CAP);
                    if let Some(y) = y {
                        let mut w = c.to_vec();
                        w.extend(&ext);
                        behaves(&y, &w, r)?;
                        if k > 0 {
                            let b = y.anc(k).unwrap();
                            ens!(b.is_some(), "ancestor({k}) of the descendant is None");
                            twin(&b.unwrap(), &x).map_err(|e| format!("ancestor({k}) of the descendant: {e}"))?;
                        }
                    }
                    canon(&x, c).map_err(|e| format!("original: {e}"))
                });
                // the same list, cell by cell
                if k <= 70 {
                    ctx.run(key(key(2, &ext), c), n + k > 0, || format!("{} then children {}", dh::<S>(c, how), show(&ext)), || {
                        let mut x = made::<S>(c, how)?;
                        let mut w = c.to_vec();
                        for cell in &ext {
                            let y = match x.child(<S::D as Dm>::c(*cell)) {
                                Some(y) => y,
                                None => x.desc(&[<S::D as Dm>::c(*cell)]).unwrap(),
                            };
                            let ok = S::CAP.map_or(true, |cap| w.len() < cap);
                            ens!(y.is_some() == ok, "child of depth {}: is_some = {}, capacity {:?}", w.len(), y.is_some(), S::CAP);
                            match y {
                                Some(y) => {
                                    w.push(*cell);
                                    canon(&y, &w)?;
                                    x = y;
                                }
                                None => break,
                            }
                        }
                        Ok(())
                    });
                }
            }
        });
        // lists so long that a shorter length type would wrap
        if !ctx.miri() {
            let mut ks = vec![511, 512, 513, 4096, 65535, 65536, 65537, 65536 + 3, 131072];
            if let Some(cap) = S::CAP {
                ks.extend([65536 + cap / 2, 65536 + cap]);
            }
            for k in ks {
                for n in [0, 1, S::CAP.map_or(9, |c| c / 2), S::CAP.map_or(300, |c| c)] {
                    let c = rcells(&mut ctx.rng, nc, n);
                    let ext = rcells(&mut ctx.rng, nc, k);
                    let wrap = if k >= 65536 && k - 65536 < 300 { Some(k - 65536) } else { None };
                    ctx.run(key(key(3, &ext), &c), true, || format!("{}: cells {} then descendant of {k} cells", S::NAME, show(&c)), || {
                        let x = mk::<S>(&c)?;
                        let y = x.desc(&tc::<S>(&ext)).unwrap();
                        ens!(y.is_some() == S::CAP.is_none(), "descendant({k} cells) of depth {n}: is_some = {}, capacity {:?}, list wraps to {wrap:?}", y.is_some(), S::CAP);
                        if let Some(y) = y {
                            canon(&y, &[&c[..], &ext[..]].concat())?;
                            twin(&y.anc(k).unwrap().ok_or("no ancestor")?, &x)?;
                        }
                        canon(&x, &c).map_err(|e| format!("original: {e}"))
                    });
                }
            }
        }
        ctx.ev("descendants_observed", some);
        ctx.ev("refusals_observed", none);
    }
    macro_rules! m { ($t:ty) => { if var::<$t>() { task(v, <$t as Sub>::NAME, t::<$t>); } }; }
    for_all_wide!(m);
}

// ---------------------------------------------------------------- C12
#[cfg(feature = "c12")]
pub fn c12(v: &mut Vec<Task>) {
    fn t<S: Sub>(ctx: &mut Ctx) {
        thin::<S>(ctx, 3, 6000, |ctx, c| {
            let p = pad::<S>(c);
            let r = ctx.rng.u64();
            let how = ctx.rng.u64();
            let mut q = p.clone();
            q.reverse();
            ctx.run(key(1, c), p != q, || format!("{} then inverted()", dh::<S>(c, how)), || {
                let x = made::<S>(c, how)?;
                let y = x.inv().unwrap();
                canon(&y, &q)?;
                if S::KIND != Kind::Fixed {
                    behaves(&y, &q, r)?;
                }
                let z = y.inv().unwrap();
                twin(&z, &x).map_err(|e| format!("inverted twice: {e}"))?;
                canon(&x, &p).map_err(|e| format!("original: {e}"))
            });
        });
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_indices!(m);
}

// ---------------------------------------------------------------- C22
#[cfg(feature = "c22")]
pub fn c22(v: &mut Vec<Task>) {
    fn t<S: Sub>(ctx: &mut Ctx, part: usize, parts: usize) {
        let nc = <S::D as Dm>::NC;
        let mut depths: Vec<usize> = (65..=140).collect();
        for b in [170, 192, 200, 255, 256, 300, 341, 400, 512, 682, 683, 768, 1000, 1024, 1365, 2048, 4096, 5000, 8192, 10923] {
            depths.extend(b - 1..=b + 2);
        }
        if ctx.tier == Tier::Thorough {
            depths.extend(141..3100);
            depths.extend([21845, 21846, 32767, 32768, 65535, 65536, 65537, 70001]);
        } else {
            depths.extend((141..1100).filter(|n| n % 3 != 0));
            depths.extend([32768, 65536, 65537]);
            for _ in 0..12 {
                let n = ctx.rng.range(1100, 30000);
                depths.push(n);
            }
        }
        if ctx.miri() {
            depths = vec![65, 257];
        }
        let reps = ctx.iters(3, 1);
        let mut deepest = 0;
        for (i, n) in depths.into_iter().enumerate() {
            if i % parts != part {
                continue;
            }
            for _ in 0..(if n > 3000 { 1 } else { reps }) {
                if ctx.done() {
                    return;
                }
                deepest = deepest.max(n);
                let c = rcells(&mut ctx.rng, nc, n);
                let l = if ctx.rng.chance(3) { n - 1 - ctx.rng.below(5) } else { ctx.rng.below(n) };
                let cell = ctx.rng.below(nc as usize) as u8;
                let g = match ctx.rng.below(4) {
                    0 => ctx.rng.range(1, 9),
                    1 => n - ctx.rng.below(5),
                    _ => ctx.rng.range(1, n),
                };
                let ek = match ctx.rng.below(3) {
                    0 => ctx.rng.below(9),
                    _ => ctx.rng.below(300),
                };
                let ext = rcells(&mut ctx.rng, nc, ek);
                let how = ctx.rng.u64();
                // another index that shares a prefix: a little less, a little more, or as deep
                let keep = match ctx.rng.below(3) {
                    0 => n,
                    1 => n - ctx.rng.below(20),
                    _ => ctx.rng.below(n + 1),
                };
                let mut other = c[..keep].to_vec();
                let ok = match ctx.rng.below(4) {
                    0 => 0,
                    1 => ctx.rng.below(9),
                    _ => n - keep + ctx.rng.below(3),
                };
                match ctx.rng.below(3) {
                    0 => other.extend(std::iter::repeat(0).take(ok)),
                    1 => other.extend(std::iter::repeat(nc - 1).take(ok)),
                    _ => other.extend(rcells(&mut ctx.rng, nc, ok)),
                }
                let desc = |w: &str| format!("{}: depth {n}, {w}, cells {}...", S::NAME, show(&c[..80.min(n)]));
                ctx.run(key(1, &c), true, || desc("build/read"), || {
                    let x = mk::<S>(&c)?;
                    canon(&x, &c)?;
                    if let Some(r) = x.name(morton_index::MortonIndexNaming::CellConcatenation) {
                        let e: String = c.iter().map(|c| (b'0' + c) as char).collect();
                        ens!(r == e, "cell naming differs");
                        let r = x.name(morton_index::MortonIndexNaming::CellConcatenationWithRoot).unwrap();
                        ens!(r == format!("r{e}"), "rooted naming differs");
                    }
                    Ok(())
                });
                ctx.run(key(mix(2 + cell as u64, l as u64), &c), true, || desc(&format!("level {l} := {cell}")), || {
                    let x = made::<S>(&c, how)?;
                    let mut y = x.clone();
                    let mut w = c.clone();
                    w[l] = cell;
                    y.set(l, <S::D as Dm>::c(cell));
                    canon(&y, &w)?;
                    canon(&x, &c)?;
                    // order and equality
                    ens!(y.cmp(&x) == w.cmp(&c) && x.cmp(&y) == c.cmp(&w), "order differs from the cells' order");
                    ens!((x == y) == (w == c), "equality differs from the cells' equality");
                    if S::INDEX {
                        for o in [n, n + 1, n + 8, 2 * n, usize::MAX] {
                            ens!(guard(|| y.get(o)).is_err(), "level {o} readable at depth {n}");
                        }
                    }
                    Ok(())
                });
                ctx.run(key(mix(3, g as u64), &c), true, || desc(&format!("ancestor({g})")), || {
                    let x = made::<S>(&c, how)?;
                    let a = x.anc(g).unwrap().ok_or_else(|| format!("no ancestor({g})"))?;
                    canon(&a, &c[..n - g])?;
                    ens!(a < x && x > a, "an ancestor must come before its descendant");
                    ens!(x.anc(n + 1).unwrap().is_none(), "ancestor({}) exists", n + 1);
                    let b = a.desc(&tc::<S>(&c[n - g..])).unwrap().ok_or("no descendant")?;
                    twin(&b, &x)?;
                    if let Some(w) = x.with_depth(n - g) {
                        twin(&w.ok_or("with_depth gave nothing")?, &a)?;
                    }
                    Ok(())
                });
                ctx.run(key(mix(4, key(0, &ext)), &c), true, || desc(&format!("descendant of {ek} cells")), || {
                    let x = made::<S>(&c, how)?;
                    let y = x.desc(&tc::<S>(&ext)).unwrap().ok_or("no descendant")?;
                    let mut w = c.clone();
                    w.extend(&ext);
                    canon(&y, &w)?;
                    canon(&x, &c)
                });
                ctx.run(key(mix(6, key(0, &other)), &c), true, || desc(&format!("compared with {} of its cells and {ok} others", keep)), || {
                    let (x, y) = (made::<S>(&c, how)?, made::<S>(&other, how ^ 0x5555)?);
                    let e = c.cmp(&other);
                    ens!(x.cmp(&y) == e && y.cmp(&x) == e.reverse(), "cmp is {:?} / {:?}, the cells' order is {e:?}", x.cmp(&y), y.cmp(&x));
                    ens!(x.partial_cmp(&y) == Some(e), "partial_cmp is {:?}, the cells' order is {e:?}", x.partial_cmp(&y));
                    ens!((x < y) == e.is_lt() && (x > y) == e.is_gt() && (x <= y) == e.is_le() && (x >= y) == e.is_ge(), "comparison operators differ from the order {e:?}");
                    ens!((x == y) == e.is_eq() && (x != y) == e.is_ne(), "equality differs from the cells' equality");
                    if e.is_eq() {
                        twin(&x, &y)?;
                    }
                    Ok(())
                });
                ctx.run(key(5, &c), true, || desc("inverted / zeroed"), || {
                    let x = made::<S>(&c, how)?;
                    if let Some(y) = x.inv() {
                        let mut w = c.clone();
                        w.reverse();
                        canon(&y, &w)?;
                        twin(&y.inv().unwrap(), &x)?;
                    }
                    let mut z = S::zero(n).unwrap().unwrap();
                    canon(&z, &vec![0; n])?;
                    for (l, cell) in c.iter().enumerate() {
                        z.set(l, <S::D as Dm>::c(*cell));
                    }
                    twin(&z, &x).map_err(|e| format!("zeroed and filled: {e}"))
                });
            }
        }
        ctx.ev("deepest_index_levels", deepest as u64);
    }
    /// more levels than 32 bits can count the bits of
    fn giant<S: Sub>(ctx: &mut Ctx) {
        if ctx.miri() || WORD < 64 {
            return;
        }
        let nb = <S::D as Dm>::N;
        let nc = <S::D as Dm>::NC;
        let n = (1usize << 32) / nb + 77;
        let wraps = (1usize << 32) / nb - 3;
        let mut levels: Vec<(usize, u8)> = vec![(0, 1), (1, 2), (n - 1, 3), (n - 2, 1), (n / 2, 2), (n - 64, 1)];
        for k in 0..12 {
            levels.push((wraps + k, 1 + ctx.rng.below(nc as usize - 1) as u8));
        }
        ctx.run(n as u64, true, || format!("{}: zeroed({n}) and writes {levels:?}", S::NAME), || {
            let mut x = S::zero(n).unwrap().ok_or("zeroed refused")?;
            ens!(x.depth() == n, "depth {} instead of {n}", x.depth());
            let mut m: std::collections::BTreeMap<usize, u8> = Default::default();
            for (l, c) in &levels {
                x.set(*l, <S::D as Dm>::c(*c));
                m.insert(*l, *c);
                for (k, e) in m.iter().map(|(k, e)| (*k, *e)).chain([(2, 0), (l / 2 + 5, *m.get(&(l / 2 + 5)).unwrap_or(&0))]) {
                    let g = <S::D as Dm>::i(x.get(k));
                    ens!(g == e, "level {k} reads {g} instead of {e} after level {l} := {c}");
                }
            }
            if S::INDEX {
                ens!(guard(|| x.get(n)).is_err(), "level {n} readable");
            }
            let b = x.anc(n - 2).unwrap().ok_or("no ancestor")?;
            canon(&b, &[1, 2]).map_err(|e| format!("ancestor two levels below the root: {e}"))
        });
        ctx.ev("giant_index_levels", n as u64);
    }
    fn conv<C: Conv>(ctx: &mut Ctx) {
        let it = ctx.iters(60, 1);
        let cap = C::F::CAP.unwrap();
        for k in 0..it {
            let n = if ctx.miri() { 300 } else { 129 + ctx.rng.below(3000) };
            let c = rcells(&mut ctx.rng, <C::D as Dm>::NC, n);
            ctx.run(key(k, &c), true, || format!("dynamic depth {n}, cut to {cap} levels, to and from fixed/static"), || {
                let x = mk::<C::Y>(&c)?;
                ens!(C::y2f(x.clone()).is_err() && C::y2s(x.clone()).is_err(), "conversion of depth {n} accepted (capacity {cap})");
                let cut = x.anc(n - cap).unwrap().ok_or("no ancestor")?;
                let f = C::y2f(cut.clone()).map_err(|e| format!("refused: {e:?}"))?;
                canon(&f, &c[..cap])?;
                let s = C::y2s(cut.clone()).map_err(|e| format!("refused: {e:?}"))?;
                canon(&s, &c[..cap])?;
                for y in [C::f2y(f), C::s2y(s)] {
                    let back = y.desc(&tc::<C::Y>(&c[cap..])).unwrap().ok_or("no descendant")?;
                    twin(&back, &x)?;
                }
                Ok(())
            });
        }
    }
    use morton_index::*;
    task(v, "giant MortonIndex2D<Dynamic>", giant::<MortonIndex2D<DynamicStorage2D>>);
    task(v, "giant MortonIndex3D<Dynamic>", giant::<MortonIndex3D<DynamicStorage3D>>);
    for p in 0..8 {
        task(v, format!("MortonIndex2D<Dynamic>/{p}"), move |c| t::<MortonIndex2D<DynamicStorage2D>>(c, p, 8));
        task(v, format!("MortonIndex3D<Dynamic>/{p}"), move |c| t::<MortonIndex3D<DynamicStorage3D>>(c, p, 8));
        task(v, format!("DynamicStorage2D/{p}"), move |c| t::<DynamicStorage2D>(c, p, 8));
        task(v, format!("DynamicStorage3D/{p}"), move |c| t::<DynamicStorage3D>(c, p, 8));
    }
    macro_rules! mc { ($t:ty) => { task(v, concat!("conv", stringify!($t)), conv::<$t>); }; }
    crate::for_convs!(mc);
}
