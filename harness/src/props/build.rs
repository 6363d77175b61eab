//! C01 cell round trip, C02 isolated writes, C10 capacity.
use crate::ctx::*;
use crate::ens;
use crate::gen::*;
use crate::sub::*;
use crate::{for_all, for_all_wide, for_indices};
use morton_index::Error;

fn d<S: Sub>(what: &str, c: &[u8]) -> String {
    format!("{}: {what} cells {}", S::NAME, show(c))
}

// ---------------------------------------------------------------- C01
#[cfg(feature = "c01")]
pub fn c01(v: &mut Vec<Task>) {
    fn t<S: Sub>(ctx: &mut Ctx) {
        // default and zeroed
        ctx.run(key(1, &[]), true, || format!("{}: default()", S::NAME), || {
            let x = S::default();
            let n = if S::KIND == Kind::Fixed { S::CAP.unwrap() } else { 0 };
            canon(&x, &vec![0; n])?;
            x.iter_laws(&tc::<S>(&vec![0; n]))
        });
        let zmax = S::CAP.unwrap_or(if ctx.miri() { 20 } else { 1100 });
        let deep = if S::CAP.is_none() && !ctx.miri() { vec![4095, 4096, 8192, 32768, 65535, 65536, 65537, 131073, 1 << 20] } else { vec![] };
        for n in (0..=zmax).chain(deep) {
            if S::zero(0).is_none() {
                break;
            }
            ctx.run(key(mix(2, n as u64), &[]), true, || format!("{}: zeroed({n})", S::NAME), || {
                let x = S::zero(n).unwrap();
                ens!(x.is_some(), "zeroed({n}) within the capacity is None");
                let x = x.unwrap();
                same(&x, &vec![0; n])?;
                same_iter(&x, &vec![0; n])
            });
        }
        let mut arrays = 0;
        sweep::<S>(ctx, 6000, |ctx, c| {
            let laws = ctx.evals % 16 == 0;
            let mut arr = 0;
            ctx.run(key(3, c), c.iter().any(|c| *c != 0), || d::<S>("slice", c), || {
                let p = pad::<S>(c);
                let tcs = tc::<S>(c);
                let x = S::slice(&tcs).map_err(|e| format!("try_from slice within the capacity: {e:?}"))?;
                same(&x, &p)?;
                same_iter(&x, &p)?;
                for (l, e) in p.iter().enumerate() {
                    let g = <S::D as Dm>::i(x.get_u(l));
                    ens!(g == *e, "unchecked access at level {l} reads {g}, expected {e}");
                }
                if laws {
                    x.iter_laws(&tc::<S>(&p))?;
                }
                if let Some(r) = S::array(&tcs) {
                    let y = r.map_err(|e| format!("try_from array within the capacity: {e:?}"))?;
                    arr = 1;
                    same(&y, &p).map_err(|e| format!("array: {e}"))?;
                    same_iter(&y, &p).map_err(|e| format!("array: {e}"))?;
                    twin(&y, &x).map_err(|e| format!("built from an array and from a slice: {e}"))?;
                }
                Ok(())
            });
            arrays += arr;
        });
        ctx.ev("array_constructions", arrays);
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_all_wide!(m);
}

// ---------------------------------------------------------------- C02
#[cfg(feature = "c02")]
pub fn c02(v: &mut Vec<Task>) {
    /// levels that do not exist in an index of this depth
    pub fn oob(depth: usize, r: &mut Rng) -> Vec<usize> {
        let mut v = vec![depth, depth + 1, depth + 2, depth + 7, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1];
        v.extend([256, 257, 256 + depth, 65536, 65536 + depth / 2, 1 << 31, usize::MAX / 3, usize::MAX / 3 + 1]);
        v.push((WORD - 1).pow(3) + depth);
        if WORD == 64 {
            let k = (1u64 << 32) as usize;
            v.extend([k, k + depth / 2, k - 1]);
        }
        // 256 + an existing level, 128, 64...
        v.extend([64, 128, 8, 16, 32, 255].iter().map(|b| b + r.below(depth + 1)));
        v.push(usize::MAX - r.below(100));
        v.push(usize::MAX / 2 + 1 + r.below(depth + 1));
        v.retain(|l| *l >= depth);
        v
    }
    fn t<S: Sub>(ctx: &mut Ctx) {
        let mut writes = 0u64;
        let mut oobs = 0u64;
        thin::<S>(ctx, 24, 1500, |ctx, c| {
            let p = pad::<S>(c);
            let how = ctx.rng.u64();
            let n = p.len();
            let nc = <S::D as Dm>::NC;
            let mut levels: Vec<usize> = if n <= 6 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
            if n > 6 {
                for _ in 0..3 {
                    levels.push(ctx.rng.below(n));
                }
            }
            for l in levels {
                for cell in 0..nc {
                    writes += 1;
                    let mut q = p.clone();
                    q[l] = cell;
                    let nt = cell != p[l];
                    ctx.run(key(l as u64 * 8 + cell as u64, c), nt, || format!("{} then level {l} := {cell}", d::<S>(&format!("(made in way {how})"), c)), || {
                        let x = made::<S>(c, how)?;
                        let copy = x.clone();
                        let mut y = x.clone();
                        y.set(l, <S::D as Dm>::c(cell));
                        canon(&y, &q).map_err(|e| format!("after checked write: {e}"))?;
                        let mut z = x.clone();
                        z.set_u(l, <S::D as Dm>::c(cell));
                        canon(&z, &q).map_err(|e| format!("after unchecked write: {e}"))?;
                        let mut taken = mk::<S>(&[])?;
                        taken.clone_from(&x);
                        taken.set(l, <S::D as Dm>::c(cell));
                        canon(&taken, &q).map_err(|e| format!("copy by clone_from after the write: {e}"))?;
                        canon(&copy, &p).map_err(|e| format!("earlier copy: {e}"))?;
                        canon(&x, &p).map_err(|e| format!("earlier copy: {e}"))?;
                        // writing the old value back restores the index
                        y.set(l, <S::D as Dm>::c(p[l]));
                        twin(&y, &x).map_err(|e| format!("after writing the old value back: {e}"))
                    });
                }
            }
            if S::INDEX {
                for l in oob(n, &mut ctx.rng) {
                    oobs += 2;
                    ctx.run(key(mix(0x1000, l as u64), c), true, || format!("{} then access level {l}", d::<S>(&format!("(made in way {how})"), c)), || {
                        let mut x = made::<S>(c, how)?;
                        let r = guard(|| x.get(l));
                        ens!(r.is_err(), "reading level {l} of depth {n} did not panic, gave {:?}", r);
                        let r = guard(|| x.set(l, <S::D as Dm>::c(nc - 1)));
                        ens!(r.is_err(), "writing level {l} of depth {n} did not panic");
                        canon(&x, &p).map_err(|e| format!("after refused write: {e}"))
                    });
                }
            }
        });
        // histories of writes
        let it = ctx.iters(400, 2);
        for _ in 0..it {
            if ctx.done() {
                break;
            }
            let n = rdepth::<S>(&mut ctx.rng);
            let c = rcells(&mut ctx.rng, <S::D as Dm>::NC, n);
            let p = pad::<S>(&c);
            if p.is_empty() {
                continue;
            }
            let k = ctx.rng.range(2, 60);
            let w: Vec<(usize, u8)> = (0..k)
                .map(|_| (ctx.rng.below(p.len()), ctx.rng.below(<S::D as Dm>::NC as usize) as u8))
                .collect();
            writes += k as u64;
            ctx.run(key(w.iter().fold(7, |h, x| mix(h, (x.0 * 8) as u64 + x.1 as u64)), &c), true, || format!("{} then writes {w:?}", d::<S>("build", &c)), || {
                let mut m = p.clone();
                let mut x = mk::<S>(&c)?;
                for (i, (l, cell)) in w.iter().enumerate() {
                    if i % 2 == 0 {
                        x.set(*l, <S::D as Dm>::c(*cell));
                    } else {
                        x.set_u(*l, <S::D as Dm>::c(*cell));
                    }
                    m[*l] = *cell;
                    same(&x, &m).map_err(|e| format!("after write {i}: {e}"))?;
                }
                canon(&x, &m)
            });
        }
        ctx.ev("writes", writes);
        ctx.ev("out_of_range_accesses", oobs);
        ctx.ev("write_histories", it);
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_all_wide!(m);
}

// ---------------------------------------------------------------- C10
#[cfg(feature = "c10")]
pub fn c10(v: &mut Vec<Task>) {
    fn limit<T: std::fmt::Debug>(r: Result<T, Error>, cap: usize, what: &str) -> Result<(), String> {
        match r {
            Err(e @ Error::DepthLimitedExceeded { .. }) => {
                let text = e.to_string();
                let names_it = text.split(|c: char| !c.is_ascii_digit()).any(|w| w.parse() == Ok(cap));
                ens!(names_it, "{what}: the error says {text:?}, the capacity is {cap}");
                let Error::DepthLimitedExceeded { max_depth } = e else { unreachable!() };
                ens!(max_depth == cap, "{what}: the error names {max_depth} levels, the capacity is {cap}");
                Ok(())
            }
            Err(e) => Err(format!("{what}: wrong error {e:?}")),
            Ok(x) => Err(format!("{what}: not refused, gave {x:?} (capacity {cap})")),
        }
    }
    fn lens(cap: usize, r: &mut Rng, miri: bool) -> Vec<usize> {
        let mut v: Vec<usize> = if miri { vec![0, cap - 1, cap, cap + 1, 256, 256 + cap] } else { (0..=cap + 70).collect() };
        if !miri {
            v.extend(250..=(257 + cap + 3));
            v.extend([511, 512, 513, 512 + cap, 768, 1024, 4096, 65535, 65536, 65537, 65536 + cap, 65792]);
            for _ in 0..20 {
                v.push(cap + 1 + r.below(700));
            }
        }
        v
    }
    fn t<S: Sub>(ctx: &mut Ctx) {
        let nc = <S::D as Dm>::NC;
        ctx.run(key(1, &[]), true, || format!("{}: max_depth()", S::NAME), || {
            let m = S::max_depth();
            ens!(m == S::CAP, "max_depth() = {m:?}, whole cells that fit: {:?}", S::CAP);
            for (what, got, want) in S::consts() {
                ens!(got == want, "{what} is {got}, expected {want}");
            }
            Ok(())
        });
        let cap = match S::CAP {
            Some(c) => c,
            None => {
                // dynamic: never refuses
                for n in [0usize, 1, 3, 4, 5, 8, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 4096, 65536, 70000] {
                    if ctx.miri() && n > 70 {
                        continue;
                    }
                    let c = rcells(&mut ctx.rng, nc, n);
                    ctx.run(key(2, &c), true, || format!("{}: {n} cells", S::NAME), || {
                        let x = mk::<S>(&c)?;
                        same(&x, &c)?;
                        if let Some(a) = S::array(&tc::<S>(&c)) {
                            let a = a.map_err(|e| format!("array of {n} cells refused: {e:?}"))?;
                            twin(&a, &x)?;
                        }
                        let z = S::zero(n).unwrap();
                        ens!(z.is_some() && z.unwrap().depth() == n, "zeroed({n})");
                        let y = S::default().desc(&tc::<S>(&c)).unwrap();
                        ens!(y.is_some(), "descendant refused for depth {n}");
                        twin(&y.unwrap(), &x)?;
                        if let Some(r) = x.child(<S::D as Dm>::c(1)) {
                            ens!(r.is_some() && r.unwrap().depth() == n + 1, "child refused below depth {n}");
                        }
                        Ok(())
                    });
                }
                return;
            }
        };
        let miri = ctx.miri();
        for n in lens(cap, &mut ctx.rng, miri) {
            for rep in 0..2 {
                let c = if rep == 0 { vec![nc - 1; n] } else { rcells(&mut ctx.rng, nc, n) };
                ctx.run(key(3, &c), n + 2 > cap, || format!("{}: {n} cells", S::NAME), || {
                    let tcs = tc::<S>(&c);
                    if n <= cap {
                        same(&mk::<S>(&c)?, &pad::<S>(&c))?;
                        if let Some(r) = S::array(&tcs) {
                            ens!(r.is_ok(), "array of {n} cells refused: {r:?}");
                        }
                    } else {
                        limit(S::slice(&tcs), cap, "try_from slice")?;
                        if let Some(r) = S::array(&tcs) {
                            limit(r, cap, "try_from array")?;
                        }
                    }
                    Ok(())
                });
            }
        }
        // zeroed takes a u8
        for n in 0..=255usize {
            if S::zero(0).is_none() {
                break;
            }
            ctx.run(key(mix(4, n as u64), &[]), true, || format!("{}: zeroed({n})", S::NAME), || {
                let z = S::zero(n).unwrap();
                ens!(z.is_some() == (n <= cap), "zeroed({n}) is_some = {}, capacity {cap}", z.is_some());
                if let Some(z) = z {
                    ens!(z.depth() == n, "zeroed({n}) has depth {}", z.depth());
                }
                Ok(())
            });
        }
        // grid depths
        if S::KIND == Kind::Static && S::INDEX {
            for n in lens(cap, &mut ctx.rng, miri).into_iter().chain([usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 3 + 1]) {
                if n <= cap && n > WORD {
                    continue;
                }
                for o in 0..<S::D as Dm>::ORDS.len() {
                    ctx.run(key(mix(5, n as u64), &[o as u8]), true, || format!("{}: from_grid_index depth {n} ordering {}", S::NAME, <S::D as Dm>::ORDS[o]), || {
                        let g = [usize::MAX; 3];
                        if n <= cap {
                            let x = S::grid_new(g, n, o).unwrap().map_err(|e| format!("refused: {e:?}"))?;
                            ens!(x.depth() == n, "depth {}", x.depth());
                            Ok(())
                        } else {
                            limit(S::grid_new(g, n, o).unwrap(), cap, "from_grid_index")
                        }
                    });
                }
            }
        }
        // descendants from every depth
        if S::default().desc(&[]).is_some() {
            for n in 0..=cap {
                if miri && n != cap && n != cap / 2 {
                    continue;
                }
                let base = rcells(&mut ctx.rng, nc, n);
                let mut ls: Vec<usize> = (0..=(cap - n + 4)).collect();
                if miri {
                    ls = vec![0, cap - n, cap - n + 1];
                }
                ls.extend([255, 256, 256 - n, 257 - n, 256 + cap - n, 257 + cap - n, 300]);
                if n % 8 == 0 && !miri {
                    ls.extend([65536 - n, 65536, 65536 + cap - n]);
                }
                for k in ls {
                    let ext = rcells(&mut ctx.rng, nc, k);
                    ctx.run(key(mix(6, k as u64), &base), n + k + 2 > cap, || format!("{} + {k} cells", d::<S>("build", &base)), || {
                        let x = mk::<S>(&base)?;
                        let y = x.desc(&tc::<S>(&ext)).unwrap();
                        ens!(y.is_some() == (n + k <= cap), "descendant of depth {} is_some = {}, capacity {cap}", n + k, y.is_some());
                        if let Some(y) = y {
                            ens!(y.depth() == n + k, "descendant depth {} instead of {}", y.depth(), n + k);
                        }
                        if let Some(y) = x.child(<S::D as Dm>::c(nc - 1)) {
                            ens!(y.is_some() == (n < cap), "child below depth {n} is_some = {}, capacity {cap}", y.is_some());
                        }
                        same(&x, &base).map_err(|e| format!("original: {e}"))
                    });
                }
            }
        }
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_all_wide!(m);
    // conversions
    fn tconv<C: Conv>(ctx: &mut Ctx) {
        let cap = C::F::CAP.unwrap();
        let nc = <C::D as Dm>::NC;
        let miri = ctx.miri();
        for n in lens(cap, &mut ctx.rng, miri) {
            let c = rcells(&mut ctx.rng, nc, n);
            ctx.run(key(9, &c), n + 2 > cap, || format!("dynamic {} depth {n} to width of capacity {cap}", <C::D as Dm>::NAME), || {
                let f = C::y2f(mk::<C::Y>(&c)?);
                let s = C::y2s(mk::<C::Y>(&c)?);
                if n <= cap {
                    ens!(f.is_ok(), "to fixed refused at depth {n}: {f:?}");
                    ens!(s.is_ok(), "to static refused at depth {n}: {s:?}");
                    Ok(())
                } else {
                    limit(f, cap, "dynamic to fixed")?;
                    limit(s, cap, "dynamic to static")
                }
            });
        }
    }
    macro_rules! mc { ($t:ty) => { task(v, concat!("conv", stringify!($t)), tconv::<$t>); }; }
    crate::for_convs!(mc);
}

#[allow(unused_imports)]
use for_indices as _;
