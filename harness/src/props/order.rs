//! C05 ordering, C06 equality and hashing, C23 raw 3D indices.
use crate::ctx::*;
use crate::ens;
use crate::gen::*;
use crate::sub::*;
use crate::{for_all, for_all_wide, for_indices};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};

// ---------------------------------------------------------------- C05
#[cfg(feature = "c05")]
pub fn c05(v: &mut Vec<Task>) {
    fn pair<S: Sub>(ctx: &mut Ctx, a: &[u8], b: &[u8]) {
        let k = key(key(1, a), b);
        let how = ctx.rng.u64();
        ctx.run(k, a != b, || format!("{}: {} against {} (made in way {how})", S::NAME, show(a), show(b)), || {
            let (pa, pb) = (pad::<S>(a), pad::<S>(b));
            let (x, y) = (made::<S>(a, how)?, made::<S>(b, how ^ 0x5bd1)?);
            check(&x, &y, pa.cmp(&pb))
        });
    }
    fn check<S: Sub>(x: &S, y: &S, e: Ordering) -> Result<(), String> {
        ens!(x.cmp(y) == e, "cmp = {:?}, the cells compare {e:?}", x.cmp(y));
        ens!(y.cmp(x) == e.reverse(), "reverse cmp = {:?}, the cells compare {:?}", y.cmp(x), e.reverse());
        ens!(x.partial_cmp(y) == Some(e), "partial_cmp = {:?}, the cells compare {e:?}", x.partial_cmp(y));
        let ops = [x < y, x <= y, x > y, x >= y, x == y, x != y];
        let exp = [e.is_lt(), e.is_le(), e.is_gt(), e.is_ge(), e.is_eq(), e.is_ne()];
        ens!(ops == exp, "[<,<=,>,>=,==,!=] = {ops:?}, expected {exp:?}");
        ens!((x.max(y) == x) == e.is_ge() && (x.min(y) == x) == e.is_le(), "max/min");
        // the methods that take the values themselves can be overridden separately
        let (big, small) = if e.is_ge() { (x, y) } else { (y, x) };
        for (a, b) in [(x, y), (y, x)] {
            ens!(a.clone().max(b.clone()) == *big, "max of the values is not the greater one, cmp is {e:?}");
            ens!(a.clone().min(b.clone()) == *small, "min of the values is not the lesser one, cmp is {e:?}");
            ens!(a.clone().clamp(small.clone(), big.clone()) == *a, "clamp to a range that holds the value changes it");
        }
        ens!(small.clone().clamp(big.clone(), big.clone()) == *big && big.clone().clamp(small.clone(), small.clone()) == *small, "clamp to the other value");
        Ok(())
    }
    fn t<S: Sub>(ctx: &mut Ctx) {
        let nb = <S::D as Dm>::N;
        let nc = <S::D as Dm>::NC;
        let mut pairs = 0u64;
        // every pair of short sequences
        if !ctx.miri() {
            let top = match S::CAP {
                Some(c) if c * nb <= 8 => c,
                _ => if nb == 2 { 4 } else { 2 },
            };
            let mut all: Vec<Vec<u8>> = vec![];
            for d in 0..=top {
                for x in 0u64..1 << (d * nb) {
                    all.push((0..d).map(|l| (x >> (l * nb) & (nc as u64 - 1)) as u8).collect());
                }
            }
            for a in &all {
                for b in &all {
                    if ctx.done() {
                        return;
                    }
                    pair::<S>(ctx, a, b);
                }
            }
            pairs += (all.len() * all.len()) as u64;
        }
        // common prefix l, then divergence or end, with adversarial tails
        let md = max_depth::<S>();
        let reps = ctx.iters(12, 0);
        for l in 0..=md {
            for _ in 0..reps {
                if ctx.done() {
                    return;
                }
                let p = rcells(&mut ctx.rng, nc, l);
                let mkside = |r: &mut Rng| {
                    let mut w = p.clone();
                    let room = md - l;
                    let k = match r.below(4) {
                        0 => 0,
                        1 => 1.min(room),
                        _ => r.below(room + 1),
                    };
                    let t = rcells(r, nc, k);
                    w.extend(t);
                    // tails that pull the comparison the wrong way
                    let fill = [0, nc - 1, 255][r.below(3)];
                    if fill != 255 && k > 1 {
                        for x in w[l + 1..].iter_mut() {
                            *x = fill;
                        }
                    }
                    w
                };
                let a = mkside(&mut ctx.rng);
                let mut b = mkside(&mut ctx.rng);
                if a.len() > l && b.len() > l && ctx.rng.chance(2) {
                    b[l] = (a[l] + 1) % nc;
                }
                pair::<S>(ctx, &a, &b);
                pair::<S>(ctx, &a, &a);
                let c = neighbour::<S>(&mut ctx.rng, &a);
                pair::<S>(ctx, &a, &c);
                pair::<S>(ctx, &c, &b);
                pairs += 4;
            }
        }
        let n = ctx.iters(25000, 6);
        for _ in 0..n {
            if ctx.done() {
                return;
            }
            let d = rdepth::<S>(&mut ctx.rng);
            let a = rcells(&mut ctx.rng, nc, d);
            let b = if ctx.rng.chance(4) {
                let d = rdepth::<S>(&mut ctx.rng);
                rcells(&mut ctx.rng, nc, d)
            } else {
                neighbour::<S>(&mut ctx.rng, &a)
            };
            pair::<S>(ctx, &a, &b);
            pairs += 1;
        }
        ctx.ev("ordered_pairs", pairs);
        // sorting gives a pre-order
        let n = ctx.iters(30, 1);
        let mut sorted = 0u64;
        for round in 0..n {
            if ctx.done() {
                return;
            }
            let cnt = if ctx.miri() { 6 } else { ctx.rng.range(2, 300) };
            let mut ms: Vec<Vec<u8>> = vec![];
            while ms.len() < cnt {
                let c = if ms.is_empty() || ctx.rng.chance(3) {
                    let d = rdepth::<S>(&mut ctx.rng);
                    rcells(&mut ctx.rng, nc, d)
                } else {
                    let i = ctx.rng.below(ms.len());
                    let m = ms[i].clone();
                    neighbour::<S>(&mut ctx.rng, &m)
                };
                ms.push(pad::<S>(&c));
            }
            sorted += cnt as u64;
            ctx.run(ms.iter().fold(round, |h, m| key(h, m)), true, || format!("{}: sorting {} indices: {}", S::NAME, ms.len(), ms.iter().map(|m| show(m)).collect::<Vec<_>>().join(" ")), || {
                let mut xs = vec![];
                for m in &ms {
                    xs.push(mk::<S>(m)?);
                }
                let mut model = ms.clone();
                model.sort();
                let mut a = xs.clone();
                a.sort();
                let mut b = xs.clone();
                b.sort_unstable();
                for (i, m) in model.iter().enumerate() {
                    same(&a[i], m).map_err(|e| format!("position {i} of the sorted list: {e}"))?;
                    same(&b[i], m).map_err(|e| format!("position {i} of the unstably sorted list: {e}"))?;
                }
                // subtrees are contiguous: everything between a node and its last descendant descends from it
                for i in 0..model.len() {
                    let last = (i..model.len()).rev().find(|j| a[*j].depth() >= model[i].len() && model[*j].starts_with(&model[i]));
                    if let Some(j) = last {
                        for k in i..=j {
                            ens!(model[k].starts_with(&model[i]), "subtree of {} is not contiguous", show(&model[i]));
                        }
                    }
                }
                let set: BTreeSet<S> = xs.iter().cloned().collect();
                let mset: BTreeSet<Vec<u8>> = ms.iter().cloned().collect();
                ens!(set.len() == mset.len(), "a BTreeSet holds {} indices, there are {} different ones", set.len(), mset.len());
                for (x, m) in set.iter().zip(&mset) {
                    same(x, m).map_err(|e| format!("BTreeSet order: {e}"))?;
                }
                for (x, m) in xs.iter().zip(&ms) {
                    ens!(set.contains(x), "BTreeSet does not find {}", show(m));
                    ens!(a.binary_search(x).is_ok(), "binary search does not find {}", show(m));
                    let (r, e) = (set.range(x..).count(), mset.range(m.clone()..).count());
                    ens!(r == e, "range from {} has {r} members, expected {e}", show(m));
                }
                Ok(())
            });
        }
        ctx.ev("sorted_indices", sorted);
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_all_wide!(m);
}

// ---------------------------------------------------------------- C06
#[cfg(feature = "c06")]
pub fn c06(v: &mut Vec<Task>) {
    /// every way the type offers to arrive at these cells
    fn routes<S: Sub>(c: &[u8], r: &mut Rng) -> Result<Vec<(String, S)>, String> {
        let nc = <S::D as Dm>::NC;
        let n = c.len();
        let p = pad::<S>(c);
        let tcs = tc::<S>(c);
        let mut out: Vec<(String, S)> = vec![];
        if let Some(a) = S::array(&tcs) {
            out.push(("array".into(), a.map_err(|e| format!("array refused: {e:?}"))?));
        }
        // noise overwritten, in random order
        {
            let noise = rcells(r, nc, n);
            let mut x = mk::<S>(&noise)?;
            let mut order: Vec<usize> = (0..p.len()).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i + 1));
            }
            for l in order {
                x.set(l, <S::D as Dm>::c(p[l]));
            }
            out.push(("noise overwritten".into(), x));
        }
        if S::KIND == Kind::Fixed {
            let mut x = S::default();
            for (l, cell) in c.iter().enumerate() {
                x.set_u(l, <S::D as Dm>::c(*cell));
            }
            out.push(("default filled".into(), x));
        } else {
            if let Some(Some(mut x)) = S::zero(n) {
                for (l, cell) in c.iter().enumerate() {
                    x.set_u(l, <S::D as Dm>::c(*cell));
                }
                out.push(("zeroed filled".into(), x));
            }
            if n <= 70 {
                let mut x = S::default();
                for cell in &tcs {
                    x = x.desc(&[*cell]).unwrap().ok_or("no child")?;
                }
                out.push(("root and children".into(), x));
            }
            out.push(("root and descendant".into(), S::default().desc(&tcs).unwrap().ok_or("no descendant")?));
            let cut = r.below(n + 1);
            let x = S::slice(&tcs[..cut]).map_err(|e| format!("{e:?}"))?;
            out.push((format!("prefix of {cut} and descendant"), x.desc(&tcs[cut..]).unwrap().ok_or("no descendant")?));
            // ancestors of deeper nodes
            for _ in 0..2 {
                let room = S::CAP.map_or(21, |cap| cap - n);
                if room > 0 {
                    let k = match r.below(3) {
                        0 => 1,
                        1 => room,
                        _ => r.range(1, room),
                    };
                    let mut w = c.to_vec();
                    let t = rcells(r, nc, k);
                    w.extend(t.iter().map(|c| c | 1));
                    let x = mk::<S>(&w)?;
                    out.push((format!("ancestor({k}) of {}", show(&w)), x.anc(k).unwrap().ok_or("no ancestor")?));
                    if let Some(y) = x.with_depth(n) {
                        out.push((format!("with_depth({n}) of {}", show(&w)), y.ok_or("with_depth gave nothing")?));
                    }
                    // down and up again
                    let mut y = x;
                    for _ in 0..k {
                        y = y.anc(1).unwrap().ok_or("no parent")?;
                    }
                    out.push((format!("{k} parents up from {}", show(&w)), y));
                }
            }
        }
        if S::INDEX {
            let mut q = p.clone();
            q.reverse();
            let x = mk::<S>(&q)?;
            out.push(("inverted".into(), x.inv().unwrap()));
            out.push(("inverted twice".into(), mk::<S>(c)?.inv().unwrap().inv().unwrap()));
            let glim = match S::KIND {
                Kind::Dyn => WORD / 2,
                _ => WORD,
            };
            if p.len() <= glim {
                for o in 0..<S::D as Dm>::ORDS.len() {
                    let g = model_grid::<S::D>(&p, o);
                    let g = [g[0], g[1], g[2]];
                    let x = S::grid_new(g, p.len(), o).unwrap().map_err(|e| format!("grid refused: {e:?}"))?;
                    out.push((format!("from_grid_index {g:?} {}", <S::D as Dm>::ORDS[o]), x));
                }
            }
            let conv = S::conv_routes(c);
            for (w, x) in conv {
                out.push((w.into(), x));
            }
            if <S::D as Dm>::N == 3 && S::CAP.is_some() {
                let bits = S::BITS_W;
                let mut raw = 0u128;
                for cell in &p {
                    raw = raw << 3 | *cell as u128;
                }
                let waste = bits - 3 * p.len();
                for junk in [0, r.u128()] {
                    let low = if waste >= 128 { junk } else { junk & ((1u128 << waste) - 1) };
                    let b = if waste >= 128 { low } else { raw << waste | low };
                    if let Some(x) = S::raw(b, p.len()) {
                        out.push((format!("from_raw_index({b:#x})"), x));
                    }
                }
            }
        }
        let x = mk::<S>(c)?;
        let mut y = S::default();
        y.clone_from(&x);
        out.push(("clone".into(), x.clone()));
        out.push(("clone_from".into(), y));
        let other = neighbour::<S>(r, c);
        let mut y = mk::<S>(&other)?;
        y.clone_from(&x);
        out.push((format!("clone_from over {}", show(&other)), y));
        Ok(out)
    }
    fn t<S: Sub>(ctx: &mut Ctx) {
        let nc = <S::D as Dm>::NC;
        let mut nroutes = 0u64;
        thin::<S>(ctx, 8, 3000, |ctx, c| {
            let mut r = Rng(ctx.rng.u64());
            let w = neighbour::<S>(&mut ctx.rng, c);
            let mut cnt = 0;
            ctx.run(key(1, c), !c.is_empty(), || format!("{}: all routes to cells {}", S::NAME, show(c)), || {
                let p = pad::<S>(c);
                let x = mk::<S>(c)?;
                let rs = routes::<S>(c, &mut r)?;
                let mut set: HashSet<S> = HashSet::new();
                set.insert(x.clone());
                for (how, y) in &rs {
                    same(y, &p).map_err(|e| format!("{how}: {e}"))?;
                    twin(&x, y).map_err(|e| format!("{how}: {e}"))?;
                    set.insert(y.clone());
                }
                cnt = rs.len() as u64;
                ens!(set.len() == 1, "a HashSet holds {} copies", set.len());
                // against a different index
                let z = mk::<S>(&w)?;
                let eq = pad::<S>(&w) == p;
                for (how, y) in rs.iter().map(|r| (r.0.as_str(), &r.1)).chain([("slice", &x)]) {
                    ens!((*y == z) == eq && (z == *y) == eq && (*y != z) != eq, "{how}: == with cells {} is {}", show(&w), *y == z);
                    ens!((y.cmp(&z) == Ordering::Equal) == eq, "{how}: cmp with cells {} is {:?}", show(&w), y.cmp(&z));
                    ens!(set.contains(&z) == eq, "HashSet membership of {}", show(&w));
                }
                Ok(())
            });
            nroutes += cnt;
        });
        ctx.ev("routes_compared", nroutes);
        // histories of mixed operations
        let it = ctx.iters(1200, 2);
        let mut ops = 0u64;
        for round in 0..it {
            if ctx.done() {
                return;
            }
            let seed = ctx.rng.u64();
            let steps = ctx.rng.range(5, 40);
            ops += steps as u64;
            let log = std::cell::RefCell::new(vec![]);
            ctx.run(mix(seed, round), true, || format!("{}: history {:?}", S::NAME, log.borrow()), || {
                let mut r = Rng(seed);
                let d = rdepth::<S>(&mut r);
                let mut m = pad::<S>(&rcells(&mut r, nc, d));
                let mut x = mk::<S>(&m)?;
                log.borrow_mut().push(format!("cells {}", show(&m)));
                for _ in 0..steps {
                    match r.below(8) {
                        0 | 1 if !m.is_empty() => {
                            let l = r.below(m.len());
                            m[l] = r.below(nc as usize) as u8;
                            log.borrow_mut().push(format!("set {l} {}", m[l]));
                            x.set(l, <S::D as Dm>::c(m[l]));
                        }
                        2 | 3 if S::KIND != Kind::Fixed => {
                            let room = S::CAP.map_or(12, |c| c - m.len());
                            let k = if r.chance(2) { r.below(room + 1) } else { 1.min(room) };
                            let e = rcells(&mut r, nc, k);
                            log.borrow_mut().push(format!("descendant {}", show(&e)));
                            x = x.desc(&tc::<S>(&e)).unwrap().ok_or("no descendant")?;
                            m.extend(e);
                        }
                        4 | 5 if S::KIND != Kind::Fixed && !m.is_empty() => {
                            let k = if r.chance(3) { r.range(1, m.len()) } else { r.range(1, m.len().min(3)) };
                            log.borrow_mut().push(format!("ancestor {k}"));
                            x = x.anc(k).unwrap().ok_or("no ancestor")?;
                            m.truncate(m.len() - k);
                        }
                        6 if S::INDEX => {
                            log.borrow_mut().push("inverted".into());
                            x = x.inv().unwrap();
                            m.reverse();
                        }
                        7 => {
                            let rs = routes::<S>(&m, &mut r)?;
                            let i = r.below(rs.len());
                            let (how, y) = rs.into_iter().nth(i).unwrap();
                            log.borrow_mut().push(format!("rebuilt by {how}"));
                            x = y;
                        }
                        _ => {}
                    }
                    same(&x, &m)?;
                    twin(&x, &mk::<S>(&m)?)?;
                }
                canon(&x, &m)
            });
        }
        ctx.ev("history_operations", ops);
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_all!(m);
}

// ---------------------------------------------------------------- C23
#[cfg(feature = "c23")]
pub fn c23(v: &mut Vec<Task>) {
    fn cells(bits: u128, w: usize, n: usize) -> Vec<u8> {
        (0..n).map(|l| ((bits >> (w - 3 * (l + 1))) & 7) as u8).collect()
    }
    fn one<S: Sub>(ctx: &mut Ctx, bits: u128, n: usize) {
        let w = S::BITS_W;
        let c = cells(bits, w, n);
        let extra = ctx.rng.below(8) as u8;
        let junk = ctx.rng.u128();
        ctx.run(mix(mix(bits as u64, (bits >> 64) as u64), n as u64), bits != 0, || format!("{}: from_raw_index({bits:#x}) depth {n}", S::NAME), || {
            let x = S::raw(bits, n).unwrap();
            canon(&x, &c)?;
            let fresh = mk::<S>(&c)?;
            // raw values that differ only in leftover bits
            let waste = w - 3 * n;
            if waste > 0 {
                let lm = if waste >= 128 { u128::MAX } else { (1u128 << waste) - 1 };
                let y = S::raw((bits & !lm) | (junk & lm), n).unwrap();
                twin(&x, &y).map_err(|e| format!("leftover bits matter: {e}"))?;
            }
            if n <= WORD {
                for o in 0..6 {
                    ens!(x.to_grid(o) == fresh.to_grid(o), "grid index");
                }
                ens!(x.name(morton_index::MortonIndexNaming::GridIndex) == fresh.name(morton_index::MortonIndexNaming::GridIndex), "grid naming");
            }
            ens!(x.name(morton_index::MortonIndexNaming::CellConcatenation) == fresh.name(morton_index::MortonIndexNaming::CellConcatenation), "cell naming");
            let mut rev = c.clone();
            rev.reverse();
            canon(&x.inv().unwrap(), &rev).map_err(|e| format!("inverted: {e}"))?;
            if S::KIND == Kind::Static {
                if n < S::CAP.unwrap() {
                    let mut e = c.clone();
                    e.push(extra);
                    canon(&x.child(Three::c(extra).into_c::<S>()).unwrap().ok_or("no child")?, &e).map_err(|e| format!("child: {e}"))?;
                }
                if n > 0 {
                    canon(&x.parent().unwrap().ok_or("no parent")?, &c[..n - 1]).map_err(|e| format!("parent: {e}"))?;
                }
            }
            x.conv_out(&c)
        });
        // order against a neighbour
        let b2 = bits ^ (1u128 << ctx.rng.below(w));
        let c2 = cells(b2, w, n);
        ctx.run(mix(mix(bits as u64, b2 as u64), n as u64), true, || format!("{}: order of raw {bits:#x} and {b2:#x} depth {n}", S::NAME), || {
            let (x, y) = (S::raw(bits, n).unwrap(), S::raw(b2, n).unwrap());
            ens!(x.cmp(&y) == c.cmp(&c2) && (x == y) == (c == c2), "cmp {:?} == {} but the cells compare {:?}", x.cmp(&y), x == y, c.cmp(&c2));
            Ok(())
        });
    }
    trait IntoC {
        fn into_c<S: Sub>(self) -> <S::D as Dm>::C;
    }
    impl IntoC for morton_index::dimensions::Octant {
        fn into_c<S: Sub>(self) -> <S::D as Dm>::C {
            <S::D as Dm>::c(Three::i(self))
        }
    }
    fn t<S: Sub>(ctx: &mut Ctx) {
        if <S::D as Dm>::N != 3 || S::CAP.is_none() {
            return;
        }
        let w = S::BITS_W;
        let cap = S::CAP.unwrap();
        let mask = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        let lo = if S::KIND == Kind::Fixed { cap } else { 0 };
        for n in lo..=cap {
            if ctx.miri() && n != cap && n != cap / 2 {
                continue;
            }
            if w <= 16 && !ctx.miri() {
                let step = if w == 16 && S::KIND == Kind::Static && ctx.tier == Tier::Quick { 3 } else { 1 };
                let mut b = 0u128;
                while b <= mask {
                    one::<S>(ctx, b, n);
                    b += step;
                    if ctx.done() {
                        return;
                    }
                }
            }
            let mut bs = vec![0, mask, mask >> 1, 1];
            if !ctx.miri() {
                for i in 0..w {
                    bs.push(1 << i);
                    bs.push(mask ^ (1 << i));
                    bs.push(mask >> i);
                    bs.push(mask << i & mask);
                }
            }
            for _ in 0..ctx.iters(if S::KIND == Kind::Fixed { 8000 } else { 600 }, 2) {
                bs.push(ctx.rng.u128() & mask);
            }
            for b in bs {
                if ctx.done() {
                    return;
                }
                one::<S>(ctx, b, n);
            }
        }
    }
    macro_rules! m { ($t:ty) => { if <$t as Sub>::D::N == 3 && <$t as Sub>::CAP.is_some() && <$t as Sub>::raw(0, 0).is_some() { task(v, <$t as Sub>::NAME, t::<$t>); } }; }
    for_indices!(m);
}
