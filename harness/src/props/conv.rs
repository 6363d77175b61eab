//! C09 storage conversions, C11 string forms, C24 displayable slices, C13 cells and orderings.
use crate::ctx::*;
use crate::ens;
use crate::gen::*;
use crate::sub::*;
use crate::{for_convs, for_indices};
use morton_index::{Error, MortonIndexNaming};

// ---------------------------------------------------------------- C09
#[cfg(feature = "c09")]
pub fn c09(v: &mut Vec<Task>) {
    fn t<C: Conv>(ctx: &mut Ctx) {
        let cap = C::F::CAP.unwrap();
        let mut n_conv = 0u64;
        // from every sequence that fits
        thin::<C::S>(ctx, 3, 12000, |ctx, c| {
            n_conv += 11;
            let how = ctx.rng.u64();
            ctx.run(key(1, c), !c.is_empty(), || format!("{} width {}: conversions (made in way {how}) of cells {}", <C::D as Dm>::NAME, C::F::BITS_W, show(c)), || {
                let p = pad::<C::F>(c);
                let f = made::<C::F>(c, how)?;
                let s = made::<C::S>(c, how)?;
                let y = made::<C::Y>(c, how)?;
                let w = |n: &'static str| move |e: String| format!("{n}: {e}");
                let e = |n: &'static str| move |e: Error| format!("{n}: refused: {e:?}");
                canon(&C::s2f(s.clone()), &p).map_err(w("static to fixed"))?;
                canon(&C::s2y(s.clone()), c).map_err(w("static to dynamic"))?;
                canon(&C::y2f(y.clone()).map_err(e("dynamic to fixed"))?, &p).map_err(w("dynamic to fixed"))?;
                canon(&C::y2s(y.clone()).map_err(e("dynamic to static"))?, c).map_err(w("dynamic to static"))?;
                canon(&C::f2s(f.clone()), &p).map_err(w("fixed to static"))?;
                canon(&C::f2y(f.clone()), &p).map_err(w("fixed to dynamic"))?;
                // round trips
                canon(&C::y2s(C::s2y(s.clone())).map_err(e("static-dynamic-static"))?, c).map_err(w("static-dynamic-static"))?;
                canon(&C::s2y(C::y2s(y.clone()).map_err(e("dynamic-static-dynamic"))?), c).map_err(w("dynamic-static-dynamic"))?;
                canon(&C::s2f(C::f2s(f.clone())), &p).map_err(w("fixed-static-fixed"))?;
                canon(&C::y2f(C::f2y(f.clone())).map_err(e("fixed-dynamic-fixed"))?, &p).map_err(w("fixed-dynamic-fixed"))?;
                canon(&C::f2y(C::y2f(y.clone()).map_err(e("dynamic-fixed-dynamic"))?), &p).map_err(w("dynamic-fixed-dynamic"))?;
                Ok(())
            });
        });
        ctx.ev("conversions", n_conv);
        // dynamic indices that came about by navigation or writes
        let nc = <C::D as Dm>::NC;
        for k in 0..ctx.iters(4000, 2) {
            if ctx.done() {
                return;
            }
            let n = ctx.rng.below(cap + 1);
            let c = rcells(&mut ctx.rng, nc, n);
            let up = ctx.rng.range(1, 20);
            let tail = rcells(&mut ctx.rng, nc, up);
            let cut = ctx.rng.below(n + 1);
            ctx.run(key(key(k, &tail), &c), true, || format!("{} width {}: dynamic [zeroed and filled | ancestor({up}) | prefix {cut} + descendant] with cells {} to fixed/static", <C::D as Dm>::NAME, C::F::BITS_W, show(&c)), || {
                let mut w = c.clone();
                w.extend(&tail);
                let mut z = C::Y::zero(n).unwrap().unwrap();
                for (l, x) in c.iter().enumerate() {
                    z.set(l, <C::D as Dm>::c(*x));
                }
                let a = mk::<C::Y>(&w)?.anc(up).unwrap().ok_or("no ancestor")?;
                let dd = mk::<C::Y>(&c[..cut])?.desc(&tc::<C::Y>(&c[cut..])).unwrap().ok_or("no descendant")?;
                for (how, y) in [("zeroed and filled", z), ("ancestor", a), ("descendant", dd)] {
                    let f = C::y2f(y.clone()).map_err(|e| format!("{how}: fixed refused: {e:?}"))?;
                    canon(&f, &pad::<C::F>(&c)).map_err(|e| format!("{how} to fixed: {e}"))?;
                    let s = C::y2s(y).map_err(|e| format!("{how}: static refused: {e:?}"))?;
                    canon(&s, &c).map_err(|e| format!("{how} to static: {e}"))?;
                }
                // static that was cut back
                if n > 0 {
                    let s = mk::<C::S>(&c)?.anc(1).unwrap().ok_or("no ancestor")?;
                    canon(&C::s2f(s.clone()), &pad::<C::F>(&c[..n - 1])).map_err(|e| format!("parent to fixed: {e}"))?;
                    canon(&C::s2y(s), &c[..n - 1]).map_err(|e| format!("parent to dynamic: {e}"))?;
                }
                Ok(())
            });
        }
        // too deep
        let mut over: Vec<usize> = (cap + 1..cap + 40).collect();
        over.extend([255, 256, 257, 256 + cap / 2, 256 + cap, 512, 65536, 65536 + cap / 2]);
        if ctx.miri() {
            over = vec![cap + 1, 256];
        }
        for n in over {
            if n <= cap {
                continue;
            }
            for rep in 0..3 {
                let c = if rep == 0 { vec![0; n] } else { rcells(&mut ctx.rng, nc, n) };
                ctx.run(key(5, &c), true, || format!("{} width {}: dynamic depth {n} to fixed/static", <C::D as Dm>::NAME, C::F::BITS_W), || {
                    for (how, r) in [
                        ("fixed", C::y2f(mk::<C::Y>(&c)?).map(|x| format!("{x:?}"))),
                        ("static", C::y2s(mk::<C::Y>(&c)?).map(|x| format!("{x:?}"))),
                    ] {
                        match r {
                            Err(Error::DepthLimitedExceeded { max_depth }) => {
                                ens!(max_depth == cap, "{how}: the error names {max_depth} levels, capacity {cap}")
                            }
                            other => return Err(format!("{how}: expected the depth-limit error, got {other:?}")),
                        }
                    }
                    Ok(())
                });
            }
        }
        ctx.ev("refusals", 1);
    }
    macro_rules! m { ($t:ty) => { task(v, stringify!($t), t::<$t>); }; }
    for_convs!(m);
}

// ---------------------------------------------------------------- C11
pub fn model_name<S: Sub>(p: &[u8], n: MortonIndexNaming) -> Option<String> {
    let cells: String = p.iter().map(|c| (b'0' + c) as char).collect();
    Some(match n {
        MortonIndexNaming::CellConcatenation => cells,
        MortonIndexNaming::CellConcatenationWithRoot => format!("r{cells}"),
        MortonIndexNaming::GridIndex => {
            if p.len() > WORD {
                return None;
            }
            let g = model_grid::<S::D>(p, 0);
            let mut s = p.len().to_string();
            for a in 0..<S::D as Dm>::N {
                s.push('-');
                s.push_str(&g[a].to_string());
            }
            s
        }
    })
}
pub const NAMINGS: [MortonIndexNaming; 3] =
    [MortonIndexNaming::CellConcatenation, MortonIndexNaming::CellConcatenationWithRoot, MortonIndexNaming::GridIndex];

#[cfg(feature = "c11")]
pub fn c11(v: &mut Vec<Task>) {
    fn t<S: Sub>(ctx: &mut Ctx) {
        let mut names = 0u64;
        let mut seen: std::collections::HashMap<String, Vec<u8>> = Default::default();
        thin::<S>(ctx, 3, 15000, |ctx, c| {
            let p = pad::<S>(c);
            let how = ctx.rng.u64();
            for (i, n) in NAMINGS.iter().enumerate() {
                let e = match model_name::<S>(&p, *n) {
                    Some(e) => e,
                    None => continue,
                };
                names += 1;
                let seen = &mut seen;
                ctx.run(key(i as u64, c), !c.is_empty(), || format!("{}: cells {} (made in way {how}) named {n:?}", S::NAME, show(c)), || {
                    let x = made::<S>(c, how)?;
                    let s = x.name(*n).unwrap();
                    ens!(s == e, "{s:?}, expected {e:?}");
                    if i == 0 && seen.len() < 50_000 {
                        if let Some(o) = seen.insert(s.clone(), p.clone()) {
                            ens!(o == p, "cells {} and {} share the name {s:?}", show(&o), show(&p));
                        }
                    }
                    Ok(())
                });
            }
        });
        ctx.ev("names_checked", names);
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_indices!(m);
}

// ---------------------------------------------------------------- C24
#[cfg(feature = "c24")]
pub fn c24(v: &mut Vec<Task>) {
    use morton_index::helper::make_displayable;
    use morton_index::MortonIndex;
    use std::cmp::Ordering;
    use std::fmt::Write;
    /// a sink that fails after `0` bytes
    struct Short(usize);
    impl Write for Short {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if s.len() > self.0 {
                return Err(std::fmt::Error);
            }
            self.0 -= s.len();
            Ok(())
        }
    }
    /// a sink that refuses, once, the piece of text that reaches position `at`
    struct Hiccup {
        text: String,
        at: usize,
        failed: bool,
    }
    impl Write for Hiccup {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if !self.failed && self.text.len() + s.len() > self.at {
                self.failed = true;
                return Err(std::fmt::Error);
            }
            self.text.push_str(s);
            Ok(())
        }
    }
    fn t<S: Sub + MortonIndex>(ctx: &mut Ctx) {
        let nc = <S::D as Dm>::NC;
        let it = ctx.iters(700, 3);
        let mut elems = 0u64;
        for k in 0..it {
            if ctx.done() {
                return;
            }
            let big = [100, 127, 129, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1000, 1025, 2049, 4097, 65_600];
            let len = if k < 4 { k as usize } else if !ctx.miri() && (k as usize) < 4 + big.len() { big[k as usize - 4] } else if ctx.rng.chance(20) { ctx.rng.below(200) } else { ctx.rng.below(9) };
            let lim = S::CAP.unwrap_or(WORD);
            let mut ms: Vec<Vec<u8>> = vec![];
            for i in 0..len {
                let c = if i > 0 && ctx.rng.chance(3) {
                    let m = ms[i - 1].clone();
                    neighbour::<S>(&mut ctx.rng, &m)
                } else {
                    let d = rdepth::<S>(&mut ctx.rng);
                    rcells(&mut ctx.rng, nc, d)
                };
                let mut c = c;
                if len > 200 {
                    c.truncate(if len > 5000 { 2 } else { 5 });
                }
                c.truncate(lim.min(WORD));
                ms.push(c);
            }
            elems += len as u64;
            // a relative of the list
            let mut os = ms.clone();
            for _ in 0..ctx.rng.below(3) {
                match ctx.rng.below(5) {
                    0 => {
                        os.pop();
                    }
                    1 if !os.is_empty() => {
                        let i = ctx.rng.below(os.len());
                        let m = os[i].clone();
                        os[i] = neighbour::<S>(&mut ctx.rng, &m);
                    }
                    2 => os.push(vec![]),
                    3 if os.len() > 1 => {
                        let i = ctx.rng.below(os.len());
                        os.swap(0, i);
                    }
                    _ => {}
                }
            }
            let how = ctx.rng.u64() >> 1;
            let line = |ms: &[Vec<u8>]| ms.iter().map(|m| show(m)).collect::<Vec<_>>().join(" ");
            ctx.run(ms.iter().chain(&os).fold(k, |h, m| key(h, m)), len > 0, || format!("{}: slice {} / other slice {} (made in ways {how})", S::NAME, line(&ms), line(&os)), || {
                let xs: Vec<S> = ms.iter().zip(how..).map(|(m, h)| made::<S>(m, h)).collect::<Result<_, _>>()?;
                let ys: Vec<S> = os.iter().zip(how >> 1..).map(|(m, h)| made::<S>(m, h)).collect::<Result<_, _>>()?;
                for n in NAMINGS {
                    let mut e = String::from("[");
                    for (i, m) in ms.iter().enumerate() {
                        if i > 0 {
                            e.push_str(", ");
                        }
                        match model_name::<S>(&pad::<S>(m), n) {
                            Some(s) => e.push_str(&s),
                            None => return Ok(()),
                        }
                    }
                    e.push(']');
                    let disp = make_displayable(&xs, n);
                    let s = format!("{disp}");
                    ens!(s == e, "Display under {n:?}: {s:?}, expected {e:?}");
                    let s = format!("{disp:?}");
                    ens!(s == e, "Debug under {n:?}: {s:?}, expected {e:?}");
                    // a sink that refuses the text gets an error, not a shortened success
                    ens!(write!(Short(e.len()), "{disp}").is_ok(), "write into a sink of the exact size failed");
                    ens!(write!(Short(e.len() - 1), "{disp}").is_err(), "an error of the sink was swallowed");
                    // a sink that fails once, anywhere, and then recovers
                    for i in 0..3 {
                        let at = (how.rotate_left(i * 21) % e.len() as u64) as usize;
                        for dbg in [false, true] {
                            let mut h = Hiccup { text: String::new(), at, failed: false };
                            let r = if dbg { write!(h, "{disp:?}") } else { write!(h, "{disp}") };
                            ens!(h.failed && r.is_err(), "an error of the sink at byte {at} was swallowed (debug form: {dbg}), it holds {:?}", h.text);
                        }
                    }
                }
                let mm: Vec<Vec<u8>> = ms.iter().map(|m| pad::<S>(m)).collect();
                let om: Vec<Vec<u8>> = os.iter().map(|m| pad::<S>(m)).collect();
                let e = mm.cmp(&om);
                for n in NAMINGS {
                    for n2 in NAMINGS {
                        let (a, b) = (make_displayable(&xs, n), make_displayable(&ys, n2));
                        ens!((a == b) == (e == Ordering::Equal) && (a != b) == (e != Ordering::Equal), "== is {}, slices compare {e:?}", a == b);
                        ens!(a.cmp(&b) == e && a.partial_cmp(&b) == Some(e) && b.cmp(&a) == e.reverse(), "cmp is {:?}/{:?}, slices compare {e:?}", a.cmp(&b), a.partial_cmp(&b));
                        ens!((a < b) == e.is_lt() && (a <= b) == e.is_le() && (a > b) == e.is_gt() && (a >= b) == e.is_ge(), "operators, slices compare {e:?}");
                        let (hi, lo) = if e.is_ge() { (&xs, &ys) } else { (&ys, &xs) };
                        let d = |v| make_displayable(v, n);
                        ens!(d(&xs).max(d(&ys)) == d(hi) && d(&xs).min(d(&ys)) == d(lo), "max/min, slices compare {e:?}");
                        ens!(d(&xs).clamp(d(lo), d(hi)) == a && d(lo).clamp(d(hi), d(hi)) == d(hi), "clamp, slices compare {e:?}");
                    }
                }
                Ok(())
            });
        }
        ctx.ev("slice_elements", elems);
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_indices!(m);
}

// ---------------------------------------------------------------- C13
#[cfg(feature = "c13")]
pub fn c13(v: &mut Vec<Task>) {
    use morton_index::dimensions::{Octant, OctantOrdering, Quadrant, QuadrantOrdering};
    fn numbers(r: &mut Rng, miri: bool) -> Vec<usize> {
        let mut v: Vec<usize> = (0..if miri { 300 } else { 70_000 }).collect();
        for b in 0..WORD {
            for o in 0..9 {
                v.push((1usize << b).wrapping_add(o));
                v.push((1usize << b).wrapping_sub(o));
            }
        }
        for _ in 0..if miri { 20 } else { 20_000 } {
            v.push(r.u64() as usize >> r.below(WORD));
        }
        v
    }
    macro_rules! cells {
        ($name:literal, $T:ty, $D:ident) => {
            task(v, $name, |ctx: &mut Ctx| {
                let miri = ctx.miri();
                let ns = numbers(&mut ctx.rng, miri);
                let nc = $D::NC as usize;
                for n in ns {
                    ctx.run(n as u64, true, || format!("{}::try_from({n})", $name), || {
                        match <$T>::try_from(n) {
                            Ok(c) => {
                                ens!(n < nc, "accepted as {c:?}");
                                ens!(c == $D::c(n as u8), "gave {c:?}");
                                ens!(c.index() == n, "index() = {}", c.index());
                                let a: usize = c.into();
                                let b: usize = (&c).into();
                                ens!(a == n && b == n, "converts back to {a} / {b}");
                                Ok(())
                            }
                            Err(Error::CellIndexOutOfRange) => {
                                ens!(n >= nc, "refused");
                                Ok(())
                            }
                            Err(e) => Err(format!("wrong error {e:?}")),
                        }
                    });
                }
                for i in 0..nc {
                    for j in 0..nc {
                        ctx.run(1 << 40 | (i * 8 + j) as u64, i != j, || format!("{}: cells {i} and {j}", $name), || {
                            let (a, b) = ($D::c(i as u8), $D::c(j as u8));
                            ens!(a.cmp(&b) == i.cmp(&j) && a.partial_cmp(&b) == Some(i.cmp(&j)), "cmp {:?}", a.cmp(&b));
                            let (max, min): (usize, usize) = (a.max(b).into(), a.min(b).into());
                            ens!(max == i.max(j) && min == i.min(j), "max {max}, min {min}");
                            for k in 0..nc {
                                for l in k..nc {
                                    let c: usize = a.clamp(<$T>::try_from(k).unwrap(), <$T>::try_from(l).unwrap()).into();
                                    ens!(c == i.clamp(k, l), "clamp to {k}..={l}: {c}");
                                }
                            }
                            ens!((a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "operators");
                            ens!((a == b) == (i == j) && (a != b) == (i != j), "==");
                            ens!(i != j || fnv(&a) == fnv(&b), "hash");
                            Ok(())
                        });
                    }
                }
            });
        };
    }
    cells!("Quadrant", Quadrant, Two);
    cells!("Octant", Octant, Three);
    fn corner<D: Dm>(o: usize, c: u8) -> [usize; 3] {
        let bp = bitpos::<D>(o);
        let mut g = [0; 3];
        for a in 0..D::N {
            g[a] = c as usize >> bp[a] & 1;
        }
        g
    }
    task(v, "QuadrantOrdering", |ctx: &mut Ctx| {
        for o in 0..2 {
            let mut seen = vec![];
            for c in 0..4u8 {
                ctx.run((o * 8) as u64 + c as u64, true, || format!("{}.to_index({c})", Two::ORDS[o]), || {
                    let g = Two::ug(&Two::o(o).to_index(Two::c(c)));
                    ens!(g == corner::<Two>(o, c), "{g:?}, expected {:?}", corner::<Two>(o, c));
                    ens!(!seen.contains(&g), "two cells at {g:?}");
                    seen.push(g);
                    Ok(())
                });
            }
        }
        ctx.run(100, true, || "QuadrantOrdering::default()".into(), || {
            for c in 0..4u8 {
                let g = Two::ug(&QuadrantOrdering::default().to_index(Two::c(c)));
                ens!(g == corner::<Two>(0, c), "cell {c} at {g:?}");
            }
            Ok(())
        });
    });
    task(v, "OctantOrdering", |ctx: &mut Ctx| {
        for o in 0..6 {
            let mut seen = vec![];
            for c in 0..8u8 {
                ctx.run((o * 8) as u64 + c as u64, true, || format!("{}.to_index({c})", Three::ORDS[o]), || {
                    let g = Three::ug(&Three::o(o).to_index(Three::c(c)));
                    ens!(g == corner::<Three>(o, c), "{g:?}, expected {:?}", corner::<Three>(o, c));
                    ens!(!seen.contains(&g), "two cells at {g:?}");
                    seen.push(g);
                    let (x, y, z) = Three::o(o).get_bit_shifts_for_xyz();
                    let h = [c as usize >> x & 1, c as usize >> y & 1, c as usize >> z & 1];
                    ens!(h == g, "get_bit_shifts_for_xyz = ({x}, {y}, {z}) puts cell {c} at {h:?}, to_index at {g:?}");
                    Ok(())
                });
            }
            for p in 0..o {
                ctx.run(200 + (o * 8 + p) as u64, true, || format!("{} and {}", Three::ORDS[o], Three::ORDS[p]), || {
                    let diff = (0..8u8).any(|c| Three::o(o).to_index(Three::c(c)) != Three::o(p).to_index(Three::c(c)));
                    ens!(diff, "the orderings are the same mapping");
                    Ok(())
                });
            }
        }
        ctx.run(100, true, || "OctantOrdering::default()".into(), || {
            for c in 0..8u8 {
                let g = Three::ug(&OctantOrdering::default().to_index(Three::c(c)));
                ens!(g == corner::<Three>(0, c), "cell {c} at {g:?}");
            }
            ens!(OctantOrdering::default().get_bit_shifts_for_xyz() == (0, 1, 2), "bit shifts");
            Ok(())
        });
    });
}
