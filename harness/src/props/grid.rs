//! C03 to_grid_index, C04 from_grid_index, C25 tree and grid agree.
use crate::ctx::*;
use crate::ens;
use crate::for_indices;
use crate::gen::*;
use crate::sub::*;

// ---------------------------------------------------------------- C03
#[cfg(feature = "c03")]
pub fn c03(v: &mut Vec<Task>) {
    fn t<S: Sub>(ctx: &mut Ctx) {
        let no = <S::D as Dm>::ORDS.len();
        thin::<S>(ctx, if no == 6 { 3 } else { 1 }, 20000, |ctx, c| {
            let p = pad::<S>(c);
            if p.len() > WORD {
                return;
            }
            let how = ctx.rng.u64();
            for o in 0..no {
                ctx.run(key(o as u64, c), p.iter().any(|c| *c != 0), || format!("{}: cells {} (made in way {how}) to_grid_index({})", S::NAME, show(c), <S::D as Dm>::ORDS[o]), || {
                    let x = made::<S>(c, how)?;
                    let g = x.to_grid(o).unwrap();
                    let m = model_grid::<S::D>(&p, o);
                    ens!(g == m, "grid index {g:?}, expected {m:?} from the cells {}", show(&p));
                    ens!(x.to_grid(o).unwrap() == g, "second conversion differs");
                    Ok(())
                });
            }
        });
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_indices!(m);
}

// ---------------------------------------------------------------- C04
#[cfg(feature = "c04")]
pub fn c04(v: &mut Vec<Task>) {
    use morton_index::{FixedDepthStorage3D, MortonIndex3D};
    fn one<S: Sub>(ctx: &mut Ctx, g: [usize; 3], n: usize, o: usize, may_refuse: bool, fast: bool) {
        let k = mix(mix(mix(g[0] as u64, g[1] as u64), g[2] as u64), (n * 16 + o * 2 + fast as usize) as u64);
        let lm = lowmask(n);
        let nt = (g[0] | g[1] | g[2]) & lm != 0;
        let f = if fast { "from_grid_index_fast" } else { "from_grid_index" };
        ctx.run(k, nt, || format!("{}: {f}({g:?}, depth {n}, {})", S::NAME, <S::D as Dm>::ORDS[o]), || {
            let r = guard(|| {
                if fast {
                    assert!(S::NAME == "MortonIndex3D<Fixed<u64>>");
                    let x = MortonIndex3D::<FixedDepthStorage3D<u64>>::from_grid_index_fast(Three::g(g), Three::o(o));
                    // Sub is implemented for exactly this type
                    let mut out = S::default();
                    for (l, c) in x.cells().enumerate() {
                        out.set(l, <S::D as Dm>::c(Three::i(c)));
                    }
                    let y = MortonIndex3D::<FixedDepthStorage3D<u64>>::from_grid_index(Three::g(g), Three::o(o));
                    if x != y || fnv(&x) != fnv(&y) || x.cmp(&y) != std::cmp::Ordering::Equal {
                        return Err("from_grid_index_fast and from_grid_index disagree".to_string());
                    }
                    return Ok(out);
                }
                S::grid_new(g, n, o).unwrap().map_err(|e| format!("refused: {e:?}"))
            });
            let x = match r {
                Err(p) if may_refuse => {
                    let _ = p;
                    return Ok(());
                }
                Err(p) => return Err(p),
                Ok(Err(e)) if may_refuse => {
                    let _ = e;
                    return Ok(());
                }
                Ok(Err(e)) => return Err(e),
                Ok(Ok(x)) => x,
            };
            canon(&x, &model_from_grid::<S::D>(g, n, o))?;
            let mut m = [0; 3];
            for a in 0..<S::D as Dm>::N {
                m[a] = g[a] & lm;
            }
            if n <= WORD {
                let back = x.to_grid(o).unwrap();
                ens!(back == m, "converts back to {back:?}, expected {m:?}");
            }
            Ok(())
        });
    }
    fn t<S: Sub>(ctx: &mut Ctx, part: usize, parts: usize) {
        let no = <S::D as Dm>::ORDS.len();
        let axes = <S::D as Dm>::N;
        let (lo, hi) = match S::KIND {
            Kind::Fixed => (S::CAP.unwrap(), S::CAP.unwrap()),
            Kind::Static => (0, S::CAP.unwrap()),
            Kind::Dyn => (0, WORD / 2),
        };
        let mut depths = 0;
        for n in lo..=hi {
            if n % parts != part || (ctx.miri() && n % 5 != 3 && n != hi) {
                continue;
            }
            depths += 1;
            let lm = lowmask(n);
            // beyond the machine word only the fixed constructor documents a panic
            let may = n > WORD;
            for o in 0..no {
                let mut gs: Vec<[usize; 3]> = vec![[0; 3], [lm; 3], [usize::MAX; 3], [!lm; 3]];
                let bits: Vec<usize> = if ctx.miri() { vec![0, n.saturating_sub(1)] } else { (0..WORD.min(n + 2)).collect() };
                for a in 0..axes {
                    for b in &bits {
                        let mut g = [0; 3];
                        g[a] = 1 << b;
                        gs.push(g);
                        let mut g = [lm; 3];
                        g[a] = lm & !(1 << b);
                        gs.push(g);
                    }
                    let mut g = [!lm; 3];
                    g[a] = usize::MAX;
                    gs.push(g);
                }
                // all small coordinates
                if n <= 2 && !ctx.miri() {
                    for x in 0..(1usize << (n * 3)) {
                        gs.push([x & lm, (x >> n) & lm, (x >> (2 * n)) & lm]);
                    }
                }
                let it = ctx.iters(if S::KIND == Kind::Fixed { 4000 } else { 60 }, 1);
                for _ in 0..it {
                    let r = &mut ctx.rng;
                    let mut g = [r.u64() as usize, r.u64() as usize, r.u64() as usize];
                    match r.below(4) {
                        0 => g.iter_mut().for_each(|x| *x &= lm),
                        1 => {
                            let k = r.below(axes);
                            for a in 0..axes {
                                if a != k {
                                    g[a] = 0
                                }
                            }
                        }
                        2 => {
                            let s = r.below(n + 1);
                            g.iter_mut().for_each(|x| *x = (*x & lm).checked_shr(s as u32).unwrap_or(0))
                        }
                        _ => {}
                    }
                    gs.push(g);
                }
                for g in gs {
                    if ctx.done() {
                        return;
                    }
                    one::<S>(ctx, g, n, o, may, false);
                    if S::NAME == "MortonIndex3D<Fixed<u64>>" && WORD == 64 {
                        one::<S>(ctx, g, n, o, false, true);
                    }
                }
            }
        }
        ctx.ev("grid_depths", depths);
        // the index is recovered from its own grid index
        let it = ctx.iters(300, 1);
        for _ in 0..it {
            let n = rdepth::<S>(&mut ctx.rng);
            let c = rcells(&mut ctx.rng, <S::D as Dm>::NC, n);
            let p = pad::<S>(&c);
            if p.len() > hi || p.len() > WORD || ctx.done() {
                continue;
            }
            for o in 0..no {
                ctx.run(key(mix(99, o as u64), &c), true, || format!("{}: cells {} to grid and back ({})", S::NAME, show(&c), <S::D as Dm>::ORDS[o]), || {
                    let x = mk::<S>(&c)?;
                    let g = x.to_grid(o).unwrap();
                    let y = S::grid_new(g, p.len(), o).unwrap().map_err(|e| format!("refused: {e:?}"))?;
                    canon(&y, &p)?;
                    twin(&y, &x)
                });
            }
        }
        // depths that do not fit
        if part == 0 && S::KIND != Kind::Fixed {
            let mut over = 0;
            let mut ns: Vec<usize> = (hi + 1..hi + 80).collect();
            ns.extend([255, 256, 257, 256 + hi / 2, 256 + hi, 512 + hi / 2, 1000]);
            if S::KIND == Kind::Static {
                ns.extend([65536, 65536 + hi / 2, usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 2 + 1 + hi / 2, usize::MAX / 3 + 1]);
                if WORD == 64 {
                    ns.push((1u64 << 32) as usize + hi / 2);
                }
            }
            if ctx.miri() {
                ns.truncate(3);
            }
            for n in ns {
                if n <= hi {
                    continue;
                }
                for o in 0..no {
                    for g in [[0; 3], [usize::MAX; 3], [1, 2, 3]] {
                        over += 1;
                        // a dynamic index could hold it: then it has to be right
                        if S::KIND == Kind::Dyn {
                            one::<S>(ctx, g, n, o, true, false);
                        } else {
                            ctx.run(mix(n as u64, o as u64), true, || format!("{}: from_grid_index({g:?}, depth {n}, {})", S::NAME, <S::D as Dm>::ORDS[o]), || {
                                match guard(|| S::grid_new(g, n, o).unwrap()) {
                                    Ok(Ok(x)) => Err(format!("a depth beyond the capacity {hi} gave {x:?}")),
                                    _ => Ok(()),
                                }
                            });
                        }
                    }
                }
            }
            ctx.ev("over_capacity_depths", over);
        }
    }
    macro_rules! m {
        ($t:ty) => {
            if <$t as Sub>::KIND == Kind::Fixed || <$t as Sub>::CAP.map_or(false, |c| c < 20) {
                task(v, <$t as Sub>::NAME, |c| t::<$t>(c, 0, 1));
            } else {
                for p in 0..4 {
                    task(v, format!("{}/{p}", <$t as Sub>::NAME), move |c| t::<$t>(c, p, 4));
                }
            }
        };
    }
    for_indices!(m);
}

// ---------------------------------------------------------------- C25
#[cfg(feature = "c25")]
pub fn c25(v: &mut Vec<Task>) {
    /// interleaves grid coordinates' bits, most significant level first (one entry per level)
    fn interleave<D: Dm>(g: [usize; 3], n: usize, o: usize) -> Vec<u8> {
        model_from_grid::<D>(g, n, o)
    }
    fn t<S: Sub>(ctx: &mut Ctx) {
        let no = <S::D as Dm>::ORDS.len();
        let nc = <S::D as Dm>::NC;
        let axes = <S::D as Dm>::N;
        let lim = S::CAP.unwrap_or(WORD).min(WORD);
        let (mut kids, mut ancs, mut pairs) = (0u64, 0u64, 0u64);
        thin::<S>(ctx, 12, 4000, |ctx, c| {
            if c.len() > lim {
                return;
            }
            let n = c.len();
            let how = ctx.rng.u64();
            for o in 0..no {
                let bp = bitpos::<S::D>(o);
                if S::KIND != Kind::Fixed {
                    if n < lim {
                        let cell = ctx.rng.below(nc as usize) as u8;
                        kids += 1;
                        ctx.run(key(o as u64 * 8 + cell as u64, c), n > 0, || format!("{}: child {cell} of {} (made in way {how}) under {}", S::NAME, show(c), <S::D as Dm>::ORDS[o]), || {
                            let x = made::<S>(c, how)?;
                            let y = x.child(<S::D as Dm>::c(cell)).unwrap().ok_or("no child")?;
                            let (a, b) = (x.to_grid(o).unwrap(), y.to_grid(o).unwrap());
                            for i in 0..axes {
                                let e = a[i] * 2 + (cell as usize >> bp[i] & 1);
                                ens!(b[i] == e, "child's grid index {b:?}, parent's {a:?}: axis {i} should be {e}");
                            }
                            Ok(())
                        });
                    }
                    if n > 0 {
                        let g = ctx.rng.range(1, n);
                        ancs += 1;
                        ctx.run(key(mix(0x100, (o * 256 + g) as u64), c), true, || format!("{}: ancestor {g} of {} (made in way {how}) under {}", S::NAME, show(c), <S::D as Dm>::ORDS[o]), || {
                            let x = made::<S>(c, how)?;
                            let y = x.anc(g).unwrap().ok_or("no ancestor")?;
                            let (a, b) = (x.to_grid(o).unwrap(), y.to_grid(o).unwrap());
                            for i in 0..axes {
                                let e = if g >= WORD { 0 } else { a[i] >> g };
                                ens!(b[i] == e, "ancestor's grid index {b:?}, descendant's {a:?}: axis {i} should be {e}");
                            }
                            Ok(())
                        });
                    }
                }
                // order of equal depth = order of interleaved coordinates
                let mut w = c.to_vec();
                if n > 0 {
                    let l = ctx.rng.below(n);
                    w[l] = ctx.rng.below(nc as usize) as u8;
                    for x in w[l + 1..].iter_mut() {
                        *x = if ctx.rng.chance(2) { ctx.rng.below(nc as usize) as u8 } else { *x };
                    }
                }
                pairs += 1;
                ctx.run(key(mix(0x10000, o as u64), &[c, &w].concat()), *c != w[..], || format!("{}: order of {} and {} (made in way {how}) under {}", S::NAME, show(c), show(&w), <S::D as Dm>::ORDS[o]), || {
                    let x = made::<S>(c, how)?;
                    let y = made::<S>(&w, how ^ 0x5bd1)?;
                    let d = x.depth();
                    if d > WORD {
                        return Ok(());
                    }
                    let (a, b) = (interleave::<S::D>(x.to_grid(o).unwrap(), d, o), interleave::<S::D>(y.to_grid(o).unwrap(), d, o));
                    ens!(x.cmp(&y) == a.cmp(&b), "cmp is {:?}, interleaved coordinates compare {:?}", x.cmp(&y), a.cmp(&b));
                    ens!(y.cmp(&x) == b.cmp(&a), "reverse cmp");
                    ens!((x < y) == (a < b) && (x == y) == (a == b), "operators disagree with the interleaved coordinates");
                    Ok(())
                });
            }
        });
        // whole levels: visiting the grid in interleaved order is the sort order
        for n in 1..=(if S::KIND == Kind::Fixed { 0 } else { lim.min(if axes == 2 { 6 } else { 4 }) }) {
            if ctx.miri() && n > 1 {
                break;
            }
            for o in 0..no {
                ctx.run(mix(mix(0x7000, n as u64), o as u64), true, || format!("{}: the whole grid of depth {n} under {}", S::NAME, <S::D as Dm>::ORDS[o]), || {
                    let side = 1usize << n;
                    let mut all: Vec<(S, Vec<u8>)> = vec![];
                    for i in 0..side.pow(axes as u32) {
                        let g = [i % side, i / side % side, i / side / side];
                        let x = S::grid_new(g, n, o).unwrap().map_err(|e| format!("{e:?}"))?;
                        all.push((x, interleave::<S::D>(g, n, o)));
                    }
                    all.sort_by(|a, b| a.0.cmp(&b.0));
                    for p in all.windows(2) {
                        ens!(p[0].1 < p[1].1, "{:?} sorts before {:?}", p[0].0, p[1].0);
                    }
                    Ok(())
                });
            }
        }
        ctx.ev("child_relations", kids);
        ctx.ev("ancestor_relations", ancs);
        ctx.ev("ordered_pairs", pairs);
    }
    macro_rules! m { ($t:ty) => { task(v, <$t as Sub>::NAME, t::<$t>); }; }
    for_indices!(m);
}
