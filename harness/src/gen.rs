//! Workload generation: cell sequences and depths.
use crate::ctx::*;
use crate::sub::*;

/// deepest level the structured sweeps go to
pub fn max_depth<S: Sub>() -> usize {
    S::CAP.unwrap_or(70)
}
/// a random depth for the type, biased to byte/word boundaries for dynamic types
pub fn rdepth<S: Sub>(r: &mut Rng) -> usize {
    match S::CAP {
        Some(c) => match r.below(8) {
            0 => c,
            1 => c.saturating_sub(1),
            2 => r.below(c.min(4) + 1),
            _ => r.below(c + 1),
        },
        None => match r.below(16) {
            0 => match r.below(96) {
                // rarely a really deep one; the deepest are C22's
                0 => [511, 512, 513, 682, 683, 767, 1000, 1023, 1024, 1025, 1365, 1366, 2047, 2048, 2049, 2731, 4095, 4096][r.below(18)],
                1 => r.below(4200),
                _ => r.below(300),
            },
            1 => [31, 32, 33, 42, 43, 63, 64, 65, 127, 128, 129, 255, 256, 257][r.below(14)],
            2..=5 => r.below(9),
            _ => r.below(71),
        },
    }
}
pub fn rcells(r: &mut Rng, nc: u8, depth: usize) -> Vec<u8> {
    let mut v = vec![0u8; depth];
    let max = nc - 1;
    match r.below(10) {
        0 => {
            let c = r.below(nc as usize) as u8;
            v.iter_mut().for_each(|x| *x = c);
        }
        1 => {
            for _ in 0..r.range(1, 3) {
                if depth > 0 {
                    let l = r.below(depth);
                    v[l] = r.range(1, max as usize) as u8;
                }
            }
        }
        2 => {
            v.iter_mut().for_each(|x| *x = max);
            for _ in 0..r.range(1, 3) {
                if depth > 0 {
                    let l = r.below(depth);
                    v[l] = r.below(max as usize) as u8;
                }
            }
        }
        3 => {
            let a = r.below(nc as usize) as u8;
            let b = r.below(nc as usize) as u8;
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i % 2 == 0 { a } else { b };
            }
        }
        4 => {
            let cut = r.below(depth + 1);
            let hi = if r.chance(2) { 0 } else { max };
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i < cut { r.below(nc as usize) as u8 } else { hi };
            }
        }
        _ => {
            let mut w = 0u64;
            for (i, x) in v.iter_mut().enumerate() {
                if i % 16 == 0 {
                    w = r.u64();
                }
                *x = (w & max as u64) as u8;
                w >>= 4;
            }
        }
    }
    v
}
/// a neighbour of `v`: one cell changed, shortened, extended, or both (within cap)
pub fn neighbour<S: Sub>(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let nc = <S::D as Dm>::NC;
    let mut w = v.to_vec();
    for _ in 0..r.range(1, 2) {
        match r.below(6) {
            0 | 1 | 2 if !w.is_empty() => {
                let l = if r.chance(3) { w.len() - 1 } else { r.below(w.len()) };
                w[l] = if r.chance(2) { (w[l] + 1) % nc } else { r.below(nc as usize) as u8 };
            }
            3 => {
                let k = r.below(w.len() + 1);
                w.truncate(k);
            }
            4 => {
                w.pop();
            }
            _ => {
                let room = S::CAP.map_or(20, |c| c - w.len());
                let k = r.below(room + 1);
                let fill = match r.below(3) {
                    0 => Some(0),
                    1 => Some(nc - 1),
                    _ => None,
                };
                for _ in 0..k {
                    w.push(fill.unwrap_or_else(|| r.below(nc as usize) as u8));
                }
            }
        }
    }
    w
}

/// Drives `f` over cell sequences for the type:
/// exhaustively where all sequences of the type are few (or up to a bound for dynamic types), then the structured
/// sweep (every depth x uniform background x one deviating level), then `n` random ones. Sequences given to fixed
/// types may be shorter than the capacity.
pub fn sweep<S: Sub>(ctx: &mut Ctx, n: u64, mut f: impl FnMut(&mut Ctx, &[u8])) {
    let nb = <S::D as Dm>::N;
    let nc = <S::D as Dm>::NC;
    if ctx.miri() {
        let md = max_depth::<S>().min(24);
        let step = (md / 6).max(1);
        let mut d = 0;
        while d <= md && !ctx.done() {
            let v = rcells(&mut ctx.rng, nc, d);
            f(ctx, &v);
            d += step;
        }
        let v = vec![nc - 1; max_depth::<S>()];
        f(ctx, &v);
        return;
    }
    // exhaustive part
    let ex_bits = match S::CAP {
        Some(c) if c * nb <= 16 => c * nb,
        Some(c) => (c * nb).min(12),
        None => 14,
    };
    for d in 0..=(ex_bits / nb) {
        let mut v = vec![0u8; d];
        for x in 0u64..(1u64 << (d * nb)) {
            if ctx.done() {
                return;
            }
            for (l, c) in v.iter_mut().enumerate() {
                *c = ((x >> (l * nb)) & (nc as u64 - 1)) as u8;
            }
            f(ctx, &v);
        }
        ctx.ev("exhaustive_depths", 1);
    }
    // structured sweep
    if S::CAP.map_or(true, |c| c * nb > 16) {
        for d in (ex_bits / nb + 1)..=max_depth::<S>() {
            for b in 0..nc {
                // every background for the small set, a rotating choice otherwise
                if nc == 8 && ctx.tier != Tier::Thorough && (b as usize + d) % 3 != 0 && b != 0 && b != 7 {
                    continue;
                }
                let mut v = vec![b; d];
                for l in 0..d {
                    if cfg!(feature = "c27") && d > 16 && l > 1 && l + 2 < d && (l + d) % 7 != 0 {
                        continue;
                    }
                    for c in 0..nc {
                        if c == b {
                            continue;
                        }
                        if ctx.done() {
                            return;
                        }
                        v[l] = c;
                        f(ctx, &v);
                    }
                    v[l] = b;
                }
            }
            ctx.ev("structured_depths", 1);
        }
    }
    let n = if cfg!(feature = "c27") { (n * ctx.scale).div_ceil(6) } else { n * ctx.scale };
    for _ in 0..n {
        if ctx.done() {
            return;
        }
        let d = rdepth::<S>(&mut ctx.rng);
        let v = rcells(&mut ctx.rng, nc, d);
        f(ctx, &v);
    }
    ctx.ev("random_sequences", n);
}
/// the sequences of `sweep`, thinned to one in `every` (random ones: n)
pub fn thin<S: Sub>(ctx: &mut Ctx, every: u64, n: u64, mut f: impl FnMut(&mut Ctx, &[u8])) {
    let miri = ctx.miri();
    let mut k = 0u64;
    let small = S::CAP.map_or(false, |c| c * <S::D as Dm>::N <= 8);
    let every = if small || miri { 1 } else { every };
    let mut next = 0u64;
    sweep::<S>(ctx, n * every, |ctx, v| {
        if k == next || v.len() <= 2 {
            f(ctx, v);
            next = k + 1 + if every > 1 { ctx.rng.below(2 * every as usize - 1) as u64 } else { 0 };
        }
        k += 1;
    });
}

/// An index with these cells made in one of the ways the type offers (half of the time: from the slice of cells).
/// Ways whose result does not report the cells are not this caller's business: then the slice construction is used.
pub fn made<S: Sub>(c: &[u8], seed: u64) -> Result<S, String> {
    let mut r = Rng(seed);
    if r.chance(2) {
        return mk::<S>(c);
    }
    match guard(|| way::<S>(c, &mut r)) {
        Ok(Some(x)) if same(&x, &pad::<S>(c)).is_ok() => Ok(x),
        _ => mk::<S>(c),
    }
}
fn way<S: Sub>(c: &[u8], r: &mut Rng) -> Option<S> {
    let nc = <S::D as Dm>::NC;
    let n = c.len();
    let p = pad::<S>(c);
    let cell = <S::D as Dm>::c;
    match r.below(11) {
        10 => S::array(&tc::<S>(c))?.ok(),
        // written over noise
        0 => {
            let noise = rcells(r, nc, n);
            let mut x = S::slice(&tc::<S>(&noise)).ok()?;
            for l in 0..p.len() {
                x.set(l, cell(p[l]));
            }
            Some(x)
        }
        // cut out of a deeper one
        1 | 2 if S::KIND != Kind::Fixed => {
            let room = S::CAP.map_or(21, |cap| cap - n);
            if room == 0 {
                return None;
            }
            let k = if r.chance(3) { room } else { r.range(1, room) };
            let mut w = c.to_vec();
            w.extend(rcells(r, nc, k).iter().map(|c| c | 1));
            let x = S::slice(&tc::<S>(&w)).ok()?;
            match r.below(3) {
                0 => x.with_depth(n).flatten(),
                1 => {
                    let mut y = x.anc(1)??;
                    for _ in 1..k {
                        y = y.anc(1)??;
                    }
                    Some(y)
                }
                _ => x.anc(k)?,
            }
        }
        // grown
        3 | 4 if S::KIND != Kind::Fixed => {
            let cut = r.below(n + 1);
            let x = S::slice(&tc::<S>(&c[..cut])).ok()?;
            x.desc(&tc::<S>(&c[cut..]))?
        }
        5 if S::INDEX => S::slice(&tc::<S>(c)).ok()?.inv()?.inv(),
        6 if S::INDEX => {
            let glim = if S::KIND == Kind::Dyn { WORD / 2 } else { WORD };
            if p.len() > glim {
                return None;
            }
            let o = r.below(<S::D as Dm>::ORDS.len());
            S::grid_new(model_grid::<S::D>(&p, o), p.len(), o)?.ok()
        }
        7 if S::INDEX => {
            let mut v = S::conv_routes(c);
            if v.is_empty() {
                return None;
            }
            let i = r.below(v.len());
            Some(v.swap_remove(i).1)
        }
        8 if S::INDEX && <S::D as Dm>::N == 3 && S::CAP.is_some() => {
            let waste = S::BITS_W - 3 * p.len();
            let raw = p.iter().fold(0u128, |a, c| a << 3 | *c as u128);
            let junk = r.u128();
            let b = if waste >= 128 { junk } else { raw << waste | junk & ((1u128 << waste) - 1) };
            S::raw(b & if S::BITS_W == 128 { u128::MAX } else { (1u128 << S::BITS_W) - 1 }, p.len())
        }
        // taken over by clone_from into something else
        _ => {
            let x = S::slice(&tc::<S>(c)).ok()?;
            let d = rdepth::<S>(r).min(300);
            let mut y = S::slice(&tc::<S>(&rcells(r, nc, d))).ok()?;
            y.clone_from(&x);
            Some(y)
        }
    }
}
