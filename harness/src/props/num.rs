//! C14 integer bit ranges, C15 byte-vector bit ranges, C16 number conversions, C17 bit spreading, C18 alignment.
use crate::ctx::*;
use crate::ens;
use crate::sub::WORD;
use morton_index::number::*;
use std::ops::Range;

/// what the number tests need to know about an integer type, independent of `Bits`
pub trait Int: Bits + Copy + Eq + std::fmt::Debug + 'static {
    const W: usize;
    const NM: &'static str;
    fn f(v: u128) -> Self;
    fn t(self) -> u128;
    fn ne(self) -> Vec<u8>;
    fn align(self, a: Self) -> Self;
}
macro_rules! int {
    ($($t:ty)*) => { $(impl Int for $t {
        const W: usize = <$t>::BITS as usize;
        const NM: &'static str = stringify!($t);
        fn f(v: u128) -> Self { v as $t }
        fn t(self) -> u128 { self as u128 }
        fn ne(self) -> Vec<u8> { self.to_ne_bytes().to_vec() }
        fn align(self, a: Self) -> Self { morton_index::align::Alignable::align_to(&self, a) }
    })* };
}
int!(u8 u16 u32 u64 u128 usize);
macro_rules! for_ints {
    ($m:ident) => { $m!(u8); $m!(u16); $m!(u32); $m!(u64); $m!(u128); $m!(usize); };
}
pub fn lm(n: usize) -> u128 {
    if n >= 128 { u128::MAX } else { (1u128 << n) - 1 }
}
pub fn rint(r: &mut Rng, w: usize) -> u128 {
    let m = lm(w);
    let v = r.u128() & m;
    match r.below(10) {
        0 => 0,
        1 => m,
        2 => 1u128 << r.below(w),
        3 => m ^ (1u128 << r.below(w)),
        4 => v >> r.below(w),
        5 => (v << r.below(w)) & m,
        _ => v,
    }
}

// ---------------------------------------------------------------- C14
#[cfg(feature = "c14")]
pub fn c14(v: &mut Vec<Task>) {
    fn get<T: Int>(ctx: &mut Ctx, x: u128, r: Range<usize>) {
        let k = mix(mix(x as u64, (x >> 64) as u64), (r.start * 1000 + r.end) as u64);
        ctx.run(k, x != 0, || format!("{}: {x:#x}.get_bits({r:?})", T::NM), || {
            let v = T::f(x);
            let e = x.checked_shr(r.start as u32).unwrap_or(0) & lm(r.len());
            let g = unsafe { v.get_bits(r.clone()) };
            ens!(g.t() == e, "{:#x}, expected {e:#x}", g.t());
            if r.len() <= WORD {
                let g = unsafe { v.get_bits_as_usize(r.clone()) };
                ens!(g as u128 == e, "get_bits_as_usize = {g:#x}, expected {e:#x}");
            }
            ens!(v.t() == x, "the value changed");
            Ok(())
        });
    }
    fn set<T: Int>(ctx: &mut Ctx, x: u128, r: Range<usize>, n: u128) {
        let k = mix(mix(mix(x as u64, (x >> 64) as u64), (r.start * 1000 + r.end) as u64), n as u64);
        ctx.run(k, true, || format!("{}: {x:#x}.set_bits({r:?}, {n:#x})", T::NM), || {
            let mask = lm(r.len()) << r.start;
            let e = (x & !mask) | (n << r.start);
            let mut v = T::f(x);
            unsafe { v.set_bits(r.clone(), T::f(n)) };
            ens!(v.t() == e, "{:#x}, expected {e:#x}", v.t());
            if n <= usize::MAX as u128 {
                let mut v = T::f(x);
                unsafe { v.set_bits_from_usize(r.clone(), n as usize) };
                ens!(v.t() == e, "set_bits_from_usize gives {:#x}, expected {e:#x}", v.t());
            }
            let g = unsafe { v.get_bits(r.clone()) };
            ens!(g.t() == n, "reads back {:#x}, wrote {n:#x}", g.t());
            Ok(())
        });
    }
    fn t<T: Int>(ctx: &mut Ctx, part: usize, parts: usize) {
        let w = T::W;
        let (mut gets, mut sets) = (0u64, 0u64);
        if part == 0 {
            ctx.run(1, true, || format!("{}: BITS and size()", T::NM), || {
                ens!(<T as Bits>::BITS == w && T::f(0).size() == w / 8, "BITS = {}, size() = {}", <T as Bits>::BITS, T::f(0).size());
                Ok(())
            });
        }
        for s in 0..=w {
            if s % parts != part {
                continue;
            }
            for e in s..=w {
                if ctx.done() {
                    return;
                }
                if ctx.miri() && !(e == w || e == s + 1 || s == 0 && e % 7 == 0) {
                    continue;
                }
                let mut xs: Vec<u128> = vec![];
                if w == 8 && !ctx.miri() {
                    xs.extend(0..256u128);
                } else {
                    xs.extend([0, lm(w), lm(w) / 3, 1, 1 << (w - 1)]);
                    for _ in 0..ctx.iters(if w == 128 { 6 } else { 10 }, 1) {
                        xs.push(rint(&mut ctx.rng, w));
                    }
                }
                for x in xs {
                    get::<T>(ctx, x, s..e);
                    gets += 1;
                    if e == s {
                        continue;
                    }
                    let m = lm(e - s);
                    let mut ns = vec![0, m, rint(&mut ctx.rng, e - s)];
                    if w == 8 && !ctx.miri() {
                        ns = (0..=m).collect();
                    }
                    for n in ns {
                        set::<T>(ctx, x, s..e, n);
                        sets += 1;
                    }
                }
            }
        }
        // u16: every value
        if w == 16 && !ctx.miri() {
            for x in 0..65536u128 {
                if x as usize % parts != part {
                    continue;
                }
                let s = ctx.rng.below(17);
                let e = ctx.rng.range(s, 16);
                get::<T>(ctx, x, s..e);
                gets += 1;
                if e > s {
                    let n = rint(&mut ctx.rng, e - s);
                    set::<T>(ctx, x, s..e, n);
                    sets += 1;
                }
            }
        }
        // sequences of writes against a model
        for k in 0..ctx.iters(300, 1) {
            let x = rint(&mut ctx.rng, w);
            let ops: Vec<(usize, usize, u128)> = (0..20)
                .map(|_| {
                    let s = ctx.rng.below(w);
                    let e = ctx.rng.range(s + 1, w);
                    (s, e, rint(&mut ctx.rng, e - s))
                })
                .collect();
            sets += 20;
            ctx.run(mix(x as u64, k), true, || format!("{}: {x:#x} then writes {ops:?}", T::NM), || {
                let mut v = T::f(x);
                let mut m = x;
                for (s, e, n) in &ops {
                    unsafe { v.set_bits(*s..*e, T::f(*n)) };
                    m = (m & !(lm(e - s) << s)) | n << s;
                    ens!(v.t() == m, "after ({s}..{e}, {n:#x}): {:#x}, expected {m:#x}", v.t());
                }
                Ok(())
            });
        }
        ctx.ev("reads", gets);
        ctx.ev("writes", sets);
    }
    macro_rules! m {
        ($t:ty) => {
            let parts = if <$t as Int>::W >= 64 { 4 } else { 1 };
            for p in 0..parts {
                task(v, format!("{}/{p}", stringify!($t)), move |c| t::<$t>(c, p, parts));
            }
        };
    }
    for_ints!(m);
}

// ---------------------------------------------------------------- C15
fn bit(v: &[u8], i: usize) -> u8 {
    if i / 8 < v.len() {
        v[i / 8] >> (i % 8) & 1
    } else {
        0
    }
}
pub fn vget(v: &[u8], r: Range<usize>) -> Vec<u8> {
    let mut o = vec![0u8; (r.len() + 7) / 8];
    for (k, i) in r.enumerate() {
        o[k / 8] |= bit(v, i) << (k % 8);
    }
    o
}
pub fn vset(v: &mut [u8], r: Range<usize>, n: &[u8]) {
    for (k, i) in r.enumerate() {
        let b = bit(n, k);
        v[i / 8] = v[i / 8] & !(1 << (i % 8)) | b << (i % 8);
    }
}
pub fn rbytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let k = r.below(6);
    (0..n)
        .map(|i| match k {
            0 => 0,
            1 => 255,
            2 => 0x55 << (i % 2),
            _ => r.u64() as u8,
        })
        .collect()
}
fn hex(v: &[u8]) -> String {
    let mut s = String::from("bytes ");
    for b in v.iter().take(64) {
        s += &format!("{b:02x}");
    }
    if v.len() > 64 {
        s += "...";
    }
    s
}

#[cfg(feature = "c15")]
pub fn c15(v: &mut Vec<Task>) {
    fn get(ctx: &mut Ctx, x: &[u8], r: Range<usize>) {
        let k = key((r.start * 100_000 + r.end) as u64, x);
        ctx.run(k, !r.is_empty() && x.iter().any(|b| *b != 0), || format!("{}.get_bits({r:?})", hex(x)), || {
            let v = x.to_vec();
            let e = vget(x, r.clone());
            let g = unsafe { v.get_bits(r.clone()) };
            ens!(g == e, "{}, expected {}", hex(&g), hex(&e));
            if r.len() <= WORD {
                let mut eu = 0usize;
                for (i, b) in e.iter().enumerate() {
                    eu |= (*b as usize) << (8 * i);
                }
                let g = unsafe { v.get_bits_as_usize(r.clone()) };
                ens!(g == eu, "get_bits_as_usize = {g:#x}, expected {eu:#x}");
            }
            ens!(v == x, "reading changed the vector");
            Ok(())
        });
    }
    fn set(ctx: &mut Ctx, x: &[u8], r: Range<usize>, n: &[u8]) {
        let k = key(key((r.start * 100_000 + r.end) as u64, x), n);
        ctx.run(k, true, || format!("{}.set_bits({r:?}, {})", hex(x), hex(n)), || {
            let mut v = x.to_vec();
            let mut e = x.to_vec();
            vset(&mut e, r.clone(), n);
            unsafe { v.set_bits(r.clone(), n.to_vec()) };
            ens!(v == e, "{}, expected {}", hex(&v), hex(&e));
            Ok(())
        });
    }
    fn setu(ctx: &mut Ctx, x: &[u8], r: Range<usize>, n: usize) {
        let k = key((r.start * 100_000 + r.end) as u64 ^ mix(1, n as u64), x);
        ctx.run(k, true, || format!("{}.set_bits_from_usize({r:?}, {n:#x})", hex(x)), || {
            let mut v = x.to_vec();
            let mut e = x.to_vec();
            vset(&mut e, r.clone(), &(n as u64).to_le_bytes());
            unsafe { v.set_bits_from_usize(r.clone(), n) };
            ens!(v == e, "{}, expected {}", hex(&v), hex(&e));
            Ok(())
        });
    }
    fn all(ctx: &mut Ctx, len: usize) {
        // every range of short vectors
        for s in 0..=len * 8 {
            for e in s..=len * 8 {
                if ctx.done() {
                    return;
                }
                if ctx.miri() && !(e % 11 == 0 || e == s + 2 || e == len * 8) {
                    continue;
                }
                for rep in 0..ctx.iters(3, 1) {
                    let x = if rep == 0 { vec![255; len] } else { rbytes(&mut ctx.rng, len) };
                    get(ctx, &x, s..e);
                    if e == s {
                        continue;
                    }
                    let l = e - s;
                    let nb = (l + 7) / 8;
                    // exact width (junk above the range's bits belongs to no bit of the range), and wider values
                    let extra = ctx.rng.below(4);
                    let n = rbytes(&mut ctx.rng, nb + extra);
                    set(ctx, &x, s..e, &n);
                    let mut n = rbytes(&mut ctx.rng, nb);
                    if l % 8 != 0 {
                        n[nb - 1] &= (1 << (l % 8)) - 1;
                    }
                    set(ctx, &x, s..e, &n);
                    if l <= WORD {
                        let n = ctx.rng.u64() as usize;
                        setu(ctx, &x, s..e, n);
                        let n = n & crate::sub::lowmask(l);
                        setu(ctx, &x, s..e, n);
                    }
                }
            }
        }
        ctx.ev("vector_lengths_all_ranges", 1);
    }
    for len in 1..=10 {
        task(v, format!("all ranges of {len} bytes"), move |c| {
            if !c.miri() || len == 3 || len == 9 {
                all(c, len)
            }
        });
    }
    task(v, "the empty vector", |ctx: &mut Ctx| get(ctx, &[], 0..0));
    // bit positions beyond 2^16 and (on 64-bit machines) beyond 2^32
    task(v, "very long vectors", |ctx: &mut Ctx| {
        if ctx.miri() {
            return;
        }
        for _ in 0..ctx.iters(150, 0) {
            if ctx.done() {
                return;
            }
            let len = ctx.rng.range(8100, 8400) * [1, 1, 1, 2][ctx.rng.below(4)];
            let x = rbytes(&mut ctx.rng, len);
            let s = match ctx.rng.below(4) {
                0 => 65536 - ctx.rng.below(80),
                1 => len * 8 - 1 - ctx.rng.below(200),
                _ => ctx.rng.below(len * 8),
            }
            .min(len * 8 - 1);
            let e = if ctx.rng.chance(6) { ctx.rng.range(s + 1, len * 8) } else { (s + ctx.rng.range(1, 140)).min(len * 8) };
            get(ctx, &x, s..e);
            let n = rbytes(&mut ctx.rng, (e - s + 7) / 8);
            set(ctx, &x, s..e, &n);
            if e - s <= WORD {
                let n = ctx.rng.u64() as usize;
                setu(ctx, &x, s..e, n);
            }
        }
        if WORD < 64 {
            return;
        }
        // one vector of 2^29 bytes and a few: positions around 2^32, with what a shorter position type would touch
        let base = 1usize << 32;
        let mut big = vec![0u8; (1 << 29) + 64];
        for k in 0..ctx.iters(200, 0) {
            let s = base - 70 + ctx.rng.below(300);
            let e = s + ctx.rng.range(1, 100);
            let n = rbytes(&mut ctx.rng, (e - s + 7) / 8);
            let near = rbytes(&mut ctx.rng, 64);
            let asword = ctx.rng.chance(2) && e - s <= WORD;
            let big = &mut big;
            ctx.run(key(k, &n), true, || format!("vector of 2^29+64 bytes, range {s}..{e}, value {}", hex(&n)), || {
                let at = s / 8 - 8;
                big[at..at + 32].copy_from_slice(&near[..32]);
                let mut m = big[at..at + 32].to_vec();
                let (ms, me) = (s - at * 8, e - at * 8);
                let g = unsafe { big.get_bits(s..e) };
                ens!(g == vget(&m, ms..me), "reads {}, expected {}", hex(&g), hex(&vget(&m, ms..me)));
                if asword {
                    let w = n.iter().rev().take(8).fold(0u64, |a, b| a << 8 | *b as u64) as usize;
                    vset(&mut m, ms..me, &w.to_le_bytes());
                    unsafe { big.set_bits_from_usize(s..e, w) };
                    let g = unsafe { big.get_bits_as_usize(s..e) };
                    ens!(g == w & crate::sub::lowmask(e - s), "reads back {g:#x}, wrote {w:#x}");
                } else {
                    vset(&mut m, ms..me, &n);
                    unsafe { big.set_bits(s..e, n.clone()) };
                }
                ens!(big[at..at + 32] == m[..], "{}, expected {}", hex(&big[at..at + 32]), hex(&m));
                ens!(big.len() == (1 << 29) + 64, "the length changed");
                ens!(big[..128].iter().all(|b| *b == 0), "a write at {s} changed the start of the vector");
                Ok(())
            });
            if ctx.done() {
                return;
            }
        }
        ctx.run(1, true, || "vector of 2^29+64 bytes after the writes".into(), || {
            let end = (base - 80) / 8 - 64;
            ens!(big[..end].chunks(1 << 16).all(|c| c.iter().all(|b| *b == 0)), "a write beyond changed something far away");
            Ok(())
        });
    });
    for part in 0..4 {
        task(v, format!("long vectors/{part}"), |ctx: &mut Ctx| {
            for _ in 0..ctx.iters(15000, 5) {
                if ctx.done() {
                    return;
                }
                let len = if ctx.rng.chance(30) { ctx.rng.range(200, 2000) } else { ctx.rng.range(1, 60) };
                let x = rbytes(&mut ctx.rng, len);
                let s = ctx.rng.below(len * 8);
                let e = match ctx.rng.below(3) {
                    0 => ctx.rng.range(s, (s + 64).min(len * 8)),
                    1 => ctx.rng.range(s, (s + 9).min(len * 8)),
                    _ => ctx.rng.range(s, len * 8),
                };
                get(ctx, &x, s..e);
                if e > s {
                    let nb = (e - s + 7) / 8 + ctx.rng.below(10);
                    let n = rbytes(&mut ctx.rng, nb);
                    set(ctx, &x, s..e, &n);
                    if e - s <= WORD {
                        let n = ctx.rng.u64() as usize;
                        setu(ctx, &x, s..e, n);
                    }
                }
            }
        });
    }
    task(v, "write histories", |ctx: &mut Ctx| {
        for k in 0..ctx.iters(3000, 2) {
            if ctx.done() {
                return;
            }
            let len = ctx.rng.range(1, 24);
            let x = rbytes(&mut ctx.rng, len);
            let mut ops = vec![];
            for _ in 0..12 {
                let s = ctx.rng.below(len * 8);
                let e = ctx.rng.range(s + 1, len * 8);
                let n = rbytes(&mut ctx.rng, (e - s + 7) / 8);
                ops.push((s, e, n));
            }
            ctx.run(key(k, &x), true, || format!("{} then writes {ops:?}", hex(&x)), || {
                let mut v = x.clone();
                let mut m = x.clone();
                for (i, (s, e, n)) in ops.iter().enumerate() {
                    vset(&mut m, *s..*e, n);
                    unsafe { v.set_bits(*s..*e, n.clone()) };
                    ens!(v == m, "after write {i}: {}, expected {}", hex(&v), hex(&m));
                    let g = unsafe { v.get_bits(*s..*e) };
                    ens!(g == vget(&m, *s..*e), "write {i} reads back {}", hex(&g));
                }
                ens!(v.size() == len, "size() {}", v.size());
                Ok(())
            });
        }
    });
    task(v, "one and two bytes exhaustively", |ctx: &mut Ctx| {
        if ctx.miri() {
            return;
        }
        for x in 0..256usize {
            for s in 0..8 {
                for e in s + 1..=8 {
                    get(ctx, &[x as u8], s..e);
                    for n in 0..(1usize << (e - s)) {
                        if (n + x) % 3 == 0 || x == 0 || x == 255 {
                            set(ctx, &[x as u8], s..e, &[n as u8]);
                            setu(ctx, &[x as u8], s..e, n);
                        }
                    }
                }
            }
        }
        for x in 0..65536usize {
            let b = [(x & 255) as u8, (x >> 8) as u8];
            let s = ctx.rng.below(16);
            for e in s + 1..=16 {
                get(ctx, &b, s..e);
            }
            if ctx.done() {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- C16
#[cfg(feature = "c16")]
pub fn c16(v: &mut Vec<Task>) {
    fn conv<T: Int>(ctx: &mut Ctx, x: u128) {
        ctx.run(mix(x as u64, (x >> 64) as u64), x > 1, || format!("{}: conversions of {x:#x}", T::NM), || unsafe {
            let v = T::f(x);
            ens!(v.as_u8() == x as u8, "as_u8 {:#x}", v.as_u8());
            ens!(v.as_u16() == x as u16, "as_u16 {:#x}", v.as_u16());
            ens!(v.as_u32() == x as u32, "as_u32 {:#x}", v.as_u32());
            ens!(v.as_u64() == x as u64, "as_u64 {:#x}", v.as_u64());
            ens!(v.as_u128() == x, "as_u128 {:#x}", v.as_u128());
            ens!(v.as_usize() == x as usize, "as_usize {:#x}", v.as_usize());
            ens!(v.as_u8_slice() == v.ne(), "as_u8_slice {:?}", v.as_u8_slice());
            ens!(v.size() == v.ne().len() && <T as Bits>::BITS == T::W, "size");
            let mut w = T::f(0);
            w.as_u8_slice_mut().copy_from_slice(&v.ne());
            ens!(w.t() == x, "filled through as_u8_slice_mut: {:#x}", w.t());
            Ok(())
        });
    }
    fn from<T: Int>(ctx: &mut Ctx, x: u128) {
        let m = lm(T::W);
        ctx.run(mix(x as u64 ^ 77, (x >> 64) as u64), x > 1, || format!("{}: from other widths of {x:#x}", T::NM), || unsafe {
            ens!(T::from_u8(x as u8).t() == x as u8 as u128 & m, "from_u8");
            ens!(T::from_u16(x as u16).t() == x as u16 as u128 & m, "from_u16 {:#x}", T::from_u16(x as u16).t());
            ens!(T::from_u32(x as u32).t() == x as u32 as u128 & m, "from_u32 {:#x}", T::from_u32(x as u32).t());
            ens!(T::from_u64(x as u64).t() == x as u64 as u128 & m, "from_u64 {:#x}", T::from_u64(x as u64).t());
            ens!(T::from_u128(x).t() == x & m, "from_u128 {:#x}", T::from_u128(x).t());
            ens!(T::from_usize(x as usize).t() == x as usize as u128 & m, "from_usize {:#x}", T::from_usize(x as usize).t());
            Ok(())
        });
    }
    fn slice<T: Int>(ctx: &mut Ctx, b: &[u8]) {
        ctx.run(key(5, b), !b.is_empty(), || format!("{}: from_u8_slice({})", T::NM, hex(b)), || unsafe {
            let n = T::W / 8;
            let mut p = b.to_vec();
            p.resize(n.max(b.len()), 0);
            p.truncate(n);
            let le = p.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128);
            let be = p.iter().fold(0u128, |a, x| a << 8 | *x as u128);
            let g = T::from_u8_slice(b, Endianness::LittleEndian).t();
            ens!(g == le, "little endian {g:#x}, expected {le:#x}");
            let g = T::from_u8_slice(b, Endianness::BigEndian).t();
            ens!(g == be, "big endian {g:#x}, expected {be:#x}");
            Ok(())
        });
    }
    fn t<T: Int>(ctx: &mut Ctx) {
        if T::W <= 16 && !ctx.miri() {
            for x in 0..1u128 << T::W {
                conv::<T>(ctx, x);
            }
        }
        for b in 0..128 {
            if b < T::W {
                conv::<T>(ctx, 1 << b);
                conv::<T>(ctx, lm(b));
            }
            from::<T>(ctx, 1 << b);
            from::<T>(ctx, lm(b + 1));
            if ctx.miri() && b > 10 {
                break;
            }
        }
        for _ in 0..ctx.iters(30000, 5) {
            if ctx.done() {
                return;
            }
            let x = rint(&mut ctx.rng, T::W);
            conv::<T>(ctx, x);
            let x = rint(&mut ctx.rng, 128);
            from::<T>(ctx, x);
            let n = ctx.rng.below(if ctx.rng.0 % 3 == 0 { 40 } else { T::W / 8 + 3 });
            let b = rbytes(&mut ctx.rng, n);
            slice::<T>(ctx, &b);
        }
        // decoding does not depend on where the bytes lie or how many follow
        let long = if ctx.miri() { vec![255, 256, 257] } else { vec![127, 128, 255, 256, 257, 258, 264, 272, 511, 512, 1000, 4096, 65535, 65536, 65537, 65540] };
        for n in long {
            let b = rbytes(&mut ctx.rng, n);
            for at in 0..9 {
                slice::<T>(ctx, &b[at..]);
            }
            let k = ctx.rng.below(n - T::W / 8);
            for l in 0..=T::W / 8 {
                slice::<T>(ctx, &b[k..k + l]);
            }
        }
        for n in 0..=40 {
            slice::<T>(ctx, &vec![255; n]);
            slice::<T>(ctx, &(1..=n as u8).collect::<Vec<_>>());
            slice::<T>(ctx, &vec![0; n]);
        }
    }
    macro_rules! m { ($t:ty) => { task(v, stringify!($t), t::<$t>); }; }
    for_ints!(m);
    task(v, "Vec<u8>", |ctx: &mut Ctx| {
        for k in 0..ctx.iters(30000, 10) {
            if ctx.done() {
                return;
            }
            let x = rint(&mut ctx.rng, 128);
            ctx.run(mix(x as u64, (x >> 64) as u64), x > 1, || format!("Vec<u8>: conversions of {x:#x}"), || unsafe {
                macro_rules! w {
                    ($t:ty, $from:ident, $as:ident) => {
                        let y = x as $t;
                        let v = <Vec<u8> as Bits>::$from(y);
                        ens!(v == y.to_ne_bytes(), concat!(stringify!($from), " gives {:?}"), v);
                        ens!(v.size() == v.len() && v.as_u8_slice() == v.as_slice(), "size/as_u8_slice");
                        let b = v.clone().$as();
                        ens!(b == y, concat!(stringify!($as), " gives {:#x}, expected {:#x}"), b, y);
                    };
                }
                w!(u8, from_u8, as_u8);
                w!(u16, from_u16, as_u16);
                w!(u32, from_u32, as_u32);
                w!(u64, from_u64, as_u64);
                w!(u128, from_u128, as_u128);
                w!(usize, from_usize, as_usize);
                Ok(())
            });
            let n = if ctx.rng.chance(200) { ctx.rng.below(1200) } else { ctx.rng.below(40) };
            let b = rbytes(&mut ctx.rng, n);
            ctx.run(key(k, &b), n > 0, || format!("Vec<u8>::from_u8_slice({})", hex(&b)), || unsafe {
                let mut rev = b.clone();
                rev.reverse();
                let (ne, sw) = if cfg!(target_endian = "little") {
                    (Endianness::LittleEndian, Endianness::BigEndian)
                } else {
                    (Endianness::BigEndian, Endianness::LittleEndian)
                };
                let g = <Vec<u8> as Bits>::from_u8_slice(&b, ne);
                ens!(g == b, "native endianness gives {g:?}");
                let g = <Vec<u8> as Bits>::from_u8_slice(&b, sw);
                ens!(g == rev, "swapped endianness gives {g:?}");
                let mut w = b.clone();
                w.as_u8_slice_mut().copy_from_slice(&rev);
                ens!(w == rev, "as_u8_slice_mut");
                Ok(())
            });
        }
    });
}

// ---------------------------------------------------------------- C17
#[cfg(feature = "c17")]
pub fn c17(v: &mut Vec<Task>) {
    fn spread(x: u128, n: usize, step: usize, off: usize) -> u128 {
        (0..n).fold(0, |a, i| a | (x >> i & 1) << (i * step + off))
    }
    macro_rules! sp {
        ($ctx:ident, $f:ident, $x:expr, $n:expr, $step:expr, $off:expr) => {{
            let x = $x;
            $ctx.run(x as u64, x != 0, || format!("{}({x:#x})", stringify!($f)), || {
                let g = $f(x) as u128;
                let e = spread(x as u128, $n, $step, $off);
                ens!(g == e, "{g:#x}, expected {e:#x}");
                Ok(())
            });
        }};
    }
    task(v, "add_zero_before_every_bit_u8", |ctx: &mut Ctx| {
        for x in 0..=255u8 {
            sp!(ctx, add_zero_before_every_bit_u8, x, 4, 2, 0);
        }
    });
    task(v, "add_zero_behind_every_bit_u8", |ctx: &mut Ctx| {
        for x in 0..=255u8 {
            sp!(ctx, add_zero_behind_every_bit_u8, x, 4, 2, 1);
        }
    });
    task(v, "add_zero_before_every_bit_u16", |ctx: &mut Ctx| {
        for x in 0..=65535u16 {
            if ctx.miri() && x % 97 != 0 {
                continue;
            }
            sp!(ctx, add_zero_before_every_bit_u16, x, 8, 2, 0);
        }
    });
    task(v, "add_two_zeroes_before_every_bit_u8", |ctx: &mut Ctx| {
        for x in 0..=255u8 {
            sp!(ctx, add_two_zeroes_before_every_bit_u8, x, 8, 3, 0);
        }
    });
    for part in 0..8u32 {
        task(v, format!("add_two_zeroes_before_every_bit_u32/{part}"), move |ctx: &mut Ctx| {
            // every 21-bit input, each with other high bits
            let step = if ctx.miri() { 65537 } else { 8 };
            let mut x = part;
            while x < 1 << 21 {
                sp!(ctx, add_two_zeroes_before_every_bit_u32, x, 21, 3, 0);
                let high = (ctx.rng.u64() as u32) << 21;
                if high != 0 {
                    sp!(ctx, add_two_zeroes_before_every_bit_u32, x | high, 21, 3, 0);
                }
                if ctx.done() {
                    return;
                }
                x += step;
            }
            for _ in 0..ctx.iters(200_000, 5) {
                let x = ctx.rng.u64() as u32;
                sp!(ctx, add_two_zeroes_before_every_bit_u32, x, 21, 3, 0);
            }
            for b in 21..32 {
                sp!(ctx, add_two_zeroes_before_every_bit_u32, 1u32 << b, 21, 3, 0);
            }
            ctx.ev("all_21_bit_inputs_parts", 1);
        });
    }
}

// ---------------------------------------------------------------- C18
#[cfg(feature = "c18")]
pub fn c18(v: &mut Vec<Task>) {
    fn one<T: Int>(ctx: &mut Ctx, x: u128, a: u128) {
        let k = mix(mix(x as u64, (x >> 64) as u64), mix(a as u64, (a >> 64) as u64));
        // the smallest multiple, if it is representable
        let e = if a == 0 {
            Some(x)
        } else {
            let r = x % a;
            if r == 0 { Some(x) } else { x.checked_add(a - r).filter(|e| *e <= lm(T::W)) }
        };
        let e = match e {
            Some(e) => e,
            None => return,
        };
        ctx.run(k, a > 1 && x % a != 0, || format!("{}: {x}.align_to({a})", T::NM), || {
            let g = T::f(x).align(T::f(a)).t();
            ens!(g == e, "{g}, the smallest multiple that is not below is {e}");
            Ok(())
        });
    }
    fn t<T: Int>(ctx: &mut Ctx, part: usize, parts: usize) {
        let w = T::W;
        let max = lm(w);
        if w == 8 && !ctx.miri() {
            for x in 0..256 {
                for a in 0..256 {
                    one::<T>(ctx, x, a);
                }
            }
            return;
        }
        // around multiples of an alignment, everywhere in the range
        for _ in 0..ctx.iters(120_000 / parts as u64, 60) {
            if ctx.done() {
                return;
            }
            let r = &mut ctx.rng;
            let a = match r.below(5) {
                0 => 1u128 << r.below(w),
                1 => (1u128 << r.below(w)).wrapping_add(1) & max,
                2 => r.below(300) as u128,
                _ => {
                    let s = r.below(w);
                    rint(r, w) >> s
                }
            };
            let x = match r.below(6) {
                0 if a > 0 => (max / a) * a,
                1 if a > 0 => ((max / a) * a).wrapping_sub(1) & max,
                2 if a > 0 => {
                    let q = (max / a).checked_add(1).map_or(rint(r, w), |m| rint(r, w) % m);
                    (q * a).wrapping_sub(r.below(2) as u128) & max
                }
                3 if a > 0 => {
                    let q = (max / a).checked_add(1).map_or(rint(r, w), |m| rint(r, w) % m);
                    (q * a).wrapping_add(r.below(2) as u128) & max
                }
                4 => max - r.below(20) as u128,
                _ => rint(r, w),
            };
            one::<T>(ctx, x, a);
        }
        for b in 0..w {
            for c in 0..w {
                if (b + c) % parts == part && !ctx.miri() {
                    for d in [0u128, 1, 2] {
                        one::<T>(ctx, (1u128 << b).wrapping_sub(d) & max, 1u128 << c);
                        one::<T>(ctx, (1u128 << b).wrapping_add(d) & max, 1u128 << c);
                        one::<T>(ctx, max - (1u128 << b).wrapping_sub(d).min(max), (1u128 << c).wrapping_add(d) & max);
                    }
                }
            }
        }
        if w == 16 && ctx.tier == Tier::Thorough {
            for x in 0..65536u128 {
                if x as usize % parts != part {
                    continue;
                }
                for a in 0..65536u128 {
                    // the cheap check first, the monitored one only when it matters
                    if a % 16 == x % 16 || a < 64 || a > 65000 || x > 65000 {
                        one::<T>(ctx, x, a);
                    }
                }
                if ctx.done() {
                    return;
                }
            }
        }
    }
    macro_rules! m {
        ($t:ty) => {
            let parts = if <$t as Int>::W == 8 { 1 } else { 3 };
            for p in 0..parts {
                task(v, format!("{}/{p}", stringify!($t)), move |c| t::<$t>(c, p, parts));
            }
        };
    }
    for_ints!(m);
}
