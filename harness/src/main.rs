//! mon <property|smoke|portable> [--tier miri|quick|thorough] [--seed N] [--scale K] [--threads N] [--task SUBSTR]
//!     [--shard I/N] [--trace FILE] [--digests] [--cases]
//! Runs the property's monitored tasks and prints one `RESULT {json}` line. Exit code 0 whatever was observed.
#![allow(dead_code, unused_macros, unused_imports)]
mod ctx;
#[cfg(any(feature = "c27", feature = "c28"))]
mod ext;
mod gen;
mod props;
mod sub;
use ctx::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// fresh and freed memory holds junk, so that reading memory nobody wrote shows in the results
#[cfg(not(any(miri, nojunk, feature = "c26")))]
mod junk {
    use std::alloc::{GlobalAlloc, Layout, System};
    struct Junk;
    const MOST: usize = 1 << 16;
    unsafe impl GlobalAlloc for Junk {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if !p.is_null() {
                p.write_bytes(0xb5, l.size().min(MOST));
            }
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            p.write_bytes(0xd6, l.size().min(MOST));
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = System.realloc(p, l, n);
            if !q.is_null() && n > l.size() {
                q.add(l.size()).write_bytes(0xb5, (n - l.size()).min(MOST));
            }
            q
        }
    }
    #[global_allocator]
    static HEAP: Junk = Junk;
}

struct Slot {
    task: Mutex<Option<String>>,
    beat: Arc<std::sync::atomic::AtomicUsize>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let num = |n: &str, d: u64| opt(n).map_or(d, |s| s.parse().expect("number"));
    let prop = args.get(1).cloned().unwrap_or_default();
    let tier = match opt("--tier").as_deref() {
        Some("miri") => Tier::Miri,
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = num("--seed", 1);
    let scale = num("--scale", if tier == Tier::Thorough { 12 } else { 1 });
    let threads = num("--threads", 8).max(1) as usize;
    let digests = args.iter().any(|a| a == "--digests");
    let only = opt("--task");
    let exact = opt("--only");
    let (shard, shards) = opt("--shard").map_or((0, 1), |s| {
        let (a, b) = s.split_once('/').unwrap();
        (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap())
    });
    let trace = opt("--trace").map(|p| Arc::new(Mutex::new(std::fs::File::create(p).expect("trace file"))));
    install_hook();
    let mut tasks = match props::tasks(&prop) {
        Some(t) => t,
        None => {
            eprintln!("unknown or not compiled property {prop}");
            std::process::exit(2);
        }
    };
    if let Some(o) = &only {
        tasks.retain(|t| t.name.contains(o.as_str()));
    }
    if let Some(o) = &exact {
        tasks.retain(|t| t.name == *o);
    }
    let tasks: Vec<Task> = tasks.into_iter().enumerate().filter(|(i, _)| i % shards == shard).map(|t| t.1).collect();
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(usize, Ctx)>> = Mutex::new(vec![]);
    let slots: Vec<Slot> = (0..threads).map(|_| Slot { task: Mutex::new(None), beat: Default::default() }).collect();
    let finished = AtomicUsize::new(0);
    let t0 = Instant::now();
    let worker = |w: usize| {
        loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= tasks.len() {
                break;
            }
            let mut ctx = Ctx::new(&tasks[i].name, seed, tier, scale);
            ctx.trace = trace.clone();
            ctx.beat = Some(slots[w].beat.clone());
            *slots[w].task.lock().unwrap() = Some(tasks[i].name.clone());
            // a panic outside a monitored case is a defect of the harness
            if let Err(m) = guard(|| (tasks[i].f)(&mut ctx)) {
                ctx.harness_error = Some(m);
            }
            *slots[w].task.lock().unwrap() = None;
            done.lock().unwrap().push((i, ctx));
        }
        finished.fetch_add(1, Ordering::SeqCst);
    };
    if threads == 1 {
        worker(0);
    } else {
        std::thread::scope(|s| {
            for w in 0..threads {
                let worker = &worker;
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || worker(w)).unwrap();
            }
            if !cfg!(miri) {
                // a case that does not come to an end
                let mut last: Vec<(usize, Instant)> = slots.iter().map(|_| (0, Instant::now())).collect();
                while finished.load(Ordering::SeqCst) < threads {
                    std::thread::sleep(Duration::from_millis(20));
                    for (w, s) in slots.iter().enumerate() {
                        let b = s.beat.load(Ordering::Relaxed);
                        let busy = s.task.lock().unwrap().clone();
                        if b != last[w].0 || busy.is_none() {
                            last[w] = (b, Instant::now());
                        } else if last[w].1.elapsed() > Duration::from_secs(90) {
                            println!("HANG {}", jstr(&busy.unwrap()));
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
    }
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|d| d.0);
    let mut ev = std::collections::BTreeMap::new();
    let (mut evals, mut nt, mut distinct, mut digest) = (0u64, 0u64, 0u64, 0u64);
    let mut capped = false;
    let (mut viols, mut samples, mut tj, mut herr) = (vec![], vec![], vec![], vec![]);
    for (_, c) in &done {
        evals += c.evals;
        nt += c.nontrivial_evals;
        distinct += c.distinct();
        capped |= c.distinct_capped;
        digest = mix(digest, c.digest);
        for (k, v) in &c.events {
            if *k == "deepest_index_levels" {
                let e = ev.entry(*k).or_insert(0u64);
                *e = (*e).max(*v);
            } else {
                *ev.entry(*k).or_insert(0u64) += v;
            }
        }
        samples.extend(c.samples.iter().map(|s| jstr(s)));
        if let Some(h) = &c.harness_error {
            herr.push(jstr(&format!("{}: {h}", c.task)));
        }
        for v in &c.violations {
            viols.push(format!(
                "{{\"task\":{},\"case\":{},\"what\":{},\"index\":{}}}",
                jstr(&v.task),
                jstr(&v.case),
                jstr(&v.what),
                v.index
            ));
        }
        if digests {
            tj.push(format!("{{\"task\":{},\"digest\":\"{:016x}\",\"evals\":{}}}", jstr(&c.task), c.digest, c.evals));
        }
    }
    let evs: Vec<String> = ev.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    println!(
        "RESULT {{\"property\":{},\"seed\":{seed},\"tasks\":{},\"evaluations\":{evals},\"nontrivial\":{nt},\"distinct_nontrivial\":{distinct},\"capped\":{capped},\"digest\":\"{digest:016x}\",\"events\":{{{}}},\"violations\":[{}],\"harness_errors\":[{}],\"samples\":[{}],\"digests\":[{}],\"wall\":{:.2},\"word\":{},\"big_endian\":{}}}",
        jstr(&prop),
        done.len(),
        evs.join(","),
        viols.join(","),
        herr.join(","),
        samples.join(","),
        tj.join(","),
        t0.elapsed().as_secs_f64(),
        usize::BITS,
        cfg!(target_endian = "big")
    );
}
