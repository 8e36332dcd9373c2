//! Bounded search for failing inputs of a property on the real crate, through
//! its public interface.  `search <property> --seed S --ms M [--threads T]` or
//! `search <property> --replay <case seed> --size <n>`.
mod gen;
mod model;
mod nib_suites;
mod trie_suites;

use gen::*;
use std::cell::RefCell;
use std::collections::{hash_map::DefaultHasher, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Case = fn(&mut Ctx) -> Result<(), String>;

fn suites(p: &str) -> Vec<(&'static str, Case)> {
    let mut v = nib_suites::suites(p);
    v.extend(trie_suites::suites(p));
    v
}

fn run_case(f: Case, seed: u64, size: usize, dict: &Arc<Dict>) -> Result<(), (String, String)> {
    let mut c = Ctx { s: seed, size, dict: dict.clone(), log: String::new() };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    match r {
        Ok(Ok(())) => {
            LAST.with(|l| *l.borrow_mut() = c.log);
            Ok(())
        }
        Ok(Err(m)) => Err((m, c.log)),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            Err((format!("unexpected panic: {m}"), c.log))
        }
    }
}

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).map(|s| s.as_str());
    let prop = a[1].clone();
    let ss = suites(&prop);
    if ss.is_empty() {
        eprintln!("no suites for {prop}");
        std::process::exit(2);
    }
    if opt("--verbose").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let dict = Arc::new(Dict::load(opt("--src").unwrap_or("/repo/src")));
    if let Some(r) = opt("--replay") {
        let size: usize = opt("--size").unwrap().parse().unwrap();
        let only = opt("--suite").unwrap_or("");
        for (n, f) in ss {
            if n == only || only.is_empty() {
                match run_case(f, r.parse().unwrap(), size, &dict) {
                    Ok(()) => println!("{n}: held"),
                    Err((m, l)) => {
                        println!("{n}: FAILED: {m}\n{l}");
                        std::process::exit(1);
                    }
                }
            }
        }
        return;
    }
    let seed: u64 = opt("--seed").unwrap_or("0").parse().unwrap_or(0);
    let ms: u64 = opt("--ms").unwrap_or("3000").parse().unwrap();
    let threads: u64 = opt("--threads").unwrap_or("4").parse().unwrap();
    let stop = Arc::new(AtomicBool::new(false));
    let count = Arc::new(AtomicU64::new(0));
    let fail: Arc<Mutex<Option<(String, u64, usize, String, String)>>> = Arc::new(Mutex::new(None));
    let end = Instant::now() + Duration::from_millis(ms);
    let trace = opt("--trace").map(|s| s.to_string());
    let distinct = Arc::new(AtomicU64::new(0));
    let samples = Arc::new(Mutex::new(Vec::<String>::new()));
    // what each thread is running: (suite, case seed, size, since)
    let now: Arc<Vec<Mutex<(String, u64, usize, Instant)>>> = Arc::new((0..threads).map(|_| Mutex::new((String::new(), 0, 0, Instant::now()))).collect());
    let done = Arc::new(AtomicBool::new(false));
    {
        let (now, done, names) = (now.clone(), done.clone(), ss.iter().map(|s| esc(s.0)).collect::<Vec<_>>().join(","));
        let (prop, count) = (prop.clone(), count.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(Ordering::Relaxed) {
                return;
            }
            for m in now.iter() {
                let g = m.lock().unwrap();
                if !g.0.is_empty() && g.3.elapsed() > Duration::from_secs(40) {
                    println!(
                        "{{\"suites\":[{names}],\"cases\":{},\"fail\":{{\"suite\":{},\"case_seed\":{},\"size\":{},\"message\":\"{prop}: the operations of this case did not finish within 40 s\",\"input\":\"\"}}}}",
                        count.load(Ordering::Relaxed), esc(&g.0), g.1, g.2
                    );
                    std::process::exit(1);
                }
            }
        });
    }
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (ss, stop, count, fail, dict) = (ss.clone(), stop.clone(), count.clone(), fail.clone(), dict.clone());
            let (distinct, samples, now) = (distinct.clone(), samples.clone(), now.clone());
            let tf = trace.as_ref().map(|d| std::fs::File::create(format!("{d}/{t}")).unwrap());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut seen = HashSet::new();
                    let mut i = t;
                    while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                        for (j, (name, f)) in ss.iter().enumerate() {
                            let cs = (seed ^ 0x5555).wrapping_mul(0x9E3779B97F4A7C15) ^ (i.wrapping_mul(64) + j as u64).wrapping_mul(0xD1342543DE82EF95);
                            let size = 1 + ((i / 40) % 24) as usize;
                            count.fetch_add(1, Ordering::Relaxed);
                            *now[t as usize].lock().unwrap() = (name.to_string(), cs, size, Instant::now());
                            if let Some(f) = &tf {
                                let _ = f.write_all_at(format!("{name} {cs} {size}{:20}", "").as_bytes(), 0);
                            }
                            if let Err((m, l)) = run_case(*f, cs, size, &dict) {
                                let mut g = fail.lock().unwrap();
                                if g.as_ref().map_or(true, |x| x.2 > size) {
                                    *g = Some((name.to_string(), cs, size, m, l));
                                }
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            LAST.with(|l| {
                                let l = l.borrow();
                                let mut h = DefaultHasher::new();
                                (j, &*l).hash(&mut h);
                                seen.insert(h.finish());
                                if t == 0 && (i == 0 || i == 40 * threads) {
                                    samples.lock().unwrap().push(format!("{name}: {}", l.chars().take(1200).collect::<String>()));
                                }
                            });
                        }
                        i += threads;
                    }
                    now[t as usize].lock().unwrap().0.clear();
                    distinct.fetch_add(seen.len() as u64, Ordering::Relaxed);
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    done.store(true, Ordering::Relaxed);
    let g = fail.lock().unwrap().clone();
    // look for a smaller failing case of the same suite
    let mut g = g;
    if let Some((name, _, size, ..)) = g.clone() {
        let f = ss.iter().find(|s| s.0 == name).unwrap().1;
        let end = Instant::now() + Duration::from_millis(1500);
        let mut cs = seed.wrapping_add(77);
        'o: for sz in 1..size {
            for _ in 0..3000 {
                if Instant::now() > end {
                    break 'o;
                }
                cs = cs.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if let Err((m, l)) = run_case(f, cs, sz, &dict) {
                    g = Some((name.clone(), cs, sz, m, l));
                    break 'o;
                }
            }
        }
    }
    let names: Vec<_> = ss.iter().map(|s| esc(s.0)).collect();
    let n = count.load(Ordering::Relaxed);
    match g {
        None => println!(
            "{{\"suites\":[{}],\"cases\":{n},\"distinct\":{},\"samples\":[{}],\"fail\":null}}",
            names.join(","), distinct.load(Ordering::Relaxed), samples.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
        ),
        Some((name, cs, size, m, l)) => {
            println!(
                "{{\"suites\":[{}],\"cases\":{n},\"fail\":{{\"suite\":{},\"case_seed\":{cs},\"size\":{size},\"message\":{},\"input\":{}}}}}",
                names.join(","), esc(&name), esc(&m), esc(&l)
            );
            std::process::exit(1);
        }
    }
}
