mod g;
mod scene;
mod geom;
mod basics;
mod images;
mod optics;
mod tree;
mod shade;
mod render;
mod loader;
use g::{Fail, Gen, Res};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Case = fn(&mut Gen) -> Res;
/// property -> (weight, name, case)
fn cases(p: &str) -> Vec<(u64, &'static str, Case)> {
    let mut v = vec![];
    geom::cases(p, &mut v);
    basics::cases(p, &mut v);
    images::cases(p, &mut v);
    optics::cases(p, &mut v);
    tree::cases(p, &mut v);
    shade::cases(p, &mut v);
    render::cases(p, &mut v);
    loader::cases(p, &mut v);
    v
}
fn run(c: Case, seed: u64, over: &HashMap<String, f64>) -> (Gen, Res) {
    let mut g = Gen::new(seed, over);
    let r = catch_unwind(AssertUnwindSafe(|| {
        g.seed_library();
        c(&mut g)
    }));
    let r = match r {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(Fail { check: "no panic".into(), msg: m })
        }
    };
    (g, r)
}
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('"', "'").replace('\n', " ") }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a[1].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(2.);
    let threads: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let only = get("--case");
    let at: Option<u64> = get("--at").and_then(|s| s.parse().ok());
    let mut over = HashMap::new();
    if let Some(f) = get("--params") {
        // lines "name value"
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            if let Some((n, v)) = l.rsplit_once(' ') {
                if let Ok(v) = v.parse::<f64>() { over.insert(n.to_string(), v); }
            }
        }
    }
    let cs: Vec<_> = cases(&prop).into_iter().filter(|c| only.as_deref().map_or(true, |o| o == c.1)).collect();
    if cs.is_empty() { println!("{{\"cases\":0,\"fails\":[]}}"); return; }
    let total: u64 = cs.iter().map(|c| c.0).sum::<u64>().max(1);
    let count = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<String>> = Mutex::new(vec![]);
    let seen: Mutex<HashMap<String, u64>> = Mutex::new(HashMap::new());
    let t0 = Instant::now();
    let end = Duration::from_secs_f64(secs);
    let base = seed.wrapping_mul(0x9E3779B97F4A7C15);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (cs, count, stop, fails, seen, over) = (&cs, &count, &stop, &fails, &seen, &over);
            s.spawn(move || {
                let mut k = t;
                loop {
                    if stop.load(Ordering::Relaxed) || (at.is_none() && t0.elapsed() > end) { break; }
                    let iter = at.unwrap_or(k);
                    let cseed = base.wrapping_add(iter.wrapping_mul(0x2545F4914F6CDD1D));
                    let mut w = (iter / 8).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17).wrapping_add(iter) % total;
                    let mut c = &cs[0];
                    for x in cs { if w < x.0 { c = x; break; } w -= x.0; }
                    let (g, r) = run(c.2, cseed, over);
                    count.fetch_add(1, Ordering::Relaxed);
                    if let Err(f) = r {
                        let key = format!("{}/{}", c.1, f.check);
                        let mut m = seen.lock().unwrap();
                        let n = m.entry(key).or_insert(0);
                        *n += 1;
                        if *n <= 3 {
                            let ps: Vec<String> = g.log.iter().take(400).map(|(n, v)| if v.is_finite() { format!("\"{}\":{:?}", n, v) } else { format!("\"{}\":\"{}\"", n, v) }).collect();
                            fails.lock().unwrap().push(format!(
                                "{{\"case\":\"{}\",\"check\":\"{}\",\"message\":\"{}\",\"seed\":{},\"iteration\":{},\"params\":{{{}}}}}",
                                c.1, esc(&f.check), esc(&f.msg), seed, iter, ps.join(",")));
                        }
                        if m.len() >= 12 || m.values().sum::<u64>() > 200 { stop.store(true, Ordering::Relaxed); }
                    }
                    if at.is_some() { break; }
                    k += threads;
                }
            });
            if at.is_some() { break; }
        }
    });
    let _ = std::fs::remove_dir_all(images::scratch_dir());
    let f = fails.into_inner().unwrap();
    println!("{{\"cases\":{},\"fails\":[{}]}}", count.load(Ordering::Relaxed), f.join(","));
}
