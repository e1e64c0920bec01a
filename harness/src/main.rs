//! Bounded checks of the properties on the real crate: `ixcheck <PROP> --seed N --tier quick|thorough
//! --out FILE --dir DIR [--case N] [--limit N]`. Prints a JSON summary into FILE; exit 0 held, 1 failed.
mod cases;
mod props;
mod rng;
mod ser_model;
mod types;
mod xml;

use std::collections::BTreeMap;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use rng::Rng;

#[derive(Debug, Clone)]
pub struct Fail {
    pub what: String,
    pub input: String,
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($input:expr, $($t:tt)*) => { return Err($crate::Fail { what: format!($($t)*), input: $input.to_string() }) };
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub kinds: BTreeMap<&'static str, u64>,
    pub distinct: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        self.evals += 1;
        *self.kinds.entry(k).or_default() += 1;
    }
}

pub struct Prop {
    pub id: &'static str,
    pub case: fn(u64, &mut Rng, &mut Stats) -> R,
    pub quick: u64,
    pub thorough: u64,
    /// defects of the unchanged tree that are not repaired: key, what fails, still failing?
    pub findings: &'static [(&'static str, &'static str, fn() -> bool)],
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    Rng::new(h ^ seed.wrapping_mul(0x9E3779B97F4A7C15)).next() ^ i.wrapping_mul(0xD6E8FEB86659FD93)
}

fn run_case(p: &Prop, seed: u64, i: u64, st: &mut Stats) -> R {
    let mut g = Rng::new(case_seed(seed, p.id, i));
    g.1 = !matches!(p.id, "C04" | "C14") && i % 499 == 7;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(i, &mut g, st))) {
        Ok(r) => r,
        Err(e) => {
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let input = props::LAST.with(|l| l.borrow().clone());
            Err(Fail { what: format!("panic: {msg}"), input })
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).expect("property").clone();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = get("--tier").unwrap_or("quick".into());
    let dir = get("--dir").unwrap_or("/tmp".into());
    let out = get("--out");
    let p = props::PROPS.iter().find(|p| p.id == prop).expect("unknown property");
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(c) = get("--case").and_then(|s| s.parse::<u64>().ok()) {
        let mut st = Stats::default();
        match run_case(p, seed, c, &mut st) {
            Ok(()) => println!("property {prop} case {c}: holds"),
            Err(f) => {
                println!("property {prop} case {c} FAILS: {}\ninput: {}", f.what, f.input);
                std::process::exit(1);
            }
        }
        return;
    }
    let n = get("--limit").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { p.quick } else { p.thorough });
    let budget = Duration::from_secs(get("--time").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 60 } else { 600 }));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let start = Instant::now();
    // which case each worker is on: for the watchdog, and on disk in case the process dies
    let current: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let trace = std::fs::File::create(format!("{dir}/{prop}.current")).expect("trace file");
    let live = AtomicU64::new(threads as u64);
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, done, stop, fail, total, current, trace, live) = (&next, &done, &stop, &fail, &total, &current, &trace, &live);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || stop.load(Ordering::Relaxed) || start.elapsed() > budget {
                            break;
                        }
                        current[w].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        current[w].0.store(i, Ordering::Relaxed);
                        let _ = trace.write_at(&i.to_le_bytes(), w as u64 * 8);
                        let r = run_case(p, seed, i, &mut st);
                        done.fetch_add(1, Ordering::Relaxed);
                        if i % 97 == 13 && st.samples.len() < 2 {
                            props::LAST.with(|l| {
                                let l = l.borrow();
                                if l.len() >= 16 && l.len() < 1500 {
                                    st.samples.push(format!("case {i}, last input: {l}"));
                                }
                            });
                        }
                        if let Err(f) = r {
                            let mut slot = fail.lock().unwrap();
                            if slot.as_ref().map_or(true, |(j, _)| i < *j) {
                                *slot = Some((i, f));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    current[w].0.store(u64::MAX, Ordering::Relaxed);
                    let _ = trace.write_at(&u64::MAX.to_le_bytes(), w as u64 * 8);
                    let mut t = total.lock().unwrap();
                    t.evals += st.evals;
                    props::SEEN.with(|m| t.distinct.extend(m.borrow().iter()));
                    t.samples.extend(st.samples);
                    for (k, v) in st.kinds {
                        *t.kinds.entry(k).or_default() += v;
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_millis() as u64;
            for c in &current {
                let i = c.0.load(Ordering::Relaxed);
                if i != u64::MAX && now.saturating_sub(c.1.load(Ordering::Relaxed)) > 30_000 {
                    let f = (i, Fail { what: "no answer after 30 s (endless loop, or time far out of proportion to the input)".into(), input: String::new() });
                    report(&prop, &out, seed, &tier, done.load(Ordering::Relaxed), &total.lock().unwrap(), start, Some(&f), &[]);
                    std::process::exit(1);
                }
            }
        }
    });
    let mut found = vec![];
    for (key, what, f) in p.findings {
        let still = std::panic::catch_unwind(f).unwrap_or(true);
        if still {
            found.push((*key, *what));
        }
    }
    let fail = fail.into_inner().unwrap();
    report(&prop, &out, seed, &tier, done.load(Ordering::Relaxed), &total.into_inner().unwrap(), start, fail.as_ref(), &found);
    std::process::exit(if fail.is_some() { 1 } else { 0 });
}

#[allow(clippy::too_many_arguments)]
fn report(prop: &str, out: &Option<String>, seed: u64, tier: &str, cases: u64, st: &Stats, start: Instant, fail: Option<&(u64, Fail)>, found: &[(&str, &str)]) {
    let kinds: Vec<String> = st.kinds.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect();
    let f = match fail {
        Some((i, f)) => format!("{{\"case\": {i}, \"what\": \"{}\", \"input\": \"{}\"}}", esc(&f.what), esc(&f.input)),
        None => "null".into(),
    };
    let fi: Vec<String> = found.iter().map(|(k, w)| format!("{{\"key\": \"{}\", \"what\": \"{}\"}}", esc(k), esc(w))).collect();
    let json = format!(
        "{{\"property\": \"{prop}\", \"seed\": {seed}, \"tier\": \"{tier}\", \"cases\": {cases}, \"evaluations\": {}, \"distinct\": {}, \"samples\": [{}], \"kinds\": {{{}}}, \"seconds\": {:.2}, \"fail\": {f}, \"findings\": [{}]}}\n",
        st.evals,
        st.distinct.len(),
        st.samples.iter().take(4).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "),
        kinds.join(", "),
        start.elapsed().as_secs_f64(),
        fi.join(", ")
    );
    match out {
        Some(p) => std::fs::write(p, json).unwrap(),
        None => std::io::stdout().write_all(json.as_bytes()).unwrap(),
    }
}
