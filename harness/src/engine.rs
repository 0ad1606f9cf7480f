//! Runs the cases of a check on all cores, watches them, and reports.
use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What one case told about itself.
#[derive(Default)]
pub struct Ctx {
    pub size: usize,
    pub index: u64,
    pub thorough: bool,
    /// The case, written out.
    pub input: String,
    pub hits: BTreeMap<String, u64>,
    /// Hash of what makes the case distinct; None: trivial.
    pub sig: Option<u64>,
}
impl Ctx {
    /// Records the case; alone, it is also written at once, in case the process dies of it.
    pub fn say(&mut self, s: String) {
        if SOLO.load(SeqCst) {
            println!("--- input\n{}", s);
        }
        self.input = s;
    }
    pub fn hit(&mut self, k: &str) {
        *self.hits.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.hits.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.hits.entry(format!("max {}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn distinct(&mut self, what: &str) {
        self.sig = Some(hash_bytes(what.as_bytes()));
    }
}

pub type Res = Result<(), String>;
pub type Case = fn(&mut Rng, &mut Ctx) -> Res;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub case: Case,
    /// Fixed cases, run first: a name for the report and the case.
    pub fixed: fn() -> Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)>,
    /// Decides a known finding's input: Err(what fails).
    pub known: fn(&str, &mut Ctx) -> Res,
}

pub fn no_fixed() -> Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)> {
    Vec::new()
}

static SOLO: AtomicBool = AtomicBool::new(false);

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", at, msg));
    }));
}

/// Runs `f`; a panic becomes an error that names it.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn run_one(check: &Check, fixed: &[(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)], seed: u64, index: u64, thorough: bool) -> (Ctx, Res) {
    let mut ctx = Ctx { index, thorough, ..Ctx::default() };
    let res = {
        let c = &mut ctx;
        guarded(move || {
            if (index as usize) < fixed.len() {
                c.say(fixed[index as usize].0.clone());
                (fixed[index as usize].1)(c)
            } else {
                let i = index - fixed.len() as u64;
                c.size = 1 + (i % 12) as usize;
                let mut r = Rng::new(mix(&[seed, hash_bytes(check.id.as_bytes()), i]));
                (check.case)(&mut r, c)
            }
        })
        .unwrap_or_else(Err)
    };
    (ctx, res)
}

#[derive(Default)]
struct Total {
    evaluations: u64,
    hits: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    samples: Vec<String>,
    failures: Vec<(u64, String, String)>,
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

pub fn verif() -> PathBuf {
    std::env::var("YMON_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

const CASE_LIMIT_S: u64 = 30;
/// Fixed cases may start other processes, which have limits of their own.
const FIXED_LIMIT_S: u64 = 600;
const SOLO_LIMIT_S: u64 = 150;

fn cap_s(thorough: bool) -> u64 {
    env_u64("YMON_CAP", if thorough { 900 } else { 150 })
}

/// The worker process. Exit 0: done, result in `result`. 3: a case runs too long.
pub fn worker(check: &Check, seed: u64, thorough: bool, dir: &Path) -> i32 {
    quiet_panics();
    let start = Instant::now();
    let fixed = (check.fixed)();
    let threads = env_u64("YMON_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8));
    let cases = env_u64("YMON_CASES", if thorough { check.thorough } else { check.quick }) + fixed.len() as u64;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let first_failure = Mutex::new(None::<Instant>);
    let total = Mutex::new(Total::default());
    let slots: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let slow = AtomicU64::new(u64::MAX);
    let skipped: Vec<u64> = std::env::var("YMON_SKIP").unwrap_or_default().split(',').filter_map(|s| s.parse().ok()).collect();
    let skipped = &skipped;
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for t in 0..threads {
            let (next, stop, first_failure, total, slots, fixed, start) = (&next, &stop, &first_failure, &total, &slots, &fixed, &start);
            let slot_file = dir.join(format!("slot{}", t));
            let b = std::thread::Builder::new().stack_size(8 << 20);
            hs.push(
                b.spawn_scoped(s, move || {
                    let mut f = std::fs::File::create(&slot_file).unwrap();
                    let mut local = Total::default();
                    loop {
                        if stop.load(SeqCst) {
                            break;
                        }
                        let i = next.fetch_add(1, SeqCst);
                        if skipped.contains(&i) {
                            continue;
                        }
                        if i >= cases || (start.elapsed().as_secs() >= cap_s(thorough) && i as usize >= fixed.len()) {
                            break;
                        }
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(&i.to_le_bytes(), 0);
                        slots[t as usize].1.store(start.elapsed().as_millis() as u64, SeqCst);
                        slots[t as usize].0.store(i, SeqCst);
                        let (ctx, res) = run_one(check, fixed, seed, i, thorough);
                        slots[t as usize].0.store(u64::MAX, SeqCst);
                        local.evaluations += 1;
                        for (k, n) in ctx.hits {
                            let e = local.hits.entry(k.clone()).or_insert(0);
                            if k.starts_with("max ") {
                                *e = (*e).max(n);
                            } else {
                                *e += n;
                            }
                        }
                        if let Some(h) = ctx.sig {
                            if local.sigs.insert(h) && local.samples.len() < 2 && ctx.input.len() < 600 && i > 200 {
                                local.samples.push(ctx.input.clone());
                            }
                        }
                        if let Err(m) = res {
                            local.failures.push((i, ctx.input, m));
                            let mut ff = first_failure.lock().unwrap();
                            if ff.is_none() {
                                *ff = Some(Instant::now());
                            }
                        }
                        if let Some(t0) = *first_failure.lock().unwrap() {
                            if t0.elapsed() > Duration::from_secs(4) || local.failures.len() > 200 {
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                    let _ = f.flush();
                    let mut t = total.lock().unwrap();
                    t.evaluations += local.evaluations;
                    for (k, n) in local.hits {
                        let e = t.hits.entry(k.clone()).or_insert(0);
                        if k.starts_with("max ") {
                            *e = (*e).max(n);
                        } else {
                            *e += n;
                        }
                    }
                    t.sigs.extend(local.sigs);
                    t.samples.extend(local.samples);
                    t.failures.extend(local.failures);
                })
                .unwrap(),
            );
        }
        let (slots, done, slow, start2, nfixed) = (&slots, &done, &slow, &start, fixed.len() as u64);
        let w = s.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for (i, t0) in slots {
                    let k = i.load(SeqCst);
                    let limit = if k < nfixed { FIXED_LIMIT_S } else { CASE_LIMIT_S };
                    if k != u64::MAX && start2.elapsed().as_millis() as u64 > t0.load(SeqCst) + limit * 1000 {
                        slow.store(k, SeqCst);
                        let _ = std::fs::write(dir.join("slow"), k.to_string());
                        std::process::exit(3);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, SeqCst);
        let _ = w.join();
    });
    let t = total.into_inner().unwrap();
    let mut o = String::new();
    o.push_str(&format!("evaluations {}\n", t.evaluations));
    o.push_str(&format!("distinct {}\n", t.sigs.len()));
    for (k, n) in &t.hits {
        o.push_str(&format!("hit {} {}\n", n, k));
    }
    for s in t.samples.iter().take(4) {
        o.push_str(&format!("sample {}\n", json(s)));
    }
    let mut fs = t.failures;
    fs.sort_by_key(|f| (f.1.len(), f.0));
    o.push_str(&format!("failures {}\n", fs.len()));
    for (i, input, m) in fs.iter().take(20) {
        o.push_str(&format!("fail {} {} {}\n", i, json(input), json(m)));
    }
    std::fs::write(dir.join("result"), o).unwrap();
    0
}

/// One case alone. Exit 0 it passes, 1 it fails.
pub fn solo(check: &Check, seed: u64, thorough: bool, index: u64) -> i32 {
    quiet_panics();
    SOLO.store(true, SeqCst);
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn({
            let check = CheckPtr(check as *const Check as usize);
            move || {
                let check: &Check = unsafe { &*(check.0 as *const Check) };
                let fixed = (check.fixed)();
                run_one(check, &fixed, seed, index, thorough)
            }
        })
        .unwrap();
    let (ctx, res) = h.join().unwrap();
    match res {
        Ok(()) => {
            println!("case {} passes", index);
            0
        }
        Err(m) => {
            let _ = ctx;
            println!("--- violation in case {} of {} (seed {})\n{}", index, check.id, seed, m);
            1
        }
    }
}
struct CheckPtr(usize);

pub struct Known {
    pub property: String,
    pub input: String,
    pub what: String,
}

/// Reads the "known" lines of known_findings.jsonl (flat objects with string fields).
pub fn known_findings() -> Vec<Known> {
    let text = std::fs::read_to_string(verif().join("known_findings.jsonl")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let m = flat_object(l)?;
            if m.get("status").map(|s| s.as_str()) != Some("known") {
                return None;
            }
            Some(Known { property: m.get("property")?.clone(), input: m.get("input")?.clone(), what: m.get("what")?.clone() })
        })
        .collect()
}

fn flat_object(l: &str) -> Option<BTreeMap<String, String>> {
    let mut m = BTreeMap::new();
    let mut strs = Vec::new();
    let mut it = l.trim().strip_prefix('{')?.chars();
    while let Some(c) = it.next() {
        if c != '"' {
            continue;
        }
        let mut s = String::new();
        loop {
            match it.next()? {
                '"' => break,
                '\\' => match it.next()? {
                    'n' => s.push('\n'),
                    't' => s.push('\t'),
                    'r' => s.push('\r'),
                    'u' => {
                        let h: String = (0..4).filter_map(|_| it.next()).collect();
                        s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
                    }
                    c => s.push(c),
                },
                c => s.push(c),
            }
        }
        strs.push(s);
    }
    let mut i = strs.into_iter();
    while let (Some(k), Some(v)) = (i.next(), i.next()) {
        m.insert(k, v);
    }
    Some(m)
}

fn command(args: &[String], wall_s: Option<u64>) -> std::process::Command {
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new("sh");
    let wall = wall_s.map(|s| format!("timeout -k 1 {} ", s)).unwrap_or_default();
    c.arg("-c").arg(format!("ulimit -c 0; ulimit -S -v 12000000; exec {}\"$0\" \"$@\"", wall)).arg(exe).args(args);
    c
}

pub fn supervise(check: &Check, argv_seed: u64, tier: &str) -> i32 {
    let start = Instant::now();
    let _thorough = tier == "thorough";
    let scratch = verif().join("harness/target/run").join(format!("{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let replay_dir = verif().join("replay");
    let _ = std::fs::create_dir_all(&replay_dir);
    let mut violations: Vec<(u64, String, String)> = Vec::new();
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    let mut inconclusive = None;
    let args: Vec<String> =
        vec!["worker".into(), check.id.into(), argv_seed.to_string(), tier.into(), scratch.display().to_string()];
    let mut slow_ones: Vec<u64> = Vec::new();
    loop {
    let skip = slow_ones.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    let _ = std::fs::remove_file(scratch.join("slow"));
    let status = command(&args, None).env("YMON_SKIP", skip).stdout(std::process::Stdio::null()).status().unwrap();
    let mut suspects: Vec<u64> = Vec::new();
    if status.code() != Some(0) {
        if let Ok(s) = std::fs::read_to_string(scratch.join("slow")) {
            suspects.extend(s.trim().parse::<u64>());
        } else {
            for t in 0..64 {
                if let Ok(b) = std::fs::read(scratch.join(format!("slot{}", t))) {
                    if b.len() == 8 {
                        suspects.push(u64::from_le_bytes(b.try_into().unwrap()));
                    }
                }
            }
        }
        suspects.sort();
        for i in suspects.iter() {
            let a: Vec<String> = vec!["solo".into(), check.id.into(), argv_seed.to_string(), tier.into(), i.to_string()];
            let out = command(&a, Some(SOLO_LIMIT_S)).output().unwrap();
            match out.status.code() {
                Some(0) => {}
                Some(1) => violations.push((*i, String::new(), String::from_utf8_lossy(&out.stdout).to_string())),
                c => {
                    use std::os::unix::process::ExitStatusExt;
                    violations.push((
                        *i,
                        String::new(),
                        format!(
                            "{}\nthe process running this case died (exit {:?}, signal {:?}): stack overflow, abort, exhausted memory, or no end within 150 s (exit 124)",
                            String::from_utf8_lossy(&out.stdout),
                            c,
                            out.status.signal()
                        ),
                    ))
                }
            }
        }
        if violations.is_empty() && scratch.join("slow").exists() && slow_ones.len() < 3 {
            // it ends, if slowly: the others are still to be looked at
            slow_ones.extend(suspects);
            continue;
        }
        if violations.is_empty() {
            inconclusive = Some(format!("the worker ended with {:?}, and no case it was running does so alone", status));
        }
    }
    break;
    }
    if !slow_ones.is_empty() {
        extra.insert("cases that took long, looked at alone".into(), slow_ones.len() as u64);
    }
    let result = std::fs::read_to_string(scratch.join("result")).unwrap_or_default();
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = Vec::new();
    for l in result.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "evaluations" => evaluations = rest.parse().unwrap_or(0),
            "distinct" => distinct = rest.parse().unwrap_or(0),
            "hit" => {
                if let Some((n, name)) = rest.split_once(' ') {
                    extra.insert(name.to_string(), n.parse().unwrap_or(0));
                }
            }
            "sample" => samples.push(rest.to_string()),
            "fail" => {
                if let Some((i, r)) = rest.split_once(' ') {
                    let m = flat_object(&format!("{{{}}}", r)).unwrap_or_default();
                    let (a, b) = m.into_iter().next().unwrap_or_default();
                    violations.push((i.parse().unwrap_or(0), a, b));
                }
            }
            _ => {}
        }
    }
    // known findings
    quiet_panics();
    for k in known_findings().iter().filter(|k| k.property == check.id) {
        let mut c = Ctx::default();
        if let Err(_m) = guarded(|| (check.known)(&k.input, &mut c)).unwrap_or_else(Err) {
            println!("KNOWN-FINDING: property={} {}", check.id, k.what);
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let mut ev = String::new();
    ev.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"observed\": {{",
        json(check.id),
        json(tier),
        argv_seed,
        evaluations,
        distinct,
        json(check.rule),
        samples.join(", ")
    ));
    let mut first = true;
    for (k, n) in &extra {
        ev.push_str(&format!("{}\n   {}: {}", if first { "" } else { "," }, json(k), n));
        first = false;
    }
    ev.push_str("\n  }\n },\n \"assumptions\": [");
    ev.push_str(&check.assumptions.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "));
    ev.push_str(&format!("],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, violations.len()));
    let _ = std::fs::create_dir_all(verif().join("evidence"));
    std::fs::write(verif().join("evidence").join(format!("{}.json", check.id)), ev).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    println!(
        "{}: {} cases ({} distinct and not trivial), {} violations, {:.1} s",
        check.id,
        evaluations,
        distinct,
        violations.len(),
        wall
    );
    if let Some((i, input, m)) = violations.first() {
        let file = replay_dir.join(format!("{}-{}-{}.txt", check.id, argv_seed, i));
        let text = format!(
            "property {}\nseed {}\ntier {}\ncase {}\n--- input\n{}\n--- violation\n{}\n",
            check.id, argv_seed, tier, i, input, m
        );
        let _ = std::fs::write(&file, &text);
        println!("{}", text.chars().take(4000).collect::<String>());
        println!("VIOLATION property={} replay={}", check.id, file.display());
        return 1;
    }
    if let Some(w) = inconclusive {
        eprintln!("{}", w);
        return 2;
    }
    0
}

pub fn replay(file: &str, checks: &[Check]) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let field = |k: &str| {
        text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).unwrap_or("").to_string()
    };
    let id = field("property");
    let check = checks.iter().find(|c| c.id == id).expect("unknown property");
    let a: Vec<String> = vec!["solo".into(), id.clone(), field("seed"), field("tier"), field("case")];
    let _ = check;
    let st = command(&a, Some(SOLO_LIMIT_S)).status().unwrap();
    st.code().unwrap_or(1)
}
