//! Property-test engine: recorded choice sequences (so every generator shrinks
//! and replays), multi-process workers, known findings, evidence.
use serde_json::Value as J;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::panic;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

/// The source of every random choice of a case. In random mode choices come
/// from the seeded generator, in replay mode from a recorded list; smaller
/// choices stand for simpler values, so shrinking the list shrinks the case.
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub rec: Vec<u64>,
    live: Option<fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), replay: vec![], rec: vec![], live: None }
    }
    pub fn replay(v: &[u64]) -> Src {
        Src { rng: None, replay: v.to_vec(), rec: vec![], live: None }
    }
    /// uniform in [0, n); 0 is the simplest
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = if n == 0 { 1 } else { n };
        let v = match self.rng {
            Some(ref mut r) => r.next() % n,
            None => self.replay.get(self.rec.len()).cloned().unwrap_or(0) % n,
        };
        self.rec.push(v);
        if let Some(ref mut f) = self.live {
            let _ = writeln!(f, "{}", v);
        }
        v
    }
    /// inclusive range, lo is simplest
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.draw(den);
        v >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.draw(xs.len() as u64) as usize;
        xs[i].clone()
    }
    /// index by weight; index 0 is simplest
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let tot: u64 = ws.iter().sum();
        let mut v = self.draw(tot);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        ws.len() - 1
    }
    pub fn vec<T, F: FnMut(&mut Src) -> T>(
        &mut self,
        lo: usize,
        hi: usize,
        mut f: F,
    ) -> Vec<T> {
        let mut out = Vec::new();
        let n = self.usize(lo, hi);
        for _ in 0..n {
            out.push(f(self));
        }
        out
    }
    pub fn string(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
        let n = self.usize(lo, hi);
        (0..n).map(|_| self.pick(alphabet)).collect()
    }
    pub fn u64(&mut self) -> u64 {
        // mix of magnitudes
        let bits = self.draw(65);
        if bits == 0 {
            0
        } else if bits == 64 {
            self.draw(u64::max_value())
        } else {
            self.draw(1u64 << bits)
        }
    }
}

// -------------------------------------------------------------------- results

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::core::Fail { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub worker: usize,
    pub thorough: bool,
    pub excluded: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &str) {
        if !self.labels.iter().any(|x| x == l) {
            self.labels.push(l.to_string());
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 1500 {
                let mut i = 1500;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
            }
            self.sample = Some(s);
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// 0 = all cores
    pub workers: usize,
    /// a failing case counts only if it fails again this many times (checks
    /// which involve threads, sockets or files)
    pub confirm: u32,
    pub f: fn(&mut Src, &mut Ctx) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// directed reproductions of the listed known findings
    pub known: Vec<(&'static str, fn() -> Res)>,
}

// --------------------------------------------------------------- panic capture

lazy_static::lazy_static! {
    pub static ref PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
}
thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}", f)
            })
            .unwrap_or_default();
        if std::env::var("VH_TRACE").is_ok() {
            eprintln!(
                "PANIC {} at {:?} thread {:?}",
                msg,
                info.location(),
                std::thread::current().name()
            );
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @{}", msg, loc));
        let name = std::thread::current().name().unwrap_or("?").to_string();
        if let Ok(mut p) = PANICS.lock() {
            p.push((name, format!("{} @{}", msg, loc)));
        }
    }));
}

/// Run `f`; a panic becomes Err(message).
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn take_panics() -> Vec<(String, String)> {
    let mut p = PANICS.lock().unwrap();
    let v = p.clone();
    p.clear();
    v
}

fn run_case(sub: &Sub, src: &mut Src, ctx: &mut Ctx) -> Res {
    match guard(|| (sub.f)(src, ctx)) {
        Ok(r) => r,
        Err(p) => {
            // drop numbers from the signature, keep them in the message
            let sig: String =
                p.chars().filter(|c| !c.is_ascii_digit()).take(160).collect();
            fail(&format!("panic:{}", sig), format!("panic: {}", p))
        }
    }
}

// ------------------------------------------------------------------- shrinking

fn shrink(sub: &Sub, choices: &[u64], sig: &str, budget: Duration) -> (Vec<u64>, Fail) {
    let start = Instant::now();
    let mut best = choices.to_vec();
    let mut best_fail = Fail { sig: sig.to_string(), msg: String::new() };
    let fails = |c: &[u64]| -> Option<(Vec<u64>, Fail)> {
        let mut ok = None;
        for _ in 0..=sub.confirm.min(1) {
            let mut s = Src::replay(c);
            let mut ctx = Ctx::default();
            match run_case(sub, &mut s, &mut ctx) {
                Err(f) => {
                    if f.sig == sig {
                        ok = Some((s.rec, f));
                    } else {
                        return None;
                    }
                }
                Ok(()) => return None,
            }
        }
        ok
    };
    if let Some((c, f)) = fails(&best) {
        best = c;
        best_fail = f;
    }
    let smaller = |a: &Vec<u64>, b: &Vec<u64>| {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    };
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                let mut accepted = false;
                if let Some((c2, f)) = fails(&c) {
                    if smaller(&c2, &best) {
                        best = c2;
                        best_fail = f;
                        progress = true;
                        accepted = true;
                    }
                }
                // deletion plus decrement of a preceding length choice
                if !accepted && i > 0 && best[i - 1] > 0 && size <= 8 {
                    let mut c = best.clone();
                    let end = (i + size).min(c.len());
                    c.drain(i..end);
                    c[i - 1] -= 1;
                    if let Some((c2, f)) = fails(&c) {
                        if smaller(&c2, &best) {
                            best = c2;
                            best_fail = f;
                            progress = true;
                            accepted = true;
                        }
                    }
                }
                if !accepted {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise values
        for i in 0..best.len() {
            if start.elapsed() >= budget {
                break;
            }
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let mut cands = vec![0u64, 1, best[i] / 2, best[i] - 1];
            cands.dedup();
            for v in cands {
                if i >= best.len() || v >= best[i] {
                    continue;
                }
                let mut c = best.clone();
                c[i] = v;
                if let Some((c2, f)) = fails(&c) {
                    if smaller(&c2, &best) {
                        best = c2;
                        best_fail = f;
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    (best, best_fail)
}

// --------------------------------------------------------------- known findings

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

pub fn load_known() -> Vec<Known> {
    let mut out = Vec::new();
    if let Ok(s) = fs::read_to_string(format!("{}/known_findings.txt", root())) {
        for l in s.lines() {
            // known: property=<id> sig=<sig> :: <text>
            if !l.starts_with("known: property=") {
                continue;
            }
            let rest = &l["known: property=".len()..];
            let mut it = rest.splitn(2, " sig=");
            let property = it.next().unwrap_or("").to_string();
            let rest = it.next().unwrap_or("");
            let mut it = rest.splitn(2, " :: ");
            let sig = it.next().unwrap_or("").to_string();
            let text = it.next().unwrap_or("").to_string();
            out.push(Known { property, sig, text });
        }
    }
    out
}

// ----------------------------------------------------------------------- worker

fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    let mut r = Rng::new(
        seed.wrapping_mul(0x1000_0000_01b3)
            ^ fnv(prop.as_bytes())
            ^ fnv(sub.as_bytes()).rotate_left(17)
            ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15),
    );
    r.next()
}

pub fn worker(
    prop: &Prop,
    subname: &str,
    seed: u64,
    k: u64,
    n: u64,
    cases: u64,
    thorough: bool,
    dir: &str,
) {
    let sub = prop.subs.iter().find(|s| s.name == subname).expect("sub");
    let known = load_known();
    let mut cur = fs::File::create(format!("{}/cur.{}.{}", dir, subname, k)).unwrap();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut evals = 0u64;
    let mut excluded = 0u64;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<J> = None;
    let mut flaky: Option<J> = None;
    let stop = format!("{}/stop.{}", dir, subname);
    let result = |evals: u64, labels: &BTreeMap<String, u64>, samples: &Vec<String>, excluded: u64,
                  known_hits: &BTreeMap<String, u64>, violation: &Option<J>, flaky: &Option<J>,
                  hashes: &HashSet<u64>| {
        let out = json!({
            "evals": evals, "labels": labels, "samples": samples, "excluded": excluded,
            "known_hits": known_hits, "violation": violation, "flaky": flaky,
            "hashes": hashes.iter().cloned().collect::<Vec<u64>>(),
        });
        let tmp = format!("{}/out.{}.{}.tmp", dir, subname, k);
        fs::write(&tmp, out.to_string()).unwrap();
        fs::rename(&tmp, format!("{}/out.{}.{}", dir, subname, k)).unwrap();
    };
    let mut i = k;
    let begun = Instant::now();
    let soft: Option<u64> = std::env::var("VH_SOFT").ok().and_then(|s| s.parse().ok());
    // the case at work, and whether it is judged already
    let mut at = move |i: u64, judged: u64| {
        use std::io::{Seek, SeekFrom};
        let mut b = i.to_le_bytes().to_vec();
        b.extend_from_slice(&judged.to_le_bytes());
        let _ = cur.seek(SeekFrom::Start(0));
        let _ = cur.write_all(&b);
    };
    while i < cases {
        // another worker has found a violation
        if fs::metadata(&stop).is_ok() {
            break;
        }
        // the machine is too slow for all the cases
        if soft.map_or(false, |s| begun.elapsed() > Duration::from_secs(s)) {
            labels.insert("stopped-early".to_string(), 1);
            break;
        }
        at(i, 0);
        let cs = case_seed(seed, prop.id, sub.name, i);
        let mut src = Src::random(cs);
        let mut ctx = Ctx::default();
        ctx.worker = k as usize;
        ctx.thorough = thorough;
        ctx.want_sample = samples.len() < 3;
        let r = run_case(sub, &mut src, &mut ctx);
        if r.is_err() {
            at(i, 1);
        }
        evals += 1;
        excluded += ctx.excluded;
        for l in &ctx.labels {
            *labels.entry(l.clone()).or_insert(0) += 1;
        }
        if ctx.nontrivial {
            let mut b = Vec::with_capacity(src.rec.len() * 8);
            for c in &src.rec {
                b.extend_from_slice(&c.to_le_bytes());
            }
            hashes.insert(fnv(&b));
            if let Some(s) = ctx.sample.take() {
                samples.push(s);
            }
        }
        if let Err(f) = r {
            if known.iter().any(|q| q.property == prop.id && q.sig == f.sig) {
                *known_hits.entry(f.sig.clone()).or_insert(0) += 1;
            } else {
                // confirm
                let mut confirmed = 1;
                let mut lastf = f.clone();
                for _ in 0..sub.confirm * 3 {
                    if confirmed > sub.confirm {
                        break;
                    }
                    let mut s2 = Src::replay(&src.rec);
                    let mut c2 = Ctx::default();
                    c2.worker = k as usize;
                    match run_case(sub, &mut s2, &mut c2) {
                        Err(f2) => {
                            confirmed += 1;
                            lastf = f2;
                        }
                        Ok(()) => {}
                    }
                }
                if confirmed == 1 + sub.confirm {
                    violation = Some(json!({
                        "property": prop.id, "sub": sub.name, "sig": lastf.sig,
                        "msg": lastf.msg, "choices": src.rec, "original_choices": src.rec,
                        "case": i, "seed": seed
                    }));
                    result(evals, &labels, &samples, excluded, &known_hits, &violation, &flaky, &hashes);
                    let _ = fs::write(&stop, "");
                    let budget = if sub.confirm > 0 { 60 } else { 40 };
                    let (c, f2) =
                        shrink(sub, &src.rec, &lastf.sig, Duration::from_secs(budget));
                    let f2 = if f2.msg.is_empty() { lastf } else { f2 };
                    violation = Some(json!({
                        "property": prop.id, "sub": sub.name, "sig": f2.sig,
                        "msg": f2.msg, "choices": c, "original_choices": src.rec,
                        "case": i, "seed": seed
                    }));
                    break;
                } else {
                    flaky = Some(json!({"sub": sub.name, "sig": f.sig, "msg": f.msg,
                        "case": i, "choices": src.rec}));
                }
            }
        }
        i += n;
    }
    result(evals, &labels, &samples, excluded, &known_hits, &violation, &flaky, &hashes);
    // background threads of the code under test may still be running
    std::process::exit(0);
}

// ----------------------------------------------------------------------- parent

fn self_exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

enum Ended {
    Ok,
    Signal(i32),
    Code(i32),
    Timeout,
    /// one case went on for longer than STALL
    Stall,
}

/// How long a case may take.
const STALL: Duration = Duration::from_secs(200);
/// The same when it runs alone.
const STALL_ALONE: Duration = Duration::from_secs(150);

/// The case a worker is at, and whether it has been judged.
fn where_is(cur: &str) -> Option<(u64, u64)> {
    let b = fs::read(cur).ok()?;
    if b.len() != 16 {
        return None;
    }
    let (mut x, mut y) = ([0u8; 8], [0u8; 8]);
    x.copy_from_slice(&b[..8]);
    y.copy_from_slice(&b[8..]);
    Some((u64::from_le_bytes(x), u64::from_le_bytes(y)))
}

fn wait_all(mut kids: Vec<(u64, std::process::Child)>, mut deadline: Instant, stop: &str, cur: &str) -> Vec<(u64, Ended)> {
    use std::os::unix::process::ExitStatusExt;
    let mut out = Vec::new();
    let mut stopping = false;
    // per worker the case it is at, and for how long we have seen it there
    let mut seen: BTreeMap<u64, ((u64, u64), Duration)> = BTreeMap::new();
    let mut looked = Instant::now();
    while !kids.is_empty() {
        if !stopping && fs::metadata(stop).is_ok() {
            // a violation is found, what is left is to make it small
            stopping = true;
            deadline = deadline.min(Instant::now() + Duration::from_secs(90));
        }
        let mut j = 0;
        while j < kids.len() {
            match kids[j].1.try_wait() {
                Ok(Some(st)) => {
                    let e = if st.success() {
                        Ended::Ok
                    } else if let Some(s) = st.signal() {
                        Ended::Signal(s)
                    } else {
                        Ended::Code(st.code().unwrap_or(-1))
                    };
                    out.push((kids[j].0, e));
                    kids.remove(j);
                }
                _ => j += 1,
            }
        }
        let dt = looked.elapsed();
        if dt > Duration::from_millis(500) {
            looked = Instant::now();
            let mut j = 0;
            while j < kids.len() {
                let k = kids[j].0;
                let now = where_is(&format!("{}.{}", cur, k)).unwrap_or((0, 0));
                let e = seen.entry(k).or_insert((now, Duration::from_secs(0)));
                if e.0 != now || now.1 != 0 {
                    *e = (now, Duration::from_secs(0));
                } else {
                    // a machine that was stopped for a while is no stall
                    e.1 += dt.min(Duration::from_secs(1));
                }
                if e.1 > STALL {
                    let (k, mut c) = kids.remove(j);
                    let _ = c.kill();
                    let _ = c.wait();
                    out.push((k, Ended::Stall));
                } else {
                    j += 1;
                }
            }
        }
        if Instant::now() > deadline {
            for (k, mut c) in kids.drain(..) {
                let _ = c.kill();
                let _ = c.wait();
                out.push((k, Ended::Timeout));
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    out
}

/// Run one choice list in a process of its own: Some(Fail) if it fails or dies.
fn run_isolated(prop: &Prop, sub: &str, choices: &[u64], dir: &str) -> Option<Fail> {
    use std::os::unix::process::ExitStatusExt;
    let f = format!("{}/iso.json", dir);
    fs::write(
        &f,
        json!({"property": prop.id, "sub": sub, "choices": choices}).to_string(),
    )
    .unwrap();
    let mut c = Command::new(self_exe())
        .args(&["one", &f])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let start = Instant::now();
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            let mut s = String::new();
            if let Some(ref mut o) = c.stdout {
                let _ = o.read_to_string(&mut s);
            }
            if let Some(sg) = st.signal() {
                return Some(Fail {
                    sig: format!("crash:signal-{}", sg),
                    msg: format!("process under test died with signal {}", sg),
                });
            }
            for l in s.lines() {
                if l.starts_with("FAIL ") {
                    let j: J = serde_json::from_str(&l[5..]).unwrap_or(J::Null);
                    return Some(Fail {
                        sig: j["sig"].as_str().unwrap_or("?").into(),
                        msg: j["msg"].as_str().unwrap_or("?").into(),
                    });
                }
            }
            return None;
        }
        if start.elapsed() > STALL_ALONE {
            let _ = c.kill();
            let _ = c.wait();
            return Some(Fail { sig: "hang".into(), msg: "the case does not end".into() });
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn shrink_isolated(
    prop: &Prop,
    sub: &str,
    choices: &[u64],
    sig: &str,
    dir: &str,
    budget: Duration,
) -> Vec<u64> {
    let start = Instant::now();
    let mut best = choices.to_vec();
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                match run_isolated(prop, sub, &c, dir) {
                    Some(ref f) if f.sig == sig => {
                        best = c;
                        progress = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
    }
    best
}

pub fn run(prop: &Prop, tier: &str, seed: u64) -> i32 {
    let thorough = tier == "thorough";
    let start = Instant::now();
    let limit = Duration::from_secs(if thorough { 5400 } else { 790 });
    let soft: u64 = if thorough { 5000 } else { 540 };
    let dir = format!("/tmp/vh.{}.{}", prop.id, std::process::id());
    fs::create_dir_all(&dir).unwrap();
    let known: Vec<Known> =
        load_known().into_iter().filter(|k| k.property == prop.id).collect();
    let ncpu: u64 = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut excluded = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = Vec::new();
    let mut per_sub = serde_json::Map::new();
    let mut violations: Vec<J> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut flakies: Vec<J> = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let only = std::env::var("VH_SUB").ok();

    for sub in &prop.subs {
        if let Some(ref o) = only {
            if o != sub.name {
                continue;
            }
        }
        if !violations.is_empty() {
            break;
        }
        let cases = if thorough { sub.thorough } else { sub.quick };
        let n = if sub.workers == 0 { ncpu } else { sub.workers as u64 };
        let n = n.min(cases.max(1));
        let mut kids = Vec::new();
        for k in 0..n {
            let c = Command::new(self_exe())
                .args(&[
                    "worker", prop.id, sub.name, &seed.to_string(), &k.to_string(),
                    &n.to_string(), &cases.to_string(),
                    if thorough { "1" } else { "0" }, &dir,
                ])
                .env("VH_SOFT", format!("{}", soft.saturating_sub(start.elapsed().as_secs()).max(30)))
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(if std::env::var("VH_TRACE").is_ok() { Stdio::inherit() } else { Stdio::null() })
                .spawn()
                .unwrap();
            kids.push((k, c));
        }
        let ends = wait_all(kids, start + limit, &format!("{}/stop.{}", dir, sub.name), &format!("{}/cur.{}", dir, sub.name));
        let mut sub_evals = 0;
        let mut hs: HashSet<u64> = HashSet::new();
        for (k, e) in ends {
            if let Ok(s) = fs::read_to_string(format!("{}/out.{}.{}", dir, sub.name, k)) {
                let j: J = serde_json::from_str(&s).unwrap();
                sub_evals += j["evals"].as_u64().unwrap();
                excluded += j["excluded"].as_u64().unwrap_or(0);
                for h in j["hashes"].as_array().unwrap() {
                    hs.insert(h.as_u64().unwrap());
                }
                for (l, c) in j["labels"].as_object().unwrap() {
                    *labels.entry(format!("{}/{}", sub.name, l)).or_insert(0) +=
                        c.as_u64().unwrap();
                }
                for (l, c) in j["known_hits"].as_object().unwrap() {
                    *known_hits.entry(l.clone()).or_insert(0) += c.as_u64().unwrap();
                }
                for s in j["samples"].as_array().unwrap() {
                    if samples.iter().filter(|x| x["sub"] == sub.name).count() < 3 {
                        samples.push(json!({"sub": sub.name, "case": s}));
                    }
                }
                if !j["violation"].is_null() {
                    violations.push(j["violation"].clone());
                }
                if !j["flaky"].is_null() {
                    flakies.push(j["flaky"].clone());
                }
                continue;
            }
            match e {
                Ended::Timeout => errors.push(format!("worker {}/{} timed out", sub.name, k)),
                Ended::Ok => errors.push(format!("worker {}/{} left no result", sub.name, k)),
                Ended::Stall => {
                    let i = where_is(&format!("{}/cur.{}.{}", dir, sub.name, k)).map_or(0, |x| x.0);
                    sub_evals += 1;
                    if violations.iter().any(|v| v["sig"] == "hang") {
                        continue;
                    }
                    let choices = record_isolated(prop, sub.name, case_seed(seed, prop.id, sub.name, i), &dir);
                    match run_isolated(prop, sub.name, &choices, &dir) {
                        Some(f) => {
                            if known.iter().any(|q| q.sig == f.sig) {
                                *known_hits.entry(f.sig.clone()).or_insert(0) += 1;
                                continue;
                            }
                            violations.push(json!({
                                "property": prop.id, "sub": sub.name, "sig": f.sig,
                                "msg": f.msg, "choices": choices,
                                "original_choices": choices, "case": i, "seed": seed
                            }))
                        }
                        None => flakies.push(json!({"sub": sub.name, "sig": "hang",
                            "msg": "a case did not end, but does so alone", "case": i, "choices": choices})),
                    }
                }
                Ended::Code(_) | Ended::Signal(_) => {
                    let what = match e {
                        Ended::Signal(s) => format!("signal {}", s),
                        Ended::Code(c) => format!("exit {}", c),
                        _ => String::new(),
                    };
                    // which case was it running?
                    let i = match where_is(&format!("{}/cur.{}.{}", dir, sub.name, k)) {
                        Some(x) => x.0,
                        None => {
                            errors.push(format!("worker {}/{} died: {}", sub.name, k, what));
                            continue;
                        }
                    };
                    sub_evals += 1;
                    let cs = case_seed(seed, prop.id, sub.name, i);
                    let choices = record_isolated(prop, sub.name, cs, &dir);
                    let a = run_isolated(prop, sub.name, &choices, &dir);
                    let b2 = run_isolated(prop, sub.name, &choices, &dir);
                    match (a, b2) {
                        (Some(f), Some(f2)) => {
                            if known.iter().any(|q| q.sig == f.sig) {
                                *known_hits.entry(f.sig.clone()).or_insert(0) += 1;
                                continue;
                            }
                            let c = shrink_isolated(
                                prop, sub.name, &choices, &f2.sig, &dir,
                                Duration::from_secs(60),
                            );
                            violations.push(json!({
                                "property": prop.id, "sub": sub.name, "sig": f.sig,
                                "msg": f.msg, "choices": c,
                                "original_choices": choices, "case": i, "seed": seed
                            }));
                        }
                        _ => errors.push(format!(
                            "worker {}/{} died ({}) in case {} but the case does not fail alone",
                            sub.name, k, what, i
                        )),
                    }
                }
            }
        }
        evals += sub_evals;
        distinct += hs.len() as u64;
        per_sub.insert(
            sub.name.to_string(),
            json!({"evaluations": sub_evals, "distinct_nontrivial": hs.len()}),
        );
    }

    // directed reproductions of the known findings
    for k in &known {
        match prop.known.iter().find(|(s, _)| *s == k.sig) {
            Some((s, _)) => {
                let ok = Command::new(self_exe())
                    .args(&["known", prop.id, s])
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .status()
                    .map(|s| s.code() == Some(3))
                    .unwrap_or(false);
                if ok || known_hits.contains_key(&k.sig) {
                    println!("KNOWN-FINDING: property={} {}", prop.id, k.text);
                } else {
                    println!("note: known finding no longer seen: {}", k.text);
                }
            }
            None => {
                if known_hits.contains_key(&k.sig) {
                    println!("KNOWN-FINDING: property={} {}", prop.id, k.text);
                } else {
                    println!("note: known finding not reached in this run: {}", k.text);
                }
            }
        }
    }

    let mut code = 0;
    if !violations.is_empty() {
        let rdir = format!("{}/replays", root());
        let _ = fs::create_dir_all(&rdir);
        // one replay per signature
        let mut seen: HashSet<String> = HashSet::new();
        for v in &violations {
            let sig = v["sig"].as_str().unwrap_or("?").to_string();
            if !seen.insert(sig.clone()) {
                continue;
            }
            let p = format!("{}/{}-{:016x}.json", rdir, prop.id, fnv(sig.as_bytes()));
            fs::write(&p, serde_json::to_string_pretty(v).unwrap()).unwrap();
            println!("VIOLATION property={} replay={}", prop.id, p);
            println!("  [{}] {}", sig, v["msg"].as_str().unwrap_or(""));
        }
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}", e);
        }
        code = 2;
    }
    for f in &flakies {
        println!("note: unconfirmed (did not repeat): {}", f);
    }
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "per_check": per_sub,
            "classes": labels,
            "excluded_by_construction": excluded,
            "known_finding_hits": known_hits,
            "unconfirmed": flakies.len(),
            "errors": errors,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let _ = fs::create_dir_all(format!("{}/evidence", root()));
    fs::write(
        format!("{}/evidence/{}.json", root(), prop.id),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s, exit {}",
        prop.id, tier, evals, distinct, start.elapsed().as_secs_f64(), code
    );
    code
}

fn record_isolated(prop: &Prop, sub: &str, cs: u64, dir: &str) -> Vec<u64> {
    let f = format!("{}/rec", dir);
    let _ = fs::remove_file(&f);
    let c = Command::new(self_exe())
        .args(&["record", prop.id, sub, &cs.to_string(), &f])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    if let Ok(mut c) = c {
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(60) {
            if let Ok(Some(_)) = c.try_wait() {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        let _ = c.kill();
        let _ = c.wait();
    }
    fs::read_to_string(&f)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.parse().ok())
        .collect()
}

pub fn record(prop: &Prop, sub: &str, cs: u64, file: &str) {
    let sub = prop.subs.iter().find(|s| s.name == sub).expect("sub");
    let mut s = Src::random(cs);
    s.live = Some(fs::File::create(file).unwrap());
    let _ = run_case(sub, &mut s, &mut Ctx::default());
    std::process::exit(0);
}

/// replay one recorded case; prints FAIL json and exits 1 if it fails
pub fn one(props: &[Prop], file: &str) -> i32 {
    let j: J = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let prop = props.iter().find(|p| p.id == j["property"]).expect("property");
    let sub = prop.subs.iter().find(|s| s.name == j["sub"]).expect("sub");
    let choices: Vec<u64> = j["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| c.as_u64().unwrap())
        .collect();
    let mut src = Src::replay(&choices);
    let mut ctx = Ctx::default();
    ctx.want_sample = true;
    let r = run_case(sub, &mut src, &mut ctx);
    println!("case: {}", ctx.sample.unwrap_or_default());
    match r {
        Err(f) => {
            println!("FAIL {}", json!({"sig": f.sig, "msg": f.msg}));
            1
        }
        Ok(()) => {
            println!("PASS");
            0
        }
    }
}

pub fn known(prop: &Prop, sig: &str) -> i32 {
    let f = prop.known.iter().find(|(s, _)| *s == sig).expect("known").1;
    match guard(f) {
        Ok(Ok(())) => 0,
        Ok(Err(_)) | Err(_) => 3,
    }
}
