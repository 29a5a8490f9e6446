//! C23 console output: histories of deliveries and flushes through the real
//! sink, with standard output turned to a file.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::p_metric::{Model, SKey, V};
use crate::p_wave::{parts, Want};
use cernan::metric::{AggregationMethod as K, LogLine};
use cernan::sink::{Console, ConsoleConfig, Sink};
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::io::AsRawFd;
use tempdir::TempDir;

/// standard output, turned to a file until dropped
pub struct Capture {
    saved: i32,
    file: fs::File,
    at: u64,
    _dir: TempDir,
}
impl Capture {
    pub fn new() -> Capture {
        let dir = TempDir::new("vho").expect("scratch directory");
        let file = fs::OpenOptions::new().create(true).read(true).append(true).open(dir.path().join("out")).unwrap();
        std::io::stdout().flush().unwrap();
        let saved = unsafe {
            let s = libc::dup(1);
            libc::dup2(file.as_raw_fd(), 1);
            s
        };
        Capture { saved, file, at: 0, _dir: dir }
    }
    /// what was printed since the last call
    pub fn take(&mut self) -> Vec<u8> {
        std::io::stdout().flush().unwrap();
        let mut v = vec![];
        self.file.seek(SeekFrom::Start(self.at)).unwrap();
        self.file.read_to_end(&mut v).unwrap();
        self.at += v.len() as u64;
        v
    }
}
impl Drop for Capture {
    fn drop(&mut self) {
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(self.saved, 1);
            libc::close(self.saved);
        }
    }
}

/// can every want be given a value of its own?
fn matched(want: &[Want], got: &[f64]) -> bool {
    fn go(i: usize, want: &[Want], got: &[f64], seen: &mut Vec<bool>, by: &mut Vec<Option<usize>>) -> bool {
        for j in 0..got.len() {
            if seen[j] || !want[i].ok(got[j]) {
                continue;
            }
            seen[j] = true;
            if by[j].map_or(true, |k| go(k, want, got, seen, by)) {
                by[j] = Some(i);
                return true;
            }
        }
        false
    }
    let mut by = vec![None; got.len()];
    want.len() == got.len() && (0..want.len()).all(|i| go(i, want, got, &mut vec![false; got.len()], &mut by))
}

fn time_text(t: i64) -> String {
    let r = t.rem_euclid(86_400);
    format!("{}T{:02}:{:02}:{:02}.000Z", crate::p_http::date(t), r / 3600, r / 60 % 60, r % 60)
}

/// section, what is printed before the value, time
type Key = (&'static str, String, Option<i64>);

/// one line of a section
pub fn metric_line(section: &'static str, l: &str) -> Option<(Key, f64)> {
    if !l.starts_with("    ") {
        return None;
    }
    let l = &l[4..];
    if section == "summaries" {
        let sp = l.rfind(' ')?;
        let v = l[sp + 1..].parse().ok()?;
        return Some(((section, l[..sp].to_string(), None), v));
    }
    let sp = l.rfind("): ")?;
    let v = l[sp + 3..].parse().ok()?;
    let op = l[..sp].rfind('(')?;
    let t = l[op + 1..sp].parse().ok()?;
    Some(((section, l[..op].to_string(), Some(t)), v))
}

fn banner<'a>(rest: &'a [u8], head: &str) -> Option<&'a [u8]> {
    if !rest.starts_with(head.as_bytes()) {
        return None;
    }
    let nl = rest.iter().position(|b| *b == b'\n')?;
    Some(&rest[nl + 1..])
}

struct Out {
    path: String,
    value: String,
    time: i64,
    tags: Tags,
}

/// a log line at the start of `rest`; its tags in any order
fn log_line<'a>(rest: &'a [u8], o: &Out) -> Option<&'a [u8]> {
    let head = format!("{} {}: {}", time_text(o.time), o.path, o.value);
    if !rest.starts_with(head.as_bytes()) {
        return None;
    }
    let mut rest = &rest[head.len()..];
    let mut left: Vec<String> = o.tags.iter().map(|(k, v)| format!(" {}={}", k, v)).collect();
    // the longest first: one may begin like another
    left.sort_by_key(|x| std::cmp::Reverse(x.len()));
    while !left.is_empty() {
        let i = left.iter().position(|x| rest.starts_with(x.as_bytes()))?;
        rest = &rest[left.remove(i).len()..];
    }
    if rest.first() == Some(&b'\n') {
        Some(&rest[1..])
    } else {
        None
    }
}

fn console(s: &mut Src, c: &mut Ctx) -> Res {
    let w = s.pick(&[1i64, 1, 2, 10, 60]);
    let weird = s.chance(1, 5);
    let mixed = s.chance(1, 5);
    let now = cernan::time::now();
    let sink_tags = tags(s, 3);
    let mut series: Vec<(SKey, K, Option<Vec<f64>>)> = vec![];
    for _ in 0..s.usize(1, 5) {
        let nm = if weird {
            s.string(&chars("ab():. _=0é\"\u{1}"), 1, 6)
        } else {
            s.pick(&["a", "b", "ab", "c", "foo.bar"]).to_string()
        };
        let key = (nm, tags(s, 2));
        let k = kind(s);
        let b = if s.chance(1, 2) { Some(bounds(s)) } else { None };
        if series.iter().all(|x| x.0 != key) {
            series.push((key, k, b));
        }
    }
    let mut cfg = ConsoleConfig::default();
    cfg.bin_width = w;
    cfg.tags = tagmap(&sink_tags);
    cfg.config_path = Some("sinks.console".to_string());
    let mut sink = Some(Console::init(cfg));
    let mut m = Model::new(w);
    let mut log = vec![format!("width {} sink tags {:?}", w, sink_tags)];
    let mut cap = Capture::new();
    let stats: Vec<(String, f64)> = [("min", 0.0), ("max", 1.0), ("50", 0.5), ("90", 0.9), ("99", 0.99), ("999", 0.999)]
        .iter()
        .map(|x| (x.0.to_string(), x.1))
        .collect();
    let nfl = s.usize(1, 5);
    let (mut nlines, mut nmetrics, mut carried) = (0, 0, 0);
    for fl in 0..nfl {
        let mut k = sink.take().unwrap();
        let mut outs: Vec<Out> = vec![];
        for _ in 0..s.usize(0, 10) {
            if s.chance(1, 3) {
                let value = if s.chance(1, 3) { s.string(&chars("a b=:\n\té\u{1}"), 0, 8) } else { s.pick(&["x", "hello world", ""]).to_string() };
                let path = s.pick(&["/var/log/a", "p q", ""]).to_string();
                let time = match s.weighted(&[3, 2]) {
                    0 => now + s.range(-100, 100),
                    _ => s.range(-62_000_000_000, 253_000_000_000),
                };
                let own = tags(s, 3);
                let mut l = LogLine::new(path.clone(), value.clone()).time(time);
                for (k, v) in &own {
                    l = l.overlay_tag(k.clone(), v.clone());
                }
                if s.chance(1, 3) {
                    l = l.insert_field("field", "not printed");
                }
                let mut all = sink_tags.clone();
                all.extend(own);
                log.push(format!("line {:?} {:?} at {} tags {:?}", path, value, time, all));
                k.deliver_line(l);
                outs.push(Out { path, value, time, tags: all });
            } else {
                let i = s.draw(series.len() as u64) as usize;
                let (ref key, sk, ref b) = series[i];
                let kd = if mixed { kind(s) } else { sk };
                let ts = match s.weighted(&[5, 1]) {
                    0 => now - 4 * w + s.range(0, 7 * w),
                    _ => s.range(0, 4_000_000_000),
                };
                let persist = s.chance(1, 5);
                let vals: Vec<f64> = (0..many(s, 3)).map(|_| exact(s)).collect();
                let mut v = V::new(kd, vals[0], b);
                for x in &vals[1..] {
                    v.insert(*x);
                }
                log.push(format!("deliver {:?} {:?} {:?} ts={} persist={}", key, kd, vals, ts, persist));
                k.deliver(build(&Pt {
                    name: key.0.clone(),
                    kind: kd,
                    tags: key.1.clone(),
                    ts,
                    persist,
                    vals,
                    bounds: if kd == K::Histogram { b.clone() } else { None },
                    error: None,
                }));
                m.add(key.clone(), ts, v, persist);
            }
        }
        let early = cap.take();
        ensure!(early.is_empty(), "console-early", "printed before a flush: {:?}\n{}", String::from_utf8_lossy(&early), log.join("\n"));
        let mut want: BTreeMap<Key, Vec<Want>> = BTreeMap::new();
        for (key, bins) in &m.m {
            for e in bins {
                let (section, t) = match e.v {
                    V::Set(_) => ("sets", Some(e.ts)),
                    V::Sum(_) => ("sums", Some(e.ts)),
                    V::Hist { .. } => ("histograms", Some(e.ts)),
                    V::Quant { .. } => ("summaries", None),
                };
                for (suffix, x) in parts(&e.v, &stats) {
                    if section == "summaries" {
                        if suffix == ".count" || suffix == ".mean" {
                            continue;
                        }
                        want.entry((section, format!("{}: {}", key.0, &suffix[1..]), t)).or_insert_with(Vec::new).push(x);
                    } else {
                        want.entry((section, format!("{}{}", key.0, suffix), t)).or_insert_with(Vec::new).push(x);
                    }
                }
            }
        }
        let end = fl + 1 == nfl;
        log.push(if end { "shutdown".to_string() } else { "flush".to_string() });
        if end {
            k.shutdown();
        } else {
            k.flush();
            sink = Some(k);
        }
        let out = cap.take();
        let show = |r: &[u8]| format!("at {:?}\nin\n{}\nafter\n{}", String::from_utf8_lossy(&r[..r.len().min(80)]), String::from_utf8_lossy(&out), log.join("\n"));
        let mut rest: &[u8] = &out;
        rest = match banner(rest, "Flushing lines: ") {
            Some(r) => r,
            None => return fail("console-format", format!("no heading of lines {}", show(rest))),
        };
        for o in &outs {
            rest = match log_line(rest, o) {
                Some(r) => r,
                None => {
                    return fail(
                        "console-line",
                        format!("expected the line {:?} {:?} {:?} {:?} {}", time_text(o.time), o.path, o.value, o.tags, show(rest)),
                    )
                }
            };
        }
        rest = match banner(rest, "Flushing metrics: ") {
            Some(r) => r,
            None => return fail("console-line", format!("something after the last line {}", show(rest))),
        };
        let text = match std::str::from_utf8(rest) {
            Ok(t) => t,
            Err(_) => return fail("console-format", format!("not UTF-8 {}", show(rest))),
        };
        let mut got: BTreeMap<Key, Vec<f64>> = BTreeMap::new();
        let mut section = None;
        let mut seen = vec![];
        ensure!(text.ends_with('\n'), "console-format", "the last line is not terminated {}", show(rest));
        for l in text[..text.len() - 1].split('\n') {
            let head = ["sums", "sets", "summaries", "histograms"].iter().find(|h| format!("  {}:", h) == l);
            if let Some(h) = head {
                section = Some(*h);
                seen.push(*h);
                continue;
            }
            match section.and_then(|x| metric_line(x, l)) {
                Some((k, v)) => got.entry(k).or_insert_with(Vec::new).push(v),
                None => return fail("console-format", format!("malformed line {:?} {}", l, show(rest))),
            }
        }
        seen.sort();
        ensure!(seen == ["histograms", "sets", "summaries", "sums"], "console-format", "headings {:?} {}", seen, show(rest));
        for (k, v) in &want {
            nmetrics += v.len();
            let g = got.remove(k).unwrap_or_default();
            ensure!(matched(v, &g), "console-value", "{:?} is printed with {:?}, expected {:?} {}", k, g, v, show(rest));
        }
        ensure!(got.is_empty(), "console-extra", "not delivered, but printed: {:?} {}", got, show(rest));
        nlines += outs.len();
        carried += m.m.values().filter(|b| b.last().map_or(false, |e| e.persist)).count();
        m.reset();
    }
    c.nontrivial = nmetrics > 1 && nlines > 0;
    c.label_if(carried > 0, "carried-forward");
    c.label_if(weird, "odd-names");
    c.label_if(mixed, "mixed-kinds");
    c.sample(|| log.join("; "));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        level: "exploration",
        rule: "random histories of deliveries, log lines and flushes through the real sink with standard output turned to a file, parsed strictly and compared with a model of the aggregates; non-trivial = log lines and several statistics",
        assumptions: &["the clock stands still during a case", "values are finite, names have no newline"],
        subs: vec![Sub { name: "console", quick: 40_000, thorough: 1_000_000, workers: 0, confirm: 0, f: console }],
        known: vec![],
    }]
}
