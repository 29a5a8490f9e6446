//! C21 file tailing: histories of operations on watched files, through the
//! real file source.
use crate::core::*;
use crate::ensure;
use crate::io::*;
use cernan::metric::Event;
use cernan::source::{FileServer, FileServerConfig, Source};
use cernan::thread::{Stoppable, ThreadHandle};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::fs;
use std::io::Write;
use std::os::unix::fs as ufs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use tempdir::TempDir;

const WAIT: Duration = Duration::from_secs(20);

struct Watched {
    path: PathBuf,
    /// the path of the real file, when `path` is a link to it
    link: Option<PathBuf>,
    w: Option<fs::File>,
    /// what follows the last terminator
    partial: Vec<u8>,
    want: Vec<String>,
    /// empty lines since the file was last settled
    empties: usize,
    /// nothing happened since the source was given time
    settled: bool,
    gen: usize,
}

struct Rig {
    tap: Tap,
    th: Option<ThreadHandle>,
    beacon: fs::File,
    beacon_path: String,
    nbeacon: usize,
    got: BTreeMap<String, Vec<String>>,
    odd: Option<String>,
}

impl Rig {
    fn take(&mut self, ev: Event) {
        match ev {
            Event::Log(l) => {
                if !l.fields.is_empty() || l.tags.as_ref().map_or(false, |t| !t.is_empty()) {
                    self.odd = Some(format!("a line with fields or tags: {:?}", l));
                }
                self.got.entry(l.path.clone()).or_insert_with(Vec::new).push(l.value.clone());
            }
            o => self.odd = Some(format!("{:?}", o)),
        }
    }
    fn pump(&mut self, d: Duration) -> bool {
        match self.tap.next(d) {
            None => false,
            Some(ev) => {
                self.take(ev);
                true
            }
        }
    }
    fn count(&self, p: &str) -> usize {
        self.got.get(p).map_or(0, |v| v.len())
    }
    /// after this every file has been polled at least once since the call
    fn turn(&mut self) -> Result<(), Fail> {
        for _ in 0..2 {
            let n = self.nbeacon;
            self.nbeacon += 1;
            self.beacon.write_all(format!("beacon {}\n", n).as_bytes()).unwrap();
            let start = Instant::now();
            let p = self.beacon_path.clone();
            while self.count(&p) <= n {
                if !self.pump(Duration::from_millis(500)) && start.elapsed() > WAIT {
                    return fail("file-lost", format!("the line \"beacon {}\" of {} was not emitted; panics {:?}", n, p, take_panics()));
                }
            }
        }
        Ok(())
    }
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

fn content(s: &mut Src, id: &mut usize) -> Vec<u8> {
    *id += 1;
    let mut b = format!("{} ", id).into_bytes();
    match s.weighted(&[6, 3, 2, 1, 1, 1, 1, 1]) {
        0 => b.extend(s.string(&['a', 'b', ' ', '\t', ','], 0, 12).into_bytes()),
        1 => b.extend(s.string(&['é', '漢', '🦀', 'x', '\u{2028}', '\u{85}'], 1, 8).into_bytes()),
        2 => {
            let n = s.usize(1, 9);
            for _ in 0..n {
                let x = s.draw(256) as u8;
                b.push(if x == b'\n' { b'n' } else { x });
            }
        }
        3 => {
            let n = s.pick(&[8190usize, 8191, 8192, 8193, 20_000, 200_000]);
            b.extend(std::iter::repeat(b'L').take(n));
        }
        4 => b.extend(b"\r"),
        5 => b.extend(b"\0\x0b\x0c"),
        6 => b = b"\r".to_vec(),
        _ => b.clear(),
    }
    b
}

fn open_append(p: &Path) -> fs::File {
    fs::OpenOptions::new().append(true).create(true).open(p).unwrap()
}

fn check(r: &Rig, fs: &[Watched], log: &[String], full: bool) -> Res {
    if let Some(ref o) = r.odd {
        return fail("file-event", format!("the source sent {}\n{}", o, log.join("\n")));
    }
    for (p, g) in &r.got {
        if *p == r.beacon_path {
            for (i, l) in g.iter().enumerate() {
                ensure!(*l == format!("beacon {}", i), "file-lines", "line {} of the beacon file is {:?}\n{}", i, l, log.join("\n"));
            }
            continue;
        }
        let w = match fs.iter().find(|w| w.path.to_string_lossy() == p.as_str()) {
            None => return fail("file-path", format!("lines of a path not watched: {:?} {:?}\n{}", p, g, log.join("\n"))),
            Some(w) => w,
        };
        for (i, l) in g.iter().enumerate() {
            let want = w.want.get(i);
            ensure!(
                want == Some(l),
                "file-lines",
                "line {} of {} is {}, expected {}\n{}",
                i,
                p,
                short(l),
                want.map_or("none".to_string(), |x| short(x)),
                log.join("\n")
            );
        }
    }
    if full {
        for w in fs {
            let n = r.count(&w.path.to_string_lossy());
            ensure!(
                n == w.want.len(),
                "file-lost",
                "{} has {} lines, {} were emitted; the first missing is {}\n{}\npanics {:?}",
                w.path.display(),
                w.want.len(),
                n,
                short(&w.want[n]),
                log.join("\n"),
                take_panics()
            );
        }
    }
    Ok(())
}

fn short(s: &str) -> String {
    if s.len() > 120 {
        format!("{:?}.. ({} bytes)", s.chars().take(30).collect::<String>(), s.len())
    } else {
        format!("{:?}", s)
    }
}

/// wait until all lines are there and the source has seen the end of every file
fn settle(r: &mut Rig, fs: &mut [Watched], log: &[String]) -> Res {
    let start = Instant::now();
    while fs.iter().any(|w| r.count(&w.path.to_string_lossy()) < w.want.len()) {
        if !r.pump(Duration::from_millis(200)) {
            check(r, fs, log, false)?;
            // keep the source from dozing off
            r.turn()?;
            if start.elapsed() > WAIT {
                break;
            }
        }
    }
    let n = 1 + fs.iter().map(|w| if w.settled { 0 } else { w.empties + 1 }).max().unwrap_or(0);
    for _ in 0..n {
        r.turn()?;
    }
    check(r, fs, log, true)?;
    for w in fs.iter_mut() {
        w.settled = true;
        w.empties = 0;
    }
    Ok(())
}

fn tail(s: &mut Src, c: &mut Ctx) -> Res {
    let _ = take_panics();
    let dir = TempDir::new("vhf").expect("scratch directory");
    let deep = s.chance(1, 3);
    // the pattern library finds a name which is not UTF-8 only below `**`
    let odd_name = deep && s.chance(1, 3);
    let sub = if odd_name {
        dir.path().join(OsStr::from_bytes(b"d\xff\xfe"))
    } else {
        dir.path().join(s.pick(&["d", "d é", "d-漢"]))
    };
    fs::create_dir(&sub).unwrap();
    let real = dir.path().join("real");
    fs::create_dir(&real).unwrap();
    let mut log: Vec<String> = vec![];
    let mut id = 0;
    let nfiles = s.usize(1, 3);
    let mut files: Vec<Watched> = vec![];
    for ix in 0..nfiles {
        let path = sub.join(format!("{}.log", ["a", "b.b", "c é"][ix]));
        let link = if s.chance(1, 5) { Some(real.join(format!("t{}.0", ix))) } else { None };
        let mut w = Watched {
            path,
            link,
            w: None,
            partial: vec![],
            want: vec![],
            empties: 0,
            settled: true,
            gen: 0,
        };
        if !s.chance(1, 4) {
            let mut f = open_append(w.link.as_ref().unwrap_or(&w.path));
            if let Some(ref l) = w.link {
                ufs::symlink(l, &w.path).unwrap();
            }
            let n = s.usize(0, 3);
            for _ in 0..n {
                let mut b = content(s, &mut id);
                b.push(b'\n');
                f.write_all(&b).unwrap();
            }
            log.push(format!("{} exists with {} lines, link {}", w.path.display(), n, w.link.is_some()));
            w.w = Some(f);
        }
        files.push(w);
    }
    let bpath = sub.join("beacon.log");
    let beacon = open_append(&bpath);
    let max_read_bytes = s.pick(&[2048, 16, 1]);
    let pattern = if deep { dir.path().join("**").join("*.log") } else { sub.join("*.log") };
    log.push(format!("pattern {} max_read_bytes {}", pattern.display(), max_read_bytes));
    let tap = Tap::new();
    let th = cernan::source::FileServer::init(FileServerConfig {
        path: Some(pattern),
        max_read_bytes,
        forwards: vec![],
        config_path: Some("sources.files.a".to_string()),
    });
    let chans = tap.chans();
    let th = cernan::thread::spawn(move |poll| FileServer::run(th, chans, poll));
    let mut r = Rig {
        tap,
        th: Some(th),
        beacon,
        beacon_path: bpath.to_string_lossy().to_string(),
        nbeacon: 0,
        got: BTreeMap::new(),
        odd: None,
    };
    // the source starts to read at the ends it finds: wait until it is there
    let start = Instant::now();
    let mut tries = 0;
    while r.count(&r.beacon_path) == 0 {
        ensure!(start.elapsed() < WAIT, "file-lost", "no line was emitted at all; panics {:?}", take_panics());
        r.beacon.write_all(b"hello\n").unwrap();
        tries += 1;
        r.pump(Duration::from_millis(5));
    }
    ensure!(r.odd.is_none(), "file-event", "the source sent {:?}", r.odd);
    // all the hellos from the first seen on arrive
    r.beacon.write_all(b"start\n").unwrap();
    let p = r.beacon_path.clone();
    while r.got.get(&p).and_then(|v| v.last()).map(|x| x.as_str()) != Some("start") {
        if !r.pump(Duration::from_millis(500)) && start.elapsed() > WAIT {
            return fail("file-lost", format!("the line \"start\" was not emitted after {:?}; panics {:?}", r.got, take_panics()));
        }
    }
    let hello = r.got.remove(&p).unwrap();
    ensure!(
        hello.len() <= tries + 1 && hello[..hello.len() - 1].iter().all(|x| x == "hello"),
        "file-lines",
        "{} hellos written, emitted {:?}",
        tries,
        hello
    );
    for w in files.iter_mut() {
        w.settled = true;
    }
    let nops = s.usize(1, 14);
    let (mut parts, mut rots, mut truncs, mut dels) = (0, 0, 0, 0);
    for _ in 0..nops {
        let ix = s.usize(0, nfiles - 1);
        let op = s.weighted(&[12, 3, 3, 2, 2, 1]);
        if files[ix].w.is_none() {
            // appears; read from its end as found
            let w = &mut files[ix];
            let f = open_append(w.link.as_ref().unwrap_or(&w.path));
            if let Some(ref l) = w.link {
                ufs::symlink(l, &w.path).unwrap();
            }
            w.w = Some(f);
            log.push(format!("{} appears", w.path.display()));
            settle(&mut r, &mut files, &log)?;
            continue;
        }
        match op {
            0 => {
                let n = s.usize(1, 5);
                let mut bytes = vec![];
                let w = &mut files[ix];
                let mut fresh = std::mem::replace(&mut w.partial, vec![]);
                let skip = fresh.len();
                for k in 0..n {
                    let b = content(s, &mut id);
                    fresh.extend(&b);
                    if k + 1 < n || !s.chance(1, 3) {
                        if fresh.is_empty() {
                            w.empties += 1;
                        }
                        w.want.push(lossy(&fresh));
                        bytes.extend(&fresh);
                        bytes.push(b'\n');
                        fresh.clear();
                    }
                }
                bytes.extend(&fresh);
                w.partial = fresh;
                let bytes = bytes[skip..].to_vec();
                w.settled = false;
                // an empty line is never an event
                w.want.retain(|x| !x.is_empty());
                let pieces = if s.chance(1, 2) { cuts(s, &bytes, 6) } else { vec![bytes] };
                let mut turns = vec![];
                for (i, p) in pieces.iter().enumerate() {
                    w.w.as_mut().unwrap().write_all(p).unwrap();
                    if i + 1 < pieces.len() {
                        let t = s.chance(1, 3);
                        turns.push(t);
                        if t {
                            r.turn()?;
                            parts += 1;
                        }
                    }
                }
                log.push(format!(
                    "append {} {:?}",
                    w.path.display(),
                    pieces.iter().map(|p| short(&lossy(p))).collect::<Vec<_>>()
                ));
                if !w.partial.is_empty() {
                    parts += 1;
                }
                check(&r, &files, &log, false)?;
            }
            1 => {
                log.push("settle".to_string());
                settle(&mut r, &mut files, &log)?;
            }
            2 => {
                // the file changes its name, another one takes its place; what
                // was in the old one is still read
                if files[ix].gen > 0 || files[ix].link.is_some() {
                    settle(&mut r, &mut files, &log)?;
                }
                rots += 1;
                let w = &mut files[ix];
                w.gen += 1;
                let keep = w.partial.len();
                w.partial.clear();
                let tmp = sub.join(format!("n{}.{}", ix, w.gen));
                let mut bytes = vec![];
                for _ in 0..s.usize(0, 2) {
                    let b = content(s, &mut id);
                    if !b.is_empty() {
                        w.want.push(lossy(&b));
                    } else {
                        w.empties += 1;
                    }
                    bytes.extend(b);
                    bytes.push(b'\n');
                }
                if w.link.is_some() {
                    let to = real.join(format!("t{}.{}", ix, w.gen));
                    let mut f = open_append(&to);
                    f.write_all(&bytes).unwrap();
                    ufs::symlink(&to, &tmp).unwrap();
                    fs::rename(&tmp, &w.path).unwrap();
                    w.link = Some(to);
                    w.w = Some(f);
                } else {
                    let mut f = open_append(&tmp);
                    f.write_all(&bytes).unwrap();
                    fs::hard_link(&w.path, sub.join(format!("old{}.{}", ix, w.gen))).unwrap();
                    fs::rename(&tmp, &w.path).unwrap();
                    w.w = Some(f);
                }
                w.settled = false;
                log.push(format!("rotate {} (unterminated bytes left: {}) starts with {}", w.path.display(), keep, short(&lossy(&bytes))));
            }
            3 => {
                // truncated, and written again with less than there was
                settle(&mut r, &mut files, &log)?;
                truncs += 1;
                let w = &mut files[ix];
                let f = w.w.as_mut().unwrap();
                let old = f.metadata().unwrap().len();
                w.partial.clear();
                f.set_len(0).unwrap();
                let mut b = content(s, &mut id);
                b.push(b'\n');
                let again = (b.len() as u64) < old && s.chance(1, 2);
                if again {
                    f.write_all(&b).unwrap();
                    b.pop();
                    if b.is_empty() {
                        w.empties += 1;
                    } else {
                        w.want.push(lossy(&b));
                    }
                }
                log.push(format!("truncate {} of {} bytes, then {}", w.path.display(), old, if again { short(&lossy(&b)) } else { "-".to_string() }));
                w.settled = false;
                settle(&mut r, &mut files, &log)?;
            }
            4 => {
                settle(&mut r, &mut files, &log)?;
                dels += 1;
                let w = &mut files[ix];
                log.push(format!("delete {}", w.path.display()));
                fs::remove_file(&w.path).unwrap();
                w.partial.clear();
                w.w = None;
                w.settled = false;
                settle(&mut r, &mut files, &log)?;
                r.turn()?;
                if files[ix].link.is_some() {
                    files[ix].gen += 1;
                    files[ix].link = Some(real.join(format!("t{}.{}", ix, files[ix].gen)));
                }
            }
            _ => {
                // a file which nobody asked for
                let mut f = open_append(&sub.join("other.txt"));
                f.write_all(b"not this\n").unwrap();
                log.push("write to a file that is not watched".to_string());
            }
        }
    }
    settle(&mut r, &mut files, &log)?;
    let th = r.th.take().unwrap();
    let stopped = join_within(Duration::from_secs(20), move || th.shutdown());
    ensure!(stopped == Some(Ok(())), "file-shutdown", "the source does not shut down ({:?}); panics {:?}\n{}", stopped, take_panics(), log.join("\n"));
    let Rig { tap, mut got, .. } = r;
    let rest = tap.drain();
    ensure!(rest == vec![Event::Shutdown], "file-shutdown", "at the end the source sent {:?}\n{}", rest, log.join("\n"));
    got.clear();
    c.nontrivial = files.iter().any(|w| w.want.len() > 1);
    c.label_if(odd_name, "path-not-utf8");
    c.label_if(parts > 0, "line-in-parts");
    c.label_if(rots > 0, "rotation");
    c.label_if(truncs > 0, "truncation");
    c.label_if(dels > 0, "deletion");
    c.sample(|| log.join("; "));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        level: "exploration",
        rule: "random histories of appends (in pieces, unterminated, not UTF-8, long), rotations by rename, truncations, deletions and re-creations of one to three watched files and links, through the real file source; non-trivial = a file with several lines",
        assumptions: &[
            "a file that is new, or re-created after a deletion, is given one turn of the source before it is written to, because it is read from the end at which it is found",
            "between two rotations, before and after a truncation, and before a deletion the source has caught up",
        ],
        subs: vec![Sub { name: "tail", quick: 8_000, thorough: 120_000, workers: 0, confirm: 2, f: tail }],
        known: vec![],
    }]
}
