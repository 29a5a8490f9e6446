//! C04 cernan-to-cernan transport: the native sink against a native source.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use cernan::metric::{AggregationMethod, Event, LogLine, Telemetry};
use cernan::sink::{Native, NativeConfig, Sink};
use cernan::source::{NativeServer, NativeServerConfig, Source};
use cernan::thread::{Stoppable, ThreadHandle};
use std::sync::mpsc;
use std::thread;
use std::time::Duration;

enum Cmd {
    Deliver(Event),
    Flush,
    Shutdown,
}

/// The sink in a thread of its own: flushing blocks while the peer is away.
struct Remote {
    tx: mpsc::Sender<Cmd>,
    done: mpsc::Receiver<()>,
}
impl Remote {
    fn start(conf: NativeConfig) -> Remote {
        let (tx, rx) = mpsc::channel();
        let (dtx, done) = mpsc::channel();
        thread::spawn(move || {
            let mut sink = Some(<Native as Sink<NativeConfig>>::init(conf));
            let _ = dtx.send(());
            for cmd in rx {
                match cmd {
                    Cmd::Deliver(Event::Telemetry(t)) => sink.as_mut().unwrap().deliver(t),
                    Cmd::Deliver(Event::Log(l)) => sink.as_mut().unwrap().deliver_line(l),
                    Cmd::Deliver(Event::Raw { order_by, encoding, bytes, metadata, connection_id }) => {
                        sink.as_mut().unwrap().deliver_raw(order_by, encoding, bytes, metadata, connection_id)
                    }
                    Cmd::Deliver(_) => {}
                    Cmd::Flush => sink.as_mut().unwrap().flush(),
                    Cmd::Shutdown => sink.take().unwrap().shutdown(),
                }
                if dtx.send(()).is_err() || sink.is_none() {
                    return;
                }
            }
        });
        Remote { tx, done }
    }
    fn ask(&self, c: Cmd) {
        let _ = self.tx.send(c);
    }
    fn wait(&self, secs: u64) -> bool {
        self.done.recv_timeout(Duration::from_secs(secs)).is_ok()
    }
}

fn peer(port: u16, tap: &Tap) -> ThreadHandle {
    NativeServer::new(
        tap.chans(),
        NativeServerConfig { ip: "127.0.0.1".to_string(), port, forwards: vec![], config_path: Some("n".to_string()) }.into(),
    )
    .run()
}

/// a point with the sink's tags filled in
fn with_tags_t(t: &Telemetry, tags: &Tags) -> Telemetry {
    let mut t = t.clone();
    let own: Vec<String> = t.tags(&Default::default()).map(|(k, _)| k.clone()).collect();
    for (k, v) in tags {
        if !own.contains(k) {
            t = t.overlay_tag(k.clone(), v.clone());
        }
    }
    t
}
fn with_tags_l(l: &LogLine, tags: &Tags) -> LogLine {
    let mut l = l.clone();
    l.fields.clear();
    let own: Vec<String> = l.tags(&Default::default()).map(|(k, _)| k.clone()).collect();
    for (k, v) in tags {
        if !own.contains(k) {
            l = l.overlay_tag(k.clone(), v.clone());
        }
    }
    l
}

struct Want {
    what: String,
    /// only what survives the transport of an event whose samples do not
    loose: String,
    lossy: Option<&'static str>,
}

fn loosely(t: &Telemetry) -> String {
    let mut tags: Vec<(String, String)> = t.tags(&Default::default()).map(|(k, v)| (k.clone(), v.clone())).collect();
    tags.sort();
    format!("{:?} {:?} {} {} {:?}", t.name, t.kind(), t.timestamp, t.persist, tags)
}

fn wanted(e: &Event, tags: &Tags) -> Option<Want> {
    match *e {
        Event::Telemetry(ref t) => {
            let t = with_tags_t(t, tags);
            let lossy = match t.kind() {
                AggregationMethod::Histogram => Some("native-histogram-samples"),
                AggregationMethod::Summarize if t.count() > 300 => Some("native-summary-compressed"),
                _ => None,
            };
            Some(Want { what: sorted_obs(&t), loose: loosely(&t), lossy })
        }
        Event::Log(ref l) => {
            let l = with_tags_l(l, tags);
            Some(Want { what: logobs(&l), loose: String::new(), lossy: None })
        }
        _ => None,
    }
}

fn sorted_obs(t: &Telemetry) -> String {
    let mut smp = t.samples();
    smp.sort_by(|a, b| a.partial_cmp(b).unwrap());
    format!("{} set={:?} sum={:?} total={:?} n={} samples={:?}", loosely(t), t.set(), t.sum(), t.samples_sum(), t.count(), smp)
}

fn transport(s: &mut Src, c: &mut Ctx) -> Res {
    let port = port(c.worker);
    let tap = Tap::new();
    take_panics();
    let sink_tags = tags(s, 3);
    let mut up = if s.chance(1, 6) { None } else { Some(peer(port, &tap)) };
    let sink = Remote::start(NativeConfig {
        port,
        host: "127.0.0.1".to_string(),
        config_path: Some("sinks.native".to_string()),
        flush_interval: 60,
        tags: tagmap(&sink_tags),
    });
    if !sink.wait(10) {
        return fail("native-init", "the sink does not start".to_string());
    }
    let big = s.chance(1, 25);
    let lossy_ok = s.chance(1, 12);
    let n = s.usize(1, 30);
    let mut log: Vec<String> = vec![];
    let mut held: Vec<(Want, bool)> = vec![];
    let mut sent: Vec<Want> = vec![];
    let mut got: Vec<Event> = vec![];
    let mut flushes = 0;
    let (mut empty, mut restarts, mut away) = (0, 0, 0);
    let mut hasty = 0;
    let mut no = 0;
    let commit = |held: &mut Vec<(Want, bool)>, sent: &mut Vec<Want>| {
        let (points, lines): (Vec<_>, Vec<_>) = held.drain(..).partition(|x| x.1);
        sent.extend(points.into_iter().map(|x| x.0));
        sent.extend(lines.into_iter().map(|x| x.0));
    };
    let recv = |got: &mut Vec<Event>, n: usize| -> bool {
        while got.len() < n {
            match tap.next(Duration::from_secs(10)) {
                Some(Event::Shutdown) => {}
                Some(e) => got.push(e),
                None => return false,
            }
        }
        true
    };
    for step in 0..=n {
        let op = if step == n { 3 } else { s.weighted(&[12, 4, 2]) };
        match op {
            0 => {
                no += 1;
                let ts = match s.weighted(&[6, 2, 1]) {
                    0 => s.range(0, 4_000_000_000),
                    1 => s.range(-5000, 5000),
                    _ => s.pick(&[9_007_199_254_740i64, -9_007_199_254_740, 0]),
                };
                let e = match s.weighted(&[6, 3, 1]) {
                    0 => {
                        let mut k = kind(s);
                        if k == AggregationMethod::Histogram && !lossy_ok {
                            k = AggregationMethod::Summarize;
                        }
                        let nv = if lossy_ok && k == AggregationMethod::Summarize && s.chance(1, 3) { 1500 } else { s.usize(1, 30) };
                        Event::Telemetry(build(&Pt {
                            name: format!("{}-{}", name(s), no),
                            kind: k,
                            tags: tags(s, 3),
                            ts,
                            persist: s.chance(1, 3),
                            vals: (0..nv).map(|_| exact(s)).collect(),
                            bounds: None,
                            error: None,
                        }))
                    }
                    1 => {
                        let mut l = logline(s, ts);
                        l.value = format!("{}-{}", l.value, no);
                        if big {
                            l.value.push_str(&"z".repeat(s.pick(&[300_000usize, 500_000, 20_000])));
                        }
                        if s.chance(1, 4) {
                            // fields are not part of what is transported
                            l.fields.insert("f".to_string(), "v".to_string());
                        }
                        Event::Log(l)
                    }
                    _ => raw(s),
                };
                log.push(format!("deliver {}", evobs(&e).chars().take(120).collect::<String>()));
                if let Some(w) = wanted(&e, &sink_tags) {
                    held.push((w, if let Event::Telemetry(_) = e { true } else { false }));
                }
                sink.ask(Cmd::Deliver(e));
                ensure!(sink.wait(10), "native-deliver", "deliver does not return: {:?}; {:?}", log, take_panics());
            }
            1 | 3 => {
                // flush (or shut down)
                if s.chance(1, 8) && up.is_some() && got.len() == sent.len() {
                    thread::sleep(Duration::from_millis(2));
                    if let Some(e) = tap.now().into_iter().find(|e| *e != Event::Shutdown) {
                        return fail("native-early", format!("{} arrived without a flush: {:?}", evobs(&e), log));
                    }
                }
                if held.is_empty() {
                    empty += 1;
                }
                log.push(if op == 3 { "shutdown".to_string() } else { "flush".to_string() });
                sink.ask(if op == 3 { Cmd::Shutdown } else { Cmd::Flush });
                commit(&mut held, &mut sent);
                if up.is_none() && (op == 3 || s.chance(2, 3)) {
                    // it returns when the peer is back, or has nothing to send
                    thread::sleep(Duration::from_millis(s.pick(&[1u64, 5, 20])));
                    up = Some(peer(port, &tap));
                    log.push("peer up".to_string());
                    away += 1;
                    ensure!(sink.wait(20), "native-flush", "the flush does not return though the peer is back: {:?}; {:?}", log, take_panics());
                } else if up.is_none() {
                    up = Some(peer(port, &tap));
                    ensure!(sink.wait(20), "native-flush", "the flush does not return: {:?}; {:?}", log, take_panics());
                } else {
                    ensure!(sink.wait(20), "native-flush", "the flush does not return: {:?}; {:?}", log, take_panics());
                }
                flushes += 1;
                if op == 1 && s.chance(1, 3) {
                    hasty += 1;
                } else {
                    ensure!(recv(&mut got, sent.len()), "native-lost", "of {} events flushed {} arrived: {:?}; panics {:?}", sent.len(), got.len(), log, take_panics());
                }
            }
            _ => {
                // the peer goes away, having read everything
                if let Some(th) = up.take() {
                    ensure!(recv(&mut got, sent.len()), "native-lost", "of {} events flushed {} arrived: {:?}; panics {:?}", sent.len(), got.len(), log, take_panics());
                    let st = join_within(Duration::from_secs(15), move || th.shutdown());
                    ensure!(st == Some(Ok(())), "native-peer", "the source does not shut down: {:?}", take_panics());
                    thread::sleep(Duration::from_millis(1));
                    log.push("peer down".to_string());
                    if s.chance(1, 2) {
                        up = Some(peer(port, &tap));
                        log.push("peer up".to_string());
                        restarts += 1;
                    }
                }
            }
        }
    }
    if let Some(th) = up.take() {
        let st = join_within(Duration::from_secs(15), move || th.shutdown());
        ensure!(st == Some(Ok(())), "native-peer", "the source does not shut down: {:?}", take_panics());
    }
    got.extend(tap.drain().into_iter().filter(|e| *e != Event::Shutdown));
    let short = |v: Vec<String>| -> Vec<String> { v.into_iter().map(|x| x.chars().take(200).collect()).collect() };
    ensure!(
        got.len() == sent.len(),
        "native-count",
        "{} events flushed, {} arrived: {:?}; sent {:?}, got {:?}",
        sent.len(), got.len(), log, short(sent.iter().map(|w| w.what.clone()).collect()), short(got.iter().map(evobs).collect())
    );
    let mut lossy = None;
    for (w, g) in sent.iter().zip(got.iter()) {
        let (have, loose) = match *g {
            Event::Telemetry(ref t) => (sorted_obs(t), loosely(t)),
            ref e => (evobs(e), String::new()),
        };
        if have == w.what {
            continue;
        }
        if let Some(sig) = w.lossy {
            if loose == w.loose {
                lossy = Some((sig, format!("sent {}, arrived {}", w.what, have)));
                continue;
            }
        }
        return fail("native-event", format!("sent {:?}, arrived {:?}; history {:?}", short(vec![w.what.clone()]), short(vec![have]), log));
    }
    c.nontrivial = sent.len() >= 2 && flushes >= 1;
    c.label_if(empty > 0, "empty-flush");
    c.label_if(restarts > 0, "peer-restart");
    c.label_if(away > 0, "peer-away-during-flush");
    c.label_if(big, "over-one-mebibyte");
    c.label_if(hasty > 0, "flushes-back-to-back");
    c.sample(|| format!("{:?}", log));
    if let Some((sig, msg)) = lossy {
        return fail(sig, msg);
    }
    Ok(())
}

fn one_way(t: Telemetry) -> Result<Telemetry, Fail> {
    let port = port(0);
    let tap = Tap::new();
    let th = peer(port, &tap);
    let sink = Remote::start(NativeConfig {
        port,
        host: "127.0.0.1".to_string(),
        config_path: Some("sinks.native".to_string()),
        flush_interval: 60,
        tags: Default::default(),
    });
    sink.wait(10);
    sink.ask(Cmd::Deliver(Event::Telemetry(t)));
    sink.wait(10);
    sink.ask(Cmd::Shutdown);
    sink.wait(10);
    let e = tap.next(Duration::from_secs(10));
    th.shutdown();
    match e {
        Some(Event::Telemetry(t)) => Ok(t),
        e => fail("native-lost", format!("arrived: {:?}", e.map(|e| evobs(&e)))),
    }
}

fn known_case(kind: AggregationMethod, vals: Vec<f64>, sig: &str) -> Res {
    let t = build(&Pt { name: "a".to_string(), kind, tags: Tags::new(), ts: 1, persist: false, vals, bounds: None, error: None });
    let g = one_way(t.clone())?;
    ensure!(sorted_obs(&g) == sorted_obs(&t), sig, "sent {}, arrived {}", sorted_obs(&t), sorted_obs(&g));
    Ok(())
}
fn known_histogram() -> Res {
    known_case(AggregationMethod::Histogram, vec![5.0], "native-histogram-samples")
}
fn known_summary() -> Res {
    known_case(AggregationMethod::Summarize, (0..2000).map(f64::from).collect(), "native-summary-compressed")
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C04",
        level: "exploration",
        rule: "random histories of deliveries, flushes, peer stops, restarts and absences with a real native source at the other end of the connection; non-trivial = two events sent and a flush",
        assumptions: &["the peer has read what was flushed before it goes away", "timestamps are within the range of the protocol's milliseconds that a double holds exactly", "no single event exceeds one mebibyte"],
        subs: vec![Sub { name: "transport", quick: 6_000, thorough: 100_000, workers: 0, confirm: 1, f: transport }],
        known: vec![("native-histogram-samples", known_histogram), ("native-summary-compressed", known_summary)],
    }]
}
