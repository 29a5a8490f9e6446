//! C13 fan-out, order and shutdown; C14 sink flush and valve discipline.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use cernan::filter::{Filter, FilterError};
use cernan::metric::{Encoding, Event, LogLine, Metadata, Telemetry};
use cernan::sink::Sink;
use cernan::thread::Stoppable;
use cernan::util::{self, Channel, Valve};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;
use uuid::Uuid;

// --------------------------------------------------------------- the recorder

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Got(String),
    Flush,
    ClosedFlush,
    Refused(String),
    Shutdown,
}

#[derive(Clone)]
pub struct RecConf {
    pub ops: Arc<Mutex<Vec<Op>>>,
    pub interval: Option<u64>,
    /// close the valve after this many deliveries (0: never)
    pub close_after: usize,
    /// flushes it takes to open it again
    pub open_after: usize,
    /// pause per delivery, milliseconds
    pub slow: u64,
}

pub struct Rec {
    c: RecConf,
    since: usize,
    closed: usize,
}
impl Rec {
    fn got(&mut self, what: String) {
        if self.c.slow > 0 {
            thread::sleep(Duration::from_millis(self.c.slow));
        }
        let op = if self.closed > 0 { Op::Refused(what) } else { Op::Got(what) };
        self.c.ops.lock().unwrap().push(op);
        self.since += 1;
        if self.c.close_after > 0 && self.since >= self.c.close_after {
            self.since = 0;
            self.closed = self.c.open_after;
        }
    }
}
impl Sink<RecConf> for Rec {
    fn init(c: RecConf) -> Rec {
        Rec { c, since: 0, closed: 0 }
    }
    fn flush_interval(&self) -> Option<u64> {
        self.c.interval
    }
    fn flush(&mut self) {
        let op = if self.closed > 0 {
            self.closed -= 1;
            Op::ClosedFlush
        } else {
            Op::Flush
        };
        self.c.ops.lock().unwrap().push(op);
    }
    fn valve_state(&self) -> Valve {
        if self.closed > 0 {
            Valve::Closed
        } else {
            Valve::Open
        }
    }
    fn deliver(&mut self, t: Telemetry) {
        self.got(evobs(&Event::Telemetry(t)))
    }
    fn deliver_line(&mut self, l: LogLine) {
        self.got(evobs(&Event::Log(l)))
    }
    fn deliver_raw(&mut self, order_by: u64, encoding: Encoding, bytes: Vec<u8>, metadata: Option<Metadata>, connection_id: Option<Uuid>) {
        self.got(evobs(&Event::Raw { order_by, encoding, bytes, metadata, connection_id }))
    }
    fn shutdown(self) {
        self.c.ops.lock().unwrap().push(Op::Shutdown);
    }
}

/// a filter that passes everything on, twice if so asked
struct Through {
    twice: bool,
    fail_on: Option<String>,
}
impl Filter for Through {
    fn process(&mut self, ev: Event, res: &mut Vec<Event>) -> Result<(), FilterError> {
        if let Some(ref f) = self.fail_on {
            if evobs(&ev).contains(f.as_str()) {
                return Err(FilterError::NoSuchFunction("x", ev));
            }
        }
        if self.twice {
            res.push(ev.clone());
        }
        res.push(ev);
        Ok(())
    }
}

fn event(s: &mut Src, src: usize, i: usize, pad: usize) -> Event {
    let id = format!("e{}-{}-", src, i);
    match s.weighted(&[4, 2, 2]) {
        0 => {
            let mut t = telem(s, 100 + i as i64);
            t.name = format!("{}{}", id, t.name);
            Event::Telemetry(t)
        }
        1 => {
            let mut l = logline(s, 100);
            l.value = format!("{}{}", id, l.value);
            Event::Log(l)
        }
        _ => {
            let mut e = raw(s);
            if let Event::Raw { ref mut bytes, ref mut order_by, .. } = e {
                *order_by = (src * 1_000_000 + i) as u64;
                if pad > 0 {
                    let mut r = Rng::new(i as u64);
                    bytes.extend((0..pad).map(|_| r.next() as u8));
                }
            }
            e
        }
    }
}

/// an event that does not compress
fn heavy(src: usize, i: usize, pad: usize) -> Event {
    let mut r = Rng::new((src * 1_000_000 + i) as u64);
    Event::Raw {
        order_by: (src * 1_000_000 + i) as u64,
        encoding: Encoding::Raw,
        bytes: (0..pad).map(|_| r.next() as u8).collect(),
        metadata: None,
        connection_id: None,
    }
}

fn weight(e: &Event) -> (u64, u64) {
    match *e {
        Event::Raw { order_by, ref bytes, .. } => (order_by, fnv(bytes)),
        _ => (0, 0),
    }
}

/// memory capacity of a queue in events
fn small_queue(s: &mut Src) -> (Tx, Rx, tempdir::TempDir) {
    let cap = s.pick(&[1usize, 2, 3, 5, 8, 1000]);
    queue(cap * std::mem::size_of::<Event>(), 1 << 20, 50)
}

// ------------------------------------------------------------------------- C13

fn fanout(s: &mut Src, c: &mut Ctx) -> Res {
    let k = s.usize(1, 4);
    let senders = s.usize(1, 3);
    let n = s.usize(0, 30);
    let pad = if s.chance(1, 10) { 40_000 } else { 0 };
    let late = s.chance(1, 2);
    let mut chans: Channel = vec![];
    let mut recvs = vec![];
    let mut dirs = vec![];
    for _ in 0..k {
        let (tx, rx, d) = small_queue(s);
        chans.push(tx);
        recvs.push(rx);
        dirs.push(d);
    }
    let lists: Vec<Vec<Event>> =
        (0..senders).map(|w| (0..n).map(|i| event(s, w, i, pad)).collect()).collect();
    let recv_threads = |recvs: Vec<Rx>| -> Vec<thread::JoinHandle<Vec<Event>>> {
        recvs
            .into_iter()
            .map(|rx| {
                thread::spawn(move || {
                    let mut out = vec![];
                    let mut left = senders;
                    for e in rx.into_iter() {
                        if e == Event::Shutdown {
                            left -= 1;
                        }
                        out.push(e);
                        if left == 0 {
                            break;
                        }
                    }
                    out
                })
            })
            .collect()
    };
    let mut recvs = Some(recvs);
    let mut rt = None;
    if !late {
        rt = Some(recv_threads(recvs.take().unwrap()));
    }
    let st: Vec<thread::JoinHandle<Channel>> = lists
        .iter()
        .map(|l| {
            let l = l.clone();
            let mut ch: Channel = chans.iter().cloned().collect();
            thread::spawn(move || {
                for e in l {
                    util::send(&mut ch, e);
                }
                ch
            })
        })
        .collect();
    let sent = join_within(Duration::from_secs(30), move || st.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>());
    let chs = match sent {
        Some(Ok(x)) => x,
        x => return fail("fanout-send", format!("sending does not end ({}): {:?}", x.is_some(), take_panics())),
    };
    let st = thread::spawn(move || {
        for mut ch in chs {
            util::send(&mut ch, Event::Shutdown);
        }
    });
    if let Some(r) = recvs.take() {
        // the shutdowns are sent, or wait for room
        thread::sleep(Duration::from_millis(10));
        rt = Some(recv_threads(r));
    }
    let got = join_within(Duration::from_secs(15), move || {
        rt.unwrap().into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>()
    });
    let got = match got {
        Some(Ok(g)) => g,
        None => return fail("fanout-stranded", format!("with {} senders, {} events each, {} downstreams, an event or shutdown never arrives", senders, n, k)),
        Some(Err(())) => return fail("fanout-panic", format!("{:?}", take_panics())),
    };
    st.join().unwrap();
    for (d, g) in got.iter().enumerate() {
        ensure!(g.len() == senders * (n + 1), "fanout-count", "downstream {} got {} events of {}", d, g.len(), senders * (n + 1));
        for (w, l) in lists.iter().enumerate() {
            let mine: Vec<String> = g.iter().filter(|e| belongs(e, w)).map(evobs).collect();
            let want: Vec<String> = l.iter().map(evobs).collect();
            ensure!(mine == want, "fanout-order", "downstream {}: sender {} sent {:?}, got {:?}", d, w, want, mine);
        }
    }
    drop(dirs);
    c.nontrivial = k >= 2 && n >= 3;
    c.label_if(late, "receivers-start-late");
    c.label_if(pad > 0, "disk-file-rollover");
    c.sample(|| format!("{} senders x {} events to {} queues, receivers late: {}", senders, n, k, late));
    Ok(())
}

/// One downstream is not read while the events are sent and can hold only so
/// much: the others get everything and the end of every sender, it gets what it
/// had room for, in order.
fn overflow(s: &mut Src, c: &mut Ctx) -> Res {
    let k = s.usize(2, 4);
    let slow = s.draw(k as u64) as usize;
    let senders = s.usize(1, 3);
    let n = s.usize(60, 140) / senders;
    let pad = s.pick(&[60_000usize, 80_000]);
    let mut chans: Channel = vec![];
    let mut recvs = vec![];
    let mut dirs = vec![];
    for i in 0..k {
        let (tx, rx, d) = if i == slow {
            queue(s.pick(&[20usize, 40]) * std::mem::size_of::<Event>(), 1 << 20, 1)
        } else {
            big_queue()
        };
        chans.push(tx);
        recvs.push(rx);
        dirs.push(d);
    }
    let lists: Vec<Vec<Event>> =
        (0..senders).map(|w| (0..n).map(|i| heavy(w, i, pad)).collect()).collect();
    let before = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst);
    let mut stuck = None;
    let mut rt = vec![];
    for (i, rx) in recvs.into_iter().enumerate() {
        if i == slow {
            stuck = Some(rx);
            continue;
        }
        rt.push(thread::spawn(move || {
            let mut out = vec![];
            let mut left = senders;
            for e in rx.into_iter() {
                if e == Event::Shutdown {
                    left -= 1;
                }
                out.push(e);
                if left == 0 {
                    break;
                }
            }
            out
        }));
    }
    for l in &lists {
        let l = l.clone();
        let mut ch: Channel = chans.iter().cloned().collect();
        thread::spawn(move || {
            for e in l {
                util::send(&mut ch, e);
            }
            util::send(&mut ch, Event::Shutdown);
        });
    }
    let got = join_within(Duration::from_secs(20), move || rt.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>());
    let dropped = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst) - before;
    let what = format!("{} downstreams, number {} full, {} senders of {} events, {} of which it could not take", k, slow, senders, n, dropped);
    let got = match got {
        Some(Ok(g)) => g,
        None => return fail("overflow-end", format!("{}: another downstream never hears of the end", what)),
        Some(Err(())) => return fail("overflow-panic", format!("{}: {:?}", what, take_panics())),
    };
    for (d, g) in got.iter().enumerate() {
        for (w, l) in lists.iter().enumerate() {
            let mine: Vec<(u64, u64)> = g.iter().filter(|e| belongs(e, w)).map(weight).collect();
            let want: Vec<(u64, u64)> = l.iter().map(weight).collect();
            ensure!(mine == want, "overflow-others", "{}: downstream {} got {} events of sender {}", what, d, mine.len(), w);
        }
        ensure!(g.len() == senders * (n + 1), "overflow-others", "{}: downstream {} got {} events in all", what, d, g.len());
    }
    // what it did take comes in order, and the end of every sender
    let rx = stuck.unwrap();
    let part = join_within(Duration::from_secs(10), move || {
        let mut out = vec![];
        let mut left = senders;
        for e in rx.into_iter() {
            if e == Event::Shutdown {
                left -= 1;
            }
            out.push(e);
            if left == 0 {
                break;
            }
        }
        out
    });
    let part = match part {
        Some(Ok(p)) => p,
        _ => return fail("overflow-own-end", format!("{}: it never hears of the end, {:?}", what, take_panics())),
    };
    for (w, l) in lists.iter().enumerate() {
        let mine: Vec<(u64, u64)> = part.iter().filter(|e| belongs(e, w)).map(weight).collect();
        let want: Vec<(u64, u64)> = l.iter().map(weight).collect();
        let mut it = want.iter();
        ensure!(mine.iter().all(|x| it.any(|y| x == y)), "overflow-order", "{}: what it got of sender {} is out of order", what, w);
    }
    ensure!(part.len() + dropped == senders * (n + 1), "overflow-kept", "{}: it got {} events and ends", what, part.len());
    drop(dirs);
    c.nontrivial = dropped > 0;
    c.label_if(dropped > 0, "dropped-for-one");
    c.sample(|| what.clone());
    Ok(())
}

/// Known finding: a queue that was full once and is then emptied loses what it
/// later has to keep on disk.
fn after_full() -> Res {
    let (tx, rx, _dir) = queue(2 * std::mem::size_of::<Event>(), 1 << 20, 1);
    let mut chans = vec![tx];
    let before = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst);
    for i in 0..60 {
        util::send(&mut chans, heavy(0, i, 60_000));
    }
    let took = 60 - (util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst) - before);
    ensure!(took > 5 && took < 60, "queue-room", "the queue took {} of 60", took);
    let gate = Arc::new(AtomicBool::new(true));
    let g2 = Arc::clone(&gate);
    let (otx, orx) = std::sync::mpsc::channel();
    thread::spawn(move || {
        let mut rx = rx;
        loop {
            while !g2.load(Ordering::SeqCst) {
                thread::sleep(Duration::from_millis(1));
            }
            match rx.iter().next() {
                Some(e) => {
                    if otx.send(e).is_err() {
                        return;
                    }
                }
                // as the run loops of filters and sinks do
                None => thread::sleep(Duration::from_millis(10)),
            }
        }
    });
    for _ in 0..took {
        let _ = chans[0].flush();
        ensure!(orx.recv_timeout(Duration::from_secs(5)).is_ok(), "queue-room", "not all can be read");
    }
    // it is empty now; ten more events, more than memory holds
    gate.store(false, Ordering::SeqCst);
    for i in 100..110 {
        util::send(&mut chans, heavy(0, i, 60_000));
    }
    gate.store(true, Ordering::SeqCst);
    thread::spawn(move || util::send(&mut chans, Event::Shutdown));
    for i in 100..110 {
        match orx.recv_timeout(Duration::from_secs(3)) {
            Ok(Event::Raw { order_by, .. }) if order_by == i => {}
            _ => return fail("queue-after-full", format!("event {} of ten does not arrive", i - 99)),
        }
    }
    Ok(())
}

fn belongs(e: &Event, w: usize) -> bool {
    let p = format!("e{}-", w);
    match *e {
        Event::Telemetry(ref t) => t.name.starts_with(&p),
        Event::Log(ref l) => l.value.starts_with(&p),
        Event::Raw { order_by, .. } => order_by as usize / 1_000_000 == w,
        _ => false,
    }
}

/// random layered topology of sources, filters and sinks
fn topology(s: &mut Src, c: &mut Ctx) -> Res {
    let ns = s.usize(1, 3);
    let nf = s.usize(0, 3);
    let nk = s.usize(1, 3);
    // nodes: sources 0..ns, filters ns..ns+nf, sinks after
    let total = ns + nf + nk;
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    for to in ns..total {
        // upstreams among the sources and the earlier filters
        let cand = to.min(ns + nf);
        let ups = s.usize(1, 3);
        for _ in 0..ups {
            let from = s.draw(cand as u64) as usize;
            edges.insert((from, to));
        }
    }
    let mut queues: BTreeMap<usize, (Tx, Option<Rx>)> = BTreeMap::new();
    let mut dirs = vec![];
    for to in ns..total {
        let (tx, rx, d) = small_queue(s);
        dirs.push(d);
        queues.insert(to, (tx, Some(rx)));
    }
    let ups = |to: usize| -> Vec<String> { edges.iter().filter(|e| e.1 == to).map(|e| format!("n{}", e.0)).collect() };
    let chans = |from: usize, q: &BTreeMap<usize, (Tx, Option<Rx>)>| -> Channel {
        edges.iter().filter(|e| e.0 == from).map(|e| q[&e.1].0.clone()).collect()
    };
    // sinks
    let mut ops = vec![];
    let mut sink_threads = vec![];
    for k in ns + nf..total {
        let o = Arc::new(Mutex::new(vec![]));
        let conf = RecConf {
            ops: Arc::clone(&o),
            interval: s.pick(&[Some(1), None, Some(2)]),
            close_after: s.pick(&[0, 0, 2, 3]),
            open_after: 2,
            slow: s.pick(&[0, 0, 0, 1]),
        };
        let rx = queues.get_mut(&k).unwrap().1.take().unwrap();
        let r = <Rec as Sink<RecConf>>::new(rx, ups(k), conf);
        sink_threads.push(r.run());
        ops.push(o);
    }
    let mut filter_threads = vec![];
    let mut twice = vec![false; total];
    let mut fails: Vec<Option<String>> = vec![None; total];
    for f in ns..ns + nf {
        let rx = queues.get_mut(&f).unwrap().1.take().unwrap();
        let ch = chans(f, &queues);
        let u = ups(f);
        twice[f] = s.chance(1, 4);
        fails[f] = if s.chance(1, 4) { Some(format!("e{}-1-", s.draw(ns as u64))) } else { None };
        let mut th = Through { twice: twice[f], fail_on: fails[f].clone() };
        filter_threads.push(thread::spawn(move || th.run(rx, u, ch)));
    }
    let n = s.usize(0, 12);
    let lists: Vec<Vec<Event>> = (0..ns)
        .map(|w| {
            (0..n)
                .map(|i| if s.chance(1, 6) { Event::TimerFlush(i as u64 + 1) } else { event(s, w, i, 0) })
                .collect()
        })
        .collect();
    let waits: Vec<u64> = (0..ns).map(|_| s.pick(&[0, 0, 1, 3])).collect();
    let src_threads: Vec<_> = (0..ns)
        .map(|w| {
            let l = lists[w].clone();
            let mut ch = chans(w, &queues);
            let wait = waits[w];
            thread::spawn(move || {
                for e in l {
                    if wait > 0 {
                        thread::sleep(Duration::from_millis(wait));
                    }
                    util::send(&mut ch, e);
                }
                util::send(&mut ch, Event::Shutdown);
            })
        })
        .collect();
    drop(queues);
    let desc = format!("{} sources, {} filters, {} sinks, edges {:?}", ns, nf, nk, edges);
    let done = join_within(Duration::from_secs(20), move || {
        for t in src_threads {
            t.join().unwrap();
        }
        for t in filter_threads {
            t.join().unwrap();
        }
        for t in sink_threads {
            t.join();
        }
    });
    if done != Some(Ok(())) {
        let seen: Vec<String> = ops.iter().map(|o| format!("{:?}", o.lock().map(|v| v.len()).unwrap_or(0))).collect();
        return fail("topology-stuck", format!("the topology does not end ({}, operations seen by the sinks {:?}): {:?}", desc, seen, take_panics()));
    }
    // copies of one source event that reach a node
    let mut copies: BTreeMap<(usize, usize, String), usize> = BTreeMap::new();
    for w in 0..ns {
        for e in &lists[w] {
            if e.is_timer_flush() {
                continue;
            }
            let o = evobs(e);
            let mut at = vec![0usize; total];
            at[w] = 1;
            for node in 0..total {
                if node >= ns {
                    let inn: usize = edges.iter().filter(|x| x.1 == node).map(|x| at[x.0]).sum();
                    let failing = fails[node].as_ref().map_or(false, |f| o.contains(f.as_str()));
                    at[node] = if twice[node] && !failing { inn * 2 } else { inn };
                }
            }
            for node in ns + nf..total {
                copies.insert((w, node, o.clone()), at[node]);
            }
        }
    }
    for (i, o) in ops.iter().enumerate() {
        let node = ns + nf + i;
        let o = o.lock().unwrap();
        ensure!(o.last() == Some(&Op::Shutdown), "topology-shutdown", "sink {} ended with {:?} ({})", i, o.last(), desc);
        ensure!(o.iter().filter(|x| **x == Op::Shutdown).count() == 1, "topology-shutdown", "sink {} was shut down more than once", i);
        if let Some(r) = o.iter().find(|x| if let Op::Refused(_) = **x { true } else { false }) {
            return fail("topology-valve", format!("sink {} got {:?} while its valve was closed", i, r));
        }
        let mut got: BTreeMap<&String, usize> = BTreeMap::new();
        for x in o.iter() {
            if let Op::Got(ref e) = *x {
                *got.entry(e).or_insert(0) += 1;
            }
        }
        for w in 0..ns {
            for e in &lists[w] {
                if e.is_timer_flush() {
                    continue;
                }
                let ob = evobs(e);
                let want = copies[&(w, node, ob.clone())];
                let have = got.get(&ob).cloned().unwrap_or(0);
                ensure!(have == want, "topology-copies", "sink {} got {} {} times, expected {} ({}, doubling {:?})", i, ob, have, want, desc, twice);
            }
            // order along a single path
            let paths = count_paths(&edges, w, node);
            if paths == 1 {
                let want: Vec<String> = lists[w].iter().filter(|e| !e.is_timer_flush()).map(evobs).collect();
                let mut mine: Vec<String> = o
                    .iter()
                    .filter_map(|x| if let Op::Got(ref e) = *x { Some(e.clone()) } else { None })
                    .filter(|e| want.contains(e))
                    .collect();
                mine.dedup();
                ensure!(mine == want, "topology-order", "sink {}: source {} sent {:?}, arrived {:?}", i, w, want, mine);
            }
        }
        let known: usize = copies.iter().filter(|(k, _)| k.1 == node).map(|(_, v)| *v).sum();
        let all: usize = got.values().sum();
        ensure!(all == known, "topology-extra", "sink {} got {} events, expected {}", i, all, known);
    }
    c.nontrivial = n >= 2 && edges.len() >= 2;
    c.label_if(edges.len() > total - ns, "several-upstreams");
    c.label_if(nf > 0, "filters");
    c.sample(|| format!("{}; {} events per source", desc, n));
    Ok(())
}

fn count_paths(edges: &BTreeSet<(usize, usize)>, from: usize, to: usize) -> usize {
    if from == to {
        return 1;
    }
    edges.iter().filter(|e| e.0 == from).map(|e| count_paths(edges, e.1, to)).sum()
}

// ------------------------------------------------------------------------- C14

fn flushing(s: &mut Src, c: &mut Ctx) -> Res {
    let interval = s.pick(&[Some(1u64), Some(2), Some(3), Some(5), Some(60), Some(0), None]);
    let close_after = s.pick(&[0usize, 0, 1, 2, 4]);
    let open_after = s.usize(1, 3);
    let ups = s.usize(1, 3);
    let n = s.usize(0, 40);
    let mut evs = vec![];
    let mut idx = 0u64;
    let mut left = ups;
    for i in 0..n {
        match s.weighted(&[4, 4, 1]) {
            0 => {
                let i = match s.weighted(&[6, 3, 2, 1]) {
                    0 => {
                        idx += 1;
                        idx
                    }
                    1 => idx, // the same pulse by another upstream
                    2 => idx.saturating_sub(s.draw(4)),
                    _ => {
                        idx += s.draw(70);
                        idx
                    }
                };
                evs.push(Event::TimerFlush(i));
            }
            1 => evs.push(event(s, 0, i, 0)),
            _ => {
                if left > 1 {
                    left -= 1;
                    evs.push(Event::Shutdown);
                }
            }
        }
    }
    for _ in 0..left {
        evs.push(Event::Shutdown);
    }
    // model
    let mut want = vec![];
    let mut seen = 0u64;
    let mut sd = 0;
    let mut flushes = 0;
    for e in &evs {
        match *e {
            Event::TimerFlush(i) => {
                if i > seen {
                    if let Some(k) = interval {
                        if k == 0 || i % k == 0 {
                            want.push(Op::Flush);
                            flushes += 1;
                        }
                    }
                    seen = i;
                }
            }
            Event::Shutdown => {
                sd += 1;
                if sd == ups {
                    want.push(Op::Shutdown);
                }
            }
            ref e => want.push(Op::Got(evobs(e))),
        }
    }
    let (mut tx, rx, _dir) = small_queue(s);
    let ops = Arc::new(Mutex::new(vec![]));
    let conf = RecConf { ops: Arc::clone(&ops), interval, close_after, open_after, slow: 0 };
    let before = s.chance(1, 2);
    let sources = (0..ups).map(|i| format!("u{}", i)).collect();
    let mut r = Some(<Rec as Sink<RecConf>>::new(rx, sources, conf));
    let mut th = None;
    if !before {
        th = Some(r.take().unwrap().run());
    }
    for e in &evs {
        let _ = tx.send(e.clone());
    }
    if let Some(r) = r.take() {
        th = Some(r.run());
    }
    let pusher = thread::spawn(move || {
        while tx.flush().is_err() {
            thread::sleep(Duration::from_millis(1));
        }
    });
    let done = join_within(Duration::from_secs(15), move || th.unwrap().join());
    let got = ops.lock().unwrap().clone();
    let desc = || format!("interval {:?}, closes after {} for {} flushes, events {:?}", interval, close_after, open_after, evs.iter().map(|e| short(e)).collect::<Vec<_>>());
    ensure!(done == Some(Ok(())), "sink-stuck", "the sink does not end: {} got {:?} {:?}", desc(), got.len(), take_panics());
    pusher.join().unwrap();
    if let Some(r) = got.iter().find(|x| if let Op::Refused(_) = **x { true } else { false }) {
        return fail("sink-valve", format!("{:?} delivered while the valve is closed: {}", r, desc()));
    }
    let closed = got.iter().filter(|x| **x == Op::ClosedFlush).count();
    let got: Vec<Op> = got.into_iter().filter(|x| *x != Op::ClosedFlush).collect();
    if got != want {
        let gf = got.iter().filter(|x| **x == Op::Flush).count();
        let sig = if got.iter().filter(|x| **x != Op::Flush).eq(want.iter().filter(|x| **x != Op::Flush)) { "sink-flushes" } else { "sink-delivery" };
        return fail(sig, format!("{}: {} flushes, expected {}; got {:?}, expected {:?}", desc(), gf, flushes, got, want));
    }
    c.nontrivial = flushes > 0 && want.len() > flushes + 1;
    c.label_if(closed > 0, "valve-closed");
    c.label_if(ups > 1, "several-upstreams");
    c.label_if(before, "queued-before-start");
    c.sample(desc);
    Ok(())
}

fn short(e: &Event) -> String {
    match *e {
        Event::TimerFlush(i) => format!("pulse {}", i),
        Event::Shutdown => "shutdown".to_string(),
        Event::Telemetry(_) => "point".to_string(),
        Event::Log(_) => "line".to_string(),
        Event::Raw { .. } => "raw".to_string(),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            level: "exploration",
            rule: "random fan-outs through tiny queues that spill to disk, and random layered topologies of source threads, filters and recording sinks run to their end; non-trivial = several downstreams or edges and several events",
            assumptions: &["but for one in the overflow runs, queues have room on disk", "thread interleavings are those the scheduler produces"],
            subs: vec![
                Sub { name: "fanout", quick: 3_000, thorough: 60_000, workers: 0, confirm: 1, f: fanout },
                Sub { name: "overflow", quick: 64, thorough: 2_000, workers: 0, confirm: 1, f: overflow },
                Sub { name: "topology", quick: 4_000, thorough: 80_000, workers: 0, confirm: 1, f: topology },
            ],
            known: vec![("queue-after-full", after_full)],
        },
        Prop {
            id: "C14",
            level: "exploration",
            rule: "random histories of pulses (repeated, relayed out of order, skipped), events and shutdowns through a sink's run loop with a valve that closes and opens, against a model of its operations; non-trivial = at least one flush and one delivery",
            assumptions: &["how often a sink that refuses input is flushed is left open"],
            subs: vec![Sub { name: "flushing", quick: 20_000, thorough: 300_000, workers: 0, confirm: 1, f: flushing }],
            known: vec![],
        },
    ]
}
