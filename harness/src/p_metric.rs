//! C06 buckets, C07 series identity and tags, C08 aggregation laws.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use cernan::buckets::Buckets;
use cernan::metric::{AggregationMethod as K, Event, LogLine, TagMap, Telemetry};
use std::collections::{BTreeMap, BTreeSet};

// --------------------------------------------------------------- value model

#[derive(Clone, Debug)]
pub enum V {
    Set(f64),
    Sum(f64),
    Hist { bounds: Vec<f64>, counts: Vec<usize>, sum: f64, n: usize },
    Quant { vals: Vec<f64>, sum: f64 },
}

pub const DEFAULT_BOUNDS: [f64; 4] = [1.0, 10.0, 100.0, 1000.0];

impl V {
    pub fn new(k: K, v: f64, bounds: &Option<Vec<f64>>) -> V {
        match k {
            K::Set => V::Set(v),
            K::Sum => V::Sum(v),
            K::Histogram => {
                let b = bounds.clone().unwrap_or_else(|| DEFAULT_BOUNDS.to_vec());
                let mut x = V::Hist { counts: vec![0; b.len() + 1], bounds: b, sum: 0.0, n: 0 };
                x.insert(v);
                x
            }
            K::Summarize => V::Quant { vals: vec![v], sum: v },
        }
    }
    pub fn insert(&mut self, v: f64) {
        match *self {
            V::Set(ref mut x) => *x = v,
            V::Sum(ref mut x) => *x += v,
            V::Hist { ref bounds, ref mut counts, ref mut sum, ref mut n } => {
                let i = bounds.iter().position(|b| v <= *b).unwrap_or(bounds.len());
                counts[i] += 1;
                *sum += v;
                *n += 1;
            }
            V::Quant { ref mut vals, ref mut sum } => {
                vals.push(v);
                *sum += v;
            }
        }
    }
    pub fn kind(&self) -> K {
        match *self {
            V::Set(_) => K::Set,
            V::Sum(_) => K::Sum,
            V::Hist { .. } => K::Histogram,
            V::Quant { .. } => K::Summarize,
        }
    }
    /// `self` is the older, `r` the newer aggregate
    pub fn merge(self, r: V) -> V {
        match (self, r) {
            (_, V::Set(y)) => V::Set(y),
            (V::Set(x), V::Sum(y)) | (V::Sum(x), V::Sum(y)) => V::Sum(x + y),
            (V::Hist { sum, .. }, V::Sum(y)) | (V::Quant { sum, .. }, V::Sum(y)) => V::Sum(sum + y),
            (V::Set(x), mut r) | (V::Sum(x), mut r) => {
                r.insert(x);
                r
            }
            (
                V::Hist { bounds, mut counts, sum, n },
                V::Hist { counts: c2, sum: s2, n: n2, .. },
            ) => {
                for (i, c) in c2.iter().enumerate() {
                    counts[i] += c;
                }
                V::Hist { bounds, counts, sum: sum + s2, n: n + n2 }
            }
            (V::Hist { .. }, q @ V::Quant { .. }) => q,
            (V::Quant { vals, .. }, mut h @ V::Hist { .. }) => {
                for v in vals {
                    h.insert(v);
                }
                h
            }
            (V::Quant { mut vals, sum }, V::Quant { vals: v2, sum: s2 }) => {
                vals.extend(v2);
                V::Quant { vals, sum: sum + s2 }
            }
        }
    }
}

/// Does the telemetry show exactly the modelled aggregate (exact summaries)?
pub fn agree(t: &Telemetry, v: &V) -> Result<(), String> {
    if t.kind() != v.kind() {
        return Err(format!("kind {:?}, expected {:?}", t.kind(), v.kind()));
    }
    match *v {
        V::Set(x) => {
            if !t.set().map_or(false, |y| feq(x, y)) {
                return Err(format!("set value {:?}, expected {}", t.set(), x));
            }
            if t.count() != 1 {
                return Err(format!("set count {}", t.count()));
            }
        }
        V::Sum(x) => {
            if !t.sum().map_or(false, |y| close(x, y)) {
                return Err(format!("sum value {:?}, expected {}", t.sum(), x));
            }
        }
        V::Hist { ref bounds, ref counts, sum, n } => {
            let bins: Vec<(String, usize)> =
                t.bins().unwrap().map(|&(ref b, c)| (format!("{:?}", b), c)).collect();
            let mut exp: Vec<(String, usize)> = bounds
                .iter()
                .zip(counts.iter())
                .map(|(b, c)| (format!("Finite({:?})", b), *c))
                .collect();
            exp.push(("PosInf".to_string(), counts[bounds.len()]));
            if bins != exp {
                return Err(format!("bins {:?}, expected {:?}", bins, exp));
            }
            if t.count() != n {
                return Err(format!("histogram count {}, expected {}", t.count(), n));
            }
            if !t.samples_sum().map_or(false, |y| close(y, sum)) {
                return Err(format!("histogram sum {:?}, expected {}", t.samples_sum(), sum));
            }
        }
        V::Quant { ref vals, sum } => {
            if t.count() != vals.len() {
                return Err(format!("summary count {}, expected {}", t.count(), vals.len()));
            }
            if !t.samples_sum().map_or(false, |y| close(y, sum)) {
                return Err(format!("summary sum {:?}, expected {}", t.samples_sum(), sum));
            }
            let mut s = vals.clone();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let got = t.samples();
            if got != s {
                return Err(format!("summary samples {:?}, expected {:?}", got, s));
            }
            for q in &[0.0, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0] {
                if let Err(e) = rank_ok(t, &s, *q, 0.001) {
                    return Err(e);
                }
            }
        }
    }
    Ok(())
}

/// query(q) must be a sample whose rank is within err*n+1 of q*n
pub fn rank_ok(t: &Telemetry, sorted: &[f64], q: f64, err: f64) -> Result<(), String> {
    let n = sorted.len() as f64;
    match t.query(q) {
        None => Err(format!("query({}) gave nothing for {} samples", q, sorted.len())),
        Some(v) => {
            let lo = sorted.iter().filter(|x| **x < v).count() as f64 + 1.0;
            let hi = sorted.iter().filter(|x| **x <= v).count() as f64;
            if hi < lo {
                return Err(format!("query({}) = {} was never inserted", q, v));
            }
            let want = q * n;
            let slack = err * n + 1.0;
            if lo - slack <= want && want <= hi + slack {
                Ok(())
            } else {
                Err(format!(
                    "query({}) = {} has rank {}..{} of {}, allowed {}",
                    q, v, lo, hi, n, slack
                ))
            }
        }
    }
}

// ------------------------------------------------------------------ C06 model

pub struct Entry {
    pub ts: i64,
    pub v: V,
    pub persist: bool,
}
pub type SKey = (String, Tags);

/// Reference model of `Buckets`.
pub struct Model {
    pub w: i64,
    pub m: BTreeMap<SKey, Vec<Entry>>,
}
impl Model {
    pub fn new(w: i64) -> Model {
        Model { w, m: BTreeMap::new() }
    }
    pub fn add(&mut self, k: SKey, ts: i64, v: V, persist: bool) {
        let w = self.w;
        let bins = self.m.entry(k).or_insert_with(Vec::new);
        let b = ts / w;
        match bins.iter().position(|e| e.ts / w >= b) {
            Some(i) if bins[i].ts / w == b => {
                let old = bins[i].v.clone();
                bins[i].v = old.merge(v);
                bins[i].persist = persist;
            }
            pos => {
                let i = pos.unwrap_or_else(|| bins.len());
                let v = if persist && i > 0 { bins[i - 1].v.clone().merge(v) } else { v };
                bins.insert(i, Entry { ts, v, persist });
            }
        }
    }
    pub fn reset(&mut self) {
        for bins in self.m.values_mut() {
            if let Some(mut last) = bins.pop() {
                bins.clear();
                if last.persist {
                    last.ts = cernan::time::now();
                    bins.push(last);
                }
            }
        }
    }
}

fn series_table(s: &mut Src) -> Vec<(SKey, Option<Vec<f64>>, K)> {
    let n = s.usize(1, 5);
    let mut out: Vec<(SKey, Option<Vec<f64>>, K)> = vec![];
    for _ in 0..n {
        let nm = s.pick(&["a", "b", "ab", "c"]).to_string();
        let t = tags(s, 3);
        let b = if s.chance(1, 2) { Some(bounds(s)) } else { None };
        let k = kind(s);
        // one set of bounds per series
        if out.iter().all(|(k2, _, _)| *k2 != (nm.clone(), t.clone())) {
            out.push(((nm, t), b, k));
        }
    }
    out
}

fn buckets_model(s: &mut Src, c: &mut Ctx) -> Res {
    let w = s.pick(&[1i64, 1, 2, 5, 10, 60]);
    let series = series_table(s);
    let mut b = Buckets::new(w);
    let mut m = Model { w, m: BTreeMap::new() };
    let base = if s.chance(1, 2) { 0 } else { cernan::time::now() - 8 * w };
    let nops = s.usize(1, 40);
    let mixed = s.chance(1, 4);
    let mut log = Vec::new();
    let (mut resets, mut merges, mut late, mut persisted_resets) = (0, 0, 0, 0);
    for _ in 0..nops {
        if s.chance(1, 10) {
            b.reset();
            if m.m.values().any(|v| v.last().map_or(false, |e| e.persist)) {
                persisted_resets += 1;
            }
            m.reset();
            resets += 1;
            log.push("reset".to_string());
        } else {
            let (key, bnds, k0) = series[s.draw(series.len() as u64) as usize].clone();
            let k = if mixed { kind(s) } else { k0 };
            let ts = base + s.range(0, 16 * w.min(6));
            let persist = s.chance(1, 3);
            let n = s.usize(1, 3);
            let vals: Vec<f64> = (0..n).map(|_| exact(s)).collect();
            let mut v = V::new(k, vals[0], &bnds);
            for x in &vals[1..] {
                v.insert(*x);
            }
            let t = build(&Pt {
                name: key.0.clone(),
                kind: k,
                tags: key.1.clone(),
                ts,
                persist,
                vals: vals.clone(),
                bounds: if k == K::Histogram { bnds.clone() } else { None },
                error: None,
            });
            if let Some(bs) = m.m.get(&key) {
                if bs.iter().any(|e| e.ts / w == ts / w) {
                    merges += 1;
                }
                if bs.last().map_or(false, |e| e.ts / w > ts / w) {
                    late += 1;
                }
            }
            log.push(format!("add {:?} {:?} {:?} ts={} persist={}", key, k, vals, ts - base, persist));
            m.add(key, ts, v, persist);
            b.add(t);
        }
        // compare everything
        let want: usize = m.m.values().map(|v| v.len()).sum();
        ensure!(b.count() == want, "buckets-count", "count() = {}, model has {} bins (width {})\n{}", b.count(), want, w, log.join("\n"));
        ensure!(b.is_empty() == (want == 0), "buckets-empty", "is_empty() = {} with {} bins", b.is_empty(), want);
        // a series that has nothing left may be counted or not
        let filled = m.m.values().filter(|v| !v.is_empty()).count();
        ensure!(b.len() == m.m.len() || b.len() == filled, "buckets-len", "len() = {}, {} series were added, {} have points\n{}", b.len(), m.m.len(), filled, log.join("\n"));
        let mut got: BTreeMap<SKey, Vec<Telemetry>> = BTreeMap::new();
        let mut n_got = 0;
        for t in b.iter() {
            let tg: Tags = t.tags(&TagMap::default()).map(|(k, v)| (k.clone(), v.clone())).collect();
            got.entry((t.name.clone(), tg)).or_insert_with(Vec::new).push(t.clone());
            n_got += 1;
        }
        ensure!(n_got == want, "buckets-iter-count", "iteration yields {} aggregates, expected {} (width {})\n{}", n_got, want, w, log.join("\n"));
        for (k, bins) in &m.m {
            let e = vec![];
            let g = got.get(k).unwrap_or(&e);
            ensure!(g.len() == bins.len(), "buckets-series-bins", "series {:?} has {} bins, expected {}\n{}", k, g.len(), bins.len(), log.join("\n"));
            for (t, e) in g.iter().zip(bins.iter()) {
                ensure!(t.timestamp == e.ts, "buckets-ts", "series {:?}: bin timestamp {} expected {}\n{}", k, t.timestamp - base, e.ts - base, log.join("\n"));
                ensure!(t.persist == e.persist, "buckets-persist", "series {:?} bin {}: persist {} expected {}\n{}", k, e.ts - base, t.persist, e.persist, log.join("\n"));
                if let Err(x) = agree(t, &e.v) {
                    return fail("buckets-value", format!("series {:?} bin {}: {}\n{}", k, e.ts - base, x, log.join("\n")));
                }
            }
        }
    }
    c.nontrivial = merges > 0 && m.m.len() >= 1 && log.len() >= 3;
    c.label_if(resets > 0, "reset");
    c.label_if(persisted_resets > 0, "reset-with-persistent");
    c.label_if(late > 0, "late-bin");
    c.label_if(merges > 0, "merge");
    c.label_if(mixed, "mixed-kinds");
    c.label_if(m.m.len() > 1, "several-series");
    c.sample(|| format!("width {}: {}", w, log.join("; ")));
    Ok(())
}

// ----------------------------------------------------------------- C07

enum TagOp {
    Ins(String, String),
    Rem(String),
    OverMap(Tags),
}

fn tag_ops(s: &mut Src, hi: usize) -> Vec<TagOp> {
    s.vec(0, hi, |s| match s.weighted(&[4, 1, 1]) {
        0 => TagOp::Ins(tag_key(s), tag_val(s)),
        1 => TagOp::Rem(tag_key(s)),
        _ => TagOp::OverMap(tags(s, 4)),
    })
}

/// operations that end in exactly the tag set `target`
fn ops_for(s: &mut Src, target: &Tags) -> Vec<TagOp> {
    let mut ops = tag_ops(s, 6);
    // wipe what is not in the target
    let mut have = Tags::new();
    for o in &ops {
        apply_model(o, &mut have);
    }
    let mut fin: Vec<TagOp> = vec![];
    for k in have.keys() {
        if !target.contains_key(k) {
            fin.push(TagOp::Rem(k.clone()));
        }
    }
    for (k, v) in target {
        if have.get(k) != Some(v) || s.chance(1, 2) {
            fin.push(TagOp::Ins(k.clone(), v.clone()));
        }
    }
    // shuffle
    for i in (1..fin.len()).rev() {
        let j = s.draw(i as u64 + 1) as usize;
        fin.swap(i, j);
    }
    ops.extend(fin);
    ops
}

fn apply_model(o: &TagOp, m: &mut Tags) {
    match *o {
        TagOp::Ins(ref k, ref v) => {
            m.insert(k.clone(), v.clone());
        }
        TagOp::Rem(ref k) => {
            m.remove(k);
        }
        TagOp::OverMap(ref t) => {
            for (k, v) in t {
                m.insert(k.clone(), v.clone());
            }
        }
    }
}

fn apply_t(o: &TagOp, mut t: Telemetry, s: &mut Src) -> Telemetry {
    match *o {
        TagOp::Ins(ref k, ref v) => {
            if s.chance(1, 2) {
                t.insert_tag(k.clone(), v.clone());
                t
            } else {
                t.overlay_tag(k.clone(), v.clone())
            }
        }
        TagOp::Rem(ref k) => {
            t.remove_tag(k);
            t
        }
        TagOp::OverMap(ref m) => t.overlay_tags_from_map(&tagmap(m)),
    }
}

fn wide_tags(s: &mut Src) -> Tags {
    let mut t = tags(s, 6);
    let extra = s.usize(0, 12);
    for i in 0..extra {
        t.insert(format!("x{}", i), s.pick(&["1", "2"]).to_string());
    }
    t
}

fn identity(s: &mut Src, c: &mut Ctx) -> Res {
    let target = wide_tags(s);
    let nm = name(s);
    let k = kind(s);
    let mk = |s: &mut Src, tg: &Tags, n: &str| {
        let mut t = Telemetry::new().name(n).value(1.0).kind(k).timestamp(10).harden().unwrap();
        for o in ops_for(s, tg) {
            t = apply_t(&o, t, s);
        }
        t
    };
    let n = s.usize(2, 4);
    let mut pts: Vec<Telemetry> = (0..n).map(|_| mk(s, &target, &nm)).collect();
    // the same map built by the builder
    pts.push(
        Telemetry::new().name(nm.clone()).value(1.0).kind(k).timestamp(10).tags(tagmap(&target)).harden().unwrap(),
    );
    for p in &pts[1..] {
        ensure!(p.name_tag_hash() == pts[0].name_tag_hash(), "identity-name-tag-hash", "two points named {:?} with the same tags {:?} get different series hashes", nm, target);
        ensure!(p.hash() == pts[0].hash(), "identity-hash", "two points named {:?} with the same tags {:?} hash differently", nm, target);
        ensure!(p.within(1, &pts[0]) == std::cmp::Ordering::Equal, "identity-within", "points named {:?} with the same tags {:?} and time are not `within` one another", nm, target);
        ensure!(pts[0].within(1, p) == std::cmp::Ordering::Equal, "identity-within", "points named {:?} with the same tags {:?} and time are not `within` one another", nm, target);
    }
    // different series: other tag sets or names
    let mut all: Vec<(SKey, Telemetry)> =
        pts.into_iter().map(|p| ((nm.clone(), target.clone()), p)).collect();
    let extra = s.usize(1, 4);
    for _ in 0..extra {
        let mut t2 = target.clone();
        let mut n2 = nm.clone();
        match s.draw(5) {
            0 => {
                t2.insert(tag_key(s), tag_val(s));
            }
            1 => {
                let k = t2.keys().next().cloned();
                if let Some(k) = k {
                    t2.remove(&k);
                }
            }
            2 => n2.push('x'),
            3 => {
                // swap key and value of one pair
                let kv = t2.iter().next().map(|(k, v)| (k.clone(), v.clone()));
                if let Some((k, v)) = kv {
                    t2.remove(&k);
                    t2.insert(v, k);
                }
            }
            _ => {
                // exchange the values of two keys
                let ks: Vec<String> = t2.keys().cloned().collect();
                if ks.len() >= 2 {
                    let a = t2[&ks[0]].clone();
                    let b = t2[&ks[1]].clone();
                    t2.insert(ks[0].clone(), b);
                    t2.insert(ks[1].clone(), a);
                }
            }
        }
        let t = mk(s, &t2, &n2);
        all.push(((n2, t2), t));
    }
    for i in (1..all.len()).rev() {
        let j = s.draw(i as u64 + 1) as usize;
        all.swap(i, j);
    }
    for (ka, a) in &all {
        for (kb, b) in &all {
            let same = ka == kb;
            ensure!((a.name_tag_hash() == b.name_tag_hash()) == same, "identity-distinct", "series {:?} and {:?}: hashes {} although the series are {}", ka, kb, if same { "differ" } else { "agree" }, if same { "equal" } else { "different" });
        }
    }
    let distinct: BTreeSet<SKey> = all.iter().map(|x| x.0.clone()).collect();
    let mut b = Buckets::new(1);
    for (_, t) in &all {
        b.add(t.clone());
    }
    ensure!(b.count() == distinct.len() && b.len() == distinct.len(), "identity-buckets", "{} points of {} series (same time) fill {} bins of {} series: {:?}", all.len(), distinct.len(), b.count(), b.len(), distinct);
    c.nontrivial = target.len() >= 2;
    c.label_if(target.len() >= 4, "many-tags");
    c.label_if(distinct.len() > 1, "several-series");
    c.sample(|| format!("{} {:?} + {} others", nm, target, distinct.len() - 1));
    Ok(())
}

fn overlay(s: &mut Src, c: &mut Ctx) -> Res {
    let ops = tag_ops(s, 10);
    let mut model = Tags::new();
    let mut t = Telemetry::new().name("n").value(1.0).timestamp(1).harden().unwrap();
    let mut l = LogLine::new("p", "v").time(1);
    if s.chance(1, 3) {
        let init = tags(s, 4);
        t = Telemetry::new().name("n").value(1.0).timestamp(1).tags(tagmap(&init)).harden().unwrap();
        for (k, v) in &init {
            l = l.overlay_tag(k.clone(), v.clone());
        }
        model = init;
    }
    for o in &ops {
        match *o {
            TagOp::Ins(ref k, ref v) => {
                let old = model.get(k).cloned();
                if s.chance(1, 2) {
                    let a = t.insert_tag(k.clone(), v.clone());
                    let b = l.insert_tag(k.clone(), v.clone());
                    ensure!(a == old && b == old, "overlay-prev", "insert_tag({:?}) returned {:?}/{:?}, previous value was {:?}", k, a, b, old);
                } else {
                    t = t.overlay_tag(k.clone(), v.clone());
                    l = l.overlay_tag(k.clone(), v.clone());
                }
            }
            TagOp::Rem(ref k) => {
                let old = model.get(k).cloned();
                let a = t.remove_tag(k);
                let b = l.remove_tag(k);
                ensure!(a == old && b == old, "overlay-removed", "remove_tag({:?}) returned {:?}/{:?}, value was {:?}", k, a, b, old);
            }
            TagOp::OverMap(ref m) => {
                t = t.overlay_tags_from_map(&tagmap(m));
                l = l.overlay_tags_from_map(&tagmap(m));
            }
        }
        apply_model(o, &mut model);
    }
    let defaults = tags(s, 5);
    let dm = tagmap(&defaults);
    let mut want = defaults.clone();
    for (k, v) in &model {
        want.insert(k.clone(), v.clone());
    }
    for (what, got) in vec![
        ("telemetry", t.tags(&dm).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()),
        ("log line", l.tags(&dm).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()),
    ] {
        let mut g = got.clone();
        g.sort();
        let w: Vec<(String, String)> = want.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure!(g == w, "overlay-iter", "{} tags {:?} over defaults {:?} iterate as {:?}", what, model, defaults, g);
    }
    for k in want.keys().cloned().chain(vec!["absent".to_string()]) {
        let a = t.get_from_tags(&k, &dm).cloned();
        ensure!(a.as_ref() == want.get(&k), "overlay-get", "telemetry get_from_tags({:?}) = {:?}, expected {:?}", k, a, want.get(&k));
        let b = l.get_from_tags(&k, &dm).cloned();
        ensure!(b.as_ref() == want.get(&k), "overlay-get", "log line get_from_tags({:?}) = {:?}, expected {:?}", k, b, want.get(&k));
    }
    c.nontrivial = ops.len() >= 2 && !defaults.is_empty();
    c.label_if(model.keys().any(|k| defaults.contains_key(k)), "default-shadowed");
    c.label_if(defaults.keys().any(|k| !model.contains_key(k)), "default-fills");
    c.sample(|| format!("tags {:?} defaults {:?}", model, defaults));
    Ok(())
}

// ----------------------------------------------------------------- C08

fn merges(s: &mut Src, c: &mut Ctx) -> Res {
    let mixed = s.chance(1, 3);
    let k0 = kind(s);
    let bnds = if s.chance(2, 3) { Some(bounds(s)) } else { None };
    let n = s.usize(1, 8);
    let mut acc: Option<(Telemetry, V)> = None;
    let mut log = vec![];
    let mut total = 0;
    for _ in 0..n {
        let k = if mixed { kind(s) } else { k0 };
        let m = s.usize(1, 6);
        let vals: Vec<f64> = (0..m).map(|_| exact(s)).collect();
        total += m;
        let mut v = V::new(k, vals[0], &bnds);
        for x in &vals[1..] {
            v.insert(*x);
        }
        let persist = s.chance(1, 2);
        let t = build(&Pt {
            name: "n".into(), kind: k, tags: Tags::new(), ts: 5, persist, vals: vals.clone(),
            bounds: if k == K::Histogram { bnds.clone() } else { None }, error: None,
        });
        log.push(format!("{:?}{:?}", k, vals));
        if let Err(e) = agree(&t, &v) {
            return fail("insert", format!("{} after inserting {:?} as {:?} (bounds {:?})", e, vals, k, bnds));
        }
        acc = Some(match acc {
            None => (t, v),
            Some((mut at, av)) => {
                at += t;
                (at, av.merge(v))
            }
        });
        let (ref at, ref av) = *acc.as_ref().unwrap();
        if let Err(e) = agree(at, av) {
            return fail("merge", format!("{} after merging {} (bounds {:?})", e, log.join(" + "), bnds));
        }
        ensure!(at.persist == persist, "merge-persist", "persist is {} after merging a point with persist {}", at.persist, persist);
        ensure!(at.timestamp == 5 && at.name == "n", "merge-ident", "merging changed name or time: {:?}", at);
    }
    c.nontrivial = n >= 2 && total >= 3;
    c.label(&format!("{:?}", k0));
    c.label_if(mixed, "mixed");
    c.sample(|| log.join(" + "));
    Ok(())
}

fn quantiles(s: &mut Src, c: &mut Ctx) -> Res {
    let err = s.pick(&[0.001, 0.005, 0.01, 0.02, 0.05, 0.1]);
    let n = match s.weighted(&[3, 3, 1]) {
        0 => s.usize(1, 40),
        1 => s.usize(40, 400),
        _ => s.usize(400, 2500),
    };
    let shape = s.draw(5);
    // one draw seeds the whole sample list, so that long lists stay cheap to replay
    let mut r = Rng::new(s.draw(1 << 32));
    let mut vals = Vec::with_capacity(n);
    for i in 0..n {
        vals.push(match shape {
            0 => (r.next() % 100) as f64,
            1 => i as f64,
            2 => (n - i) as f64,
            3 => (r.next() % 1_000_000) as f64 / 7.0 - 50_000.0,
            _ => ((r.next() % 1000) as f64).powi(3),
        });
    }
    let dflt = s.chance(1, 6);
    let err = if dflt { 0.001 } else { err };
    let mut t = Telemetry::new().name("q").value(vals[0]).kind(K::Summarize).timestamp(1);
    if !dflt {
        t = t.error(err);
    }
    let mut t = t.harden().unwrap();
    // the sketch alone, as configured
    let mut reference = quantiles::ckms::CKMS::new(err);
    reference.insert(vals[0]);
    for v in &vals[1..] {
        t = t.insert(*v);
        reference.insert(*v);
    }
    ensure!(t.count() == n, "quantile-count", "count {} after {} inserts", t.count(), n);
    let sum: f64 = vals.iter().sum();
    ensure!(t.samples_sum().map_or(false, |x| close(x, sum)), "quantile-sum", "samples_sum {:?}, expected {}", t.samples_sum(), sum);
    let mean = sum / n as f64;
    ensure!((t.mean() - mean).abs() <= 1e-6 * (1.0 + vals.iter().fold(0.0f64, |a, b| a.max(b.abs()))), "quantile-mean", "mean {} expected {}", t.mean(), mean);
    let mut sorted = vals.clone();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let compressed = n as f64 >= 1.0 / (2.0 * err);
    let mut qs = vec![0.0, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 0.98, 0.99, 0.999, 1.0];
    qs.push(s.draw(1001) as f64 / 1000.0);
    for q in &qs {
        let want = reference.query(*q).map(|x| x.1);
        ensure!(t.query(*q) == want, "quantile-sketch", "query({}) = {:?}, a sketch with error bound {} gives {:?} (n {} shape {})", q, t.query(*q), err, want, n, shape);
        if let Err(e) = rank_ok(&t, &sorted, *q, if compressed { 2.0 * err } else { 0.0 }) {
            return fail("quantile-rank", format!("error bound {} n {} shape {}: {}", err, n, shape, e));
        }
    }
    ensure!(t.query(0.0) == Some(sorted[0]), "quantile-min", "minimum {:?}, expected {}", t.query(0.0), sorted[0]);
    ensure!(t.query(1.0) == Some(sorted[n - 1]), "quantile-max", "maximum {:?}, expected {}", t.query(1.0), sorted[n - 1]);
    c.nontrivial = n >= 20;
    c.label_if(compressed, "compressed");
    c.sample(|| format!("{} samples, shape {}, error {}", n, shape, err));
    Ok(())
}

fn histogram(s: &mut Src, c: &mut Ctx) -> Res {
    let nb = s.usize(1, 8);
    let bnds: Vec<f64> = (0..nb).map(|_| finite(s)).collect();
    let n = s.usize(1, 30);
    let mut vals = vec![];
    for _ in 0..n {
        // often exactly on a bound
        vals.push(if s.chance(1, 3) { s.pick(&bnds) } else { finite(s) });
    }
    let mut t = Telemetry::new()
        .name("h").value(vals[0]).kind(K::Histogram).bounds(bnds.clone()).timestamp(1).harden().unwrap();
    for v in &vals[1..] {
        t = t.insert(*v);
    }
    let mut sorted = bnds.clone();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let bins: Vec<(String, usize)> = t.bins().unwrap().map(|&(ref b, k)| (format!("{:?}", b), k)).collect();
    ensure!(bins.len() == sorted.len() + 1, "histogram-bins", "{} bins for {} bounds", bins.len(), sorted.len());
    let total: usize = bins.iter().map(|b| b.1).sum();
    ensure!(total == n && t.count() == n, "histogram-count", "bins add up to {}, count() {}, inserted {}", total, t.count(), n);
    // cumulative count at each bound = number of samples not above it
    let mut cum = 0;
    for (i, b) in sorted.iter().enumerate() {
        cum += bins[i].1;
        if i + 1 < sorted.len() && sorted[i + 1] == *b {
            continue;
        }
        let want = vals.iter().filter(|v| **v <= *b).count();
        ensure!(cum == want, "histogram-cumulative", "{} samples at or below bound {}, expected {} (bounds {:?} values {:?})", cum, b, want, sorted, vals);
    }
    c.nontrivial = n >= 3 && nb >= 2;
    c.sample(|| format!("bounds {:?} values {:?}", sorted, vals));
    Ok(())
}

fn serial(s: &mut Src, c: &mut Ctx) -> Res {
    let ev = match s.weighted(&[5, 3, 2, 1, 1]) {
        0 => {
            let k = kind(s);
            let n = s.usize(1, 6);
            Event::Telemetry(build(&Pt {
                name: text(s, 8), kind: k, tags: tags(s, 4), ts: s.u64() as i64, persist: s.chance(1, 2),
                vals: (0..n).map(|_| finite(s)).collect(),
                bounds: if k == K::Histogram { Some(bounds(s)) } else { None },
                error: if k == K::Summarize { Some(s.pick(&[0.001, 0.1])) } else { None },
            }))
        }
        1 => {
            let ts = s.u64() as i64;
            let mut l = logline(s, ts);
            let n = s.usize(0, 3);
            for i in 0..n {
                l = l.insert_field(format!("f{}", i), text(s, 5));
            }
            Event::Log(l)
        }
        2 => raw(s),
        3 => Event::TimerFlush(s.u64()),
        _ => Event::Shutdown,
    };
    let bytes = bincode::serialize(&ev).map_err(|e| Fail { sig: "serial-write".into(), msg: format!("{:?}: {}", ev, e) })?;
    let back: Event = bincode::deserialize(&bytes).map_err(|e| Fail { sig: "serial-read".into(), msg: format!("{:?}: {}", ev, e) })?;
    ensure!(evobs(&back) == evobs(&ev), "serial-roundtrip", "{} came back as {}", evobs(&ev), evobs(&back));
    c.nontrivial = match ev { Event::Telemetry(_) | Event::Log(_) | Event::Raw { .. } => true, _ => false };
    c.sample(|| evobs(&ev));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            rule: "random histories of up to 40 additions (1-5 series, all kinds, bins in and out of order, persistence) and resets, every aggregate compared with a reference model after every step; non-trivial = at least 3 steps of which one merges into an existing bin",
            assumptions: &["timestamps are not negative", "one set of histogram bounds per series", "fewer samples per aggregate than the summary's exact capacity", "the clock does not move within a case"],
            subs: vec![Sub { name: "model", quick: 60_000, thorough: 1_500_000, workers: 0, confirm: 0, f: buckets_model }],
            known: vec![],
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "the same tag set reached through different random sequences of inserts, overwrites, removals and overlays, plus neighbouring tag sets; non-trivial = at least two tags (identity), two operations and defaults (overlay)",
            assumptions: &["64-bit hash collisions between a handful of series do not occur"],
            subs: vec![
                Sub { name: "identity", quick: 80_000, thorough: 1_500_000, workers: 0, confirm: 0, f: identity },
                Sub { name: "overlay", quick: 80_000, thorough: 1_500_000, workers: 0, confirm: 0, f: overlay },
            ],
            known: vec![],
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "random sample lists, merge chains of every kind, bounds and error bounds, compared with exact models (summaries: rank predicate); bincode round trips of every event kind; non-trivial = several samples or merges, resp. an event with content",
            assumptions: &["merge chains stay below the sample count at which a summary starts to compress"],
            subs: vec![
                Sub { name: "merges", quick: 80_000, thorough: 1_500_000, workers: 0, confirm: 0, f: merges },
                Sub { name: "quantiles", quick: 4_000, thorough: 80_000, workers: 0, confirm: 0, f: quantiles },
                Sub { name: "histogram", quick: 80_000, thorough: 1_000_000, workers: 0, confirm: 0, f: histogram },
                Sub { name: "serial", quick: 80_000, thorough: 1_000_000, workers: 0, confirm: 0, f: serial },
            ],
            known: vec![],
        },
    ]
}
