//! What operations cost, counted in dereferences, allocations, comparisons and element clones, along
//! histories meant to be expensive.  Steps of the same kind at a similar size are summarised by the
//! most that any of them took.
use crate::ds::*;
use crate::instr::*;
use crate::log::*;
use rpds::*;
use std::collections::{BTreeMap, HashMap};

type X = [i64; 10];
fn measured<R>(f: impl FnOnce() -> R) -> (R, X) {
    let s = snap();
    let r = f();
    (r, snap().all_since(&s))
}
fn lg(n: usize) -> u32 {
    usize::BITS - n.leading_zeros()
}

#[derive(Default)]
struct Worst {
    x: X,
    n: usize,
    bk: usize,
    count: i64,
    at: String,
}
/// What happened to one structure.
struct Meter {
    worst: BTreeMap<(String, &'static str, u32, u32), Worst>,
    events: Vec<Ev>,
    total: X,
    steps: i64,
}
impl Meter {
    fn step(&mut self, f: &str, style: &'static str, n: usize, bk: usize, x: X, at: impl FnOnce() -> String) {
        let w = self.worst.entry((f.to_string(), style, lg(n), lg(bk))).or_default();
        if w.count == 0 || (0..10).any(|i| x[i] > w.x[i]) {
            w.at = at();
        }
        for i in 0..10 {
            w.x[i] = w.x[i].max(x[i]);
        }
        w.n = w.n.max(n);
        w.bk = w.bk.max(bk);
        w.count += 1;
    }
    fn tally(&mut self, x: &X) {
        for i in 0..10 {
            self.total[i] += x[i];
        }
        self.steps += 1;
    }
}

fn hashed(k: &str) -> bool {
    k.starts_with('h')
}
fn tree(k: &str) -> bool {
    k.starts_with('t')
}
fn keyed(k: &str) -> bool {
    hashed(k) || tree(k)
}
fn bucket(c: &Cfg, seen: &HashMap<u64, usize>, key: i64) -> usize {
    seen.get(&hash_class(c.hmode, key as u64)).copied().unwrap_or(0) + 1
}

/// Orders in which keys come and go.
fn order(rng: &mut Rng, n: usize, how: u64) -> Vec<i64> {
    let mut v: Vec<i64> = (0..n as i64).collect();
    match how {
        0 => {}
        1 => v.reverse(),
        2 => v = (0..n as i64).map(|i| if i % 2 == 0 { i / 2 } else { n as i64 - 1 - i / 2 }).collect(),
        3 => {
            let b = lg(n.max(1) - 1).max(1);
            v = (0..1i64 << b)
                .map(|i| (i as u64).reverse_bits() as i64 >> (64 - b) & ((1 << b) - 1))
                .filter(|i| *i < n as i64)
                .collect();
        }
        4 => v = (0..n as i64).filter(|i| i % 2 == 1).chain((0..n as i64).filter(|i| i % 2 == 0)).collect(),
        _ => {
            for i in (1..v.len()).rev() {
                v.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
    }
    v
}

struct Run<'a, D: Ds> {
    d: D,
    m: Meter,
    c: Cfg,
    rng: &'a mut Rng,
    /// Entries per hash.
    seen: HashMap<u64, usize>,
    cells0: i64,
    tag: i64,
}
impl<D: Ds> Run<'_, D> {
    fn args(&mut self, f: &str, key: i64) -> Vec<i64> {
        self.tag = (self.tag + 1) % 1000;
        let e = key * TAG + self.tag;
        match D::MUTS.iter().chain(D::QUERIES).find(|o| o.name == f).expect("operation").arg {
            Arg::None => vec![],
            Arg::Elem | Arg::Key => vec![e],
            Arg::Idx => vec![key],
            Arg::IdxElem => vec![key, e],
            Arg::KeyVal => vec![e, e + TAG],
        }
    }
    fn style(&mut self, f: &str) -> u64 {
        let (p, m) = D::MUTS.iter().find(|o| o.name == f).map(|o| (o.p, o.m)).expect("operation");
        match (p, m) {
            (true, false) => 2,
            (false, true) => self.rng.below(2),
            _ => self.rng.below(3),
        }
    }
    /// One update: in place unshared, in place while another version shares everything, persistent.
    fn update(&mut self, f: &str, key: i64) {
        let a = self.args(f, key);
        let n = self.d.size();
        let st = self.style(f);
        let bk = if hashed(D::KIND) { bucket(&self.c, &self.seen, key) } else { 1 };
        let before = n as i64;
        let x = match st {
            0 => measured(|| self.d.inpl(f, &a)).1,
            1 => {
                let keep = self.d.clone();
                let x = measured(|| self.d.inpl(f, &a)).1;
                drop(keep);
                x
            }
            _ => {
                let (r, x) = measured(|| self.d.pers(f, &a));
                if let Some(d) = r.0 {
                    self.d = d;
                }
                x
            }
        };
        if hashed(D::KIND) {
            let d = self.d.size() as i64 - before;
            let e = self.seen.entry(hash_class(self.c.hmode, key as u64)).or_default();
            *e = (*e as i64 + d).max(0) as usize;
        }
        self.m.tally(&x);
        let style = ["m", "s", "p"][st as usize];
        // A key more in a trie: whatever collides with it is shared, not copied.
        let new = hashed(D::KIND) && f == "insert" && self.d.size() > n;
        let name = if new { "insert_new" } else { f };
        self.m.step(name, style, n.max(self.d.size()), bk, x, || format!("{f}{a:?} at {n}"));
    }
    fn queries(&mut self, keys: &[i64]) {
        let n = self.d.size();
        for q in D::QUERIES {
            let none = q.arg == Arg::None;
            if q.name == "index" {
                continue; // panics where get returns nothing; the same otherwise
            }
            for k in if none { &keys[..1] } else { keys } {
                let a = self.args(q.name, *k);
                let bk = if hashed(D::KIND) { bucket(&self.c, &self.seen, *k) } else { 1 };
                let x = measured(|| self.d.query(q.name, &a)).1;
                self.m.step(q.name, "q", n, bk, x, || format!("{}{a:?} at {n}", q.name));
            }
        }
    }
    /// Everything that is asked of a version now and then.
    fn survey(&mut self, universe: i64) {
        let n = self.d.size();
        let mut keys: Vec<i64> = (0..24).map(|_| self.rng.int(-1, universe)).collect();
        if tree(D::KIND) || n < 80 {
            keys = (-1..universe + 1).collect();
        }
        if D::KIND == "vector" {
            keys.retain(|k| *k >= 0);
            keys.extend([0, n as i64 - 1, n as i64].iter().filter(|k| **k >= 0));
        }
        if keys.is_empty() {
            keys.push(0);
        }
        self.queries(&keys);
        let (c, x) = measured(|| self.d.clone());
        self.m.step("clone", "q", n, 1, x, String::new);
        let x = measured(|| drop(c)).1;
        self.m.step("unclone", "q", n, 1, x, String::new);
        let x = measured(|| D::make(&self.c)).1;
        self.m.step("new", "q", n, 1, x, String::new);
        let x = measured(|| self.d.walk(0)).1;
        self.m.step("iter0", "q", n, 1, x, String::new);
        for k in [3, -3] {
            let x = measured(|| self.d.walk(k)).1;
            self.m.step("iter3", if k < 0 { "b" } else { "q" }, n, 1, x, String::new);
            let key = self.rng.int(0, universe) * TAG;
            if let (Some(_), x) = measured(|| self.d.walk_from(key, k)) {
                self.m.step("range3", if k < 0 { "b" } else { "q" }, n, 1, x, String::new);
            }
        }
        for k in [i64::MAX / 2, -(i64::MAX / 2)] {
            let (got, x) = measured(|| self.d.walk(k));
            assert_eq!(got, n, "iteration");
            let s = if k < 0 { "b" } else { "q" };
            self.m.step("iter", s, n, 1, x, String::new);
            self.m.step("step", s, n, 1, STEP.get(), String::new);
        }
        if tree(D::KIND) {
            self.depths(universe);
        }
        if hashed(D::KIND) && matches!(self.c.hmode, 7 | 13) && n > 0 {
            let f = if D::KIND == "hmap" { "get" } else { "contains" };
            let mut t = [0; 10];
            for k in 0..universe {
                let a = vec![k * TAG];
                let x = measured(|| self.d.query(f, &a)).1;
                for i in 0..10 {
                    t[i] += x[i];
                }
            }
            self.m.events.push(
                Ev::new("bulk")
                    .s("k", D::KIND)
                    .i("n", n as i64)
                    .i("w", self.c.degree as i64)
                    .i("m", universe)
                    .v("x", &t),
            );
        }
    }
    /// How many comparisons lookups of all keys take: the least, the most, their sum.
    fn depths(&mut self, universe: i64) {
        let n = self.d.size();
        let (lo, hi, sum) = depth::<D>(&self.d, universe);
        self.m.events.push(
            Ev::new("depth")
                .s("k", D::KIND)
                .i("n", n as i64)
                .i("per", per::<D>(&self.c))
                .i("lo", lo)
                .i("hi", hi)
                .i("sum", sum)
                .i("m", universe + 2),
        );
    }
    /// The cells occupied now, and those of a structure built anew with the same contents.
    fn foot(&mut self) {
        let now = snap().cells - self.cells0;
        let codes: Vec<i64> = self
            .d
            .items()
            .iter()
            .flat_map(|s| {
                s.trim_matches(['[', ']'])
                    .split(',')
                    .map(|x| x.parse().expect("code"))
                    .collect::<Vec<i64>>()
            })
            .collect();
        let c0 = snap().cells;
        let fresh = D::from_codes(&self.c, &codes, 0);
        let base = snap().cells - c0;
        drop(fresh);
        let left = snap().cells - c0;
        self.m.events.push(
            Ev::new("foot")
                .s("k", D::KIND)
                .i("n", self.d.size() as i64)
                .i("cells", now)
                .i("base", base)
                .i("left", left),
        );
    }
    /// Mutable access, with what it reaches shared or not: how many elements are cloned.
    fn access(&mut self, universe: i64) {
        let Some(f) = ["get_mut", "index_mut"].iter().find(|f| D::MUTS.iter().any(|o| o.name == **f))
        else {
            return;
        };
        for _ in 0..12 {
            let key = self.rng.int(0, universe - 1);
            if D::KIND == "vector" && key >= self.d.size() as i64 {
                continue;
            }
            for how in 0..4 {
                let keep = if how == 0 { None } else { Some(self.d.clone()) };
                if how >= 2 && D::KIND != "vector" {
                    let a = self.args("insert", key);
                    if how == 3 {
                        self.d = self.d.pers("insert", &a).0.expect("inserted");
                    } else {
                        self.d.inpl("insert", &a);
                    }
                    *self.seen.entry(hash_class(self.c.hmode, key as u64)).or_default() += 1;
                } else if how >= 2 {
                    let a = self.args("set", key);
                    self.d.inpl("set", &a);
                }
                let a = self.args(f, key);
                let at = if D::KIND == "vector" { key } else { key * TAG };
                let here = self.d.addr(at);
                let shared = keep.as_ref().is_some_and(|k| here != 0 && k.addr(at) == here);
                let (_, x) = measured(|| self.d.inpl(f, &a));
                self.m.events.push(
                    Ev::new("access")
                        .s("k", D::KIND)
                        .s("f", f)
                        .i("there", (here != 0) as i64)
                        .i("sh", shared as i64)
                        .i("clones", x[6]),
                );
            }
        }
    }
    fn finish(mut self, log: &mut Log) {
        self.m.events.push(
            Ev::new("amort").s("k", D::KIND).i("m", self.m.steps).v("x", &self.m.total),
        );
        let n = self.d.size();
        let d = self.d;
        let x = measured(|| drop(d)).1;
        self.m.step("drop", "m", n, 1, x, String::new);
        self.m.events.push(
            Ev::new("foot")
                .s("k", D::KIND)
                .i("n", 0)
                .i("cells", snap().cells - self.cells0)
                .i("base", 0)
                .i("left", 0),
        );
        for ((f, st, _, _), w) in &self.m.worst {
            log.put(
                Ev::new("cost")
                    .s("k", D::KIND)
                    .s("f", f)
                    .s("s", st)
                    .i("n", w.n as i64)
                    .i("bk", w.bk as i64)
                    .i("bits", self.c.bits as i64)
                    .i("w", self.c.degree as i64)
                    .i("hm", self.c.hmode as i64)
                    .i("count", w.count)
                    .v("x", &w.x)
                    .s("at", &w.at),
            );
        }
        for e in self.m.events {
            log.put(e);
        }
    }
}
/// The most comparisons that a lookup takes in a tree with one entry: what one level costs.
fn per<D: Ds>(c: &Cfg) -> i64 {
    let mut d = D::make(c);
    d.inpl("insert", if D::KIND == "tmap" { &[TAG, TAG] } else { &[TAG] });
    depth::<D>(&d, 2).1
}
fn depth<D: Ds>(d: &D, universe: i64) -> (i64, i64, i64) {
    let f = if D::KIND == "tmap" { "get" } else { "contains" };
    let (mut lo, mut hi, mut sum) = (i64::MAX, 0, 0);
    for k in -1..=universe {
        let a = [k * TAG];
        let c0 = CMPS.load(std::sync::atomic::Ordering::Relaxed);
        d.query(f, &a);
        let c = (CMPS.load(std::sync::atomic::Ordering::Relaxed) - c0) as i64;
        lo = lo.min(c);
        hi = hi.max(c);
        sum += c;
    }
    (lo, hi, sum)
}

fn drive<D: Ds>(log: &mut Log, rng: &mut Rng, c: Cfg, n: usize, grow: u64, shrink: u64) {
    log.put(Ev::new("about").s("k", D::KIND).s("cfg", &format!("{c:?} n={n} {grow}/{shrink}")));
    log.about(&format!("{} {c:?} n={n} {grow}/{shrink}", D::KIND));
    let cells0 = snap().cells;
    let mut r = Run::<D> {
        d: D::make(&c),
        m: Meter { worst: BTreeMap::new(), events: vec![], total: [0; 10], steps: 0 },
        c,
        rng,
        seen: HashMap::new(),
        cells0,
        tag: 0,
    };
    let kind = D::KIND;
    let (add, take) = match kind {
        "list" => ("push_front", "drop_first"),
        "stack" => ("push", "pop"),
        "queue" => ("enqueue", "dequeue"),
        "vector" => ("push_back", "drop_last"),
        _ => ("insert", "remove"),
    };
    let u = n as i64;
    r.survey(u);
    let up = order(r.rng, n, grow);
    let mut next = 1;
    for (i, k) in up.iter().enumerate() {
        r.update(add, *k);
        if i + 1 == next || i + 1 == n {
            next = next * 2 + 1;
            r.survey(u);
            r.foot();
        }
        if !keyed(kind) && i % 7 == 6 {
            r.update(take, 0);
        }
        if kind == "vector" && i % 3 == 0 {
            let at = r.rng.int(0, r.d.size() as i64);
            r.update("set", at);
            let at = r.rng.int(0, r.d.size() as i64);
            r.update("get_mut", at);
        }
        if kind == "list" && lg(i) != lg(i + 1) {
            r.update("reverse", 0);
        }
        if keyed(kind) && i % 4 == 0 {
            let k = r.rng.int(0, u - 1);
            if kind.ends_with("map") {
                r.update("get_mut", k);
            }
            let k = r.rng.int(u, u + 50);
            r.update(take, k); // absent
        }
    }
    r.access(u);
    // Grows and shrinks about the same size.
    for i in 0..n.min(600) {
        let k = if i % 5 < 3 { up[i % up.len()] } else { r.rng.int(0, u - 1) };
        r.update(take, k);
        let k = r.rng.int(0, u - 1);
        r.update(add, k);
    }
    r.survey(u);
    r.foot();
    let down = order(r.rng, n, shrink);
    let mut next = n / 2;
    for k in down.iter() {
        r.update(take, *k);
        if r.d.size() <= next && next > 0 {
            next /= 2;
            r.survey(u);
            r.foot();
        }
    }
    while r.d.size() > 0 && !keyed(kind) {
        r.update(take, 0);
    }
    r.survey(u);
    r.foot();
    // Left full, to be dropped whole.
    for k in up.iter() {
        r.update(add, *k);
    }
    r.finish(log);
}

/// Looks for a history that makes an ordered tree deep, one step at a time, taking the update that
/// makes lookups dearest.
fn adversary<D: Ds>(log: &mut Log, rng: &mut Rng, c: Cfg, universe: i64, steps: usize) {
    log.put(Ev::new("about").s("k", D::KIND).s("cfg", &format!("adversary {universe}")));
    let mut d = D::make(&c);
    let mut worst: BTreeMap<usize, (i64, i64, i64)> = BTreeMap::new();
    let low = (universe / 4) as usize;
    let mut growing = true;
    for _ in 0..steps {
        let n = d.size();
        if n <= low {
            growing = true;
        } else if n as i64 >= universe - 1 {
            growing = false;
        }
        let tries = if rng.pct(85) { 7 } else { 1 };
        let mut best: Option<(i64, i64, D)> = None;
        for _ in 0..tries {
            let ins = rng.pct(if growing { 65 } else { 30 });
            let k = rng.int(0, universe - 1) * TAG;
            let a = if D::KIND == "tmap" { vec![k, k] } else { vec![k] };
            let Some(x) = d.pers(if ins { "insert" } else { "remove" }, &a).0 else { continue };
            let (_, hi, sum) = depth::<D>(&x, universe);
            // Deep for how small it is.
            let score = hi * 1000 - lg(x.size()) as i64 * 2000 + sum * 20 / (universe + 2);
            if best.as_ref().is_none_or(|b| score > b.0) {
                best = Some((score, 0, x));
            }
        }
        if let Some((_, _, x)) = best {
            d = x;
        }
        let (lo, hi, sum) = depth::<D>(&d, universe);
        let w = worst.entry(d.size()).or_insert((lo, hi, sum));
        *w = (w.0.min(lo), w.1.max(hi), w.2.max(sum));
    }
    for (n, (lo, hi, sum)) in worst {
        log.put(
            Ev::new("depth")
                .s("k", D::KIND)
                .i("n", n as i64)
                .i("per", per::<D>(&c))
                .i("lo", lo)
                .i("hi", hi)
                .i("sum", sum)
                .i("m", universe + 2),
        );
    }
}

pub fn costs_of(log: &mut Log, rng: &mut Rng, kind: &str, n: u64, rounds: u64) {
    const BITS: [u8; 6] = [1, 5, 2, 3, 8, 4];
    const DEGREES: [u8; 6] = [2, 64, 4, 16, 32, 8];
    const MODES: [u8; 8] = [13, 0, 7, 1, 5, 3, 9, 12];
    for i in 0..rounds {
        let hmode = MODES[i as usize % MODES.len()];
        let c = Cfg {
            bits: BITS[i as usize % BITS.len()],
            degree: DEGREES[(i + i / 6) as usize % DEGREES.len()],
            hmode,
        };
        let mut n = [n, n / 2, n / 5, n][i as usize % 4].max(40) as usize;
        if hashed(kind) && matches!(hmode, 1 | 3) {
            n = n.min(400); // linear buckets
        }
        let (g, s) = (rng.below(6), rng.below(6));
        macro_rules! go {
            ($t:ident [$($e:ty),*] $($h:ty)?) => {
                drive::<$t<$($e,)* CountK $(,$h)?>>(log, rng, c, n, g, s)
            };
        }
        crate::kinds!(kind, go);
        if i % 2 == 0 && tree(kind) {
            let u = *rng.pick(&[24, 40, 64]);
            macro_rules! adv {
                ($t:ident [$($e:ty),*] $($h:ty)?) => {
                    adversary::<$t<$($e,)* CountK $(,$h)?>>(log, rng, c, u, (n / 2).max(100))
                };
            }
            if kind == "tmap" {
                adv!(RedBlackTreeMap[El, El]);
            } else {
                adv!(RedBlackTreeSet[El]);
            }
        }
    }
}
