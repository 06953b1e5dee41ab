//! Takes transitions explored by TLC in an implementation-level specification in the real code.
//!
//! A file has lines that TLC printed.  `cfg` gives parameters (once), `st` what must be observed in
//! a state, `s` a transition of one version, `hs` a transition of a group of handles.
use crate::ds::*;
use crate::instr::*;
use crate::log::*;
use archery::{ArcK, ArcTK, RcK};
use rpds::*;
use serde_json::Value;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};

struct Edge {
    s: usize,
    d: usize,
    f: String,
    /// "m" in place, "p" persistent, "c" clone, "x" drop; empty if any.
    y: String,
    h: usize,
    g: usize,
    a: Vec<i64>,
    r: Vec<i64>,
    /// Contents of the version, or of each handle.
    c: Value,
}
#[derive(Default)]
struct Asked {
    c: String,
    q: Vec<(String, Vec<i64>, Vec<i64>)>,
    cmps: i64,
}
#[derive(Default)]
pub struct Graph {
    ids: HashMap<String, usize>,
    names: Vec<String>,
    edges: Vec<Edge>,
    states: HashMap<usize, Asked>,
    cfg: Cfg,
    init: Vec<i64>,
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_i64().expect("integer")).collect())
}
pub fn lines(path: &str, mut f: impl FnMut(Value)) {
    let r = BufReader::new(std::fs::File::open(path).expect("edges"));
    for line in r.lines() {
        let line = line.expect("edges");
        if line.starts_with("\"{") {
            let s: String = serde_json::from_str(&line).expect("a JSON string");
            f(serde_json::from_str(&s).expect("JSON"));
        }
    }
}
impl Graph {
    fn id(&mut self, s: &str) -> usize {
        if let Some(i) = self.ids.get(s) {
            return *i;
        }
        self.names.push(s.to_string());
        self.ids.insert(s.to_string(), self.names.len() - 1);
        self.names.len() - 1
    }
    fn read(path: &str) -> Graph {
        let mut g = Graph {
            cfg: Cfg { bits: 5, degree: 64, hmode: 0 },
            ..Graph::default()
        };
        lines(path, |v| {
            let str = |k: &str| v[k].as_str().unwrap_or("").to_string();
            if let Some(c) = v.get("cfg") {
                if let Some(b) = c["bits"].as_i64() {
                    g.cfg.bits = b as u8;
                }
                if let Some(d) = c["degree"].as_i64() {
                    g.cfg.degree = d as u8;
                    g.cfg.hmode = TABLE_MODE;
                    let w = (d as u64).trailing_zeros();
                    let t = c["hash"].as_array().expect("hash table").iter().map(|p| {
                        let ds = ints(&p[1]);
                        let h = ds.iter().enumerate().fold(0u64, |h, (i, x)| {
                            let sh = i as u32 * w;
                            assert!(sh < 64, "too many digits");
                            h | (*x as u64) << sh
                        });
                        (p[0].as_u64().expect("class"), h)
                    });
                    set_hash_table(t.collect());
                }
                g.init = ints(&c["init"]);
            } else if v.get("st").is_some() {
                let s = g.id(&str("st"));
                let q = v["q"].as_array().map_or(vec![], |a| {
                    a.iter()
                        .map(|x| (x["f"].as_str().unwrap().to_string(), ints(&x["a"]), ints(&x["r"])))
                        .collect()
                });
                let c = v["c"].to_string();
                g.states.insert(s, Asked { c, q, cmps: v["cmps"].as_i64().unwrap_or(-1) });
            } else {
                let s = g.id(&str("s"));
                let d = g.id(&str("d"));
                g.edges.push(Edge {
                    s,
                    d,
                    f: str("f"),
                    y: str("y"),
                    h: v["h"].as_u64().unwrap_or(0) as usize,
                    g: v["g"].as_u64().unwrap_or(0) as usize,
                    a: ints(&v["a"]),
                    r: ints(&v["r"]),
                    c: if v.get("hs").is_some() { v["hs"].clone() } else { v["c"].clone() },
                });
            }
        });
        g
    }
    /// The edge through which each state was first reached.
    fn parents(&self) -> HashMap<usize, usize> {
        let mut p = HashMap::new();
        let root = self.edges[0].s;
        for (i, e) in self.edges.iter().enumerate() {
            if e.d != root && e.d != e.s {
                p.entry(e.d).or_insert(i);
            }
        }
        p
    }
    fn path(&self, p: &HashMap<usize, usize>, mut s: usize) -> Vec<usize> {
        let mut v = Vec::new();
        let root = self.edges[0].s;
        while s != root {
            let e = p[&s];
            v.push(e);
            s = self.edges[e].s;
            assert!(v.len() < 10_000, "not in breadth-first order");
        }
        v.reverse();
        v
    }
}

struct Rep {
    bad: Vec<String>,
    replayed: usize,
    checks: usize,
    cost: bool,
    cur: Log,
}
fn canon<D: Ds>(v: &str) -> String {
    if D::KIND.starts_with('h') {
        let mut v: Vec<Value> = serde_json::from_str(v).expect("contents");
        v.sort_by_key(|x| x.to_string());
        return Value::Array(v).to_string();
    }
    v.to_string()
}
fn seen<D: Ds>(d: &D) -> String {
    guard(|| {
        let c = d.content();
        let n = c == "[]";
        if n != (d.size() == 0) {
            return format!("{c} but size {}", d.size());
        }
        canon::<D>(&c)
    })
    .unwrap_or_else(|| "panic".into())
}
impl Rep {
    fn expect(&mut self, ok: bool, what: impl FnOnce() -> String) {
        self.checks += 1;
        if !ok && self.bad.len() < 50 {
            let w = serde_json::to_string(&what()).unwrap();
            self.bad.push(format!("{{\"bad\":{w}}}"));
        }
    }
    fn asked<D: Ds>(&mut self, d: &D, a: &Asked, name: &str) {
        let c = canon::<D>(&a.c);
        let got = seen(d);
        self.expect(got == c, || format!("state {name}: contents {got}, must be {c}"));
        for (f, args, r) in &a.q {
            let s0 = snap();
            let got = guard(|| d.query(f, args)).unwrap_or_else(|| vec![PANIC]);
            let x = snap().since(&s0);
            self.expect(got == *r, || format!("state {name}: {f}{args:?} is {got:?}, must be {r:?}"));
            if self.cost && a.cmps >= 0 && D::KIND.starts_with('t') && !args.is_empty() {
                self.expect(x[3] <= a.cmps, || {
                    format!("state {name}: {f}{args:?} compares {} times, at most {}", x[3], a.cmps)
                });
            }
        }
    }
}
fn styles<D: Ds>(f: &str) -> (bool, bool) {
    D::MUTS.iter().find(|o| o.name == f).map_or((false, true), |o| (o.p, o.m))
}
fn start<D: Ds>(g: &Graph) -> D {
    if g.init.is_empty() { D::make(&g.cfg) } else { D::from_codes(&g.cfg, &g.init, 0) }
}

/// All versions of all explored states exist at once; each transition is taken from a version that
/// others share with, in each style.
fn graph<D: Ds>(g: &Graph, rep: &mut Rep) {
    let mut ver: HashMap<usize, D> = HashMap::new();
    let root = g.edges[0].s;
    ver.insert(root, start(g));
    for (i, e) in g.edges.iter().enumerate() {
        rep.cur.about(&format!("{}{:?} in {}", e.f, e.a, g.names[e.s]));
        let src = &ver[&e.s];
        let before = g.states.get(&e.s).map(|s| canon::<D>(&s.c));
        let c = canon::<D>(&e.c.to_string());
        let (p, m) = styles::<D>(&e.f);
        let mut made: Vec<D> = Vec::new();
        let name = || format!("{}{:?} in state {}", e.f, e.a, g.names[e.s]);
        if p {
            let r = guard(|| src.pers(&e.f, &e.a));
            match r {
                None => rep.expect(false, || format!("{} panics", name())),
                Some((n, r)) => {
                    let want = if e.f == "remove" { vec![] } else { e.r.clone() };
                    rep.expect(r == want, || format!("{} returns {r:?}, must be {want:?}", name()));
                    if let Some(n) = n {
                        let got = seen(&n);
                        rep.expect(got == c, || format!("{} (p) leads to {got}, must be {c}", name()));
                        made.push(n);
                    }
                }
            }
        }
        if m {
            let mut n = src.clone();
            let r = guard(|| n.inpl(&e.f, &e.a));
            match r {
                None => rep.expect(false, || format!("{} panics", name())),
                Some(r) => {
                    rep.expect(r == e.r, || format!("{} returns {r:?}, must be {:?}", name(), e.r));
                    let got = seen(&n);
                    rep.expect(got == c, || format!("{} (m) leads to {got}, must be {c}", name()));
                    made.push(n);
                }
            }
        }
        if let Some(b) = before {
            let got = seen(src);
            rep.expect(got == b, || format!("{} changes its source from {b} to {got}", name()));
        }
        rep.replayed += 1;
        if !ver.contains_key(&e.d) && !made.is_empty() {
            let k = i % made.len();
            ver.insert(e.d, made.swap_remove(k));
        }
        if rep.bad.len() >= 50 {
            return;
        }
    }
    for (s, a) in &g.states {
        if let Some(v) = ver.get(s) {
            rep.asked(v, a, &g.names[*s]);
        }
    }
    // Dropping versions in a scattered order leaves the others whole.
    let mut ids: Vec<usize> = ver.keys().copied().collect();
    ids.sort_by_key(|i| (i * 7919) % 104_729);
    let half = ids.len() / 2;
    for i in &ids[..half] {
        ver.remove(i);
    }
    for i in &ids[half..] {
        if let Some(a) = g.states.get(i) {
            let got = seen(&ver[i]);
            let c = canon::<D>(&a.c);
            rep.expect(got == c, || format!("after drops {} is {got}, must be {c}", g.names[*i]));
        }
    }
}

/// Each transition is taken in a structure that nothing else shares, built along the path TLC took.
fn fresh<D: Ds>(g: &Graph, rep: &mut Rep) {
    let parents = g.parents();
    let mut checked: HashSet<usize> = HashSet::new();
    for e in &g.edges {
        let path = g.path(&parents, e.s);
        let mut d: D = start(g);
        rep.cur.about(&format!("{}{:?} in {}", e.f, e.a, g.names[e.s]));
        let c = canon::<D>(&e.c.to_string());
        let r = guard(|| {
            for p in &path {
                let _ = d.inpl(&g.edges[*p].f, &g.edges[*p].a);
            }
            d.inpl(&e.f, &e.a)
        });
        let name = || format!("{}{:?} in state {}", e.f, e.a, g.names[e.s]);
        match r {
            None => rep.expect(false, || format!("{} panics", name())),
            Some(r) => {
                rep.expect(r == e.r, || format!("{} returns {r:?}, must be {:?}", name(), e.r));
                let got = seen(&d);
                rep.expect(got == c, || format!("{} leads to {got}, must be {c}", name()));
            }
        }
        if checked.insert(e.d) {
            if let Some(a) = g.states.get(&e.d) {
                rep.asked(&d, a, &g.names[e.d]);
            }
        }
        rep.replayed += 1;
        if rep.bad.len() >= 50 {
            return;
        }
    }
}

/// Groups of handles: every explored history is run from the start.
fn group<D: Ds>(g: &Graph, rep: &mut Rep) {
    let parents = g.parents();
    let inner: HashSet<usize> = g.edges.iter().map(|e| e.s).collect();
    let mut done: HashSet<usize> = HashSet::new();
    for (i, last) in g.edges.iter().enumerate() {
        if parents.get(&last.d) == Some(&i) && inner.contains(&last.d) {
            continue; // taken on the way to others
        }
        let mut path = g.path(&parents, last.s);
        path.push(i);
        let mut hs: Vec<Option<D>> = vec![None, None, None, None];
        hs[0] = Some(start(g));
        for k in path {
            let e = &g.edges[k];
            rep.cur.about(&format!("{}{:?} in {}", e.f, e.a, g.names[e.s]));
            let r = match e.y.as_str() {
                "c" => {
                    hs[e.g] = hs[e.h].clone();
                    Some(vec![])
                }
                "x" => {
                    hs[e.h] = None;
                    Some(vec![])
                }
                "p" => {
                    let src = hs[e.h].as_ref().expect("a live handle");
                    guard(|| src.pers(&e.f, &e.a)).map(|(n, r)| {
                        if n.is_some() {
                            hs[e.g] = n;
                        }
                        r
                    })
                }
                _ => {
                    let h = hs[e.h].as_mut().expect("a live handle");
                    guard(|| h.inpl(&e.f, &e.a))
                }
            };
            if done.insert(k) {
                let name = || format!("{} ({}) {:?} in state {}", e.f, e.y, e.a, g.names[e.s]);
                rep.expect(r.as_ref() == Some(&e.r), || {
                    format!("{} returns {r:?}, must be {:?}", name(), e.r)
                });
                for (j, want) in e.c.as_array().expect("handles").iter().enumerate() {
                    let live = want[0] == 1;
                    let want = &want[1];
                    match &hs[j] {
                        Some(d) if live => {
                            let want = canon::<D>(&want.to_string());
                            let got = seen(d);
                            rep.expect(got == want, || {
                                format!("{}: handle {j} shows {got}, must be {want}", name())
                            });
                        }
                        None if !live => {}
                        _ => rep.expect(false, || format!("{}: handle {j} missing", name())),
                    }
                }
                rep.replayed += 1;
            }
            if r.is_none() {
                break;
            }
        }
        if rep.bad.len() >= 50 {
            return;
        }
    }
}

pub fn run(mode: &str, edges: &str, out: &str, kind: &str, ptr: &str, cost: bool) {
    let g = Graph::read(edges);
    let mut rep =
        Rep { bad: vec![], replayed: 0, checks: 0, cost, cur: Log::create(&format!("{out}.log")) };
    fn go<D: Ds>(mode: &str, g: &Graph, rep: &mut Rep) {
        if g.edges.is_empty() {
            return;
        }
        match mode {
            "graph" => graph::<D>(g, rep),
            "fresh" => fresh::<D>(g, rep),
            _ => group::<D>(g, rep),
        }
    }
    macro_rules! all {
        ($t:ident [$($e:ty),*] $($h:ty)?) => {
            match ptr {
                "rc" => go::<$t<$($e,)* RcK $(,$h)?>>(mode, &g, &mut rep),
                "arc" => go::<$t<$($e,)* ArcK $(,$h)?>>(mode, &g, &mut rep),
                "count" => go::<$t<$($e,)* CountK $(,$h)?>>(mode, &g, &mut rep),
                _ => go::<$t<$($e,)* ArcTK $(,$h)?>>(mode, &g, &mut rep),
            }
        };
    }
    crate::kinds!(kind, all);
    let mut f = std::fs::File::create(out).expect("report");
    for b in &rep.bad {
        writeln!(f, "{b}").unwrap();
    }
    writeln!(
        f,
        "{{\"replayed\":{},\"checks\":{},\"states\":{},\"mode\":\"{mode}\",\"kind\":\"{kind}\"}}",
        rep.replayed,
        rep.checks,
        g.names.len()
    )
    .unwrap();
}
