//! Takes every path through the transitions of specs/Cursor.tla with real iterators: over
//! structures of every kind, with several histories, and over ranges of the ordered ones.
use crate::ds::*;
use crate::instr::*;
use crate::log::*;
use crate::replay::lines;
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use rpds::*;
use std::collections::HashMap;
use std::io::Write;
use std::ops::Bound;

/// What a step gave, what the size hint was afterwards, and the length (-1: there is none).
#[derive(Clone, Copy, PartialEq, Debug)]
struct Saw {
    r: Option<i64>,
    lo: usize,
    hi: Option<usize>,
    len: i64,
}
type Act = (i64, usize);

fn fore<I: Iterator>(mut it: I, enc: &dyn Fn(I::Item) -> i64, len: &dyn Fn(&I) -> i64, acts: &[Act], out: &mut Vec<Saw>) {
    for &(c, a) in acts {
        let r = match c {
            9 => None,
            0 => it.next().map(enc),
            _ => it.nth(a).map(enc),
        };
        let (lo, hi) = it.size_hint();
        out.push(Saw { r, lo, hi, len: len(&it) });
    }
}
fn fore_back<I: DoubleEndedIterator>(
    mut it: I,
    enc: &dyn Fn(I::Item) -> i64,
    len: &dyn Fn(&I) -> i64,
    acts: &[Act],
    out: &mut Vec<Saw>,
) {
    for &(c, a) in acts {
        let r = match c {
            9 => None,
            0 => it.next().map(enc),
            1 => it.next_back().map(enc),
            2 => it.nth(a).map(enc),
            _ => it.nth_back(a).map(enc),
        };
        let (lo, hi) = it.size_hint();
        out.push(Saw { r, lo, hi, len: len(&it) });
    }
}

/// The iterators of a kind: `which` is 0 for the elements or entries, 1 for keys, 2 for values, 3 for
/// a range; codes are those of the key, and values are twice as much plus one.
trait Cur: Ds {
    const BACK: bool;
    const WHICH: i64;
    fn run(&self, which: i64, lo: (i64, i64), hi: (i64, i64), acts: &[Act], out: &mut Vec<Saw>);
}
fn kv((k, v): (&El, &El)) -> i64 {
    if v.c == k.c * 2 + 1 { k.c } else { -7 }
}
fn el(e: &El) -> i64 {
    e.c
}
fn val(e: &El) -> i64 {
    (e.c - 1) / 2
}
macro_rules! seq {
    ($t:ident, $f:ident, $len:ident, $b:expr) => {
        impl<P: SharedPointerKind + 'static> Cur for $t<El, P> {
            const BACK: bool = $b;
            const WHICH: i64 = 1;
            fn run(&self, _: i64, _: (i64, i64), _: (i64, i64), acts: &[Act], out: &mut Vec<Saw>) {
                $f(self.iter(), &el, &$len, acts, out)
            }
        }
    };
}
seq!(List, fore, exlen, false);
seq!(Stack, fore, exlen, false);
seq!(Queue, fore, nolen, false);
seq!(Vector, fore_back, exlen, true);
impl<P: SharedPointerKind + 'static> Cur for HashTrieMap<El, El, P, TB> {
    const BACK: bool = false;
    const WHICH: i64 = 3;
    fn run(&self, which: i64, _: (i64, i64), _: (i64, i64), acts: &[Act], out: &mut Vec<Saw>) {
        match which {
            0 => fore(self.iter(), &kv, &exlen, acts, out),
            1 => fore(self.keys(), &el, &exlen, acts, out),
            _ => fore(self.values(), &val, &exlen, acts, out),
        }
    }
}
impl<P: SharedPointerKind + 'static> Cur for HashTrieSet<El, P, TB> {
    const BACK: bool = false;
    const WHICH: i64 = 1;
    fn run(&self, _: i64, _: (i64, i64), _: (i64, i64), acts: &[Act], out: &mut Vec<Saw>) {
        fore(self.iter(), &el, &exlen, acts, out)
    }
}
fn bounds<'a>(lo: &'a (i64, i64), hi: &'a (i64, i64)) -> (Bound<&'a ClsRef>, Bound<&'a ClsRef>) {
    let b = |x: &'a (i64, i64)| match x.0 {
        0 => Bound::Unbounded,
        1 => Bound::Included(ClsRef::of(&x.1)),
        _ => Bound::Excluded(ClsRef::of(&x.1)),
    };
    (b(lo), b(hi))
}
impl<P: SharedPointerKind + 'static> Cur for RedBlackTreeMap<El, El, P> {
    const BACK: bool = true;
    const WHICH: i64 = 3;
    fn run(&self, which: i64, lo: (i64, i64), hi: (i64, i64), acts: &[Act], out: &mut Vec<Saw>) {
        match which {
            0 => fore_back(self.iter(), &kv, &exlen, acts, out),
            1 => fore_back(self.keys(), &el, &exlen, acts, out),
            2 => fore_back(self.values(), &val, &exlen, acts, out),
            _ => fore_back(self.range::<ClsRef, _>(bounds(&lo, &hi)), &kv, &nolen, acts, out),
        }
    }
}
impl<P: SharedPointerKind + 'static> Cur for RedBlackTreeSet<El, P> {
    const BACK: bool = true;
    const WHICH: i64 = 1;
    fn run(&self, which: i64, lo: (i64, i64), hi: (i64, i64), acts: &[Act], out: &mut Vec<Saw>) {
        match which {
            3 => fore_back(self.range::<ClsRef, _>(bounds(&lo, &hi)), &el, &nolen, acts, out),
            _ => fore_back(self.iter(), &el, &exlen, acts, out),
        }
    }
}

/// A structure with the keys 2, 4, .. 2n (as elements: in this order), with a history that depends
/// on `h`.
fn shape<D: Ds>(rng: &mut Rng, h: usize, n: i64) -> (D, Cfg) {
    let c = Cfg {
        bits: *rng.pick(&[1, 1, 2, 3, 5, 63]),
        degree: *rng.pick(&[2, 2, 4, 16, 64]),
        hmode: rng.below(HMODES as u64) as u8,
    };
    let key = |p: i64| 2 * p * TAG;
    let ins = |d: &mut D, p: i64, x: i64| match D::KIND {
        "list" => d.inpl("push_front", &[x]),
        "stack" => d.inpl("push", &[x]),
        "queue" => d.inpl("enqueue", &[x]),
        "vector" => d.inpl("push_back", &[x]),
        "hset" | "tset" => d.inpl("insert", &[x]),
        _ => d.inpl("insert", &[x, 2 * key(p) + 1]),
    };
    let mut d = D::make(&c);
    let (front, seq) = (matches!(D::KIND, "list" | "stack"), matches!(D::KIND, "queue" | "vector"));
    let mut ps: Vec<i64> = (1..=n).collect();
    if front {
        if h % 3 == 1 && D::KIND == "list" {
            for p in ps {
                ins(&mut d, p, key(p));
            }
            d.inpl("reverse", &[]);
        } else if h % 3 == 2 {
            let codes: Vec<i64> = ps.iter().map(|p| key(*p)).collect();
            d = D::from_codes(&c, &codes, 0);
        } else {
            for p in ps.into_iter().rev() {
                ins(&mut d, p, key(p));
            }
            for p in 0..(h as i64 / 3) {
                ins(&mut d, p, key(p));
            }
            for _ in 0..(h as i64 / 3) {
                d.inpl(if D::KIND == "list" { "drop_first" } else { "pop" }, &[]);
            }
        }
    } else if seq {
        let k = rng.int(0, 4);
        if D::KIND == "queue" {
            // `k` elements on the way in when the first is taken, so those go over to the way out.
            for x in 0..k {
                ins(&mut d, x, key(50 + x));
            }
            let split = rng.int(0, n);
            for p in 1..=split {
                ins(&mut d, p, key(p));
            }
            for _ in 0..k {
                d.inpl("dequeue", &[]);
            }
            for p in split + 1..=n {
                ins(&mut d, p, key(p));
            }
        } else {
            for p in 1..=n + k {
                ins(&mut d, p, key(p));
            }
            for _ in 0..k {
                d.inpl("drop_last", &[]);
            }
        }
    } else {
        match h % 4 {
            0 => {}
            1 => ps.reverse(),
            _ => {
                for i in (1..ps.len()).rev() {
                    ps.swap(i, rng.below(i as u64 + 1) as usize);
                }
            }
        }
        let more = if h >= 4 { rng.int(1, 9) } else { 0 };
        let odd: Vec<i64> = (0..more).map(|_| (2 * rng.int(0, n + 2) + 1) * TAG).collect();
        let keep = d.clone();
        for (i, p) in ps.iter().enumerate() {
            ins(&mut d, *p, key(*p));
            for (k, o) in odd.iter().enumerate() {
                if k % ps.len() == i {
                    ins(&mut d, *p, *o);
                }
            }
        }
        let shared = d.clone();
        for o in &odd {
            d.inpl("remove", &[*o]);
        }
        drop((keep, shared));
    }
    (d, c)
}

type State = (i64, i64);
type Bd = (i64, i64);
type At = (i64, Bd, Bd);
#[derive(Default)]
struct Moves {
    /// The first state, or a panic.
    start: Vec<(At, Option<State>)>,
    next: HashMap<At, HashMap<State, Vec<(Act, Option<i64>, State)>>>,
}
fn read(path: &str) -> Moves {
    let mut m = Moves::default();
    lines(path, |v| {
        let two = |k: &str| (v[k][0].as_i64().expect("pair"), v[k][1].as_i64().expect("pair"));
        let n = |k: &str| v[k].as_i64().expect("number");
        let at = (n("n"), two("lo"), two("hi"));
        if v.get("st").is_some() {
            m.start.push((at, (n("p") == 0).then(|| two("st"))));
        } else {
            m.next.entry(at).or_default().entry((n("i"), n("j"))).or_default().push((
                (n("c"), n("a") as usize),
                v["r"][0].as_i64(),
                (n("di"), n("dj")),
            ));
        }
    });
    m
}

struct Walk<'a, D> {
    d: &'a D,
    what: String,
    which: i64,
    order: HashMap<i64, i64>,
    acts: Vec<Act>,
    want: Vec<(Option<i64>, i64)>,
    bad: &'a mut Vec<String>,
    steps: &'a mut usize,
    runs: &'a mut usize,
}
impl<D: Cur> Walk<'_, D> {
    fn note(&mut self, s: String) {
        if self.bad.len() < 20 {
            let w = serde_json::to_string(&format!("{}: {s}", self.what)).unwrap();
            self.bad.push(format!("{{\"bad\":{w}}}"));
        }
    }
    /// Runs the path in `acts` and compares each step.
    fn check(&mut self, at: &At) {
        let mut out = Vec::new();
        *self.runs += 1;
        *self.steps += self.acts.len();
        if guard(|| self.d.run(self.which, at.1, at.2, &self.acts, &mut out)).is_none() {
            self.note(format!("panics after {out:?} of {:?}", self.acts));
            return;
        }
        for (k, (s, (r, left))) in out.iter().zip(&self.want).enumerate() {
            let got = s.r.map(|c| self.order.get(&c).copied().unwrap_or(-1));
            let left = *left as usize;
            let hint = if self.which != 3 {
                s.lo == left && s.hi == Some(left) && (s.len == -1 || s.len == left as i64)
            } else {
                s.lo <= left && s.hi.is_none_or(|h| h >= left)
            };
            if got != *r || !hint {
                let (acts, must) = (self.acts[..=k].to_vec(), (r, left));
                self.note(format!("after (code, n) {acts:?}: {got:?}, {s:?}; must be {must:?}"));
                return;
            }
        }
    }
    fn go(&mut self, at: &At, next: &HashMap<State, Vec<(Act, Option<i64>, State)>>, s: State, more: usize, deep: bool) {
        let mut ended = true;
        if more > 0 && self.bad.len() < 20 {
            for (act, r, d) in &next[&s] {
                if (!D::BACK && (act.0 == 1 || act.0 == 3)) || (!deep && act.0 > 1 && act.1 > 1) {
                    continue;
                }
                let left = d.1 - d.0 + 1;
                self.acts.push(*act);
                self.want.push((*r, left));
                // Two steps after the last element.
                self.go(at, next, *d, if r.is_none() { more.min(2) - 1 } else { more }, deep);
                self.acts.pop();
                self.want.pop();
                ended = false;
            }
        }
        if ended {
            self.check(at);
        }
    }
}

fn drive<D: Cur>(m: &Moves, rng: &mut Rng, shapes: usize, ranges: bool, deep: usize, cur: &mut Log) -> (usize, usize, usize, Vec<String>) {
    let (mut bad, mut steps, mut runs, mut made) = (Vec::new(), 0, 0, 0);
    let most = m.start.iter().map(|x| x.0.0).max().unwrap_or(0);
    for n in 0..=most {
        for h in 0..shapes {
            let (d, c) = shape::<D>(rng, h, n);
            made += 1;
            let keys: Vec<i64> = d.flat().iter().map(|x| x.0).collect();
            let mut sorted = keys.clone();
            sorted.sort_unstable();
            let what = format!("{} n={n} shape={h} {}", D::KIND, c_name(&c));
            cur.about(&what);
            let want: Vec<i64> = (1..=n).map(|p| 2 * p * TAG).collect();
            if (if D::KIND.starts_with('h') { &sorted } else { &keys }) != &want {
                bad.push(format!("{{\"bad\":\"{what}: holds {keys:?}\"}}"));
                continue;
            }
            let order: HashMap<i64, i64> = keys.iter().zip(1..).map(|(k, p)| (*k, p)).collect();
            for (at, start) in m.start.iter().filter(|x| x.0.0 == n) {
                let all: Vec<i64> = if ranges { vec![3] } else { (0..D::WHICH).collect() };
                for which in all {
                    let what = format!("{what} iterator {which} range {:?} {:?}", at.1, at.2);
                    let Some(s) = start else {
                        if guard(|| d.run(which, at.1, at.2, &[], &mut vec![])).is_some() {
                            bad.push(format!("{{\"bad\":\"{what}: does not panic\"}}"));
                        }
                        continue;
                    };
                    let mut w = Walk {
                        d: &d,
                        what,
                        which,
                        order: order.clone(),
                        acts: vec![(9, 0)],
                        want: vec![(None, s.1 - s.0 + 1)],
                        bad: &mut bad,
                        steps: &mut steps,
                        runs: &mut runs,
                    };
                    w.go(at, &m.next[at], *s, usize::MAX, n as usize <= deep);
                }
            }
            if bad.len() >= 20 {
                return (made, runs, steps, bad);
            }
        }
    }
    (made, runs, steps, bad)
}
fn c_name(c: &Cfg) -> String {
    format!("bits={} degree={} hashes={}", c.bits, c.degree, c.hmode)
}

#[allow(clippy::too_many_arguments)]
pub fn run(edges: &str, out: &str, kind: &str, ptr: &str, rng: &mut Rng, shapes: usize, ranges: bool, deep: usize) {
    let m = read(edges);
    let mut cur = Log::create(&format!("{out}.log"));
    macro_rules! all {
        ($t:ident [$($e:ty),*] $($h:ty)?) => {
            match ptr {
                "rc" => drive::<$t<$($e,)* RcK $(,$h)?>>(&m, rng, shapes, ranges, deep, &mut cur),
                "arc" => drive::<$t<$($e,)* ArcK $(,$h)?>>(&m, rng, shapes, ranges, deep, &mut cur),
                "count" => drive::<$t<$($e,)* CountK $(,$h)?>>(&m, rng, shapes, ranges, deep, &mut cur),
                _ => drive::<$t<$($e,)* ArcTK $(,$h)?>>(&m, rng, shapes, ranges, deep, &mut cur),
            }
        };
    }
    let (made, runs, steps, bad) = crate::kinds!(kind, all);
    let mut f = std::fs::File::create(out).expect("report");
    for b in &bad {
        writeln!(f, "{b}").unwrap();
    }
    writeln!(f, "{{\"replayed\":{runs},\"checks\":{steps},\"states\":{made},\"mode\":\"cursor\",\"kind\":\"{kind}\"}}").unwrap();
}
