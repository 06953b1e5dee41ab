//! Large structures: contents are told as runs `[a, da, b, db, n]` of items `(a + i*da, b + i*db)`, so
//! that the specification can follow histories of hundreds of thousands of calls.
use crate::cases::{Pair, Same};
use crate::ds::*;
use crate::instr::*;
use crate::log::*;
use archery::{ArcK, ArcTK, RcK};
use rpds::*;
use std::fmt::Write as _;

/// Elements and keys have classes from here on.
const KEY0: i64 = 5000;
const VAL0: i64 = 9000;

// --------------------------------------------------------------------------------------------- runs

pub fn runs(v: &[(i64, i64)]) -> String {
    let mut out = String::from("[");
    let mut i = 0;
    while i < v.len() {
        let (a, b) = v[i];
        let (mut da, mut db, mut n) = (0, 0, 1);
        if i + 1 < v.len() {
            (da, db) = (v[i + 1].0 - a, v[i + 1].1 - b);
            while i + n < v.len() && v[i + n].0 - v[i + n - 1].0 == da && v[i + n].1 - v[i + n - 1].1 == db
            {
                n += 1;
            }
        }
        if n == 1 {
            (da, db) = (0, 0);
        }
        if i > 0 {
            out.push(',');
        }
        let c = |x: i64| x.clamp(-2_000_000_000, 2_000_000_000);
        write!(out, "[{},{},{},{},{n}]", c(a), c(da), c(b), c(db)).unwrap();
        i += n;
        if out.len() > 200_000 {
            break; // cannot be right
        }
    }
    out.push(']');
    out
}
fn content<D: Ds>(d: &D) -> String {
    let mut v = d.flat();
    if D::KIND.starts_with('h') {
        v.sort();
    }
    runs(&v)
}

// ------------------------------------------------------------------------------------ iterator steps

fn one(code: i64, arg: i64, v: &[(i64, i64)], len: i64) -> String {
    format!("[{code},{arg},{},{len}]", runs(v))
}
/// Steps forward: 0 next, 2 nth, 4 take by reference, 9 nothing; ends 10 count, 11 last, 12 collect, 13
/// fold.
pub fn pfwd<I: Iterator, F: Fn(I::Item) -> (i64, i64)>(
    mut it: I,
    enc: F,
    len: &dyn Fn(&I) -> i64,
    rng: &mut Rng,
    n: usize,
) -> String {
    let mut out = vec![one(9, 0, &[], len(&it))];
    for _ in 0..rng.int(0, 4) {
        let c = *rng.pick(&[0, 2, 2]);
        let a = if c == 0 { 0 } else { skip(rng, n) };
        let r: Vec<_> = match c {
            0 => it.next().map(&enc).into_iter().collect(),
            _ => it.nth(a as usize).map(&enc).into_iter().collect(),
        };
        out.push(one(c, a, &r, len(&it)));
    }
    out.push(one(10, 0, &[(it.count() as i64, 0)], -1));
    J::arr(out)
}
/// Both ways: 1 next_back, 3 nth_back, 6 take by reference from the back; ends 16 rev, 17 rfold.
pub fn pboth<I: DoubleEndedIterator, F: Fn(I::Item) -> (i64, i64)>(
    mut it: I,
    enc: F,
    len: &dyn Fn(&I) -> i64,
    rng: &mut Rng,
    n: usize,
) -> String {
    let mut out = vec![one(9, 0, &[], len(&it))];
    for _ in 0..rng.int(0, 6) {
        let c = *rng.pick(&[0, 1, 2, 2, 3, 3, 4, 6]);
        let a = if c < 2 { 0 } else { skip(rng, n) };
        let k = a as usize;
        let r: Vec<_> = match c {
            0 => it.next().map(&enc).into_iter().collect(),
            1 => it.next_back().map(&enc).into_iter().collect(),
            2 => it.nth(k).map(&enc).into_iter().collect(),
            3 => it.nth_back(k).map(&enc).into_iter().collect(),
            4 => it.by_ref().take(k).map(&enc).collect(),
            _ => it.by_ref().rev().take(k).map(&enc).collect(),
        };
        out.push(one(c, a, &r, len(&it)));
    }
    let c = *rng.pick(&[10, 11, 12, 13, 16, 17]);
    let r: Vec<_> = match c {
        10 => vec![(it.count() as i64, 0)],
        11 => it.last().map(&enc).into_iter().collect(),
        12 => it.map(&enc).collect(),
        13 => it.fold(vec![], |mut v, x| {
            v.push(enc(x));
            v
        }),
        16 => it.rev().map(&enc).collect(),
        _ => it.rfold(vec![], |mut v, x| {
            v.push(enc(x));
            v
        }),
    };
    out.push(one(c, 0, &r, -1));
    J::arr(out)
}
fn skip(rng: &mut Rng, n: usize) -> i64 {
    let n = n as i64;
    match rng.below(6) {
        0 => 0,
        1 => rng.int(0, 3),
        2 => (n - 1).max(0),
        3 => n,
        _ => rng.int(0, n),
    }
}

// --------------------------------------------------------------------------------------------- steps

struct Step {
    f: &'static str,
    pers: bool,
    n: i64,
    x: i64,
    dx: i64,
    y: i64,
    dy: i64,
    /// In which order the calls are made, where that does not matter: 0 as told, 1 backwards, 2 mixed.
    order: u64,
}
/// Makes the calls of a step, and tells about it.
fn take<D: Ds>(d: &mut D, s: &Step, rng: &mut Rng) -> String {
    let mut ok = 0;
    let mut old: Vec<(i64, (i64, i64))> = Vec::new();
    let mut idx: Vec<i64> = (0..s.n).collect();
    match s.order {
        1 => idx.reverse(),
        2 => {
            for i in (1..idx.len()).rev() {
                idx.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
        _ => (),
    }
    let mut call = |d: &mut D, f: &str, i: i64, a: &[i64]| {
        let r = if s.pers {
            let (v, r) = d.pers(f, a);
            if let Some(v) = v {
                *d = v;
            }
            r
        } else {
            d.inpl(f, a)
        };
        match r[..] {
            [1, o] => {
                ok += 1;
                old.push((i, (o, 0)));
            }
            [1] => ok += 1,
            _ => (),
        }
    };
    if s.f == "extend" {
        // Every quality of size hint, and of pieces.
        let mut at = 0;
        while at < s.n {
            let m = rng.int(1, s.n - at);
            let codes: Vec<i64> = (at..at + m).map(|i| s.x + i * s.dx).collect();
            extend(d, &codes, rng.below(6) as u8);
            at += m;
        }
    } else {
        for i in idx {
            let (x, y) = (s.x + i * s.dx, s.y + i * s.dy);
            match s.f {
                "churn" => {
                    call(d, "enqueue", i, &[x]);
                    call(d, "dequeue", i, &[]);
                }
                f => call(d, f, i, &[x, y]),
            }
        }
    }
    old.sort();
    let old: Vec<_> = old.into_iter().map(|x| x.1).collect();
    format!(
        "{{\"f\":\"{}\",\"s\":\"{}\",\"n\":{},\"x\":{},\"dx\":{},\"y\":{},\"dy\":{},\"ok\":{ok},\"old\":{}}}",
        s.f,
        if s.pers { "p" } else { "m" },
        s.n,
        s.x,
        s.dx,
        s.y,
        s.dy,
        runs(&old)
    )
}
fn extend<D: Ds>(d: &mut D, codes: &[i64], hint: u8) {
    // Only vectors have `extend`; `Ds` has it as a constructor for the rest.
    let v = d as &mut dyn std::any::Any;
    macro_rules! on {
        ($($p:ty),*) => {$(
            if let Some(v) = v.downcast_mut::<Vector<El, $p>>() {
                v.extend(Hinted::new(codes.iter().map(|c| El::new(*c)), codes.len(), hint));
                return;
            }
        )*};
    }
    on!(RcK, ArcK, ArcTK, CountK);
    panic!("no extend");
}

/// What a case is about.
struct Plan {
    kind: &'static str,
    c: Cfg,
    /// The largest size.
    most: i64,
    /// Whether persistent calls are affordable.
    pers: bool,
}
impl Plan {
    fn new<D: Ds>(rng: &mut Rng, most: i64) -> Plan {
        let small = rng.pct(30);
        let most = if small { most.min(2000) } else { most };
        let c = Cfg {
            bits: *rng.pick(&[
                1, 2, 3, 4, 5, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32,
                33, 40, 47, 63,
            ]),
            degree: *rng.pick(&[2, 4, 8, 16, 32, 64]),
            hmode: rng.below(HMODES as u64) as u8,
        };
        let kind = D::KIND;
        let most = match (kind.starts_with('h'), c.hmode) {
            (true, 1 | 2) => most.min(700),
            (true, 3) => most.min(1200),
            (true, 4 | 8) => most.min(2000),
            (true, 5) => most.min(5000),
            (true, 12) => most.min(20_000),
            (true, _) => most / 3,
            (false, _) if kind.starts_with('t') => most / 3,
            _ => most,
        };
        // A persistent call copies a leaf of a vector.
        let pers = kind != "vector" || most.min(1 << c.bits.min(20)) <= 2048;
        Plan { kind, c, most, pers }
    }
    /// Where something may happen: next to the sizes at which a vector grows or shrinks by a level.
    fn size(&self, rng: &mut Rng) -> i64 {
        let most = self.most;
        let n = if self.kind == "vector" && rng.pct(70) {
            let b = self.c.bits as u32;
            let mut at = Vec::new();
            let mut e = b;
            while e < 40 && 1i64 << e <= most {
                at.push(1i64 << e);
                // Also halfway up the levels.
                at.push((1i64 << e) * rng.int(1, 3));
                e += b;
            }
            if at.is_empty() { most } else { *rng.pick(&at) + rng.int(-2, 2) }
        } else if rng.pct(30) {
            *rng.pick(&[256, 65536, 131_072, 32768, 1024]) + rng.int(-1, 1)
        } else {
            rng.int(0, most)
        };
        n.clamp(0, most)
    }
    fn step(&self, rng: &mut Rng, have: i64) -> Step {
        let key = |rng: &mut Rng| (KEY0 + rng.int(0, self.most)) * TAG + rng.int(0, 3);
        let val = |rng: &mut Rng| (VAL0 + rng.int(0, 9)) * TAG + rng.int(0, 3);
        let (grow, shrink, sets): (&[&'static str], &[&'static str], &[&'static str]) = match self.kind {
            "list" => (&["push_front"], &["drop_first"], &["reverse"]),
            "stack" => (&["push"], &["pop"], &[]),
            "queue" => (&["enqueue"], &["dequeue"], &["churn"]),
            "vector" => (&["push_back", "extend"], &["drop_last"], &["set", "get_mut", "index_mut"]),
            "hmap" | "tmap" => (&["insert"], &["remove"], &["get_mut"]),
            _ => (&["insert"], &["remove"], &["insert"]),
        };
        let f = match rng.below(10) {
            0..5 => *rng.pick(grow),
            5..8 => *rng.pick(shrink),
            _ if sets.is_empty() => *rng.pick(grow),
            _ => *rng.pick(sets),
        };
        let target = self.size(rng);
        let seq = !matches!(self.kind, "hmap" | "tmap" | "hset" | "tset");
        let n = match f {
            "reverse" => rng.int(1, 3),
            "drop_last" | "drop_first" | "pop" | "dequeue" => {
                if target < have {
                    have - target
                } else {
                    rng.int(0, 3) + if rng.pct(20) { have } else { 0 }
                }
            }
            "set" | "get_mut" | "index_mut" if seq => rng.int(1, have.clamp(1, 3000)),
            "churn" => rng.int(1, self.most),
            _ if seq => (target - have).max(rng.int(1, 3)).min(self.most - have.min(self.most)),
            "insert" => target,
            _ => rng.int(0, self.most / 2),
        };
        let (x, dx) = match f {
            "set" | "get_mut" if seq => ((rng.int(0, have) - rng.int(0, n)).max(0), 1),
            "index_mut" => ((rng.int(0, have) - n).max(0), 1),
            _ if seq => (key(rng), *rng.pick(&[TAG, TAG, -TAG, 0])),
            _ => ((KEY0 + rng.int(0, self.most.max(n) - n)) * TAG + rng.int(0, 3), TAG),
        };
        let (x, n) = if f == "index_mut" { (x, n.min(have - x).max(0)) } else { (x, n) };
        let x = if seq && dx < 0 { x + n * TAG } else { x };
        Step {
            f,
            pers: self.pers
                && !matches!(f, "extend" | "get_mut" | "index_mut")
                && !(f == "reverse" && n > 3)
                && rng.pct(40),
            n,
            x,
            dx,
            y: val(rng),
            dy: *rng.pick(&[0, TAG]),
            order: if seq { 0 } else { rng.below(3) },
        }
    }
}
fn size_now<D: Ds>(d: &D) -> i64 {
    d.size() as i64
}

// --------------------------------------------------------------------------------------------- cases

#[cfg(feature = "full")]
pub trait Big: crate::full::Full + Same + Pair<Self> {}
#[cfg(feature = "full")]
impl<T: crate::full::Full + Same + Pair<T>> Big for T {}
#[cfg(not(feature = "full"))]
pub trait Big: Ds + Same + Pair<Self> {}
#[cfg(not(feature = "full"))]
impl<T: Ds + Same + Pair<T>> Big for T {}

fn shown(at: usize, how: &str, n: i64, runs: &str) -> String {
    format!("{{\"at\":{at},\"how\":\"{how}\",\"n\":{n},\"runs\":{runs}}}")
}
fn big<D: Big>(log: &mut Log, rng: &mut Rng, most: i64) {
    let p = Plan::new::<D>(rng, most);
    let tracked = rng.pct(25);
    if tracked {
        track(true);
    }
    log.about(&format!("big {} {:?}", D::KIND, p.c));
    let mut steps = Vec::new();
    let mut kept = Vec::new();
    let (mut qs, mut its, mut rgs) = (vec![], vec![], vec![]);
    let r = guard(|| {
        let mut d = D::make(&p.c);
        let mut old: Vec<(usize, D)> = Vec::new();
        for i in 0..rng.int(1, 5) {
            if rng.pct(35) {
                old.push((i as usize, d.clone()));
            }
            let s = p.step(rng, size_now(&d));
            steps.push(take(&mut d, &s, rng));
        }
        let at = steps.len();
        for (i, v) in &old {
            kept.push(shown(*i, "older", size_now(v), &content(v)));
        }
        kept.push(shown(at, "iter", size_now(&d), &content(&d)));
        #[cfg(feature = "full")]
        if rng.pct(40) {
            match crate::full::round(&d) {
                None => kept.push(shown(at, "serialize", PANIC, "[]")),
                Some(two) => {
                    for (how, (n, mut v)) in ["serialize", "deserialize"].iter().zip(two) {
                        if D::KIND.starts_with('h') {
                            v.sort();
                        }
                        kept.push(shown(at, how, n, &runs(&v)));
                    }
                }
            }
        }
        #[cfg(feature = "full")]
        if let Some(m) = (&d as &dyn std::any::Any).downcast_ref::<HashTrieMapSync<El, El, TB>>() {
            let (n, mut v) = crate::full::par_flat(m);
            v.sort();
            kept.push(shown(at, "par_iter", n, &runs(&v)));
        }
        let n = size_now(&d);
        for _ in 0..30 {
            let q = rng.pick(D::QUERIES);
            let x = match q.arg {
                Arg::Key => (KEY0 + rng.int(-1, p.most + 1)) * TAG + rng.int(0, 3),
                Arg::Idx => match rng.below(3) {
                    0 => rng.int(0, n),
                    1 => p.size(rng) + rng.int(-1, 1),
                    _ => (1i64 << rng.int(0, 30)) - rng.int(0, 1),
                }
                .max(0),
                _ => 0,
            };
            let x = if p.kind == "vector" && rng.pct(3) { far(rng, 9000) } else { x };
            qs.push(format!("[\"{}\",{x},{}]", q.name, J::ints(&d.query(q.name, &[x]))));
        }
        for (name, steps) in d.probes(rng) {
            its.push(format!("[\"{name}\",{steps}]"));
        }
        for _ in 0..3 {
            let b = |rng: &mut Rng| {
                (rng.int(0, 2), (KEY0 + rng.int(-1, p.most + 1)) * TAG + rng.int(0, 3))
            };
            let (lo, hi) = (b(rng), b(rng));
            let (lo, hi) =
                if lo.0 != 0 && hi.0 != 0 && cls(lo.1) > cls(hi.1) && rng.pct(90) { (hi, lo) } else { (lo, hi) };
            if let Some(r) = d.range_probe(lo, hi, rng) {
                rgs.push(format!(
                    "[[{},{}],[{},{}],{},{}]",
                    lo.0,
                    lo.1,
                    hi.0,
                    hi.1,
                    r.is_none() as i64,
                    r.unwrap_or("[]".into())
                ));
            }
        }
        drop(old);
    });
    if r.is_none() {
        kept.push(shown(0, "panicked", PANIC, "[]"));
    }
    let (leak, mis) =
        if tracked { (live_count() as i64, MISDROPS.load(std::sync::atomic::Ordering::Relaxed)) } else { (0, 0) };
    if tracked {
        track(false);
    }
    log.put(
        Ev::new("big")
            .s("k", D::KIND)
            .i("bits", p.c.bits as i64)
            .i("degree", p.c.degree as i64)
            .i("hmode", p.c.hmode as i64)
            .raw("h", &J::arr(steps))
            .raw("kept", &J::arr(kept))
            .raw("q", &J::arr(qs))
            .raw("it", &J::arr(its))
            .raw("rg", &J::arr(rgs))
            .i("leak", leak)
            .i("mis", mis as i64),
    );
}

/// Two large ones, often with the same contents that came about in different ways.
fn two<A: Big + Pair<B>, B: Big>(log: &mut Log, rng: &mut Rng, most: i64) {
    let pa = Plan::new::<A>(rng, most);
    let mut pb = Plan::new::<B>(rng, most);
    pb.most = pb.most.min(pa.most);
    let most = pb.most;
    log.about(&format!("two big {} {:?} {:?}", A::KIND, pa.c, pb.c));
    let (mut ha, mut hb) = (vec![], vec![]);
    let r = guard(|| {
        let mut a = A::make(&pa.c);
        let mut b = B::make(&pb.c);
        let seq = !matches!(A::KIND, "hmap" | "tmap" | "hset" | "tset");
        let front = matches!(A::KIND, "list" | "stack");
        let f = A::MUTS[0].name;
        let n = Plan { most, ..pa }.size(rng);
        let x = KEY0 * TAG;
        let y = VAL0 * TAG;
        let st = |f, n: i64, from: i64, tag: i64, order| Step {
            f,
            pers: false,
            n,
            x: x + from * TAG + tag,
            dx: TAG,
            y: y + if seq { 0 } else { from * TAG } + tag,
            dy: TAG,
            order,
        };
        let o = |rng: &mut Rng| if seq { 0 } else { rng.below(3) };
        // One at once; the other in two parts, with something extra that goes away again.
        ha.push(take(&mut a, &st(f, n, 0, 0, o(rng)), rng));
        let m = rng.int(0, n);
        let e = rng.int(0, most.min(900));
        hb.push(take(&mut b, &st(f, m, 0, rng.int(0, 1), o(rng)), rng));
        if seq {
            let extra = rng.int(0, e);
            if A::KIND != "queue" {
                hb.push(take(&mut b, &st(f, extra, 77, 1, 0), rng));
                let g = match A::KIND {
                    "list" => "drop_first",
                    "stack" => "pop",
                    _ => "drop_last",
                };
                hb.push(take(&mut b, &st(g, extra, 0, 0, 0), rng));
            }
            hb.push(take(&mut b, &st(f, n - m, m, 2, 0), rng));
        } else {
            hb.push(take(&mut b, &st(f, n - m + e, m, 2, o(rng)), rng));
            hb.push(take(&mut b, &st("remove", e, n, 2, o(rng)), rng));
        }
        // A difference, perhaps.
        let _ = front;
        match rng.below(6) {
            0 if A::KIND == "vector" && n > 0 => {
                let i = rng.int(0, n - 1);
                let mut s = st("set", 1, 0, 0, 0);
                s.x = i;
                s.y = x + i * TAG + rng.int(-1, 1) * TAG;
                hb.push(take(&mut b, &s, rng));
            }
            0 if A::KIND.ends_with("map") && n > 0 => {
                let i = rng.int(0, n - 1);
                let mut s = st("get_mut", 1, i, 1, 0);
                s.y += rng.int(-1, 1) * TAG;
                hb.push(take(&mut b, &s, rng));
            }
            1 => {
                let i = rng.int(0, n);
                let s = if seq { st(B::MUTS[1].name, rng.int(0, 1), 0, 0, 0) } else { st("remove", 1, i, 0, 0) };
                hb.push(take(&mut b, &s, rng));
            }
            2 => {
                let i = rng.int(0, n);
                let s = st(f, 1, i, 0, 0);
                hb.push(take(&mut b, &s, rng));
            }
            _ => (),
        }
        let r = a.cmp2(&b);
        let hash = match (a.bytes(), b.bytes()) {
            (Some(a), Some(b)) => (a != b) as i64,
            _ => -9,
        };
        let rel = (&b as &dyn std::any::Any)
            .downcast_ref::<A>()
            .and_then(|b| a.relations(b))
            .map_or(vec![-9], |r| r.iter().map(|x| *x as i64).collect());
        let show = |n: i64, s: String| shown(0, "iter", n, &s);
        (r, hash, rel, show(size_now(&a), content(&a)), show(size_now(&b), content(&b)))
    });
    let bad = || shown(0, "panicked", PANIC, "[]");
    let (r, hash, rel, oa, ob) = r.unwrap_or((vec![PANIC; 7], 0, vec![], bad(), bad()));
    log.put(
        Ev::new("bigpair")
            .s("k", A::KIND)
            .raw("ha", &J::arr(ha))
            .raw("hb", &J::arr(hb))
            .raw("oa", &oa)
            .raw("ob", &ob)
            .v("r", &r)
            .i("hash", hash)
            .v("rel", &rel),
    );
}

pub fn bigs_of(log: &mut Log, rng: &mut Rng, kind: &str, n: usize, most: i64) {
    for _ in 0..n {
        macro_rules! go {
            ($t:ident [$($e:ty),*] $($h:ty)?) => {
                match rng.below(12) {
                    0 | 1 => big::<$t<$($e,)* RcK $(,$h)?>>(log, rng, most),
                    2 | 3 => big::<$t<$($e,)* ArcTK $(,$h)?>>(log, rng, most),
                    4 | 5 => big::<$t<$($e,)* ArcK $(,$h)?>>(log, rng, most),
                    6 | 7 => big::<$t<$($e,)* CountK $(,$h)?>>(log, rng, most),
                    8 => two::<$t<$($e,)* RcK $(,$h)?>, $t<$($e,)* ArcTK $(,$h)?>>(log, rng, most),
                    9 => two::<$t<$($e,)* CountK $(,$h)?>, $t<$($e,)* RcK $(,$h)?>>(log, rng, most),
                    10 => two::<$t<$($e,)* ArcTK $(,$h)?>, $t<$($e,)* ArcTK $(,$h)?>>(log, rng, most),
                    _ => two::<$t<$($e,)* RcK $(,$h)?>, $t<$($e,)* RcK $(,$h)?>>(log, rng, most),
                }
            };
        }
        crate::kinds!(kind, go);
    }
}
