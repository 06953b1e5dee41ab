//! How much stack operations on long chains use: lists, queues, and maps in which keys collide.
use crate::cases::*;
use crate::ds::*;
use crate::full::*;
use crate::instr::*;
use crate::log::*;
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use rpds::*;
use std::fmt::{Debug, Write};
use std::sync::atomic::Ordering::Relaxed;

/// Discards what is written.
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

struct Run<'a> {
    log: &'a mut Log,
    k: &'static str,
    ptr: &'static str,
    n: i64,
}
impl Run<'_> {
    fn m<R>(&mut self, f: &str, call: impl FnOnce() -> R) -> R {
        self.log.about(&format!("{} ({}) {f} n={}", self.k, self.ptr, self.n));
        MAXDEPTH.store(0, Relaxed);
        let (r, peak) = all_stack_of(call);
        self.log.put(
            Ev::new("deep")
                .s("k", self.k)
                .s("f", f)
                .s("ptr", self.ptr)
                .i("n", self.n)
                .i("peak", peak)
                .i("depth", MAXDEPTH.load(Relaxed) as i64),
        );
        r
    }
}

fn arg<D: Ds>(i: i64) -> Vec<i64> {
    if D::KIND.ends_with("map") { vec![i * TAG, i * TAG + 1] } else { vec![i * TAG] }
}
fn names<D: Ds>() -> (&'static str, &'static str) {
    match D::KIND {
        "list" => ("push_front", "drop_first"),
        "stack" => ("push", "pop"),
        "queue" => ("enqueue", "dequeue"),
        "vector" => ("push_back", "drop_last"),
        _ => ("insert", "remove"),
    }
}
fn take_arg<D: Ds>(i: i64) -> Vec<i64> {
    if D::KIND.ends_with("map") || D::KIND.ends_with("set") { vec![i * TAG] } else { vec![] }
}

/// Drops versions in some order.
fn release<D>(mut v: Vec<Option<D>>, rng: &mut Rng, how: u64) {
    let n = v.len();
    match how % 5 {
        0 => v.iter_mut().for_each(|x| *x = None),
        1 => v.iter_mut().rev().for_each(|x| *x = None),
        2 => (0..n).for_each(|i| v[if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }] = None),
        3 => (0..n).map(|i| if i < n / 2 { n / 2 - 1 - i } else { i }).for_each(|i| v[i] = None),
        _ => {
            for i in (1..n).rev() {
                v.swap(i, rng.below(i as u64 + 1) as usize);
            }
            drop(v);
        }
    }
}

fn all<D: Full + Same + Pair<D>>(r: &mut Run, rng: &mut Rng, c: &Cfg, n: i64) {
    let (add, take) = names::<D>();
    let codes: Vec<i64> = (0..n).flat_map(|i| arg::<D>(i)).collect();
    let d = r.m("collect", || D::from_codes(c, &codes, 1));
    let mut e = r.m("build", || {
        let mut e = D::make(c);
        for i in 0..n {
            e.inpl(add, &arg::<D>(i));
        }
        e
    });
    r.m("iterate", || assert_eq!(d.walk(i64::MAX / 2), n as usize));
    r.m("iterate built", || assert_eq!(e.walk(i64::MAX / 2), n as usize));
    r.m("iterate back", || d.walk(-(i64::MAX / 2)));
    r.m("iterate back built", || e.walk(-(i64::MAX / 2)));
    r.m("compare", || d.cmp2(&e));
    r.m("compare self", || d.cmp2(&d.clone()));
    r.m("order", || d.ord_(&e));
    r.m("order", || e.ord_(&d));
    r.m("hash", || d.bytes());
    r.m("hash built", || e.bytes());
    r.m("display", || d.display(0).len());
    r.m("display built", || e.display(0).len());
    r.m("serialize built", || e.serialize(TokSer).is_ok());
    let t = r.m("serialize", || d.serialize(TokSer).unwrap_or_default());
    let back = r.m("deserialize", || {
        D::deserialize(TokDe { codes: t.items.clone(), w: t.w.max(1), hint: 1, err: -1, at: 0 }).ok()
    });
    r.m("drop", || drop(back));
    r.m("broken input", || {
        D::deserialize(TokDe { codes: t.items.clone(), w: t.w.max(1), hint: 1, err: n - 2, at: 0 }).is_err()
    });
    if D::MUTS.iter().any(|o| o.name == "reverse") {
        let keep = e.clone();
        r.m("reverse", || e.inpl("reverse", &[]));
        drop(keep);
        r.m("reverse", || e.inpl("reverse", &[]));
        let p = r.m("reverse", || e.pers("reverse", &[]).0);
        r.m("drop reversed", || drop(p));
    }
    if let Some(x) = D::MUTS.iter().find(|o| o.name == "extend") {
        r.m(x.name, || e.inpl("extend", &codes));
    }
    // In the middle of a chain, and at its ends, with and without sharing.
    for i in [0, n / 2, n - 1, 1, n - 2] {
        let keep = e.clone();
        r.m("take", || e.inpl(take, &take_arg::<D>(i)));
        r.m("take", || keep.pers(take, &take_arg::<D>(i)));
        r.m("add", || e.inpl(add, &arg::<D>(i)));
        r.m("ask", || {
            for q in D::QUERIES {
                let a = if q.arg == Arg::None { vec![] } else { vec![i * if q.arg == Arg::Idx { 1 } else { TAG }] };
                e.query(q.name, &a);
            }
        });
        r.m("drop", || drop(keep));
    }
    r.m("clone", || d.clone());
    r.m("drop unshared", || drop(e));
    let d2 = d.clone();
    r.m("drop one of two", || drop(d2));
    r.m("drop last of two", || drop(d));
    // Unwinding.
    let d = D::from_codes(c, &codes, 1);
    r.m("unwind", || {
        guard(move || {
            let _d = d;
            std::panic::panic_any("injected");
        })
    });
    r.m("interrupted collect", || {
        arm(Cb::Iter, n - 2);
        let x = guard(|| D::from_codes(c, &codes, 1));
        disarm();
        x.is_none()
    });
    // Taking everything, one by one.
    let mut d = D::from_codes(c, &codes, 1);
    r.m("empty", || {
        for i in 0..n {
            d.inpl(take, &take_arg::<D>(i));
        }
    });
    assert_eq!(d.size(), 0);
    // Many versions of one history, dropped in various orders.
    let quadratic = D::KIND.starts_with('h');
    let every = if quadratic { (n / 40).max(1) } else { 1 };
    for how in 0..5 {
        for growing in [true, false] {
            if quadratic && (how > 2 || growing != (how == 1)) {
                continue;
            }
            let mut vs = Vec::new();
            let mut d = if growing { D::make(c) } else { D::from_codes(c, &codes, 1) };
            for i in 0..n {
                if i % every == 0 {
                    vs.push(Some(d.clone()));
                }
                if growing {
                    d.inpl(add, &arg::<D>(i));
                } else {
                    d.inpl(take, &take_arg::<D>(i));
                }
            }
            vs.push(Some(d));
            r.m(&format!("drop versions {how}{}", growing as i64), || release(vs, rng, how));
        }
    }
    // Branches off a common part.
    for how in 0..5 {
        let mut vs = Vec::new();
        let base = D::from_codes(c, &codes, 1);
        for j in 0..6 {
            let mut b = base.clone();
            for i in 0..(if quadratic { 4 } else { n / 4 }) {
                b.inpl(add, &arg::<D>(n + i * 6 + j));
            }
            for i in 0..(if quadratic { 4 } else { n / 3 * j / 3 }) {
                b.inpl(take, &take_arg::<D>(i));
            }
            vs.push(Some(b));
        }
        vs.push(Some(base));
        r.m(&format!("drop branches {how}"), || release(vs, rng, how));
    }
    // Replaced while in use.
    let mut d = D::from_codes(c, &codes, 1);
    r.m("replace", || d = D::make(c));
    drop(d);
}

/// An element whose release may fail.
struct Bomb(bool);
impl Drop for Bomb {
    fn drop(&mut self) {
        if self.0 && !std::thread::panicking() {
            std::panic::panic_any("injected");
        }
    }
}
/// Chains of elements that hold chains themselves, and of elements whose release fails.
macro_rules! nested {
    ($r:expr, $p:ident, $n:expr, $t:ident, $add:ident, $take:ident) => {{
        let r: &mut Run = $r;
        let n: i64 = $n;
        let inner = || (0..n).collect::<$t<i64, $p>>();
        let some = || (0..3).map(|_| inner()).collect::<$t<$t<i64, $p>, $p>>();
        let d = some();
        r.m("drop nested", || drop(d));
        let mut d = some();
        let keep = d.clone();
        r.m("take nested", || d.$take());
        drop(keep);
        r.m("take nested", || d.$take());
        r.m("drop nested", || drop(d));
        let v = (0..3).map(|_| inner()).collect::<Vector<$t<i64, $p>, $p>>();
        r.m("drop in a vector", || drop(v));
        let mut v = (0..3).map(|_| inner()).collect::<Vector<$t<i64, $p>, $p>>();
        r.m("replace in a vector", || v.set_mut(1, inner()));
        r.m("drop_last of a vector", || v.drop_last_mut());
        let mut m = (0..3).map(|i| (i, inner())).collect::<HashTrieMap<i64, $t<i64, $p>, $p, BH>>();
        r.m("replace in a map", || m.insert_mut(1, inner()));
        r.m("remove from a map", || m.remove_mut(&2));
        r.m("drop in a map", || drop(m));
        let mut m = (0..3).map(|i| (i, inner())).collect::<RedBlackTreeMap<i64, $t<i64, $p>, $p>>();
        r.m("replace in an ordered map", || m.insert_mut(1, inner()));
        r.m("remove from an ordered map", || m.remove_mut(&2));
        r.m("drop in an ordered map", || drop(m));
        // Deeper: a chain of chains of chains, all of a few hundred.
        let k = 300.min(n);
        let d = (0..k)
            .map(|_| (0..3).map(|_| (0..k).collect::<$t<i64, $p>>()).collect::<$t<$t<i64, $p>, $p>>())
            .collect::<$t<$t<$t<i64, $p>, $p>, $p>>();
        r.m("drop nested", || drop(d));
        for at in [0, n / 2, n - 1] {
            let mut d = $t::<Bomb, $p>::new_with_ptr_kind();
            for i in 0..n {
                d.$add(Bomb(i == at));
            }
            r.m("failing drop", || guard(move || drop(d)).is_none());
        }
    }};
}
type BH = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
fn nested_of<P: SharedPointerKind>(r: &mut Run, n: i64) {
    match r.k {
        "list" => nested!(r, P, n, List, push_front_mut, drop_first_mut),
        "stack" => nested!(r, P, n, Stack, push_mut, pop_mut),
        "queue" => nested!(r, P, n, Queue, enqueue_mut, dequeue_mut),
        _ => (),
    }
}

fn debug<D: Full + Debug>(r: &mut Run, c: &Cfg, n: i64) {
    let codes: Vec<i64> = (0..n).flat_map(|i| arg::<D>(i)).collect();
    let d = D::from_codes(c, &codes, 1);
    let f = format!("debug-{}-{n}", D::KIND);
    r.m(&f, || {
        let mut s = Sink(0);
        write!(s, "{d:?}").unwrap();
        s.0
    });
}

pub fn deep_of(log: &mut Log, rng: &mut Rng, kind: &str, n: u64, rounds: u64, dbg: bool) {
    // Whatever it takes: what is used is measured.
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(3 << 29)
            .spawn_scoped(s, || {
                for i in 0..rounds {
                    let c = Cfg { bits: [5, 1][i as usize % 2], degree: [64, 2][i as usize % 2], hmode: 1 };
                    macro_rules! go1 {
                        ($p:ident, $t:ident [$e:ty $(,$e2:ty)?] $h:ty) => { go2!($t<$e $(,$e2)?, $p, $h>, $p) };
                        ($p:ident, $t:ident [$e:ty $(,$e2:ty)?]) => { go2!($t<$e $(,$e2)?, $p>, $p) };
                    }
                    macro_rules! go2 {
                        ($d:ty, $p:ident) => {{
                            let k = <$d as Ds>::KIND;
                            let mut r = Run { log, k, ptr: stringify!($p), n: n as i64 };
                            if dbg {
                                debug::<$d>(&mut r, &c, n as i64)
                            } else {
                                all::<$d>(&mut r, rng, &c, n as i64);
                                nested_of::<$p>(&mut r, n as i64)
                            }
                        }};
                    }
                    macro_rules! go {
                        ($t:ident [$e:ty $(,$e2:ty)?] $h:ty) => { match i % 4 {
                            0 => go1!(CountK, $t[$e $(,$e2)?] $h), 1 => go1!(RcK, $t[$e $(,$e2)?] $h),
                            2 => go1!(ArcK, $t[$e $(,$e2)?] $h), _ => go1!(ArcTK, $t[$e $(,$e2)?] $h) } };
                        ($t:ident [$e:ty $(,$e2:ty)?]) => { match i % 4 {
                            0 => go1!(CountK, $t[$e $(,$e2)?]), 1 => go1!(RcK, $t[$e $(,$e2)?]),
                            2 => go1!(ArcK, $t[$e $(,$e2)?]), _ => go1!(ArcTK, $t[$e $(,$e2)?]) } };
                    }
                    crate::kinds!(kind, go);
                }
            })
            .expect("thread")
            .join()
            .expect("deep");
    });
}
