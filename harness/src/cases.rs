//! Independent cases: each event says how its operands came about, and what was asked of them.
use crate::ds::*;
use crate::instr::*;
use crate::log::*;
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use rpds::*;
use std::hash::Hash;

const VALC: i64 = 9000;

/// What random histories are made of.
#[derive(Clone, Copy)]
pub struct Gen {
    pub classes: i64,
    /// Chance of an element (or value) that is not comparable.
    pub nan: u64,
}
impl Gen {
    pub fn elem(&self, rng: &mut Rng) -> i64 {
        let c = if rng.pct(self.nan) { NAN_CLS } else { rng.int(0, self.classes - 1) };
        c * TAG + rng.int(0, TAG - 1)
    }
    pub fn key(&self, rng: &mut Rng) -> i64 {
        rng.int(0, self.classes - 1) * TAG + rng.int(0, TAG - 1)
    }
    pub fn val(&self, rng: &mut Rng) -> i64 {
        let c = if rng.pct(self.nan) { NAN_CLS } else { VALC + rng.int(0, 2) };
        c * TAG + rng.int(0, TAG - 1)
    }
    pub fn item<D: Ds>(&self, rng: &mut Rng) -> Vec<i64> {
        if D::KIND.ends_with("map") {
            vec![self.key(rng), self.val(rng)]
        } else if D::KIND.ends_with("set") {
            vec![self.key(rng)]
        } else {
            vec![self.elem(rng)]
        }
    }
    pub fn items<D: Ds>(&self, rng: &mut Rng, n: i64) -> Vec<i64> {
        (0..n).flat_map(|_| self.item::<D>(rng)).collect()
    }
    pub fn args<D: Ds>(&self, rng: &mut Rng, a: Arg, n: i64) -> Vec<i64> {
        match a {
            Arg::None => vec![],
            Arg::Elem => self.item::<D>(rng),
            Arg::Key => vec![self.key(rng)],
            Arg::Idx => vec![rng.int(0, n)],
            Arg::IdxElem => vec![rng.int(0, n), self.elem(rng)],
            Arg::KeyVal => vec![self.key(rng), self.val(rng)],
        }
    }
}

/// A random history of `n` operations applied to `d`, as JSON for the specification.
pub fn history<D: Ds>(rng: &mut Rng, g: &Gen, d: &mut D, n: i64) -> String {
    let mut out = Vec::new();
    let growing = rng.pct(75);
    for _ in 0..n {
        let w: u64 = D::MUTS.iter().map(|o| if growing { o.grow } else { o.shrink }).sum();
        let mut x = rng.below(w);
        let op = D::MUTS
            .iter()
            .find(|o| {
                let k = if growing { o.grow } else { o.shrink };
                let r = x < k;
                x = x.wrapping_sub(k);
                r
            })
            .unwrap();
        let a = g.args::<D>(rng, op.arg, d.size() as i64);
        if op.m && (!op.p || rng.pct(60)) {
            d.inpl(op.name, &a);
        } else {
            let (v, _) = d.pers(op.name, &a);
            if let Some(v) = v {
                *d = v;
            }
        }
        out.push(format!("[\"{}\",{}]", op.name, J::ints(&a)));
    }
    J::arr(out)
}
pub fn cfg(rng: &mut Rng) -> Cfg {
    Cfg {
        bits: *rng.pick(&[1, 2, 3, 5]),
        degree: *rng.pick(&[2, 4, 8, 16, 32, 64]),
        hmode: rng.below(HMODES as u64) as u8,
    }
}

// ----------------------------------------------------------------------- comparing two structures

const NA: i64 = -9;
fn ord(o: Option<std::cmp::Ordering>) -> i64 {
    o.map_or(2, |o| o as i64)
}
pub trait Pair<B> {
    fn cmp2(&self, b: &B) -> Vec<i64>;
}
pub trait Same: Sized {
    fn ord_(&self, _b: &Self) -> i64 {
        NA
    }
    fn bytes(&self) -> Option<Vec<u8>> {
        None
    }
}
macro_rules! pair {
    (ord $t:ident [$($e:ty),*]) => {
        impl<P: SharedPointerKind, O: SharedPointerKind> Pair<$t<$($e,)* O>> for $t<$($e,)* P> {
            #[allow(clippy::neg_cmp_op_on_partial_ord)]
            fn cmp2(&self, b: &$t<$($e,)* O>) -> Vec<i64> {
                vec![
                    (self == b) as i64,
                    (self != b) as i64,
                    ord(self.partial_cmp(b)),
                    (self < b) as i64,
                    (self <= b) as i64,
                    (self > b) as i64,
                    (self >= b) as i64,
                ]
            }
        }
        impl<P: SharedPointerKind> Same for $t<$($e,)* P> {
            fn ord_(&self, b: &Self) -> i64 {
                self.cmp(b) as i64
            }
            fn bytes(&self) -> Option<Vec<u8>> {
                let mut h = RecHasher::default();
                self.hash(&mut h);
                Some(h.0)
            }
        }
    };
    (eq $t:ident [$($e:ty),*]) => {
        impl<P: SharedPointerKind, O: SharedPointerKind> Pair<$t<$($e,)* O, TB>>
            for $t<$($e,)* P, TB>
        {
            fn cmp2(&self, b: &$t<$($e,)* O, TB>) -> Vec<i64> {
                vec![(self == b) as i64, (self != b) as i64, NA, NA, NA, NA, NA]
            }
        }
        impl<P: SharedPointerKind> Same for $t<$($e,)* P, TB> {}
    };
}
pair!(ord List [El]);
pair!(ord Stack [El]);
pair!(ord Queue [El]);
pair!(ord Vector [El]);
pair!(ord RedBlackTreeMap [El, El]);
pair!(ord RedBlackTreeSet [El]);
pair!(eq HashTrieMap [El, El]);
pair!(eq HashTrieSet [El]);

fn hashrel(a: Option<Vec<u8>>, b: Option<Vec<u8>>) -> i64 {
    match (a, b) {
        (Some(a), Some(b)) if a == b => 0,
        (Some(a), Some(b)) if a.starts_with(&b) || b.starts_with(&a) => 2,
        (Some(_), Some(_)) => 1,
        _ => NA,
    }
}

/// Two structures with a common beginning, of the same type.
fn pair_same<D: Ds + Same + Pair<D>>(log: &mut Log, rng: &mut Rng) {
    let g = Gen { classes: *rng.pick(&[2, 3, 5, 9]), nan: *rng.pick(&[0, 0, 0, 6]) };
    let c = cfg(rng);
    let mut a = D::make(&c);
    let base = {
        let n = *rng.pick(&[0, 2, 5, 9, 20]);
        let n = rng.int(0, n);
        history(rng, &g, &mut a, n)
    };
    let mut b = a.clone();
    let k = *rng.pick(&[0, 1, 1, 2, 4]);
    log.about(&format!("compare {} after {base}", D::KIND));
    let ha = {
        let n = rng.int(0, k);
        history(rng, &g, &mut a, n)
    };
    let hb = {
        let n = rng.int(0, k);
        history(rng, &g, &mut b, n)
    };
    emit(log, &base, &ha, &hb, &a, &b, |a, b| {
        let mut r = a.cmp2(b);
        r.push(a.ord_(b));
        r.push(hashrel(a.bytes(), b.bytes()));
        r.push(a.ptr_eq_(b).map_or(NA, |x| x as i64));
        r
    });
}
/// Two structures of the same kind with different parameters or pointer kinds, and contents that are
/// often the same.
fn pair_cross<A: Ds + Same + Pair<B>, B: Ds + Same>(log: &mut Log, rng: &mut Rng) {
    let g = Gen { classes: *rng.pick(&[2, 3, 5, 9]), nan: *rng.pick(&[0, 0, 0, 6]) };
    let mut a = A::make(&cfg(rng));
    let n = *rng.pick(&[0, 2, 5, 9, 20]);
    let n = rng.int(0, n);
    let ha = history(rng, &g, &mut a, n);
    let mut b = B::make(&cfg(rng));
    log.about(&format!("compare {} {ha}", A::KIND));
    let hb = if rng.pct(60) {
        // The contents of `a`, put together in another way.
        let mut parts = Vec::new();
        let items: Vec<Vec<i64>> = a
            .items()
            .iter()
            .map(|s| serde_json::from_str::<serde_json::Value>(s).unwrap())
            .map(|v| match v {
                serde_json::Value::Array(a) => a.iter().map(|x| x.as_i64().unwrap()).collect(),
                x => vec![x.as_i64().unwrap()],
            })
            .collect();
        let items: Vec<Vec<i64>> = match A::KIND {
            "list" | "stack" => items.into_iter().rev().collect(),
            "queue" | "vector" => items,
            _ => {
                let mut v = items;
                for i in (1..v.len()).rev() {
                    let j = rng.below(i as u64 + 1) as usize;
                    v.swap(i, j);
                }
                v
            }
        };
        let f = B::MUTS[0].name;
        for it in items {
            b.inpl(f, &it);
            parts.push(format!("[\"{f}\",{}]", J::ints(&it)));
        }
        if rng.pct(50) {
            let n = rng.int(1, 2);
            let h = history(rng, &g, &mut b, n);
            parts.push(h[1..h.len() - 1].to_string());
        }
        J::arr(parts)
    } else {
        let m = n.max(1);
        let n = rng.int(0, m);
        history(rng, &g, &mut b, n)
    };
    emit(log, "[]", &ha, &hb, &a, &b, |a, b| {
        let mut r = a.cmp2(b);
        r.push(NA);
        r.push(hashrel(a.bytes(), b.bytes()));
        r.push(NA);
        r
    });
}
fn emit<A: Ds, B: Ds>(
    log: &mut Log,
    base: &str,
    ha: &str,
    hb: &str,
    a: &A,
    b: &B,
    f: impl FnOnce(&A, &B) -> Vec<i64>,
) {
    let r = guard(|| f(a, b)).unwrap_or_else(|| vec![PANIC; 10]);
    log.put(
        Ev::new("pair")
            .s("k", A::KIND)
            .raw("base", base)
            .raw("ha", ha)
            .raw("hb", hb)
            .raw("oa", &a.content())
            .raw("ob", &b.content())
            .v("r", &r),
    );
}

pub trait Rel<B> {
    fn rel(&self, b: &B) -> [bool; 3];
}
impl<P: SharedPointerKind, O: SharedPointerKind> Rel<RedBlackTreeSet<El, O>>
    for RedBlackTreeSet<El, P>
{
    fn rel(&self, b: &RedBlackTreeSet<El, O>) -> [bool; 3] {
        [self.is_disjoint(b), self.is_subset(b), self.is_superset(b)]
    }
}
impl<P: SharedPointerKind, H: Hb, O: Hb> Rel<HashTrieSet<El, P, O>> for HashTrieSet<El, P, H> {
    fn rel(&self, b: &HashTrieSet<El, P, O>) -> [bool; 3] {
        [self.is_disjoint(b), self.is_subset(b), self.is_superset(b)]
    }
}
fn rel_cross<A: Ds + Rel<B>, B: Ds>(log: &mut Log, rng: &mut Rng) {
    let g = Gen { classes: *rng.pick(&[2, 4, 8, 16]), nan: 0 };
    let mut a = A::make(&cfg(rng));
    let mut b = B::make(&cfg(rng));
    let m = *rng.pick(&[0, 3, 8, 30]);
    let n = rng.int(0, m);
    let ha = history(rng, &g, &mut a, n);
    let n = rng.int(0, m);
    let hb = history(rng, &g, &mut b, n);
    log.about(&format!("relate {} {ha} {hb}", A::KIND));
    let r = guard(|| a.rel(&b).iter().map(|x| *x as i64).collect::<Vec<_>>())
        .unwrap_or_else(|| vec![PANIC]);
    log.put(
        Ev::new("relx")
            .s("k", A::KIND)
            .raw("ha", &ha)
            .raw("hb", &hb)
            .raw("oa", &a.content())
            .raw("ob", &b.content())
            .v("r", &r),
    );
}

#[macro_export]
macro_rules! kinds {
    ($kind:expr, $go:ident) => {
        match $kind {
            "list" => $go!(List [El]),
            "stack" => $go!(Stack [El]),
            "queue" => $go!(Queue [El]),
            "vector" => $go!(Vector [El]),
            "tmap" => $go!(RedBlackTreeMap [El, El]),
            "tset" => $go!(RedBlackTreeSet [El]),
            "hmap" => $go!(HashTrieMap [El, El] TB),
            "hset" => $go!(HashTrieSet [El] TB),
            k => panic!("unknown kind {k}"),
        }
    };
}

pub fn pairs_of(log: &mut Log, rng: &mut Rng, kind: &str, n: usize) {
    for _ in 0..n {
        macro_rules! go {
            ($t:ident [$($e:ty),*] $($h:ty)?) => {
                match rng.below(10) {
                    0 | 1 => pair_same::<$t<$($e,)* RcK $(,$h)?>>(log, rng),
                    2 => pair_same::<$t<$($e,)* ArcTK $(,$h)?>>(log, rng),
                    3 => pair_same::<$t<$($e,)* CountK $(,$h)?>>(log, rng),
                    4 => pair_same::<$t<$($e,)* ArcK $(,$h)?>>(log, rng),
                    5 => pair_cross::<$t<$($e,)* RcK $(,$h)?>, $t<$($e,)* ArcTK $(,$h)?>>(log, rng),
                    6 => pair_cross::<$t<$($e,)* ArcTK $(,$h)?>, $t<$($e,)* CountK $(,$h)?>>(log, rng),
                    7 => pair_cross::<$t<$($e,)* CountK $(,$h)?>, $t<$($e,)* RcK $(,$h)?>>(log, rng),
                    8 => pair_cross::<$t<$($e,)* ArcK $(,$h)?>, $t<$($e,)* ArcK $(,$h)?>>(log, rng),
                    _ => pair_cross::<$t<$($e,)* RcK $(,$h)?>, $t<$($e,)* RcK $(,$h)?>>(log, rng),
                }
            };
        }
        kinds!(kind, go);
    }
}
pub fn rels_of(log: &mut Log, rng: &mut Rng, kind: &str, n: usize) {
    for _ in 0..n {
        match (kind, rng.below(4)) {
            ("tset", 0) => {
                rel_cross::<RedBlackTreeSet<El, RcK>, RedBlackTreeSet<El, ArcTK>>(log, rng)
            }
            ("tset", 1) => {
                rel_cross::<RedBlackTreeSet<El, CountK>, RedBlackTreeSet<El, RcK>>(log, rng)
            }
            ("tset", _) => {
                rel_cross::<RedBlackTreeSet<El, ArcK>, RedBlackTreeSet<El, ArcK>>(log, rng)
            }
            (_, 0) => rel_cross::<HashTrieSet<El, RcK, TB>, HashTrieSet<El, RcK, TB2>>(log, rng),
            (_, 1) => rel_cross::<HashTrieSet<El, ArcTK, TB2>, HashTrieSet<El, ArcTK, TB>>(log, rng),
            (_, 2) => rel_cross::<HashTrieSet<El, CountK, TB>, HashTrieSet<El, CountK, TB>>(log, rng),
            (_, _) => rel_cross::<HashTrieSet<El, ArcK, TB>, HashTrieSet<El, ArcK, TB>>(log, rng),
        }
    }
}

// ------------------------------------------------------------- collecting, rendering, constructing

fn coll<D: Ds + Default + FromIterator<I>, I>(
    log: &mut Log,
    rng: &mut Rng,
    mk: impl Fn(&[i64]) -> I,
    w: usize,
) {
    let g = Gen { classes: *rng.pick(&[2, 6, 20]), nan: 0 };
    let m = *rng.pick(&[0, 1, 3, 10, 70]);
    let n = rng.int(0, m);
    let items = g.items::<D>(rng, n);
    let hint = rng.below(6) as u8;
    let how = rng.int(0, 2);
    log.about(&format!("collect {} hint {hint} {items:?}", D::KIND));
    let r = guard(|| {
        let d: D = if items.is_empty() && rng.pct(50) {
            D::default()
        } else {
            Hinted::new(items.chunks(w).map(&mk), n as usize, hint).collect()
        };
        (d.content(), d.size() as i64, d.display(how))
    });
    let (o, n, s) = r.unwrap_or(("[]".into(), PANIC, String::new()));
    log.put(
        Ev::new("coll")
            .s("k", D::KIND)
            .s("via", "collect")
            .v("a", &items)
            .raw("o", &o)
            .i("n", n)
            .i("how", how)
            .s("d", &s),
    );
}
fn mac<D: Ds>(log: &mut Log, items: &[i64], d: D) {
    log.put(
        Ev::new("coll")
            .s("k", D::KIND)
            .s("via", "macro")
            .v("a", items)
            .raw("o", &d.content())
            .i("n", d.size() as i64)
            .i("how", 0)
            .s("d", &d.display(0)),
    );
}
pub fn colls_of(log: &mut Log, rng: &mut Rng, kind: &str, n: usize) {
    for _ in 0..n {
        macro_rules! go {
            (HashTrieMap [$($e:ty),*] $h:ty) => { go!(@p HashTrieMap [$($e),*] $h) };
            (RedBlackTreeMap [$($e:ty),*]) => { go!(@p RedBlackTreeMap [$($e),*]) };
            (@p $t:ident [$($e:ty),*] $($h:ty)?) => {{
                let mk = |c: &[i64]| (El::new(c[0]), El::new(c[1]));
                match rng.below(4) {
                    0 => coll::<$t<$($e,)* RcK $(,$h)?>, _>(log, rng, mk, 2),
                    1 => coll::<$t<$($e,)* ArcTK $(,$h)?>, _>(log, rng, mk, 2),
                    2 => coll::<$t<$($e,)* ArcK $(,$h)?>, _>(log, rng, mk, 2),
                    _ => coll::<$t<$($e,)* CountK $(,$h)?>, _>(log, rng, mk, 2),
                }
            }};
            ($t:ident [$($e:ty),*] $($h:ty)?) => {{
                let mk = |c: &[i64]| El::new(c[0]);
                match rng.below(4) {
                    0 => coll::<$t<$($e,)* RcK $(,$h)?>, _>(log, rng, mk, 1),
                    1 => coll::<$t<$($e,)* ArcTK $(,$h)?>, _>(log, rng, mk, 1),
                    2 => coll::<$t<$($e,)* ArcK $(,$h)?>, _>(log, rng, mk, 1),
                    _ => coll::<$t<$($e,)* CountK $(,$h)?>, _>(log, rng, mk, 1),
                }
            }};
        }
        kinds!(kind, go);
    }
    if n == 0 {
        return;
    }
    for _ in 0..24 {
        // The macros, with a few numbers of arguments and all orders of equal and different items.
        let g = Gen { classes: 3, nan: 0 };
        let v: Vec<i64> = (0..5).map(|_| g.key(rng)).collect();
        let w: Vec<i64> = (0..5).map(|_| g.val(rng)).collect();
        let e = |i: usize| El::new(v[i]);
        let x = |i: usize| El::new(w[i]);
        let m = |n: usize| -> Vec<i64> { (0..n).flat_map(|i| [v[i], w[i]]).collect() };
        macro_rules! seqs {
            ($d:ty, $ds:ty, $a:ident, $b:ident) => {{
                mac::<$d>(log, &[], $a![]);
                mac::<$d>(log, &v[..1], $a![e(0)]);
                mac::<$d>(log, &v[..2], $a![e(0), e(1)]);
                mac::<$d>(log, &v[..5], $a![e(0), e(1), e(2), e(3), e(4)]);
                mac::<$ds>(log, &[], $b![]);
                mac::<$ds>(log, &v[..1], $b![e(0)]);
                mac::<$ds>(log, &v[..3], $b![e(0), e(1), e(2)]);
                mac::<$ds>(log, &v[..4], $b![e(0), e(1), e(2), e(3)]);
            }};
        }
        macro_rules! maps {
            ($d:ty, $ds:ty, $a:ident, $b:ident) => {{
                mac::<$d>(log, &[], $a! {});
                mac::<$d>(log, &m(1), $a! {e(0) => x(0)});
                mac::<$d>(log, &m(2), $a! {e(0) => x(0), e(1) => x(1)});
                mac::<$d>(log, &m(4), $a! {e(0) => x(0), e(1) => x(1), e(2) => x(2), e(3) => x(3)});
                mac::<$ds>(log, &[], $b! {});
                mac::<$ds>(log, &m(1), $b! {e(0) => x(0)});
                mac::<$ds>(log, &m(3), $b! {e(0) => x(0), e(1) => x(1), e(2) => x(2)});
            }};
        }
        match kind {
            "list" => seqs!(List<El>, ListSync<El>, list, list_sync),
            "stack" => seqs!(Stack<El>, StackSync<El>, stack, stack_sync),
            "queue" => seqs!(Queue<El>, QueueSync<El>, queue, queue_sync),
            "vector" => seqs!(Vector<El>, VectorSync<El>, vector, vector_sync),
            "tset" => seqs!(RedBlackTreeSet<El>, RedBlackTreeSetSync<El>, rbt_set, rbt_set_sync),
            "tmap" => {
                maps!(RedBlackTreeMap<El, El>, RedBlackTreeMapSync<El, El>, rbt_map, rbt_map_sync)
            }
            #[cfg(feature = "full")]
            "hset" => {
                seqs!(HSetStd, HSetStdSync, ht_set, ht_set_sync)
            }
            #[cfg(feature = "full")]
            "hmap" => {
                maps!(HMapStd, HMapStdSync, ht_map, ht_map_sync)
            }
            _ => (),
        }
    }
}
#[cfg(feature = "full")]
type RS = std::collections::hash_map::RandomState;
#[cfg(feature = "full")]
type HSetStd = HashTrieSet<El, RcK, RS>;
#[cfg(feature = "full")]
type HSetStdSync = HashTrieSet<El, ArcTK, RS>;
#[cfg(feature = "full")]
type HMapStd = HashTrieMap<El, El, RcK, RS>;
#[cfg(feature = "full")]
type HMapStdSync = HashTrieMap<El, El, ArcTK, RS>;
#[cfg(feature = "full")]
impl Hb for RS {
    fn mk(_: u8) -> RS {
        RS::new()
    }
}

/// Which parameters constructors accept, and that what they return works.
pub fn ctors(log: &mut Log, rng: &mut Rng) {
    for x in 0..=255u16 {
        let x = x as u8;
        let mut put = |name: &str, accepted: bool, k: &str, hist: &str, o: &str| {
            log.put(
                Ev::new("ctor")
                    .s("f", name)
                    .i("a", x as i64)
                    .i("ok", accepted as i64)
                    .s("k", k)
                    .raw("h", hist)
                    .raw("o", o),
            );
        };
        let g = Gen { classes: 9, nan: 0 };
        macro_rules! one {
            ($name:expr, $t:ty, $e:expr) => {{
                let d = guard(|| -> $t { $e });
                match d {
                    None => put($name, false, <$t as Ds>::KIND, "[]", "[]"),
                    Some(mut d) => {
                        let mut h = String::from("[]");
                        let r = guard(|| {
                            h = history(rng, &g, &mut d, 14);
                            d.content()
                        });
                        put($name, true, <$t as Ds>::KIND, &h, &r.unwrap_or("[-7]".into()));
                    }
                }
            }};
        }
        one!("bits", Vector<El, RcK>, Vector::new_with_bits(x));
        one!("bits", Vector<El, ArcTK>, Vector::new_with_bits(x));
        one!("degree", HashTrieMap<El, El, RcK, TB>,
            HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(TB(x % HMODES), x));
        one!("degree", HashTrieSet<El, ArcTK, TB>,
            HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(TB(1), x));
        #[cfg(feature = "full")]
        {
            one!("degree", HMapStd, HashTrieMap::new_with_degree(x));
            one!("degree", HMapStdSync, HashTrieMap::new_sync_with_degree(x));
            one!("degree", HSetStd, HashTrieSet::new_with_degree(x));
            one!("degree", HSetStdSync, HashTrieSet::new_with_degree_sync(x));
        }
    }
}
