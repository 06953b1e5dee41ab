//! The eight structures behind one interface, so that one driver can call the whole public API.
use crate::big::{pboth, pfwd};
use crate::instr::*;
use crate::log::J;
use archery::SharedPointerKind;
use rpds::*;
use std::ops::Bound;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Result code of a call that panicked.
pub const PANIC: i64 = -7;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Arg {
    None,
    Elem,
    Key,
    Idx,
    IdxElem,
    KeyVal,
}
pub struct Op {
    pub name: &'static str,
    pub arg: Arg,
    /// Offered in a persistent form, in an in-place form.
    pub p: bool,
    pub m: bool,
    /// Weights when growing and when shrinking.
    pub grow: u64,
    pub shrink: u64,
}
const fn op(name: &'static str, arg: Arg, p: bool, m: bool, grow: u64, shrink: u64) -> Op {
    Op { name, arg, p, m, grow, shrink }
}
const fn q(name: &'static str, arg: Arg) -> Op {
    op(name, arg, false, false, 1, 1)
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cfg {
    pub bits: u8,
    pub degree: u8,
    pub hmode: u8,
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub trait Ds: Clone + 'static {
    const KIND: &'static str;
    const MUTS: &'static [Op];
    const QUERIES: &'static [Op];
    fn make(c: &Cfg) -> Self;
    fn from_codes(c: &Cfg, codes: &[i64], hint: u8) -> Self;
    /// Deserialized from these codes, unless that fails, as it must after `err` of them.
    fn deser(codes: &[i64], hint: u8, err: i64) -> Option<Self>;
    fn pers(&self, op: &str, a: &[i64]) -> (Option<Self>, Vec<i64>);
    fn inpl(&mut self, op: &str, a: &[i64]) -> Vec<i64>;
    fn query(&self, op: &str, a: &[i64]) -> Vec<i64>;
    fn size(&self) -> usize;
    /// Contents in iteration order: element codes, or `[key, value]` pairs.
    fn content(&self) -> String {
        J::arr(self.items())
    }
    fn items(&self) -> Vec<String>;
    /// Runs a random session on every kind of iterator: (name, order, steps, exact).
    fn sessions(&self, rng: &mut Rng, maxlen: usize) -> Vec<(String, String, String)>;
    /// Contents as element codes and values (0 where there is none), in iteration order.
    fn flat(&self) -> Vec<(i64, i64)>;
    /// A few steps of every kind of iterator: see `big.rs`.
    fn probes(&self, rng: &mut Rng) -> Vec<(&'static str, String)>;
    fn range_probe(&self, _lo: (i64, i64), _hi: (i64, i64), _rng: &mut Rng) -> Option<Option<String>> {
        None
    }
    /// Rendered: 0 plainly, 1 with `+`, 2 with a width of ten, filled with zeros.
    fn display(&self, how: i64) -> String;
    fn ptr_eq_(&self, _o: &Self) -> Option<bool> {
        None
    }
    /// Makes an iterator and takes at most `k` steps from the front (from the back if negative, where
    /// it is offered).
    fn walk(&self, k: i64) -> usize;
    /// Takes at most `k` steps of a range iterator from a key on.
    fn walk_from(&self, _key: i64, _k: i64) -> Option<usize> {
        None
    }
    /// Where the element of a position, or the value of a key, is in memory.
    fn addr(&self, _a: i64) -> usize {
        0
    }
    fn relations(&self, _o: &Self) -> Option<[bool; 3]> {
        None
    }
    /// Range iteration between two bounds: (kind, code) with kind 0 unbounded, 1 included, 2 excluded.
    fn range_session(&self, _lo: (i64, i64), _hi: (i64, i64), _rng: &mut Rng) -> Option<String> {
        None
    }
}

/// An iterator that yields elements with a given quality of size hint.
pub struct Hinted<I> {
    it: I,
    left: usize,
    mode: u8,
}
impl<I> Hinted<I> {
    pub fn new(it: I, left: usize, mode: u8) -> Self {
        Hinted { it, left, mode }
    }
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        callback(Cb::Iter);
        let r = self.it.next();
        self.left = self.left.saturating_sub(1);
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.mode {
            0 => (self.left, Some(self.left)),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            3 => (self.left / 2, Some(usize::MAX - 1)),
            4 => (self.left, None),
            _ => (0, Some(self.left * 2 + 1)),
        }
    }
}

fn opt(r: Option<&El>) -> Vec<i64> {
    match r {
        None => vec![0],
        Some(e) => vec![1, e.c],
    }
}
fn optkv(r: Option<(&El, &El)>) -> Vec<i64> {
    match r {
        None => vec![0],
        Some((k, v)) => vec![1, k.c, v.c],
    }
}
fn b(x: bool) -> Vec<i64> {
    vec![x as i64]
}
fn orpanic(r: Option<Vec<i64>>) -> Vec<i64> {
    r.unwrap_or_else(|| vec![PANIC])
}
fn one<T>(r: Option<T>) -> (Option<T>, Vec<i64>) {
    let f = r.is_some();
    (r, b(f))
}

// ------------------------------------------------------------------------------ iterator sessions

fn hint<I: Iterator>(it: &I) -> (i64, i64) {
    let (lo, hi) = it.size_hint();
    (lo.min(1 << 30) as i64, hi.map_or(-1, |h| h.min(1 << 30) as i64))
}
fn step(code: i64, arg: i64, res: Vec<String>, hint: (i64, i64), len: i64) -> String {
    format!("[{code},{arg},{},{},{},{len}]", J::arr(res), hint.0, hint.1)
}

/// Steps an iterator forward at random, ends with a random adaptor.
/// Step codes: 0 next, 1 next_back, 2 nth, 3 nth_back, 4 take(n) by reference, 5 find the n-th by
/// reference; ends: 10 count, 11 last, 12 collect, 13 fold, 14 skip, 15 step_by, 16 rev, 17 rfold,
/// 18 for_each, 19 nothing, 20 skip(n).next(), 21 rev().nth(n), 22 position, 23 rposition-like.
pub fn fwd<I: Iterator, F: Fn(I::Item) -> String>(
    mut it: I,
    enc: F,
    len: &dyn Fn(&I) -> i64,
    rng: &mut Rng,
    n: usize,
) -> String {
    let mut out = Vec::new();
    let plain = rng.pct(35);
    let k = if plain { n as i64 + 3 } else { rng.int(0, (n as i64).min(12) + 2) };
    out.push(step(9, 0, vec![], hint(&it), len(&it)));
    for _ in 0..k {
        let c = if plain || rng.pct(75) { 0 } else { *rng.pick(&[2, 4, 5]) };
        let a = if c == 0 {
            0
        } else if rng.pct(80) {
            rng.int(0, 3)
        } else if rng.pct(10) && c != 5 && c != 7 {
            far(rng, n)
        } else {
            rng.int(0, n as i64 + 2)
        };
        let res: Vec<String> = match c {
            0 => it.next().map(&enc).into_iter().collect(),
            2 => it.nth(ix(a)).map(&enc).into_iter().collect(),
            4 => it.by_ref().take(ix(a)).map(&enc).collect(),
            _ => {
                let mut j = 0;
                it.find(|_| {
                    j += 1;
                    j > a
                })
                .map(&enc)
                .into_iter()
                .collect()
            }
        };
        out.push(step(c, a, res, hint(&it), len(&it)));
    }
    finish(it, &enc, rng, n, &mut out);
    J::arr(out)
}
fn finish<I: Iterator, F: Fn(I::Item) -> String>(
    mut it: I,
    enc: &F,
    rng: &mut Rng,
    n: usize,
    out: &mut Vec<String>,
) {
    let a = rng.int(0, (n as i64).min(6));
    let c = *rng.pick(&[10, 11, 12, 13, 14, 15, 18, 19, 20, 22]);
    let res: Vec<String> = match c {
        10 => vec![it.count().to_string()],
        11 => it.last().map(enc).into_iter().collect(),
        12 => it.collect::<Vec<_>>().into_iter().map(enc).collect(),
        13 => it.fold(Vec::new(), |mut v, x| {
            v.push(enc(x));
            v
        }),
        14 => it.skip(ix(a)).map(enc).collect(),
        15 => it.step_by(a as usize + 1).map(enc).collect(),
        18 => {
            let mut v = Vec::new();
            it.for_each(|x| v.push(enc(x)));
            v
        }
        20 => it.skip(ix(a)).next().map(enc).into_iter().collect(),
        22 => {
            let mut j = 0;
            it.position(|_| {
                j += 1;
                j > a
            })
            .map(|p| p.to_string())
            .into_iter()
            .collect()
        }
        _ => vec![],
    };
    out.push(step(c, a, res, (0, 0), 0));
}
pub fn both<I: DoubleEndedIterator, F: Fn(I::Item) -> String>(
    mut it: I,
    enc: F,
    len: &dyn Fn(&I) -> i64,
    rng: &mut Rng,
    n: usize,
) -> String {
    let mut out = Vec::new();
    let back = rng.int(0, 100) as u64;
    let plain = rng.pct(35);
    let k = if plain { n as i64 + 4 } else { rng.int(0, (n as i64).min(12) + 2) };
    out.push(step(9, 0, vec![], hint(&it), len(&it)));
    for _ in 0..k {
        let fromback = rng.pct(back);
        let c = match (fromback, plain || rng.pct(75)) {
            (false, true) => 0,
            (true, true) => 1,
            (false, false) => *rng.pick(&[2, 4, 5]),
            (true, false) => *rng.pick(&[3, 6, 7]),
        };
        let a = if c <= 1 {
            0
        } else if rng.pct(80) {
            rng.int(0, 3)
        } else if rng.pct(10) && c != 5 && c != 7 {
            far(rng, n)
        } else {
            rng.int(0, n as i64 + 2)
        };
        let mut j = 0;
        let mut after = |_: &I::Item| {
            j += 1;
            j > a
        };
        let res: Vec<String> = match c {
            0 => it.next().map(&enc).into_iter().collect(),
            1 => it.next_back().map(&enc).into_iter().collect(),
            2 => it.nth(ix(a)).map(&enc).into_iter().collect(),
            3 => it.nth_back(ix(a)).map(&enc).into_iter().collect(),
            4 => it.by_ref().take(ix(a)).map(&enc).collect(),
            5 => it.find(|x| after(x)).map(&enc).into_iter().collect(),
            6 => it.by_ref().rev().take(ix(a)).map(&enc).collect(),
            _ => it.rfind(|x| after(x)).map(&enc).into_iter().collect(),
        };
        out.push(step(c, a, res, hint(&it), len(&it)));
    }
    let a = rng.int(0, (n as i64).min(6));
    match rng.below(8) {
        0 => {
            let res = it.rev().map(&enc).collect();
            out.push(step(16, a, res, (0, 0), 0));
        }
        1 => {
            let res = it.rfold(Vec::new(), |mut v, x| {
                v.push(enc(x));
                v
            });
            out.push(step(17, a, res, (0, 0), 0));
        }
        2 => {
            let res = it.rev().nth(ix(a)).map(&enc).into_iter().collect();
            out.push(step(21, a, res, (0, 0), 0));
        }
        _ => finish(it, &enc, rng, n, &mut out),
    }
    J::arr(out)
}
fn styled<D: std::fmt::Display>(d: &D, how: i64) -> String {
    match how {
        0 => d.to_string(),
        1 => format!("{d:+}"),
        _ => format!("{d:010}"),
    }
}

/// Codes from here on are indexes no structure is long enough for.
const FAR: i64 = 2_000_000_000;
/// The index meant by a code: codes past `FAR` are indexes which only look like small ones when
/// they are cut to fewer bits, or overflow when something is added.
pub fn ix(a: i64) -> usize {
    let k = ((a - FAR) % 10_000) as usize;
    match (a - FAR) / 10_000 {
        _ if a < FAR => a as usize,
        0 => usize::MAX - k,
        1 => (1 << 32) + k,
        2 => (1 << 63) + k,
        3 => (1 << 63) - 1 - k,
        4 => (1 << 60) + k,
        _ => (1 << 31) + k,
    }
}
pub fn far(rng: &mut Rng, n: usize) -> i64 {
    FAR + rng.int(0, 5) * 10_000 + rng.int(0, (n as i64 + 2).min(9_999))
}
pub fn nolen<I>(_: &I) -> i64 {
    -1
}
pub fn exlen<I: ExactSizeIterator>(i: &I) -> i64 {
    i.len() as i64
}
fn e1(e: &El) -> (i64, i64) {
    (e.c, 0)
}
fn e2((k, v): (&El, &El)) -> (i64, i64) {
    (k.c, v.c)
}
fn ec(e: &El) -> String {
    e.c.to_string()
}
fn ekv((k, v): (&El, &El)) -> String {
    format!("[{},{}]", k.c, v.c)
}

// ------------------------------------------------------------------------------------- sequences

macro_rules! deser {
    () => {
        #[cfg(feature = "full")]
        fn deser(codes: &[i64], hint: u8, err: i64) -> Option<Self> {
            crate::full::deser(codes, hint, err, Self::KIND.ends_with("map"))
        }
        #[cfg(not(feature = "full"))]
        fn deser(_: &[i64], _: u8, _: i64) -> Option<Self> {
            None
        }
    };
}

impl<P: SharedPointerKind + 'static> Ds for List<El, P> {
    const KIND: &'static str = "list";
    const MUTS: &'static [Op] = &[
        op("push_front", Arg::Elem, true, true, 6, 3),
        op("drop_first", Arg::None, true, true, 2, 6),
        op("reverse", Arg::None, true, true, 2, 2),
    ];
    const QUERIES: &'static [Op] = &[
        q("first", Arg::None),
        q("last", Arg::None),
        q("len", Arg::None),
        q("is_empty", Arg::None),
    ];
    deser!();
    fn make(_: &Cfg) -> Self {
        List::new_with_ptr_kind()
    }
    fn from_codes(_: &Cfg, codes: &[i64], hint: u8) -> Self {
        Hinted::new(codes.iter().map(|c| El::new(*c)), codes.len(), hint).collect()
    }
    fn pers(&self, op: &str, a: &[i64]) -> (Option<Self>, Vec<i64>) {
        match op {
            "push_front" => (Some(self.push_front(El::new(a[0]))), vec![]),
            "drop_first" => one(self.drop_first()),
            _ => (Some(self.reverse()), vec![]),
        }
    }
    fn inpl(&mut self, op: &str, a: &[i64]) -> Vec<i64> {
        match op {
            "push_front" => {
                self.push_front_mut(El::new(a[0]));
                vec![]
            }
            "drop_first" => b(self.drop_first_mut()),
            _ => {
                self.reverse_mut();
                vec![]
            }
        }
    }
    fn query(&self, op: &str, _: &[i64]) -> Vec<i64> {
        match op {
            "first" => opt(self.first()),
            "last" => opt(self.last()),
            "len" => vec![self.len() as i64],
            _ => b(self.is_empty()),
        }
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn flat(&self) -> Vec<(i64, i64)> {
        self.iter().map(e1).collect()
    }
    fn probes(&self, rng: &mut Rng) -> Vec<(&'static str, String)> {
        vec![("iter", pfwd(self.iter(), e1, &exlen, rng, Ds::size(self)))]
    }
    fn items(&self) -> Vec<String> {
        self.iter().map(ec).collect()
    }
    fn sessions(&self, rng: &mut Rng, n: usize) -> Vec<(String, String, String)> {
        let order = J::arr(self.into_iter().map(ec));
        vec![("iter".into(), order, fwd(self.iter(), ec, &exlen, rng, n))]
    }
    fn walk(&self, k: i64) -> usize {
        steps(self.iter(), k.unsigned_abs() as usize)
    }
    fn display(&self, how: i64) -> String {
        styled(self, how)
    }
}

impl<P: SharedPointerKind + 'static> Ds for Stack<El, P> {
    const KIND: &'static str = "stack";
    const MUTS: &'static [Op] =
        &[op("push", Arg::Elem, true, true, 6, 3), op("pop", Arg::None, true, true, 2, 6)];
    const QUERIES: &'static [Op] =
        &[q("peek", Arg::None), q("size", Arg::None), q("is_empty", Arg::None)];
    deser!();
    fn make(_: &Cfg) -> Self {
        Stack::new_with_ptr_kind()
    }
    fn from_codes(_: &Cfg, codes: &[i64], hint: u8) -> Self {
        Hinted::new(codes.iter().map(|c| El::new(*c)), codes.len(), hint).collect()
    }
    fn pers(&self, op: &str, a: &[i64]) -> (Option<Self>, Vec<i64>) {
        match op {
            "push" => (Some(self.push(El::new(a[0]))), vec![]),
            _ => one(self.pop()),
        }
    }
    fn inpl(&mut self, op: &str, a: &[i64]) -> Vec<i64> {
        match op {
            "push" => {
                self.push_mut(El::new(a[0]));
                vec![]
            }
            _ => b(self.pop_mut()),
        }
    }
    fn query(&self, op: &str, _: &[i64]) -> Vec<i64> {
        match op {
            "peek" => opt(self.peek()),
            "size" => vec![self.size() as i64],
            _ => b(self.is_empty()),
        }
    }
    fn size(&self) -> usize {
        self.size()
    }
    fn flat(&self) -> Vec<(i64, i64)> {
        self.iter().map(e1).collect()
    }
    fn probes(&self, rng: &mut Rng) -> Vec<(&'static str, String)> {
        vec![("iter", pfwd(self.iter(), e1, &exlen, rng, Ds::size(self)))]
    }
    fn items(&self) -> Vec<String> {
        self.iter().map(ec).collect()
    }
    fn sessions(&self, rng: &mut Rng, n: usize) -> Vec<(String, String, String)> {
        let order = J::arr(self.into_iter().map(ec));
        vec![("iter".into(), order, fwd(self.iter(), ec, &exlen, rng, n))]
    }
    fn walk(&self, k: i64) -> usize {
        steps(self.iter(), k.unsigned_abs() as usize)
    }
    fn display(&self, how: i64) -> String {
        styled(self, how)
    }
}

impl<P: SharedPointerKind + 'static> Ds for Queue<El, P> {
    const KIND: &'static str = "queue";
    const MUTS: &'static [Op] = &[
        op("enqueue", Arg::Elem, true, true, 6, 3),
        op("dequeue", Arg::None, true, true, 3, 6),
    ];
    const QUERIES: &'static [Op] =
        &[q("peek", Arg::None), q("len", Arg::None), q("is_empty", Arg::None)];
    deser!();
    fn make(_: &Cfg) -> Self {
        Queue::new_with_ptr_kind()
    }
    fn from_codes(_: &Cfg, codes: &[i64], hint: u8) -> Self {
        Hinted::new(codes.iter().map(|c| El::new(*c)), codes.len(), hint).collect()
    }
    fn pers(&self, op: &str, a: &[i64]) -> (Option<Self>, Vec<i64>) {
        match op {
            "enqueue" => (Some(self.enqueue(El::new(a[0]))), vec![]),
            _ => one(self.dequeue()),
        }
    }
    fn inpl(&mut self, op: &str, a: &[i64]) -> Vec<i64> {
        match op {
            "enqueue" => {
                self.enqueue_mut(El::new(a[0]));
                vec![]
            }
            _ => b(self.dequeue_mut()),
        }
    }
    fn query(&self, op: &str, _: &[i64]) -> Vec<i64> {
        match op {
            "peek" => opt(self.peek()),
            "len" => vec![self.len() as i64],
            _ => b(self.is_empty()),
        }
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn flat(&self) -> Vec<(i64, i64)> {
        self.iter().map(e1).collect()
    }
    fn probes(&self, rng: &mut Rng) -> Vec<(&'static str, String)> {
        vec![("iter", pfwd(self.iter(), e1, &nolen, rng, Ds::size(self)))]
    }
    fn items(&self) -> Vec<String> {
        self.iter().map(ec).collect()
    }
    fn sessions(&self, rng: &mut Rng, n: usize) -> Vec<(String, String, String)> {
        let order = J::arr(self.into_iter().map(ec));
        vec![("iter".into(), order, fwd(self.iter(), ec, &nolen, rng, n))]
    }
    fn walk(&self, k: i64) -> usize {
        steps(self.iter(), k.unsigned_abs() as usize)
    }
    fn display(&self, how: i64) -> String {
        styled(self, how)
    }
}

impl<P: SharedPointerKind + 'static> Ds for Vector<El, P> {
    const KIND: &'static str = "vector";
    const MUTS: &'static [Op] = &[
        op("push_back", Arg::Elem, true, true, 10, 4),
        op("drop_last", Arg::None, true, true, 3, 10),
        op("set", Arg::IdxElem, true, true, 3, 3),
        op("get_mut", Arg::IdxElem, false, true, 3, 3),
        op("index_mut", Arg::IdxElem, false, true, 1, 1),
    ];
    const QUERIES: &'static [Op] = &[
        q("get", Arg::Idx),
        q("index", Arg::Idx),
        q("first", Arg::None),
        q("last", Arg::None),
        q("len", Arg::None),
        q("is_empty", Arg::None),
    ];
    deser!();
    fn make(c: &Cfg) -> Self {
        Vector::new_with_bits(c.bits)
    }
    fn from_codes(c: &Cfg, codes: &[i64], hint: u8) -> Self {
        let it = Hinted::new(codes.iter().map(|c| El::new(*c)), codes.len(), hint);
        if c.bits == 5 {
            it.collect()
        } else {
            let mut v = Vector::new_with_bits(c.bits);
            v.extend(it);
            v
        }
    }
    fn pers(&self, op: &str, a: &[i64]) -> (Option<Self>, Vec<i64>) {
        match op {
            "push_back" => (Some(self.push_back(El::new(a[0]))), vec![]),
            "drop_last" => one(self.drop_last()),
            _ => one(self.set(ix(a[0]), El::new(a[1]))),
        }
    }
    fn inpl(&mut self, op: &str, a: &[i64]) -> Vec<i64> {
        match op {
            "push_back" => {
                self.push_back_mut(El::new(a[0]));
                vec![]
            }
            "drop_last" => b(self.drop_last_mut()),
            "set" => b(self.set_mut(ix(a[0]), El::new(a[1]))),
            "get_mut" => match self.get_mut(ix(a[0])) {
                None => vec![0],
                Some(x) => {
                    let old = x.c;
                    *x = El::new(a[1]);
                    vec![1, old]
                }
            },
            _ => orpanic(guard(|| {
                let x = &mut self[ix(a[0])];
                let old = x.c;
                *x = El::new(a[1]);
                vec![1, old]
            })),
        }
    }
    fn query(&self, op: &str, a: &[i64]) -> Vec<i64> {
        match op {
            "get" => opt(self.get(ix(a[0]))),
            "index" => orpanic(guard(|| vec![self[ix(a[0])].c])),
            "first" => opt(self.first()),
            "last" => opt(self.last()),
            "len" => vec![self.len() as i64],
            _ => b(self.is_empty()),
        }
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn flat(&self) -> Vec<(i64, i64)> {
        self.iter().map(e1).collect()
    }
    fn probes(&self, rng: &mut Rng) -> Vec<(&'static str, String)> {
        vec![("iter", pboth(self.iter(), e1, &exlen, rng, Ds::size(self)))]
    }
    fn items(&self) -> Vec<String> {
        self.iter().map(ec).collect()
    }
    fn sessions(&self, rng: &mut Rng, n: usize) -> Vec<(String, String, String)> {
        let order = J::arr(self.into_iter().map(ec));
        vec![("iter".into(), order, both(self.iter(), ec, &exlen, rng, n))]
    }
    fn walk(&self, k: i64) -> usize {
        if k < 0 {
            steps(self.iter().rev(), -k as usize)
        } else {
            steps(self.iter(), k as usize)
        }
    }
    fn addr(&self, a: i64) -> usize {
        self.get(ix(a)).map_or(0, |e| e as *const El as usize)
    }
    fn display(&self, how: i64) -> String {
        styled(self, how)
    }
}

// ------------------------------------------------------------------------------------------ maps

const MAP_MUTS: &[Op] = &[
    op("insert", Arg::KeyVal, true, true, 10, 4),
    op("remove", Arg::Key, true, true, 4, 10),
    op("get_mut", Arg::KeyVal, false, true, 3, 3),
];

/// Keys are looked up either as elements or as what they can be borrowed as.
macro_rules! by {
    ($c:expr, |$k:ident| $e:expr) => {
        if $c & 1 == 0 {
            let k0 = El::new($c);
            let $k = &k0;
            $e
        } else {
            let c0 = $c;
            let $k = ClsRef::of(&c0);
            $e
        }
    };
}

macro_rules! map_common {
    () => {
        fn pers(&self, op: &str, a: &[i64]) -> (Option<Self>, Vec<i64>) {
            match op {
                "insert" => (Some(self.insert(El::new(a[0]), El::new(a[1]))), vec![]),
                _ => (Some(by!(a[0], |k| self.remove(k))), vec![]),
            }
        }
        fn inpl(&mut self, op: &str, a: &[i64]) -> Vec<i64> {
            match op {
                "insert" => {
                    self.insert_mut(El::new(a[0]), El::new(a[1]));
                    vec![]
                }
                "remove" => b(by!(a[0], |k| self.remove_mut(k))),
                _ => by!(a[0], |k| match self.get_mut(k) {
                    None => vec![0],
                    Some(x) => {
                        let old = x.c;
                        *x = El::new(a[1]);
                        vec![1, old]
                    }
                }),
            }
        }
        fn size(&self) -> usize {
            self.size()
        }
        fn flat(&self) -> Vec<(i64, i64)> {
            self.iter().map(e2).collect()
        }
        fn items(&self) -> Vec<String> {
            self.iter().map(ekv).collect()
        }
        fn addr(&self, a: i64) -> usize {
        self.get(ClsRef::of(&a)).map_or(0, |e| e as *const El as usize)
    }
    fn display(&self, how: i64) -> String {
            styled(self, how)
        }
        fn ptr_eq_(&self, o: &Self) -> Option<bool> {
            Some(self.ptr_eq(o))
        }
    };
}

fn pairs(codes: &[i64]) -> impl Iterator<Item = (El, El)> + '_ {
    codes.chunks(2).map(|c| (El::new(c[0]), El::new(c[1])))
}

impl<P: SharedPointerKind + 'static, H: Hb> Ds for HashTrieMap<El, El, P, H> {
    const KIND: &'static str = "hmap";
    const MUTS: &'static [Op] = MAP_MUTS;
    const QUERIES: &'static [Op] = &[
        q("get", Arg::Key),
        q("get_key_value", Arg::Key),
        q("contains_key", Arg::Key),
        q("index", Arg::Key),
        q("size", Arg::None),
        q("is_empty", Arg::None),
    ];
    map_common!();
    deser!();
    fn make(c: &Cfg) -> Self {
        HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(H::mk(c.hmode), c.degree)
    }
    fn from_codes(c: &Cfg, codes: &[i64], hint: u8) -> Self {
        let it = Hinted::new(pairs(codes), codes.len() / 2, hint);
        if c.hmode == 0 && c.degree == 64 {
            it.collect()
        } else {
            let mut m = Self::make(c);
            it.for_each(|(k, v)| m.insert_mut(k, v));
            m
        }
    }
    fn query(&self, op: &str, a: &[i64]) -> Vec<i64> {
        match op {
            "get" => by!(a[0], |k| opt(self.get(k))),
            "get_key_value" => by!(a[0], |k| optkv(self.get_key_value(k))),
            "contains_key" => by!(a[0], |k| b(self.contains_key(k))),
            "index" => orpanic(guard(|| by!(a[0], |k| vec![self[k].c]))),
            "size" => vec![self.size() as i64],
            _ => b(self.is_empty()),
        }
    }
    fn probes(&self, rng: &mut Rng) -> Vec<(&'static str, String)> {
        let n = Ds::size(self);
        vec![
            ("iter", pfwd(self.iter(), e2, &exlen, rng, n)),
            ("keys", pfwd(self.keys(), e1, &exlen, rng, n)),
            ("values", pfwd(self.values(), e1, &exlen, rng, n)),
        ]
    }
    fn walk(&self, k: i64) -> usize {
        steps(self.iter(), k.unsigned_abs() as usize)
    }
    fn sessions(&self, rng: &mut Rng, n: usize) -> Vec<(String, String, String)> {
        let order = J::arr(self.into_iter().map(ekv));
        vec![
            ("iter".into(), order.clone(), fwd(self.iter(), ekv, &exlen, rng, n)),
            ("keys".into(), order.clone(), fwd(self.keys(), ec, &exlen, rng, n)),
            ("values".into(), order, fwd(self.values(), ec, &exlen, rng, n)),
        ]
    }
}

macro_rules! with_range {
    ($lo:expr, $hi:expr, |$r:ident| $e:expr) => {{
        let (lo, hi) = ($lo, $hi);
        let bound = |k: i64, c: &'static ClsRef| match k {
            0 => Bound::Unbounded,
            1 => Bound::Included(c),
            _ => Bound::Excluded(c),
        };
        // Leaked on purpose: the range iterator wants to own its bounds.
        let l: &'static i64 = Box::leak(Box::new(lo.1));
        let h: &'static i64 = Box::leak(Box::new(hi.1));
        let $r = (bound(lo.0, ClsRef::of(l)), bound(hi.0, ClsRef::of(h)));
        $e
    }};
}

impl<P: SharedPointerKind + 'static> Ds for RedBlackTreeMap<El, El, P> {
    const KIND: &'static str = "tmap";
    const MUTS: &'static [Op] = MAP_MUTS;
    const QUERIES: &'static [Op] = &[
        q("get", Arg::Key),
        q("get_key_value", Arg::Key),
        q("contains_key", Arg::Key),
        q("index", Arg::Key),
        q("first", Arg::None),
        q("last", Arg::None),
        q("size", Arg::None),
        q("is_empty", Arg::None),
    ];
    map_common!();
    deser!();
    fn make(_: &Cfg) -> Self {
        RedBlackTreeMap::new_with_ptr_kind()
    }
    fn from_codes(_: &Cfg, codes: &[i64], hint: u8) -> Self {
        Hinted::new(pairs(codes), codes.len() / 2, hint).collect()
    }
    fn query(&self, op: &str, a: &[i64]) -> Vec<i64> {
        match op {
            "get" => by!(a[0], |k| opt(self.get(k))),
            "get_key_value" => by!(a[0], |k| optkv(self.get_key_value(k))),
            "contains_key" => by!(a[0], |k| b(self.contains_key(k))),
            "index" => orpanic(guard(|| by!(a[0], |k| vec![self[k].c]))),
            "first" => optkv(self.first()),
            "last" => optkv(self.last()),
            "size" => vec![self.size() as i64],
            _ => b(self.is_empty()),
        }
    }
    fn probes(&self, rng: &mut Rng) -> Vec<(&'static str, String)> {
        let n = Ds::size(self);
        vec![
            ("iter", pboth(self.iter(), e2, &exlen, rng, n)),
            ("keys", pboth(self.keys(), e1, &exlen, rng, n)),
            ("values", pboth(self.values(), e1, &exlen, rng, n)),
        ]
    }
    fn walk(&self, k: i64) -> usize {
        if k < 0 {
            steps(self.iter().rev(), -k as usize)
        } else {
            steps(self.iter(), k as usize)
        }
    }
    fn walk_from(&self, key: i64, k: i64) -> Option<usize> {
        let lo = ClsRef::of(&key);
        let r = (Bound::Included(lo), Bound::<&ClsRef>::Unbounded);
        let it = self.range::<ClsRef, _>(r);
        Some(if k < 0 { steps(it.rev(), -k as usize) } else { steps(it, k as usize) })
    }
    fn sessions(&self, rng: &mut Rng, n: usize) -> Vec<(String, String, String)> {
        let order = J::arr(self.into_iter().map(ekv));
        vec![
            ("iter".into(), order.clone(), both(self.iter(), ekv, &exlen, rng, n)),
            ("keys".into(), order.clone(), both(self.keys(), ec, &exlen, rng, n)),
            ("values".into(), order, both(self.values(), ec, &exlen, rng, n)),
        ]
    }
    fn range_probe(&self, lo: (i64, i64), hi: (i64, i64), rng: &mut Rng) -> Option<Option<String>> {
        let n = Ds::size(self);
        Some(with_range!(lo, hi, |r| guard(|| pboth(self.range::<ClsRef, _>(r), e2, &nolen, rng, n))))
    }
    fn range_session(&self, lo: (i64, i64), hi: (i64, i64), rng: &mut Rng) -> Option<String> {
        let n = self.size();
        with_range!(lo, hi, |r| guard(|| both(
            self.range::<ClsRef, _>(r),
            ekv,
            &nolen,
            rng,
            n
        )))
    }
}

macro_rules! set_common {
    () => {
        fn pers(&self, op: &str, a: &[i64]) -> (Option<Self>, Vec<i64>) {
            match op {
                "insert" => (Some(self.insert(El::new(a[0]))), vec![]),
                _ => (Some(by!(a[0], |k| self.remove(k))), vec![]),
            }
        }
        fn inpl(&mut self, op: &str, a: &[i64]) -> Vec<i64> {
            match op {
                "insert" => {
                    self.insert_mut(El::new(a[0]));
                    vec![]
                }
                _ => b(by!(a[0], |k| self.remove_mut(k))),
            }
        }
        fn size(&self) -> usize {
            self.size()
        }
        fn flat(&self) -> Vec<(i64, i64)> {
            self.iter().map(e1).collect()
        }
        fn items(&self) -> Vec<String> {
            self.iter().map(ec).collect()
        }
        fn addr(&self, a: i64) -> usize {
        self.get(ClsRef::of(&a)).map_or(0, |e| e as *const El as usize)
    }
    fn display(&self, how: i64) -> String {
            styled(self, how)
        }
        fn ptr_eq_(&self, o: &Self) -> Option<bool> {
            Some(self.ptr_eq(o))
        }
        fn relations(&self, o: &Self) -> Option<[bool; 3]> {
            Some([self.is_disjoint(o), self.is_subset(o), self.is_superset(o)])
        }
    };
}
const SET_MUTS: &[Op] =
    &[op("insert", Arg::Elem, true, true, 10, 4), op("remove", Arg::Key, true, true, 4, 10)];

impl<P: SharedPointerKind + 'static, H: Hb> Ds for HashTrieSet<El, P, H> {
    const KIND: &'static str = "hset";
    const MUTS: &'static [Op] = SET_MUTS;
    const QUERIES: &'static [Op] = &[
        q("get", Arg::Key),
        q("contains", Arg::Key),
        q("size", Arg::None),
        q("is_empty", Arg::None),
    ];
    set_common!();
    deser!();
    fn make(c: &Cfg) -> Self {
        HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(H::mk(c.hmode), c.degree)
    }
    fn from_codes(c: &Cfg, codes: &[i64], hint: u8) -> Self {
        let it = Hinted::new(codes.iter().map(|c| El::new(*c)), codes.len(), hint);
        if c.hmode == 0 && c.degree == 64 {
            it.collect()
        } else {
            let mut m = Self::make(c);
            it.for_each(|k| m.insert_mut(k));
            m
        }
    }
    fn query(&self, op: &str, a: &[i64]) -> Vec<i64> {
        match op {
            "get" => by!(a[0], |k| opt(self.get(k))),
            "contains" => by!(a[0], |k| b(self.contains(k))),
            "size" => vec![self.size() as i64],
            _ => b(self.is_empty()),
        }
    }
    fn probes(&self, rng: &mut Rng) -> Vec<(&'static str, String)> {
        vec![("iter", pfwd(self.iter(), e1, &exlen, rng, Ds::size(self)))]
    }
    fn walk(&self, k: i64) -> usize {
        steps(self.iter(), k.unsigned_abs() as usize)
    }
    fn sessions(&self, rng: &mut Rng, n: usize) -> Vec<(String, String, String)> {
        let order = J::arr(self.into_iter().map(ec));
        vec![("iter".into(), order, fwd(self.iter(), ec, &exlen, rng, n))]
    }
}

impl<P: SharedPointerKind + 'static> Ds for RedBlackTreeSet<El, P> {
    const KIND: &'static str = "tset";
    const MUTS: &'static [Op] = SET_MUTS;
    const QUERIES: &'static [Op] = &[
        q("get", Arg::Key),
        q("contains", Arg::Key),
        q("first", Arg::None),
        q("last", Arg::None),
        q("size", Arg::None),
        q("is_empty", Arg::None),
    ];
    set_common!();
    deser!();
    fn make(_: &Cfg) -> Self {
        RedBlackTreeSet::new_with_ptr_kind()
    }
    fn from_codes(_: &Cfg, codes: &[i64], hint: u8) -> Self {
        Hinted::new(codes.iter().map(|c| El::new(*c)), codes.len(), hint).collect()
    }
    fn query(&self, op: &str, a: &[i64]) -> Vec<i64> {
        match op {
            "get" => by!(a[0], |k| opt(self.get(k))),
            "contains" => by!(a[0], |k| b(self.contains(k))),
            "first" => opt(self.first()),
            "last" => opt(self.last()),
            "size" => vec![self.size() as i64],
            _ => b(self.is_empty()),
        }
    }
    fn probes(&self, rng: &mut Rng) -> Vec<(&'static str, String)> {
        vec![("iter", pboth(self.iter(), e1, &exlen, rng, Ds::size(self)))]
    }
    fn walk(&self, k: i64) -> usize {
        if k < 0 {
            steps(self.iter().rev(), -k as usize)
        } else {
            steps(self.iter(), k as usize)
        }
    }
    fn walk_from(&self, key: i64, k: i64) -> Option<usize> {
        let lo = ClsRef::of(&key);
        let r = (Bound::Included(lo), Bound::<&ClsRef>::Unbounded);
        let it = self.range::<ClsRef, _>(r);
        Some(if k < 0 { steps(it.rev(), -k as usize) } else { steps(it, k as usize) })
    }
    fn sessions(&self, rng: &mut Rng, n: usize) -> Vec<(String, String, String)> {
        let order = J::arr(self.into_iter().map(ec));
        vec![("iter".into(), order, both(self.iter(), ec, &exlen, rng, n))]
    }
    fn range_probe(&self, lo: (i64, i64), hi: (i64, i64), rng: &mut Rng) -> Option<Option<String>> {
        let n = Ds::size(self);
        Some(with_range!(lo, hi, |r| guard(|| pboth(self.range::<ClsRef, _>(r), e1, &nolen, rng, n))))
    }
    fn range_session(&self, lo: (i64, i64), hi: (i64, i64), rng: &mut Rng) -> Option<String> {
        let n = self.size();
        with_range!(lo, hi, |r| guard(|| both(
            self.range::<ClsRef, _>(r),
            ec,
            &nolen,
            rng,
            n
        )))
    }
}
