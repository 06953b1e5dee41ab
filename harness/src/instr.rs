//! Instrumentation: elements, hashers, pointer kinds and counters that the library runs with.
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

/// Element codes: `code = class * TAG + tag`.  Equality, order and hash look at the class only.
pub const TAG: i64 = 1024;
pub fn cls(c: i64) -> i64 {
    c.div_euclid(TAG)
}
/// Elements of this class are not comparable, not even to themselves (like NaN).
pub const NAN_CLS: i64 = 4000;

pub static TRACK: AtomicBool = AtomicBool::new(false);
pub static CMPS: AtomicU64 = AtomicU64::new(0);
pub static EQS: AtomicU64 = AtomicU64::new(0);
pub static HASHES: AtomicU64 = AtomicU64::new(0);
pub static CLONES: AtomicU64 = AtomicU64::new(0);
pub static MISDROPS: AtomicU64 = AtomicU64::new(0);
static NEXT_ID: AtomicU64 = AtomicU64::new(1);
static LIVE: Mutex<Option<HashMap<u64, i64>>> = Mutex::new(None);

/// Which callback to interrupt (see `Cb`), and after how many calls.  Thread local so that only the
/// thread that armed it is affected.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cb {
    Cmp = 0,
    Eq = 1,
    Hash = 2,
    Clone = 3,
    Iter = 4,
    De = 5,
    Fmt = 6,
}
thread_local! {
    static ARM: Cell<(u8, i64)> = const { Cell::new((255, 0)) };
    static CALLS: [Cell<i64>; 7] = const { [const { Cell::new(0) }; 7] };
}
pub fn arm(cb: Cb, after: i64) {
    ARM.with(|a| a.set((cb as u8, after)));
}
/// Returns true if the armed panic has not fired.
pub fn disarm() -> bool {
    ARM.with(|a| {
        let r = a.get();
        a.set((255, 0));
        r.0 != 255
    })
}
pub fn calls(cb: Cb) -> i64 {
    CALLS.with(|c| c[cb as usize].get())
}
thread_local! {
    static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// Notes how far the stack reaches (it grows downwards).
#[inline(never)]
pub fn mark() {
    let x = 0u8;
    let a = &raw const x as usize;
    LOW.with(|l| l.set(l.get().min(a)));
}
/// How much stack a call uses, in between the places where it comes back to this harness.
#[inline(never)]
pub fn stack_of<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let x = 0u8;
    let here = &raw const x as usize;
    LOW.with(|l| l.set(usize::MAX));
    mark();
    let r = f();
    (r, here.saturating_sub(LOW.with(|l| l.get())) as i64)
}
/// The same, for all of the call: what it leaves behind on the stack below is looked at.  Only on
/// threads with plenty of stack.
#[inline(never)]
pub fn all_stack_of<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let x = 0u8;
    let here = &raw const x as usize;
    wipe(here);
    let r = f();
    (r, wipe(here))
}
thread_local! {
    static WIPED: Cell<usize> = const { Cell::new(0) };
}
/// Fills what is below on the stack with a pattern; tells how much of it had been written to since
/// the last time.
#[inline(never)]
fn wipe(here: usize) -> i64 {
    const PATTERN: u64 = 0x5a5a_a5a5_5a5a_a5a5;
    const MOST: usize = 512 << 20;
    const QUIET: usize = 1 << 20;
    let from = (here & !7) - 2048;
    let bottom = WIPED.with(|w| {
        if w.get() == 0 {
            w.set(from - MOST);
        }
        w.get()
    });
    let (mut at, mut deepest) = (from, from);
    // SAFETY: this is the unused part of this thread's stack, of which there is plenty, and nothing
    // else writes there in the meantime.
    unsafe {
        while at > bottom && deepest - at < QUIET {
            at -= 8;
            let p = at as *mut u64;
            if p.read_volatile() != PATTERN {
                deepest = at;
                p.write_volatile(PATTERN);
            }
        }
    }
    (here - deepest) as i64
}
pub fn callback(cb: Cb) {
    mark();
    crate::sched::point();
    CALLS.with(|c| c[cb as usize].set(c[cb as usize].get() + 1));
    ARM.with(|a| {
        let (k, n) = a.get();
        if k == cb as u8 {
            if n <= 1 {
                a.set((255, 0));
                std::panic::panic_any("injected");
            }
            a.set((k, n - 1));
        }
    });
}

pub struct El {
    pub c: i64,
    id: u64,
}
impl El {
    pub fn new(c: i64) -> El {
        let id = if TRACK.load(Relaxed) {
            let id = NEXT_ID.fetch_add(1, Relaxed);
            LIVE.lock().unwrap().get_or_insert_default().insert(id, c);
            id
        } else {
            0
        };
        El { c, id }
    }
}
pub fn live_codes() -> Vec<i64> {
    let mut v: Vec<i64> =
        LIVE.lock().unwrap().get_or_insert_default().values().copied().collect();
    v.sort();
    v
}
pub fn live_count() -> usize {
    LIVE.lock().unwrap().get_or_insert_default().len()
}
pub fn track(on: bool) {
    TRACK.store(on, Relaxed);
    *LIVE.lock().unwrap() = Some(HashMap::new());
    MISDROPS.store(0, Relaxed);
}
impl Drop for El {
    fn drop(&mut self) {
        mark();
        crate::sched::point();
        if self.id != 0 {
            let mut l = LIVE.lock().unwrap();
            if l.get_or_insert_default().remove(&self.id) != Some(self.c) {
                MISDROPS.fetch_add(1, Relaxed);
            }
        }
        self.id = u64::MAX;
    }
}
impl Clone for El {
    fn clone(&self) -> El {
        callback(Cb::Clone);
        CLONES.fetch_add(1, Relaxed);
        El::new(self.c)
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        callback(Cb::Eq);
        EQS.fetch_add(1, Relaxed);
        cls(self.c) == cls(o.c) && cls(self.c) != NAN_CLS
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<Ordering> {
        if cls(self.c) == NAN_CLS || cls(o.c) == NAN_CLS {
            callback(Cb::Cmp);
            CMPS.fetch_add(1, Relaxed);
            return None;
        }
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> Ordering {
        callback(Cb::Cmp);
        CMPS.fetch_add(1, Relaxed);
        cls(self.c).cmp(&cls(o.c))
    }
}
impl Hash for El {
    fn hash<H: Hasher>(&self, h: &mut H) {
        callback(Cb::Hash);
        HASHES.fetch_add(1, Relaxed);
        h.write_u32(cls(self.c) as u32);
    }
}
impl fmt::Display for El {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        callback(Cb::Fmt);
        fmt::Display::fmt(&self.c, f)
    }
}
impl fmt::Debug for El {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        mark();
        write!(f, "{}", self.c)
    }
}
/// What keys can be borrowed as: the class alone.
#[repr(transparent)]
pub struct ClsRef(i64);
impl PartialEq for ClsRef {
    fn eq(&self, o: &ClsRef) -> bool {
        callback(Cb::Eq);
        EQS.fetch_add(1, Relaxed);
        cls(self.0) == cls(o.0)
    }
}
impl Eq for ClsRef {}
impl PartialOrd for ClsRef {
    fn partial_cmp(&self, o: &ClsRef) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for ClsRef {
    fn cmp(&self, o: &ClsRef) -> Ordering {
        callback(Cb::Cmp);
        CMPS.fetch_add(1, Relaxed);
        cls(self.0).cmp(&cls(o.0))
    }
}
impl Hash for ClsRef {
    fn hash<H: Hasher>(&self, h: &mut H) {
        callback(Cb::Hash);
        HASHES.fetch_add(1, Relaxed);
        h.write_u32(cls(self.0) as u32);
    }
}
impl ClsRef {
    pub fn of(c: &i64) -> &ClsRef {
        // SAFETY: `ClsRef` is `repr(transparent)` over `i64`.
        unsafe { &*(c as *const i64 as *const ClsRef) }
    }
}
impl Borrow<ClsRef> for El {
    fn borrow(&self) -> &ClsRef {
        ClsRef::of(&self.c)
    }
}
#[cfg(feature = "full")]
impl serde::Serialize for El {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        mark();
        s.serialize_i64(self.c)
    }
}
#[cfg(feature = "full")]
impl<'de> serde::Deserialize<'de> for El {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<El, D::Error> {
        callback(Cb::De);
        i64::deserialize(d).map(El::new)
    }
}

/// Hash functions on classes, picked so that tries of all shapes appear.
pub const HMODES: u8 = 14;
/// Hashes given by a specification.
pub const TABLE_MODE: u8 = 100;
static TABLE: std::sync::RwLock<Vec<u64>> = std::sync::RwLock::new(Vec::new());
pub fn set_hash_table(t: Vec<(u64, u64)>) {
    let mut v = TABLE.write().unwrap();
    v.clear();
    for (c, h) in t {
        if v.len() <= c as usize {
            v.resize(c as usize + 1, 0);
        }
        v[c as usize] = h;
    }
}
pub fn hash_class(mode: u8, k: u64) -> u64 {
    match mode {
        TABLE_MODE => TABLE.read().unwrap().get(k as usize).copied().unwrap_or(k),
        0 => k,
        1 => 0,
        2 => u64::MAX,
        3 => k & 1,
        4 => k & 3,
        5 => k << 60,
        6 => (k & 3) | ((k >> 2) << 32),
        7 => k.wrapping_mul(0x9E37_79B9_7F4A_7C15),
        8 => k << 62,
        9 => k / 2,
        10 => k.reverse_bits(),
        11 => (k / 3) | ((k % 3) << 58),
        12 => {
            // Same path for a long way, then two ways.
            0xAAAA_AAAA_AAAA_AAAA ^ (k << 57)
        }
        _ => {
            #[allow(deprecated)]
            let mut h = std::hash::SipHasher::new();
            h.write_u64(k);
            h.finish()
        }
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct TB(pub u8);
pub struct TH(u8, u64);
impl Hasher for TH {
    fn finish(&self) -> u64 {
        hash_class(self.0, self.1)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = self.1.wrapping_mul(257).wrapping_add(*x as u64);
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.1 = i as u64;
    }
}
impl BuildHasher for TB {
    type Hasher = TH;
    fn build_hasher(&self) -> TH {
        TH(self.0, 0)
    }
}
/// A second hasher type, for operations between structures with different hashers.
#[derive(Clone, Copy, Debug, Default)]
pub struct TB2(pub u8);
impl BuildHasher for TB2 {
    type Hasher = TH;
    fn build_hasher(&self) -> TH {
        TH(self.0, 0)
    }
}
/// Test hashers that can be made from a mode.
pub trait Hb: BuildHasher + Clone + Default + 'static {
    fn mk(mode: u8) -> Self;
}
impl Hb for TB {
    fn mk(mode: u8) -> TB {
        TB(mode)
    }
}
impl Hb for TB2 {
    fn mk(mode: u8) -> TB2 {
        TB2(mode)
    }
}
/// Records everything that is hashed.
#[derive(Default)]
pub struct RecHasher(pub Vec<u8>);
impl Hasher for RecHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

// ---------------------------------------------------------------- counting pointer kind

pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static CELLS: AtomicI64 = AtomicI64::new(0);
pub static DEREFS: AtomicU64 = AtomicU64::new(0);
pub static PCLONES: AtomicU64 = AtomicU64::new(0);
pub static MAXDEPTH: AtomicUsize = AtomicUsize::new(0);
pub static BADMUT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static DEPTH: Cell<usize> = const { Cell::new(0) };
}

struct Inner<T> {
    rc: AtomicUsize,
    v: T,
}
/// A reference-counted pointer kind supplied by the user of the library, which counts what it is
/// asked to do: allocations, dereferences, clones, how deep releases nest.
#[derive(Debug)]
pub struct CountK(*mut ());
unsafe impl Send for CountK {}
unsafe impl Sync for CountK {}
impl CountK {
    unsafe fn inner<T>(&self) -> &Inner<T> {
        unsafe { &*(self.0 as *const Inner<T>) }
    }
}
unsafe impl archery::SharedPointerKind for CountK {
    fn new<T>(v: T) -> Self {
        ALLOCS.fetch_add(1, Relaxed);
        CELLS.fetch_add(1, Relaxed);
        CountK(Box::into_raw(Box::new(Inner { rc: AtomicUsize::new(1), v })) as *mut ())
    }
    fn from_box<T>(v: Box<T>) -> Self {
        Self::new(*v)
    }
    unsafe fn as_ptr<T>(&self) -> *const T {
        DEREFS.fetch_add(1, Relaxed);
        unsafe { &self.inner::<T>().v }
    }
    unsafe fn deref<T>(&self) -> &T {
        mark();
        DEREFS.fetch_add(1, Relaxed);
        unsafe { &self.inner::<T>().v }
    }
    unsafe fn try_unwrap<T>(self) -> Result<T, Self> {
        mark();
        DEREFS.fetch_add(1, Relaxed);
        unsafe {
            if self.inner::<T>().rc.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
                CELLS.fetch_sub(1, Relaxed);
                let b: Box<Inner<T>> = Box::from_raw(self.0 as *mut Inner<T>);
                Ok(b.v)
            } else {
                Err(self)
            }
        }
    }
    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
        DEREFS.fetch_add(1, Relaxed);
        unsafe {
            if self.inner::<T>().rc.load(SeqCst) == 1 {
                Some(&mut (*(self.0 as *mut Inner<T>)).v)
            } else {
                None
            }
        }
    }
    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
        mark();
        DEREFS.fetch_add(1, Relaxed);
        unsafe {
            if self.inner::<T>().rc.load(SeqCst) != 1 {
                let mut n = Self::new(self.inner::<T>().v.clone());
                std::mem::swap(self, &mut n);
                archery::SharedPointerKind::drop::<T>(&mut n);
            }
            &mut (*(self.0 as *mut Inner<T>)).v
        }
    }
    unsafe fn strong_count<T>(&self) -> usize {
        unsafe { self.inner::<T>().rc.load(SeqCst) }
    }
    unsafe fn clone<T>(&self) -> Self {
        mark();
        PCLONES.fetch_add(1, Relaxed);
        unsafe { self.inner::<T>().rc.fetch_add(1, SeqCst) };
        CountK(self.0)
    }
    unsafe fn drop<T>(&mut self) {
        mark();
        unsafe {
            let p = self.0 as *mut Inner<T>;
            if (*p).rc.fetch_sub(1, SeqCst) == 1 {
                CELLS.fetch_sub(1, Relaxed);
                let d = DEPTH.with(|d| {
                    d.set(d.get() + 1);
                    d.get()
                });
                MAXDEPTH.fetch_max(d, Relaxed);
                struct G;
                impl Drop for G {
                    fn drop(&mut self) {
                        DEPTH.with(|d| d.set(d.get() - 1));
                    }
                }
                let _g = G;
                drop(Box::from_raw(p));
            }
        }
    }
}

/// Counts what is allocated on the heap.
pub struct Heap;
pub static HALLOCS: AtomicU64 = AtomicU64::new(0);
pub static HBYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        HALLOCS.fetch_add(1, Relaxed);
        HBYTES.fetch_add(l.size() as u64, Relaxed);
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        HALLOCS.fetch_add(1, Relaxed);
        HBYTES.fetch_add(n as u64, Relaxed);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}

/// Snapshot of all counters.
#[derive(Clone, Copy, Debug, Default)]
pub struct Snap {
    pub derefs: i64,
    pub allocs: i64,
    pub pclones: i64,
    pub cmps: i64,
    pub eqs: i64,
    pub hashes: i64,
    pub clones: i64,
    pub cells: i64,
    pub hallocs: i64,
    pub hbytes: i64,
}
pub fn snap() -> Snap {
    Snap {
        derefs: DEREFS.load(Relaxed) as i64,
        allocs: ALLOCS.load(Relaxed) as i64,
        pclones: PCLONES.load(Relaxed) as i64,
        cmps: CMPS.load(Relaxed) as i64,
        eqs: EQS.load(Relaxed) as i64,
        hashes: HASHES.load(Relaxed) as i64,
        clones: CLONES.load(Relaxed) as i64,
        cells: CELLS.load(Relaxed),
        hallocs: HALLOCS.load(Relaxed) as i64,
        hbytes: HBYTES.load(Relaxed) as i64,
    }
}
impl Snap {
    /// What happened since `o`.  The last field is the change in live cells.
    pub fn since(&self, o: &Snap) -> [i64; 8] {
        [
            self.derefs - o.derefs,
            self.allocs - o.allocs,
            self.pclones - o.pclones,
            self.cmps - o.cmps,
            self.eqs - o.eqs,
            self.hashes - o.hashes,
            self.clones - o.clones,
            self.cells - o.cells,
        ]
    }
    /// The same with what was allocated on the heap.
    pub fn all_since(&self, o: &Snap) -> [i64; 10] {
        let x = self.since(o);
        let mut r = [0; 10];
        r[..8].copy_from_slice(&x);
        r[8] = self.hallocs - o.hallocs;
        r[9] = self.hbytes - o.hbytes;
        r
    }
}

thread_local! {
    /// The most that a step took in the last walk.
    pub static STEP: Cell<[i64; 10]> = const { Cell::new([0; 10]) };
}
/// Takes at most `k` steps, and says how many were possible.
pub fn steps<I: Iterator>(mut it: I, k: usize) -> usize {
    let mut most = [0; 10];
    let mut i = 0;
    while i < k {
        let s = snap();
        let got = it.next().is_some();
        let x = snap().all_since(&s);
        for j in 0..10 {
            most[j] = most[j].max(x[j]);
        }
        if !got {
            break;
        }
        i += 1;
    }
    STEP.set(most);
    i
}

// ---------------------------------------------------------------- random numbers

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
