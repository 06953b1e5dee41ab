//! Threads whose interleaving is decided here, one step of a reference count at a time.
//!
//! Several threads run small programs on versions that share structure.  Only one of them runs at a
//! time; before every step on a reference count (and before every call of an element's own code) the
//! running thread asks the plan who goes on.  What every thread observed, and whether everything was
//! released exactly once, goes into the trace; CaseTrace says what it has to be.
use crate::cases::{Gen, Pair, cfg};
use crate::ds::*;
use crate::instr::*;
use crate::log::*;
use archery::{ArcK, ArcTK, SharedPointerKind};
use rpds::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::mem::ManuallyDrop;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Condvar, Mutex};

const NONE: usize = usize::MAX;
const MAXT: usize = 4;
thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
}

/// Who runs next.
pub enum Plan {
    /// Goes on with the same thread, except at some steps.
    Preempt(Vec<(usize, usize)>),
    /// Switches with a chance in percent.
    Random(Rng, u64),
    /// The thread with the highest priority, which is lowered at some steps.
    Priority(Vec<i64>, Vec<usize>),
    /// The thread given for each step.
    Fixed(Vec<u8>),
    /// Thread 0, except that thread 1 makes one call whenever thread 0 finds a cell shared.
    Lockstep,
}
struct State {
    cur: usize,
    done: Vec<bool>,
    order: Vec<usize>,
    plan: Plan,
    step: usize,
    /// Threads that have come to their first step, and one that was chosen before it did.
    arrived: Vec<bool>,
    granted: Option<usize>,
    /// Steps that could not be given to the thread that the plan wanted.
    off: usize,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
static CV: [Condvar; MAXT] = [const { Condvar::new() }; MAXT];
static DEREF_POINTS: AtomicBool = AtomicBool::new(false);

impl State {
    fn choose(&mut self, me: usize) -> usize {
        let s = self.step;
        self.step += 1;
        let n = self.done.len();
        let want = match &mut self.plan {
            Plan::Preempt(at) => at.iter().find(|x| x.0 == s).map_or(me, |x| x.1),
            Plan::Random(rng, p) => {
                if rng.pct(*p) {
                    rng.below(n as u64) as usize
                } else {
                    me
                }
            }
            Plan::Priority(pr, at) => {
                if at.contains(&s) {
                    pr[me] = -(s as i64) - 1;
                }
                (0..n).filter(|t| !self.done[*t]).max_by_key(|t| pr[*t]).unwrap_or(me)
            }
            Plan::Fixed(v) => v.get(s).map_or(me, |t| *t as usize),
            Plan::Lockstep => me,
        };
        if want < n && !self.done[want] {
            want
        } else {
            self.off += 1;
            me
        }
    }
    fn new(n: usize, cur: usize, order: Vec<usize>, plan: Plan) -> State {
        State {
            cur,
            done: vec![false; n],
            order,
            plan,
            step: 0,
            arrived: vec![false; n],
            granted: None,
            off: 0,
        }
    }
    /// The thread that goes on when another one is through.
    fn after(&mut self) -> Option<usize> {
        let open = |t: &usize| !self.done[*t];
        match &self.plan {
            Plan::Priority(pr, _) => (0..self.done.len()).filter(open).max_by_key(|t| pr[*t]),
            Plan::Fixed(v) if v.get(self.step).is_some_and(|t| open(&(*t as usize))) => {
                self.step += 1;
                let t = v[self.step - 1] as usize;
                if !self.arrived[t] {
                    self.granted = Some(t);
                }
                Some(t)
            }
            _ => self.order.iter().copied().find(open),
        }
    }
}
fn switch(me: usize, pick: impl FnOnce(&mut State) -> usize) {
    let mut g = STATE.lock().unwrap();
    let st = g.as_mut().unwrap();
    let next = pick(st);
    if next != me {
        st.cur = next;
        CV[next].notify_one();
        while g.as_ref().unwrap().cur != me {
            g = CV[me].wait(g).unwrap();
        }
    }
}
/// A step that other threads can come in front of.
pub fn point() {
    point_at(false);
}
/// `cell`: is it about a cell of the structure, and not about an element?
fn point_at(cell: bool) {
    let me = TID.with(|t| t.get());
    if me != NONE {
        switch(me, |st| {
            if matches!(st.plan, Plan::Fixed(_)) && !cell {
                return me;
            }
            st.arrived[me] = true;
            if st.granted == Some(me) {
                st.granted = None;
                return me;
            }
            let next = st.choose(me);
            if next != me && !st.arrived[next] {
                st.granted = Some(next);
            }
            next
        });
    }
}
fn step_on<T>() {
    point_at(std::any::type_name::<T>() != std::any::type_name::<El>());
}
/// A cell was found to be shared.
fn shared() {
    if TID.with(|t| t.get()) == 0 {
        switch(0, |st| if matches!(st.plan, Plan::Lockstep) && !st.done[1] { 1 } else { 0 });
    }
}
/// Between two calls.
fn boundary() {
    if TID.with(|t| t.get()) == 1 {
        switch(1, |st| if matches!(st.plan, Plan::Lockstep) && !st.done[0] { 0 } else { 1 });
    }
}
fn enter(me: usize) {
    TID.with(|t| t.set(me));
    let mut g = STATE.lock().unwrap();
    while g.as_ref().unwrap().cur != me {
        g = CV[me].wait(g).unwrap();
    }
}
fn leave(me: usize) {
    TID.with(|t| t.set(NONE));
    let mut g = STATE.lock().unwrap();
    let st = g.as_mut().unwrap();
    st.done[me] = true;
    if let Some(n) = st.after() {
        st.cur = n;
        CV[n].notify_one();
    }
}

// ------------------------------------------------------------------------------------ pointer kind

/// Reads of released cells, releases of released cells, and the like.
pub static BAD: AtomicU64 = AtomicU64::new(0);
static HELD: AtomicI64 = AtomicI64::new(0);
static NEST: AtomicUsize = AtomicUsize::new(0);
/// Released cells stay in memory until the end of a run, so that use after release is noticed.
static QUARANTINE: Mutex<Vec<(usize, fn(usize))>> = Mutex::new(Vec::new());

struct SInner<T> {
    rc: AtomicUsize,
    dead: AtomicBool,
    v: ManuallyDrop<T>,
}
fn free<T>(p: usize) {
    drop(unsafe { Box::from_raw(p as *mut SInner<T>) });
}
fn flush() {
    for (p, f) in QUARANTINE.lock().unwrap().drain(..) {
        f(p);
    }
}
#[derive(Debug)]
pub struct SchedK(*mut ());
unsafe impl Send for SchedK {}
unsafe impl Sync for SchedK {}
impl SchedK {
    unsafe fn inner<T>(&self) -> &SInner<T> {
        let r = unsafe { &*(self.0 as *const SInner<T>) };
        if r.dead.load(Relaxed) {
            BAD.fetch_add(1, Relaxed);
        }
        r
    }
    fn bury<T>(&self) {
        HELD.fetch_sub(1, Relaxed);
        QUARANTINE.lock().unwrap().push((self.0 as usize, free::<T>));
    }
}
unsafe impl SharedPointerKind for SchedK {
    fn new<T>(v: T) -> Self {
        HELD.fetch_add(1, Relaxed);
        SchedK(Box::into_raw(Box::new(SInner {
            rc: AtomicUsize::new(1),
            dead: AtomicBool::new(false),
            v: ManuallyDrop::new(v),
        })) as *mut ())
    }
    fn from_box<T>(v: Box<T>) -> Self {
        Self::new(*v)
    }
    unsafe fn as_ptr<T>(&self) -> *const T {
        unsafe { &*self.inner::<T>().v }
    }
    unsafe fn deref<T>(&self) -> &T {
        if DEREF_POINTS.load(Relaxed) {
            step_on::<T>();
        }
        unsafe { &self.inner::<T>().v }
    }
    unsafe fn try_unwrap<T>(self) -> Result<T, Self> {
        mark();
        step_on::<T>();
        unsafe {
            let i = self.inner::<T>();
            if i.rc.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
                i.dead.store(true, SeqCst);
                let v = std::ptr::read(&*i.v);
                self.bury::<T>();
                Ok(v)
            } else {
                shared();
                Err(self)
            }
        }
    }
    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
        step_on::<T>();
        unsafe {
            if self.inner::<T>().rc.load(SeqCst) == 1 {
                Some(&mut (*(self.0 as *mut SInner<T>)).v)
            } else {
                None
            }
        }
    }
    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
        step_on::<T>();
        unsafe {
            if self.inner::<T>().rc.load(SeqCst) != 1 {
                let v: T = T::clone(&self.inner::<T>().v);
                let mut n = Self::new(v);
                std::mem::swap(self, &mut n);
                SharedPointerKind::drop::<T>(&mut n);
            }
            &mut (*(self.0 as *mut SInner<T>)).v
        }
    }
    unsafe fn strong_count<T>(&self) -> usize {
        step_on::<T>();
        unsafe { self.inner::<T>().rc.load(SeqCst) }
    }
    unsafe fn clone<T>(&self) -> Self {
        step_on::<T>();
        unsafe {
            if self.inner::<T>().rc.fetch_add(1, SeqCst) == 0 {
                BAD.fetch_add(1, Relaxed);
            }
        }
        SchedK(self.0)
    }
    unsafe fn drop<T>(&mut self) {
        mark();
        step_on::<T>();
        unsafe {
            let i = &*(self.0 as *const SInner<T>);
            if i.dead.load(SeqCst) {
                BAD.fetch_add(1, Relaxed);
                return;
            }
            if i.rc.fetch_sub(1, SeqCst) == 1 {
                struct G;
                impl Drop for G {
                    fn drop(&mut self) {
                        DEPTH.with(|d| d.set(d.get() - 1));
                    }
                }
                DEPTH.with(|d| {
                    d.set(d.get() + 1);
                    NEST.fetch_max(d.get(), Relaxed);
                });
                let _g = G;
                ManuallyDrop::drop(&mut (*(self.0 as *mut SInner<T>)).v);
                i.dead.store(true, SeqCst);
                self.bury::<T>();
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- programs

/// What a thread does to its handles; handles from `SHARED` on are common to all threads and are only
/// looked at.
#[derive(Clone)]
enum Do {
    Mut(usize, &'static str, Vec<i64>),
    Pers(usize, &'static str, Vec<i64>, usize),
    Ask(usize, &'static str, Vec<i64>),
    Observe(usize),
    Clone(usize, usize),
    Drop(usize),
    Eq(usize, usize),
    Ptr(usize, usize),
    Rel(usize, usize),
}
const SHARED: usize = 100;
impl Do {
    fn json(&self) -> String {
        let s = |n: &str, h: usize, f: &str, a: &[i64], d: usize| {
            format!("[\"{n}\",{h},\"{f}\",{},{d}]", J::ints(a))
        };
        match self {
            Do::Mut(h, f, a) => s("m", *h, f, a, 0),
            Do::Pers(h, f, a, d) => s("p", *h, f, a, *d),
            Do::Ask(h, f, a) => s("q", *h, f, a, 0),
            Do::Observe(h) => s("o", *h, "", &[], 0),
            Do::Clone(h, d) => s("c", *h, "", &[], *d),
            Do::Drop(h) => s("x", *h, "", &[], 0),
            Do::Eq(h, g) => s("e", *h, "", &[], *g),
            Do::Ptr(h, g) => s("t", *h, "", &[], *g),
            Do::Rel(h, g) => s("r", *h, "", &[], *g),
        }
    }
}
struct Slots<'a, D> {
    own: Vec<Option<D>>,
    common: &'a [D],
}
impl<D: Ds + Pair<D>> Slots<'_, D> {
    fn at(&self, h: usize) -> &D {
        if h >= SHARED { &self.common[h - SHARED] } else { self.own[h].as_ref().expect("handle") }
    }
    fn put(&mut self, h: usize, d: D) {
        if self.own.len() <= h {
            self.own.resize_with(h + 1, || None);
        }
        self.own[h] = Some(d);
    }
    fn run(&mut self, o: &Do) -> String {
        match o {
            Do::Mut(h, f, a) => J::ints(&self.own[*h].as_mut().expect("handle").inpl(f, a)),
            Do::Pers(h, f, a, d) => {
                let (v, r) = self.at(*h).pers(f, a);
                if let Some(v) = v {
                    self.put(*d, v);
                }
                J::ints(&r)
            }
            Do::Ask(h, f, a) => J::ints(&self.at(*h).query(f, a)),
            Do::Observe(h) => self.at(*h).content(),
            Do::Clone(h, d) => {
                let c = self.at(*h).clone();
                self.put(*d, c);
                "[]".into()
            }
            Do::Drop(h) => {
                self.own[*h] = None;
                "[]".into()
            }
            Do::Eq(h, g) => format!("[{}]", self.at(*h).cmp2(self.at(*g))[0]),
            Do::Ptr(h, g) => {
                format!("[{}]", self.at(*h).ptr_eq_(self.at(*g)).map_or(-9, |x| x as i64))
            }
            Do::Rel(h, g) => J::ints(
                &self.at(*h).relations(self.at(*g)).map_or(vec![-9], |r| {
                    r.iter().map(|x| *x as i64).collect()
                }),
            ),
        }
    }
}

/// The versions there are in the beginning, and what each thread does.
struct Program {
    c: Cfg,
    /// Where each base comes from, and the calls that make it.
    bases: Vec<(usize, Vec<(&'static str, Vec<i64>, bool)>)>,
    /// Bases that all threads look at.
    common: Vec<usize>,
    /// The bases each thread has a handle of, and its calls.
    threads: Vec<(Vec<usize>, Vec<Do>)>,
    derefs: bool,
}
fn weighted<'a>(rng: &mut Rng, ops: &'a [Op], growing: bool) -> &'a Op {
    let k = |o: &Op| if growing { o.grow } else { o.shrink };
    let mut x = rng.below(ops.iter().map(k).sum());
    for o in ops {
        if x < k(o) {
            return o;
        }
        x -= k(o);
    }
    unreachable!()
}
pub struct Shape {
    pub len: i64,
    pub ops: i64,
    pub threads: i64,
    /// Mostly drops, of long chains.
    pub drops: bool,
}
impl Program {
    fn bases<D: Ds>(&self) -> Vec<D> {
        let mut v: Vec<D> = Vec::new();
        for (from, h) in &self.bases {
            let mut d = if v.is_empty() { D::make(&self.c) } else { v[*from].clone() };
            for (f, a, m) in h {
                if *m {
                    d.inpl(f, a);
                } else if let (Some(n), _) = d.pers(f, a) {
                    d = n;
                }
            }
            v.push(d);
        }
        v
    }
    fn random<D: Ds + Pair<D>>(rng: &mut Rng, s: &Shape) -> Program {
        let g = Gen { classes: *rng.pick(&[3, 6, 12]), nan: 0 };
        let mut p = Program {
            c: cfg(rng),
            bases: vec![],
            common: vec![],
            threads: vec![],
            derefs: rng.pct(30),
        };
        let chain = s.drops && matches!(D::KIND, "list" | "stack" | "queue");
        let hist = |rng: &mut Rng, d: &mut D, n: i64, growing: bool| {
            let mut h = Vec::new();
            for _ in 0..n {
                let o = if chain && growing { &D::MUTS[0] } else { weighted(rng, D::MUTS, growing) };
                let o = if chain && o.name == "reverse" { &D::MUTS[0] } else { o };
                let a = g.args::<D>(rng, o.arg, d.size() as i64);
                let m = o.m && (!o.p || rng.pct(60));
                if m {
                    d.inpl(o.name, &a);
                } else if let (Some(n), _) = d.pers(o.name, &a) {
                    *d = n;
                }
                h.push((o.name, a, m));
            }
            h
        };
        let mut made: Vec<D> = Vec::new();
        for i in 0..rng.int(1, 4) {
            let from = if i == 0 { 0 } else { rng.below(i as u64) as usize };
            let mut d = if i == 0 { D::make(&p.c) } else { made[from].clone() };
            let n = if i == 0 { rng.int(s.len / 2, s.len) } else { rng.int(0, 3) };
            let growing = i == 0 || rng.pct(70);
            let h = hist(rng, &mut d, n, growing);
            p.bases.push((from, h));
            made.push(d);
        }
        if rng.pct(40) {
            p.common.push(rng.below(made.len() as u64) as usize);
        }
        for _ in 0..s.threads {
            let mine: Vec<usize> =
                (0..rng.int(1, 2)).map(|_| rng.below(made.len() as u64) as usize).collect();
            let mut sl = Slots {
                own: mine.iter().map(|b| Some(made[*b].clone())).collect(),
                common: &p.common.iter().map(|b| made[*b].clone()).collect::<Vec<_>>(),
            };
            let mut ops = Vec::new();
            for _ in 0..rng.int(1, s.ops) {
                let live: Vec<usize> =
                    (0..sl.own.len()).filter(|h| sl.own[*h].is_some()).collect();
                let any: Vec<usize> =
                    live.iter().copied().chain((0..p.common.len()).map(|i| SHARED + i)).collect();
                if any.is_empty() {
                    break;
                }
                let free = (0..sl.own.len()).find(|h| sl.own[*h].is_none()).unwrap_or(sl.own.len());
                let dst = if live.is_empty() || rng.pct(50) { free } else { *rng.pick(&live) };
                let h = *rng.pick(&any);
                let w = if s.drops { [20, 10, 2, 5, 8, 50, 2, 2, 1] } else { [38, 16, 14, 8, 10, 10, 2, 1, 1] };
                let mut x = rng.below(w.iter().sum());
                let c = w.iter().position(|k| { let r = x < *k; x = x.wrapping_sub(*k); r }).unwrap();
                let growing = rng.pct(if s.drops { 30 } else { 50 });
                let o = match c {
                    0 if !live.is_empty() => {
                        let h = *rng.pick(&live);
                        let o = loop {
                            let o = weighted(rng, D::MUTS, growing);
                            if o.m {
                                break o;
                            }
                        };
                        Do::Mut(h, o.name, g.args::<D>(rng, o.arg, sl.at(h).size() as i64))
                    }
                    0 | 1 => {
                        let o = loop {
                            let o = weighted(rng, D::MUTS, growing);
                            if o.p {
                                break o;
                            }
                        };
                        Do::Pers(h, o.name, g.args::<D>(rng, o.arg, sl.at(h).size() as i64), dst)
                    }
                    2 => {
                        let o = rng.pick(D::QUERIES);
                        Do::Ask(h, o.name, g.args::<D>(rng, o.arg, sl.at(h).size() as i64))
                    }
                    3 => Do::Observe(h),
                    4 => Do::Clone(h, dst),
                    5 if !live.is_empty() => Do::Drop(*rng.pick(&live)),
                    6 => Do::Eq(h, *rng.pick(&any)),
                    7 => Do::Ptr(h, *rng.pick(&any)),
                    8 => Do::Rel(h, *rng.pick(&any)),
                    _ => Do::Observe(h),
                };
                sl.run(&o);
                ops.push(o);
            }
            // What is left is looked at, and most of it dropped.
            for h in (0..sl.own.len()).filter(|h| sl.own[*h].is_some()).collect::<Vec<_>>() {
                if rng.pct(60) {
                    ops.push(Do::Observe(h));
                }
                if rng.pct(60) {
                    ops.push(Do::Drop(h));
                }
            }
            p.threads.push((mine, ops));
        }
        p
    }
    fn event(&self, k: &str, ptr: &str) -> Ev {
        Ev::new("threads")
            .s("k", k)
            .s("ptr", ptr)
            .raw(
                "bases",
                &J::arr(self.bases.iter().map(|(from, h)| {
                    let h = h.iter().map(|(f, a, _)| format!("[\"{f}\",{}]", J::ints(a)));
                    format!("[{},{}]", from + 1, J::arr(h))
                })),
            )
            .v("common", &self.common.iter().map(|x| *x as i64 + 1).collect::<Vec<_>>())
            .raw(
                "threads",
                &J::arr(self.threads.iter().map(|(m, ops)| {
                    let m: Vec<i64> = m.iter().map(|x| *x as i64 + 1).collect();
                    format!("[{},{}]", J::ints(&m), J::arr(ops.iter().map(|o| o.json())))
                })),
            )
    }
}

/// What happened in the runs of one program.
#[derive(Default)]
struct Seen {
    outs: BTreeSet<String>,
    runs: i64,
    leak: i64,
    cells: i64,
    mis: i64,
    bad: i64,
    nest: i64,
    steps: i64,
    followed: i64,
}
struct Box_<T>(T);
unsafe impl<T> Send for Box_<T> {}
unsafe impl<T> Sync for Box_<T> {}

/// One run: scheduled if there is a plan, as the threads happen to run otherwise.
fn run<D: Ds + Pair<D>>(p: &Program, plan: Option<Plan>, order: Vec<usize>, seen: &mut Seen) -> usize {
    track(true);
    BAD.store(0, Relaxed);
    NEST.store(0, Relaxed);
    let held = HELD.load(Relaxed);
    DEREF_POINTS.store(p.derefs && plan.is_some(), Relaxed);
    let bases = p.bases::<D>();
    let n = p.threads.len();
    let own: Vec<Box_<Vec<Option<D>>>> = p
        .threads
        .iter()
        .map(|(m, _)| Box_(m.iter().map(|b| Some(bases[*b].clone())).collect()))
        .collect();
    let common = Box_(p.common.iter().map(|b| bases[*b].clone()).collect::<Vec<_>>());
    drop(bases);
    let scheduled = plan.is_some();
    if let Some(plan) = plan {
        let cur = match &plan {
            Plan::Priority(pr, _) => (0..n).max_by_key(|t| pr[*t]).unwrap(),
            _ => order[0],
        };
        *STATE.lock().unwrap() = Some(State::new(n, cur, order, plan));
    }
    let barrier = Barrier::new(n);
    let outs: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = own
            .into_iter()
            .enumerate()
            .map(|(t, own)| {
                let common = &common;
                let barrier = &barrier;
                let ops = &p.threads[t].1;
                s.spawn(move || {
                    let own = own;
                    let common = common;
                    if scheduled {
                        enter(t);
                    } else {
                        barrier.wait();
                    }
                    let mut sl = Slots { own: { own }.0, common: &common.0 };
                    let mut res = Vec::new();
                    let fine = guard(|| {
                        for o in ops {
                            res.push(sl.run(o));
                            if scheduled {
                                boundary();
                            }
                        }
                        drop(sl);
                    });
                    if fine.is_none() {
                        res.push("[-7]".into());
                    }
                    if scheduled {
                        leave(t);
                    }
                    J::arr(res)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let steps = STATE.lock().unwrap().take().map_or(0, |s| {
        if let Plan::Fixed(v) = &s.plan {
            seen.followed += (s.off == 0 && s.step == v.len()) as i64;
        }
        s.step
    });
    // The common versions still show what they showed.
    let kept = J::arr(common.0.iter().map(|d| d.content()));
    drop(common);
    seen.outs.insert(format!("[{},{kept}]", J::arr(outs)));
    seen.runs += 1;
    seen.steps = seen.steps.max(steps as i64);
    seen.leak = seen.leak.max(live_count() as i64);
    seen.mis = seen.mis.max(MISDROPS.load(Relaxed) as i64);
    seen.cells = seen.cells.max((HELD.load(Relaxed) - held).abs());
    seen.bad = seen.bad.max(BAD.load(Relaxed) as i64);
    seen.nest = seen.nest.max(NEST.load(Relaxed) as i64);
    flush();
    track(false);
    steps
}
fn emit<D: Ds>(log: &mut Log, p: &Program, ptr: &str, seen: &Seen) {
    log.put(
        p.event(D::KIND, ptr)
            .raw("outs", &J::arr(seen.outs.iter().take(20).cloned()))
            .i("runs", seen.runs)
            .i("steps", seen.steps)
            .i("leak", seen.leak)
            .i("cells", seen.cells)
            .i("mis", seen.mis)
            .i("bad", seen.bad)
            .i("nest", seen.nest),
    );
}
fn orders(n: usize) -> Vec<Vec<usize>> {
    match n {
        2 => vec![vec![0, 1], vec![1, 0]],
        _ => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]],
    }
}
/// Schedules of one program: every order of the threads, every single preemption (some of them, if
/// there are too many), some with two and three, random ones, and random priorities.
fn explore<D: Ds + Pair<D>>(log: &mut Log, rng: &mut Rng, p: &Program, budget: usize) {
    let mut seen = Seen::default();
    let n = p.threads.len();
    log.about(&format!("threads on {} {}", D::KIND, p.threads.len()));
    let mut singles = Vec::new();
    for o in orders(n) {
        let steps = run::<D>(p, Some(Plan::Preempt(vec![])), o.clone(), &mut seen);
        for s in 0..steps {
            for t in 0..n {
                singles.push((o.clone(), s, t));
            }
        }
    }
    let most = seen.steps as u64 + 1;
    let part = budget / 2;
    if singles.len() > part {
        for i in 0..part {
            let j = i + rng.below((singles.len() - i) as u64) as usize;
            singles.swap(i, j);
        }
        singles.truncate(part);
    }
    for (o, s, t) in singles {
        run::<D>(p, Some(Plan::Preempt(vec![(s, t)])), o, &mut seen);
    }
    while (seen.runs as usize) < budget {
        let o = rng.pick(&orders(n)).clone();
        let plan = match rng.below(3) {
            0 => Plan::Random(Rng::new(rng.next()), *rng.pick(&[3, 10, 30, 60])),
            1 => {
                let mut at: Vec<(usize, usize)> = (0..rng.int(2, 3))
                    .map(|_| (rng.below(most) as usize, rng.below(n as u64) as usize))
                    .collect();
                at.sort();
                Plan::Preempt(at)
            }
            _ => {
                let mut pr: Vec<i64> = (1..=n as i64).collect();
                for i in (1..n).rev() {
                    pr.swap(i, rng.below(i as u64 + 1) as usize);
                }
                Plan::Priority(pr, (0..rng.int(1, 4)).map(|_| rng.below(most) as usize).collect())
            }
        };
        run::<D>(p, Some(plan), o, &mut seen);
    }
    emit::<D>(log, p, "SchedK", &seen);
}
fn stress<D: Ds + Pair<D>>(log: &mut Log, p: &Program, ptr: &str, times: usize) {
    let mut seen = Seen::default();
    log.about(&format!("free threads on {} {}", D::KIND, p.threads.len()));
    for _ in 0..times {
        run::<D>(p, None, vec![], &mut seen);
    }
    emit::<D>(log, p, ptr, &seen);
}

fn program<D: Ds + Pair<D>>(rng: &mut Rng, drops: bool) -> Program {
    let s = Shape {
        len: if drops { 120 } else { *rng.pick(&[2, 5, 9, 20]) },
        ops: if drops { 6 } else { *rng.pick(&[2, 4, 7]) },
        threads: if rng.pct(70) { 2 } else { 3 },
        drops,
    };
    Program::random::<D>(rng, &s)
}

pub fn threads_of(log: &mut Log, rng: &mut Rng, kind: &str, n: usize, budget: usize, drops: bool) {
    for _ in 0..n {
        macro_rules! go {
            ($t:ident [$e:ty $(,$e2:ty)?] $h:ty) => {{
                let p = program::<$t<$e $(,$e2)?, SchedK, $h>>(rng, drops);
                explore::<$t<$e $(,$e2)?, SchedK, $h>>(log, rng, &p, budget);
            }};
            ($t:ident [$e:ty $(,$e2:ty)?]) => {{
                let p = program::<$t<$e $(,$e2)?, SchedK>>(rng, drops);
                explore::<$t<$e $(,$e2)?, SchedK>>(log, rng, &p, budget);
            }};
        }
        crate::kinds!(kind, go);
    }
}
pub fn stress_of(log: &mut Log, rng: &mut Rng, kind: &str, n: usize, times: usize, drops: bool) {
    for i in 0..n {
        macro_rules! go {
            ($t:ident [$e:ty $(,$e2:ty)?] $h:ty) => {{
                let p = program::<$t<$e $(,$e2)?, ArcTK, $h>>(rng, drops);
                if i % 2 == 0 {
                    stress::<$t<$e $(,$e2)?, ArcTK, $h>>(log, &p, "ArcTK", times);
                } else {
                    stress::<$t<$e $(,$e2)?, ArcK, $h>>(log, &p, "ArcK", times);
                }
            }};
            ($t:ident [$e:ty $(,$e2:ty)?]) => {{
                let p = program::<$t<$e $(,$e2)?, ArcTK>>(rng, drops);
                if i % 2 == 0 {
                    stress::<$t<$e $(,$e2)?, ArcTK>>(log, &p, "ArcTK", times);
                } else {
                    stress::<$t<$e $(,$e2)?, ArcK>>(log, &p, "ArcK", times);
                }
            }};
        }
        crate::kinds!(kind, go);
    }
}
/// One thread drops a list node by node while another drops, in step with it, one version for each
/// node.
pub fn lockstep(log: &mut Log, n: i64) {
    std::thread::scope(|s| {
        let f = move || {
            let mut l: List<El, SchedK> = List::new_with_ptr_kind();
            let mut versions = Vec::new();
            for i in 0..n {
                l.push_front_mut(El::new(i * TAG));
                versions.push(l.clone());
            }
            versions.pop();
            *STATE.lock().unwrap() = Some(State::new(2, 0, vec![0, 1], Plan::Lockstep));
            NEST.store(0, Relaxed);
            let (l, versions) = (Box_(l), Box_(versions));
            let peak = std::thread::scope(|s| {
                let a = std::thread::Builder::new()
                    .stack_size(1 << 29)
                    .spawn_scoped(s, move || {
                        let l = l;
                        enter(0);
                        let ((), peak) = stack_of(|| drop({ l }.0));
                        leave(0);
                        peak
                    })
                    .expect("thread");
                s.spawn(move || {
                    let v = versions;
                    enter(1);
                    for x in { v }.0.into_iter().rev() {
                        drop(x);
                        boundary();
                    }
                    leave(1);
                });
                a.join().expect("thread")
            });
            *STATE.lock().unwrap() = None;
            let nest = NEST.load(Relaxed);
            flush();
            (peak, nest)
        };
        let (peak, nest) = s.spawn(f).join().expect("lockstep");
        log.put(
            Ev::new("deep")
                .s("k", "list")
                .s("f", "lockstep")
                .s("ptr", "SchedK")
                .i("n", n)
                .i("peak", peak)
                .i("depth", nest as i64),
        );
    });
}

/// Takes every transition of Race.tla with real threads and lists.
pub fn paths(log: &mut Log, edges: &str, most: usize) -> (usize, usize, usize, usize) {
    struct Edge {
        s: usize,
        d: usize,
        t: usize,
        o: (String, usize),
        step: bool,
    }
    let mut ids: HashMap<String, usize> = HashMap::new();
    let mut es: Vec<Edge> = Vec::new();
    let mut begin: HashMap<usize, serde_json::Value> = HashMap::new();
    crate::replay::lines(edges, |v| {
        let mut id = |k: &str| {
            let n = ids.len();
            *ids.entry(v[k].as_str().expect("state").to_string()).or_insert(n)
        };
        let (s, d) = (id("s"), id("d"));
        begin.entry(s).or_insert_with(|| v["i"].clone());
        es.push(Edge {
            s,
            d,
            t: v["t"].as_u64().expect("thread") as usize - 1,
            o: (
                v["o"][0].as_str().expect("call").to_string(),
                v["o"][1].as_u64().expect("slot") as usize,
            ),
            step: v["p"].as_u64() == Some(1),
        });
    });
    let n = ids.len();
    let mut out: Vec<Vec<usize>> = vec![vec![]; n];
    let mut root = vec![true; n];
    for (i, e) in es.iter().enumerate() {
        out[e.s].push(i);
        root[e.d] = false;
    }
    let mut parent = vec![usize::MAX; n];
    let mut queue: std::collections::VecDeque<usize> = (0..n).filter(|x| root[*x]).collect();
    while let Some(x) = queue.pop_front() {
        for i in &out[x] {
            let d = es[*i].d;
            if !root[d] && parent[d] == usize::MAX {
                parent[d] = *i;
                queue.push_back(d);
            }
        }
    }
    let mut covered = vec![false; es.len()];
    let mut programs: BTreeMap<String, (Program, Seen)> = BTreeMap::new();
    let (mut runs, mut followed) = (0, 0);
    for first in 0..es.len() {
        if covered[first] || runs >= most {
            continue;
        }
        let mut path = vec![first];
        let mut x = es[first].s;
        while !root[x] {
            path.push(parent[x]);
            x = es[parent[x]].s;
        }
        path.reverse();
        covered[first] = true;
        let mut x = es[first].d;
        while let Some(i) = out[x].iter().find(|i| !covered[**i]).or(out[x].first()) {
            path.push(*i);
            covered[*i] = true;
            x = es[*i].d;
        }
        let i = &begin[&es[path[0]].s];
        let len = i["n"].as_u64().expect("length") as usize;
        let push = |c: i64| ("push_front", vec![c * TAG], true);
        let mut p = Program {
            c: Cfg::default(),
            bases: (1..=len).map(|j| (j.saturating_sub(2), vec![push(j as i64)])).collect(),
            common: if i["kept"].as_bool().expect("kept") { vec![len - 1] } else { vec![] },
            threads: i["heads"]
                .as_array()
                .expect("heads")
                .iter()
                .map(|h| (vec![h.as_u64().expect("head") as usize - 1], vec![]))
                .collect(),
            derefs: false,
        };
        let mut plan = Vec::new();
        for e in path.iter().map(|i| &es[*i]) {
            if e.step {
                plan.push(e.t as u8);
                continue;
            }
            let ops = &mut p.threads[e.t].1;
            let s = e.o.1;
            match e.o.0.as_str() {
                "x" => ops.push(Do::Drop(s)),
                "pop" => ops.push(Do::Mut(s, "drop_first", vec![])),
                "push" => ops.push(Do::Mut(s, "push_front", vec![(11 + e.t as i64) * TAG])),
                "reverse" => ops.push(Do::Mut(s, "reverse", vec![])),
                "clone" => ops.push(Do::Clone(0, 1)),
                o => panic!("unknown call {o}"),
            }
            match e.o.0.as_str() {
                "x" => {}
                "clone" => ops.push(Do::Observe(1)),
                _ => ops.push(Do::Observe(s)),
            }
        }
        let key = format!("{i}{}", J::arr(p.threads.iter().map(|t| J::arr(t.1.iter().map(Do::json)))));
        let (p, seen) = programs.entry(key).or_insert_with(|| (p, Seen::default()));
        let order: Vec<usize> = (0..p.threads.len()).collect();
        run::<List<El, SchedK>>(p, Some(Plan::Fixed(plan)), order, seen);
        runs += 1;
    }
    for (p, seen) in programs.values() {
        followed += seen.followed as usize;
        emit::<List<El, SchedK>>(log, p, "SchedK", seen);
    }
    (es.len(), covered.iter().filter(|c| **c).count(), runs, followed)
}
