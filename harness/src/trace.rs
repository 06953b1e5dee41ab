//! Random drivers over the public API: every call is logged and judged by the specification.
use crate::ds::*;
use crate::instr::*;
use crate::log::*;
use archery::{ArcK, ArcTK, RcK};
use rpds::*;

/// What a run pays attention to (percent chances per step, or switches).
#[derive(Clone, Debug, Default)]
pub struct Focus {
    pub q: u64,
    pub all: u64,
    pub it: u64,
    pub range: u64,
    pub peq: u64,
    pub rel: u64,
    pub disp: u64,
    pub make: u64,
    pub clone: u64,
    pub ext: u64,
    pub fault: u64,
    pub live: u64,
    /// Chance that a mutation is in-place.
    pub inplace: u64,
    pub cost: bool,
    pub track: bool,
    /// Chance of forgetting all other handles, so that structures are not shared.
    pub solo: u64,
}
impl Focus {
    pub fn parse(s: &str) -> Focus {
        let mut f = Focus {
            q: 20,
            all: 8,
            it: 0,
            range: 0,
            peq: 0,
            rel: 0,
            disp: 0,
            make: 1,
            clone: 5,
            ext: 2,
            fault: 0,
            live: 0,
            inplace: 50,
            cost: false,
            track: false,
            solo: 2,
        };
        for kv in s.split(',').filter(|x| !x.is_empty()) {
            let (k, v) = kv.split_once('=').expect("focus");
            let v: u64 = v.parse().expect("focus value");
            match k {
                "q" => f.q = v,
                "all" => f.all = v,
                "it" => f.it = v,
                "range" => f.range = v,
                "peq" => f.peq = v,
                "rel" => f.rel = v,
                "disp" => f.disp = v,
                "make" => f.make = v,
                "clone" => f.clone = v,
                "ext" => f.ext = v,
                "fault" => f.fault = v,
                "live" => f.live = v,
                "inplace" => f.inplace = v,
                "cost" => f.cost = v != 0,
                "track" => f.track = v != 0,
                "solo" => f.solo = v,
                _ => panic!("unknown focus {k}"),
            }
        }
        f
    }
}

pub const SLOTS: usize = 8;
/// Codes of values start here, so that they differ from those of keys.
pub const VAL0: i64 = 10_000_000;

struct Run<'a, D: Ds> {
    log: &'a mut Log,
    rng: &'a mut Rng,
    f: &'a Focus,
    cfg: Cfg,
    slots: Vec<Option<D>>,
    next: i64,
    classes: i64,
}

impl<D: Ds> Run<'_, D> {
    fn is_map(&self) -> bool {
        D::KIND.ends_with("map")
    }
    fn elem(&mut self) -> i64 {
        if self.f.track {
            // All codes different, so that each live element can be attributed.
            self.next += 1;
            let c = self.rng.int(0, self.classes - 1);
            (self.next * 64 + c) * TAG
        } else {
            self.rng.int(0, self.classes - 1) * TAG + self.rng.int(0, TAG - 1)
        }
    }
    fn key(&mut self) -> i64 {
        if self.f.track {
            // Keys of the same class must be equal: the class is bounded, the tag tells them apart.
            self.next += 1;
            self.rng.int(0, self.classes - 1) * TAG + self.next % TAG
        } else {
            self.elem()
        }
    }
    fn val(&mut self) -> i64 {
        if self.f.track {
            self.next += 1;
            VAL0 + self.next * TAG
        } else {
            VAL0 + self.rng.int(0, 20 * TAG)
        }
    }
    fn is_set(&self) -> bool {
        D::KIND.ends_with("set")
    }
    fn args(&mut self, a: Arg, h: usize) -> Vec<i64> {
        let n = self.slots[h].as_ref().unwrap().size() as i64;
        let idx = |r: &mut Rng| {
            if r.pct(4) {
                far(r, n as usize)
            } else if r.pct(12) {
                n + r.int(0, 3) * if r.pct(20) { 1000 } else { 1 }
            } else {
                r.int(0, (n - 1).max(0))
            }
        };
        match a {
            Arg::None => vec![],
            Arg::Elem if self.is_set() => vec![self.key()],
            Arg::Elem => vec![self.elem()],
            Arg::Key => {
                // Often a key that is there.
                vec![self.rng.int(0, self.classes - 1) * TAG + self.rng.int(0, TAG - 1)]
            }
            Arg::Idx => vec![idx(self.rng)],
            Arg::IdxElem => {
                let i = idx(self.rng);
                vec![i, self.elem()]
            }
            Arg::KeyVal => {
                let k = self.key();
                vec![k, self.val()]
            }
        }
    }
    fn handle(&mut self) -> usize {
        loop {
            let h = self.rng.below(SLOTS as u64) as usize;
            if self.slots[h].is_some() {
                return h;
            }
        }
    }
    fn obs(&self, h: usize) -> Ev2 {
        let d = self.slots[h].as_ref().unwrap();
        let r = guard(|| (d.content(), d.size() as i64));
        match r {
            Some((c, n)) => Ev2(c, n),
            None => Ev2("[]".into(), PANIC),
        }
    }
    fn all(&mut self) {
        let hs: Vec<usize> = (0..SLOTS).filter(|h| self.slots[*h].is_some()).collect();
        let os: Vec<Ev2> = hs.iter().map(|h| self.obs(*h)).collect();
        let sz: Vec<i64> = os.iter().map(|o| o.1).collect();
        let e = Ev::new("all")
            .v("hs", &hs.iter().map(|h| *h as i64).collect::<Vec<_>>())
            .raw("os", &J::arr(os.into_iter().map(|o| o.0)))
            .v("ns", &sz);
        self.log.put(e);
    }
    fn codes(&mut self, n: i64) -> Vec<i64> {
        let mut v = Vec::new();
        for _ in 0..n {
            if self.is_map() {
                let k = self.key();
                v.push(k);
                v.push(self.val());
            } else if self.is_set() {
                v.push(self.key());
            } else {
                v.push(self.elem());
            }
        }
        v
    }
    fn make(&mut self, d: usize, n: i64) {
        let codes = self.codes(n);
        let hint = self.rng.below(6) as u8;
        self.log.about(&format!("make {} hint {hint} {codes:?}", D::KIND));
        let fault = self.slots.iter().any(Option::is_some) && self.rng.pct(self.f.fault);
        let de = cfg!(feature = "full") && self.f.fault > 0 && self.rng.pct(40);
        let mut err = -1;
        if fault {
            let n = self.rng.int(1, codes.len() as i64 + 3);
            if de && self.rng.pct(40) {
                err = self.rng.int(0, codes.len() as i64);
            } else {
                let cbs = [Cb::Cmp, Cb::Eq, Cb::Hash, if de { Cb::De } else { Cb::Iter }];
                arm(*self.rng.pick(&cbs), n);
            }
        }
        let r = guard(|| {
            if de {
                D::deser(&codes, hint, err)
            } else if codes.is_empty() && hint < 3 {
                Some(D::make(&self.cfg))
            } else {
                Some(D::from_codes(&self.cfg, &codes, hint))
            }
        });
        // 1: a callback panicked, 2: the input was broken.
        let p = if fault && err < 0 && !disarm() { 1 } else if err >= 0 { 2 } else { 0 };
        let mut e = Ev::new("make")
            .i("d", d as i64)
            .v("a", &codes)
            .i("hint", hint as i64)
            .i("p", p)
            .i("w", matches!(r, Some(Some(_))) as i64);
        e = match r {
            Some(Some(v)) => {
                self.slots[d] = Some(v);
                let o = self.obs(d);
                e.raw("o", &o.0).i("n", o.1)
            }
            // Nothing comes out of it.
            Some(None) if p == 2 => e,
            None if p == 1 => e,
            _ => {
                self.slots[d] = Some(D::make(&self.cfg));
                e.raw("o", "[]").i("n", PANIC)
            }
        };
        self.log.put(e);
    }
    fn mutate(&mut self, growing: bool) {
        let w: u64 = D::MUTS.iter().map(|o| if growing { o.grow } else { o.shrink }).sum();
        let mut x = self.rng.below(w);
        let op = D::MUTS
            .iter()
            .find(|o| {
                let k = if growing { o.grow } else { o.shrink };
                if x < k {
                    true
                } else {
                    x -= k;
                    false
                }
            })
            .unwrap();
        let inplace = op.m && (!op.p || self.rng.pct(self.f.inplace));
        let h = self.handle();
        let a = self.args(op.arg, h);
        let d = if inplace { h } else { self.rng.below(SLOTS as u64) as usize };
        let s = if inplace { "m" } else { "p" };
        self.log.about(&format!("{}.{} ({s}) handle {h} {a:?}", D::KIND, op.name));
        let fault = self.rng.pct(self.f.fault);
        let mut cb = Cb::Cmp;
        if fault {
            cb = *self.rng.pick(&[Cb::Cmp, Cb::Eq, Cb::Hash, Cb::Clone]);
            let n = self.rng.int(1, 6);
            arm(cb, n);
        }
        let s0 = snap();
        let r = if inplace {
            let sl = &mut self.slots[h];
            let r = guard(|| sl.as_mut().unwrap().inpl(op.name, &a));
            (None, r)
        } else {
            let sl = &self.slots[h];
            match guard(|| sl.as_ref().unwrap().pers(op.name, &a)) {
                Some((n, r)) => (n, Some(r)),
                None => (None, None),
            }
        };
        let x = snap().all_since(&s0);
        let fired = fault && !disarm();
        let stored = r.0.is_some();
        if let Some(n) = r.0 {
            self.slots[d] = Some(n);
        }
        let res = r.1.unwrap_or_else(|| vec![PANIC]);
        let mut e = Ev::new("mut")
            .s("f", op.name)
            .s("s", s)
            .i("h", h as i64)
            .i("d", d as i64)
            .v("a", &a)
            .v("r", &res)
            .i("p", fired as i64)
            .i("w", stored as i64);
        if fired {
            e = e.i("cb", cb as i64);
        }
        if self.f.cost {
            e = e.v("x", &x);
        }
        let o = self.obs(if inplace || stored { d } else { h });
        self.log.put(e.raw("o", &o.0).i("n", o.1));
    }
    fn query(&mut self) {
        let op = self.rng.pick(D::QUERIES);
        let h = self.handle();
        let a = self.args(op.arg, h);
        self.log.about(&format!("{}.{} handle {h} {a:?}", D::KIND, op.name));
        let s0 = snap();
        let sl = &self.slots[h];
        let r = guard(|| sl.as_ref().unwrap().query(op.name, &a)).unwrap_or_else(|| vec![PANIC]);
        let x = snap().all_since(&s0);
        let mut e = Ev::new("q").s("f", op.name).i("h", h as i64).v("a", &a).v("r", &r);
        if self.f.cost {
            e = e.v("x", &x);
        }
        self.log.put(e);
    }
    fn clone_drop(&mut self) {
        if self.rng.pct(60) {
            let h = self.handle();
            let d = self.rng.below(SLOTS as u64) as usize;
            if h != d {
                let s0 = snap();
                let c = self.slots[h].clone();
                let x = snap().all_since(&s0);
                self.slots[d] = c;
                let mut e = Ev::new("clone").i("h", h as i64).i("d", d as i64);
                if self.f.cost {
                    e = e.v("x", &x);
                }
                let o = self.obs(d);
                self.log.put(e.raw("o", &o.0).i("n", o.1));
            }
        } else if self.slots.iter().filter(|s| s.is_some()).count() > 1 {
            let h = self.handle();
            self.log.about(&format!("drop {} handle {h}", D::KIND));
            self.slots[h] = None;
            self.log.put(Ev::new("drop").i("h", h as i64));
        }
    }
    fn solo(&mut self) {
        let keep = self.handle();
        let mut hs: Vec<usize> =
            (0..SLOTS).filter(|h| *h != keep && self.slots[*h].is_some()).collect();
        while !hs.is_empty() {
            let h = hs.swap_remove(self.rng.below(hs.len() as u64) as usize);
            self.slots[h] = None;
            self.log.put(Ev::new("drop").i("h", h as i64));
        }
    }
    fn extend(&mut self) {
        let h = self.handle();
        let k = self.rng.int(0, 6);
        let codes = self.codes(k);
        let hint = self.rng.below(6) as u8;
        let fault = self.rng.pct(self.f.fault);
        let sl = &mut self.slots[h];
        if fault {
            arm(Cb::Iter, (codes.len() as u64 / 2) as i64 + 1);
        }
        let r = guard(|| {
            let any: &mut dyn std::any::Any = sl.as_mut().unwrap();
            macro_rules! try_p {
                ($($p:ty),*) => { $(if let Some(v) = any.downcast_mut::<Vector<El, $p>>() {
                    v.extend(Hinted::new(codes.iter().map(|c| El::new(*c)), codes.len(), hint));
                    return true;
                })* };
            }
            try_p!(RcK, ArcK, ArcTK, CountK);
            false
        });
        let fired = fault && !disarm();
        if r == Some(false) {
            return;
        }
        let res = if r.is_none() { vec![PANIC] } else { vec![] };
        let o = self.obs(h);
        let e = Ev::new("mut")
            .s("f", "extend")
            .s("s", "m")
            .i("h", h as i64)
            .i("d", h as i64)
            .v("a", &codes)
            .v("r", &res)
            .i("p", fired as i64)
            .i("w", 0)
            .i("k", codes.len() as i64 / 2)
            .raw("o", &o.0)
            .i("n", o.1);
        self.log.put(e);
    }
    fn iterate(&mut self) {
        let h = self.handle();
        let d = self.slots[h].as_ref().unwrap();
        let n = d.size();
        self.log.about(&format!("iterate {} handle {h}", D::KIND));
        let rng = &mut *self.rng;
        let ss = guard(|| d.sessions(rng, n)).unwrap_or_else(|| {
            vec![("panic".into(), "[]".into(), "[]".into())]
        });
        for (it, order, steps) in ss {
            self.log.put(
                Ev::new("it").i("h", h as i64).s("it", &it).raw("order", &order).raw("steps", &steps),
            );
        }
    }
    fn range(&mut self) {
        let h = self.handle();
        let b = |rng: &mut Rng, m: i64| {
            (rng.int(0, 2), rng.int(0, m) * TAG + rng.int(0, TAG - 1))
        };
        let lo = b(self.rng, self.classes);
        let hi = b(self.rng, self.classes);
        self.log.about(&format!("range {} handle {h} {lo:?} {hi:?}", D::KIND));
        let d = self.slots[h].as_ref().unwrap();
        if !matches!(D::KIND, "tmap" | "tset") {
            return;
        }
        let r = d.range_session(lo, hi, self.rng);
        let e = Ev::new("range")
            .i("h", h as i64)
            .v("lo", &[lo.0, lo.1])
            .v("hi", &[hi.0, hi.1])
            .i("p", r.is_none() as i64)
            .raw("steps", &r.unwrap_or_else(|| "[]".into()));
        self.log.put(e);
    }
    fn pair(&mut self, what: &str) {
        let h = self.handle();
        let g = self.handle();
        let (a, b) = (self.slots[h].as_ref().unwrap(), self.slots[g].as_ref().unwrap());
        self.log.about(&format!("{what} {} {h} {g}", D::KIND));
        let r: Option<Option<Vec<i64>>> = guard(|| match what {
            "peq" => a.ptr_eq_(b).map(|x| vec![x as i64]),
            _ => a.relations(b).map(|x| x.iter().map(|y| *y as i64).collect()),
        });
        let r = match r {
            None => vec![PANIC],
            Some(None) => return,
            Some(Some(r)) => r,
        };
        self.log.put(Ev::new(what).i("h", h as i64).i("g", g as i64).v("r", &r));
    }
    fn disp(&mut self) {
        let h = self.handle();
        let how = self.rng.int(0, 2);
        let d = self.slots[h].as_ref().unwrap();
        let r = guard(|| (d.content(), d.display(how)));
        let (o, s) = r.unwrap_or(("[]".into(), "panic".into()));
        self.log.put(Ev::new("disp").i("h", h as i64).i("how", how).raw("o", &o).s("r", &s));
    }
    fn live(&mut self) {
        let e = Ev::new("live")
            .v("codes", &live_codes())
            .i("mis", MISDROPS.load(std::sync::atomic::Ordering::SeqCst) as i64);
        self.log.put(e);
    }

    fn run(&mut self, steps: usize, name: &str) {
        self.log.put(
            Ev::new("reset")
                .s("k", D::KIND)
                .s("cfg", &format!("{name} {:?} classes {}", self.cfg, self.classes))
                .i("bits", self.cfg.bits as i64)
                .i("w", self.cfg.degree as i64)
                .i("hm", self.cfg.hmode as i64),
        );
        self.make(0, 0);
        let mut growing = true;
        for _ in 0..steps {
            if self.rng.pct(4) {
                growing = !growing;
            }
            if self.rng.pct(self.f.make) {
                let d = self.rng.below(SLOTS as u64) as usize;
                let top = if self.is_map() || self.is_set() { self.classes * 2 } else { 40 };
                let n = self.rng.int(0, top);
                self.make(d, n);
            }
            if self.rng.pct(self.f.clone) {
                self.clone_drop();
            }
            if self.rng.pct(self.f.solo) {
                self.solo();
            }
            if self.rng.pct(self.f.ext) {
                self.extend();
            }
            self.mutate(growing);
            if self.rng.pct(self.f.q) {
                self.query();
            }
            if self.rng.pct(self.f.it) {
                self.iterate();
            }
            if self.rng.pct(self.f.range) {
                self.range();
            }
            if self.rng.pct(self.f.peq) {
                self.pair("peq");
            }
            if self.rng.pct(self.f.rel) {
                self.pair("rel");
            }
            if self.rng.pct(self.f.disp) {
                self.disp();
            }
            if self.rng.pct(self.f.live) {
                self.live();
            }
            if self.rng.pct(self.f.all) {
                self.all();
            }
        }
        self.all();
        if self.f.track {
            for h in 0..SLOTS {
                if self.slots[h].is_some() {
                    self.slots[h] = None;
                    self.log.put(Ev::new("drop").i("h", h as i64));
                    self.live();
                }
            }
        }
    }
}
struct Ev2(String, i64);

pub fn drive<D: Ds>(log: &mut Log, rng: &mut Rng, f: &Focus, cfg: Cfg, steps: usize, name: &str) {
    let classes = *rng.pick(&[3, 6, 10, 16, 24, 40]);
    track(f.track);
    let mut r = Run::<D> {
        log,
        rng,
        f,
        cfg,
        slots: (0..SLOTS).map(|_| None).collect(),
        next: 0,
        classes,
    };
    r.run(steps, name);
    drop(r);
    track(false);
}

/// One kind, with all the pointer kinds and parameters it takes, in turn.
pub fn drive_kind(log: &mut Log, rng: &mut Rng, f: &Focus, kind: &str, rounds: usize, steps: usize) {
    const BITS: [u8; 8] = [1, 2, 5, 1, 3, 2, 4, 6];
    const DEGREES: [u8; 6] = [2, 4, 8, 16, 32, 64];
    for i in 0..rounds {
        let cfg = Cfg {
            bits: BITS[i % BITS.len()],
            degree: *rng.pick(&DEGREES),
            hmode: (i as u64 % HMODES as u64) as u8,
        };
        let p = if f.cost { 3 } else { rng.below(4) };
        macro_rules! go {
            ($($k:literal => $t:ty, $u:ty, $v:ty, $w:ty;)*) => {
                match (kind, p) {
                    $(($k, 0) => drive::<$t>(log, rng, f, cfg, steps, "RcK"),
                      ($k, 1) => drive::<$u>(log, rng, f, cfg, steps, "ArcK"),
                      ($k, 2) => drive::<$v>(log, rng, f, cfg, steps, "ArcTK"),
                      ($k, _) => drive::<$w>(log, rng, f, cfg, steps, "CountK"),)*
                    _ => panic!("unknown kind {kind}"),
                }
            };
        }
        go! {
            "list" => List<El, RcK>, List<El, ArcK>, List<El, ArcTK>, List<El, CountK>;
            "stack" => Stack<El, RcK>, Stack<El, ArcK>, Stack<El, ArcTK>, Stack<El, CountK>;
            "queue" => Queue<El, RcK>, Queue<El, ArcK>, Queue<El, ArcTK>, Queue<El, CountK>;
            "vector" => Vector<El, RcK>, Vector<El, ArcK>, Vector<El, ArcTK>, Vector<El, CountK>;
            "hmap" => HashTrieMap<El, El, RcK, TB>, HashTrieMap<El, El, ArcK, TB>,
                HashTrieMap<El, El, ArcTK, TB>, HashTrieMap<El, El, CountK, TB>;
            "tmap" => RedBlackTreeMap<El, El, RcK>, RedBlackTreeMap<El, El, ArcK>,
                RedBlackTreeMap<El, El, ArcTK>, RedBlackTreeMap<El, El, CountK>;
            "hset" => HashTrieSet<El, RcK, TB>, HashTrieSet<El, ArcK, TB>,
                HashTrieSet<El, ArcTK, TB>, HashTrieSet<El, CountK, TB>;
            "tset" => RedBlackTreeSet<El, RcK>, RedBlackTreeSet<El, ArcK>,
                RedBlackTreeSet<El, ArcTK>, RedBlackTreeSet<El, CountK>;
        }
    }
}
