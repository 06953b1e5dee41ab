//! Cases that need the optional features: serialization and parallel iteration.
use crate::cases::*;
use crate::ds::*;
use crate::instr::*;
use crate::log::*;
use archery::{ArcK, ArcTK, RcK};
use rayon::iter::plumbing::{Consumer, Folder, Reducer, UnindexedConsumer};
use rayon::iter::{IntoParallelIterator, ParallelIterator};
use rpds::*;
use serde::de::value::Error as VErr;
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

// ------------------------------------------------------------------------------- a recording format

/// What was serialized: the shape, the announced length, the items.
#[derive(Default, Debug)]
pub struct Tok {
    shape: &'static str,
    len: i64,
    pub items: Vec<i64>,
    pub w: usize,
}
impl Tok {
    fn json(&self) -> String {
        if self.w == 2 {
            J::arr(self.items.chunks(2).map(J::ints))
        } else {
            J::ints(&self.items)
        }
    }
}
pub struct TokSer;
macro_rules! no {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, VErr> {
        Err(serde::ser::Error::custom("unexpected shape"))
    })* };
}
use serde::ser::Error as _;
impl Serializer for TokSer {
    type Ok = Tok;
    type Error = VErr;
    type SerializeSeq = TokC;
    type SerializeTuple = Impossible<Tok, VErr>;
    type SerializeTupleStruct = Impossible<Tok, VErr>;
    type SerializeTupleVariant = Impossible<Tok, VErr>;
    type SerializeMap = TokC;
    type SerializeStruct = Impossible<Tok, VErr>;
    type SerializeStructVariant = Impossible<Tok, VErr>;
    fn serialize_i64(self, v: i64) -> Result<Tok, VErr> {
        Ok(Tok { shape: "int", len: 1, items: vec![v], w: 1 })
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<TokC, VErr> {
        Ok(TokC(Tok { shape: "seq", len: len.map_or(-1, |x| x as i64), items: vec![], w: 1 }))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<TokC, VErr> {
        Ok(TokC(Tok { shape: "map", len: len.map_or(-1, |x| x as i64), items: vec![], w: 2 }))
    }
    no! {
        serialize_bool(bool) -> Tok;
        serialize_i8(i8) -> Tok;
        serialize_i16(i16) -> Tok;
        serialize_i32(i32) -> Tok;
        serialize_u8(u8) -> Tok;
        serialize_u16(u16) -> Tok;
        serialize_u32(u32) -> Tok;
        serialize_u64(u64) -> Tok;
        serialize_f32(f32) -> Tok;
        serialize_f64(f64) -> Tok;
        serialize_char(char) -> Tok;
        serialize_str(&str) -> Tok;
        serialize_bytes(&[u8]) -> Tok;
        serialize_none() -> Tok;
        serialize_unit() -> Tok;
        serialize_unit_struct(&'static str) -> Tok;
        serialize_unit_variant(&'static str, u32, &'static str) -> Tok;
        serialize_tuple(usize) -> Impossible<Tok, VErr>;
        serialize_tuple_struct(&'static str, usize) -> Impossible<Tok, VErr>;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Impossible<Tok, VErr>;
        serialize_struct(&'static str, usize) -> Impossible<Tok, VErr>;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Impossible<Tok, VErr>;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Tok, VErr> {
        Err(VErr::custom("unexpected shape"))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        v: &T,
    ) -> Result<Tok, VErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<Tok, VErr> {
        Err(VErr::custom("unexpected shape"))
    }
}
pub struct TokC(Tok);
impl TokC {
    fn add<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), VErr> {
        let t = v.serialize(TokSer)?;
        self.0.items.extend(t.items);
        Ok(())
    }
}
impl SerializeSeq for TokC {
    type Ok = Tok;
    type Error = VErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), VErr> {
        self.add(v)
    }
    fn end(self) -> Result<Tok, VErr> {
        Ok(self.0)
    }
}
impl SerializeMap for TokC {
    type Ok = Tok;
    type Error = VErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), VErr> {
        self.add(v)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), VErr> {
        self.add(v)
    }
    fn end(self) -> Result<Tok, VErr> {
        Ok(self.0)
    }
}

/// Gives out codes as a sequence or a map, with a chosen quality of length hint, breaking off with an
/// error after `err` numbers if that is not negative.
#[derive(Clone)]
pub struct TokDe {
    pub codes: Vec<i64>,
    pub w: usize,
    pub hint: u8,
    pub err: i64,
    pub at: usize,
}
impl TokDe {
    fn left(&self) -> Option<usize> {
        let n = (self.codes.len() - self.at) / self.w;
        match self.hint {
            0 => Some(n),
            1 => None,
            2 => Some(0),
            3 => Some(usize::MAX),
            4 => Some(n / 2),
            5 => Some(usize::MAX / 64),
            _ => Some(n + 9),
        }
    }
    fn one<'de, T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, VErr> {
        if self.err >= 0 && self.at as i64 == self.err {
            return Err(serde::de::Error::custom("broken input"));
        }
        match self.codes.get(self.at) {
            None => Ok(None),
            Some(c) => {
                self.at += 1;
                use serde::de::IntoDeserializer;
                let d: serde::de::value::I64Deserializer<VErr> = (*c).into_deserializer();
                t.deserialize(d).map(Some)
            }
        }
    }
}
impl<'de> Deserializer<'de> for TokDe {
    type Error = VErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> {
        if self.w == 2 { v.visit_map(self) } else { v.visit_seq(self) }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        v: V,
    ) -> Result<V::Value, VErr> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> SeqAccess<'de> for TokDe {
    type Error = VErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(
        &mut self,
        t: T,
    ) -> Result<Option<T::Value>, VErr> {
        self.one(t)
    }
    fn size_hint(&self) -> Option<usize> {
        self.left()
    }
}
impl<'de> MapAccess<'de> for TokDe {
    type Error = VErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, VErr> {
        self.one(t)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<T::Value, VErr> {
        self.one(t)?.ok_or_else(|| serde::de::Error::custom("value is missing"))
    }
    fn size_hint(&self) -> Option<usize> {
        self.left()
    }
}

pub fn deser<D: for<'a> Deserialize<'a>>(codes: &[i64], hint: u8, err: i64, map: bool) -> Option<D> {
    D::deserialize(TokDe { codes: codes.to_vec(), w: map as usize + 1, hint, err, at: 0 }).ok()
}

pub trait Full: Ds + Serialize + for<'a> Deserialize<'a> + PartialEq {}
impl<T: Ds + Serialize + for<'a> Deserialize<'a> + PartialEq> Full for T {}

fn width<D: Ds>() -> usize {
    if D::KIND.ends_with("map") { 2 } else { 1 }
}
/// What is serialized, with the announced length, and what comes back.
pub fn round<D: Full>(d: &D) -> Option<[(i64, Vec<(i64, i64)>); 2]> {
    guard(|| {
        let t = d.serialize(TokSer).ok()?;
        let items = t.items.chunks(t.w.max(1)).map(|c| (c[0], c.get(1).copied().unwrap_or(0))).collect();
        let b =
            D::deserialize(TokDe { codes: t.items, w: t.w, hint: 0, err: -1, at: 0 }).ok()?;
        Some([(t.len, items), (b.size() as i64, b.flat())])
    })?
}
fn ser<D: Full>(log: &mut Log, rng: &mut Rng) {
    let g = Gen { classes: *rng.pick(&[2, 6, 20]), nan: 0 };
    let mut d = D::make(&cfg(rng));
    let m = *rng.pick(&[0, 3, 10, 60]);
    let n = rng.int(0, m);
    let h = history(rng, &g, &mut d, n);
    log.about(&format!("serialize {} {h}", D::KIND));
    let named = !D::KIND.is_empty();
    let r = guard(|| {
        let t = d.serialize(TokSer).map_err(|e| e.to_string())?;
        let back = D::deserialize(TokDe {
            codes: t.items.clone(),
            w: t.w,
            hint: 0,
            err: -1,
            at: 0,
        })
        .map_err(|e| e.to_string())?;
        let eq = back == d;
        // The same through a text format.
        let (eq2, back2) = if t.w == 1 {
            let s = serde_json::to_string(&d).map_err(|e| e.to_string())?;
            let b: D = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            (b == d, b.content())
        } else {
            (true, back.content())
        };
        let same = match D::KIND {
            "hmap" | "hset" => true,
            _ => back2 == back.content(),
        };
        Ok::<_, String>((t, eq && eq2 && same, back.content()))
    });
    let (t, eq, back) = match r {
        Some(Ok(x)) => x,
        _ => (Tok::default(), false, "[]".into()),
    };
    log.put(
        Ev::new("ser")
            .s("k", D::KIND)
            .raw("h", &h)
            .s("shape", t.shape)
            .i("len", t.len)
            .raw("named", if named { "true" } else { "false" })
            .raw("o", &t.json())
            .raw("back", &back)
            .i("eq", eq as i64),
    );
}
fn de<D: Full>(log: &mut Log, rng: &mut Rng) {
    let g = Gen { classes: *rng.pick(&[2, 6, 20]), nan: 0 };
    let m = *rng.pick(&[0, 1, 5, 12, 60]);
    let n = rng.int(0, m);
    let mut codes = g.items::<D>(rng, n);
    let mut w = width::<D>();
    let mut shape = true;
    if rng.pct(4) {
        w = 3 - w;
        shape = false;
        if w == 2 && codes.len() % 2 == 1 {
            codes.pop();
        }
    }
    let err = if rng.pct(25) { rng.int(0, codes.len() as i64) } else { -1 };
    let t = TokDe { codes: codes.clone(), w, hint: rng.below(7) as u8, err, at: 0 };
    log.about(&format!("deserialize {} hint {} err {err} {codes:?}", D::KIND, t.hint));
    let hint = t.hint;
    let text = shape && w == 1 && err < 0 && rng.pct(20);
    let r = guard(|| {
        if text {
            serde_json::from_str::<D>(&J::ints(&codes)).ok()
        } else {
            D::deserialize(t).ok()
        }
        .map(|d| (d.content(), d.size() as i64))
    });
    let (ok, o, n) = match r {
        None => (PANIC, "[]".into(), 0),
        Some(None) => (0, "[]".into(), 0),
        Some(Some((o, n))) => (1, o, n),
    };
    log.put(
        Ev::new("de")
            .s("k", D::KIND)
            .v("a", &codes)
            .i("hint", hint as i64)
            .i("err", err)
            .raw("shape", if shape { "true" } else { "false" })
            .i("ok", ok)
            .raw("o", &o)
            .i("n", n),
    );
}
pub fn serde_of(log: &mut Log, rng: &mut Rng, kind: &str, n: usize) {
    fn both<D: Full>(log: &mut Log, rng: &mut Rng) {
        if rng.pct(50) { ser::<D>(log, rng) } else { de::<D>(log, rng) }
    }
    for _ in 0..n {
        macro_rules! go {
            ($t:ident [$($e:ty),*] $($h:ty)?) => {
                match rng.below(4) {
                    0 => both::<$t<$($e,)* RcK $(,$h)?>>(log, rng),
                    1 => both::<$t<$($e,)* ArcTK $(,$h)?>>(log, rng),
                    2 => both::<$t<$($e,)* ArcK $(,$h)?>>(log, rng),
                    _ => both::<$t<$($e,)* CountK $(,$h)?>>(log, rng),
                }
            };
        }
        crate::kinds!(kind, go);
    }
}

// ----------------------------------------------------------------------------- parallel iteration

/// A consumer that records what each piece got, and asks to stop after `stop` items in all (or in
/// the piece).
struct Rec<'a> {
    out: &'a Mutex<Vec<Vec<i64>>>,
    total: &'a AtomicUsize,
    stop: usize,
    piece: usize,
    splits: &'a AtomicUsize,
}
struct RecFolder<'a> {
    c: Rec<'a>,
    got: Vec<i64>,
}
impl Rec<'_> {
    fn done(&self, mine: usize) -> bool {
        self.total.load(SeqCst) >= self.stop || mine >= self.piece
    }
}
type KV<'a> = (&'a El, &'a El);
impl<'a, 'b> Consumer<KV<'b>> for Rec<'a> {
    type Folder = RecFolder<'a>;
    type Reducer = Nothing;
    type Result = ();
    fn split_at(self, _: usize) -> (Self, Self, Nothing) {
        let l = self.split_off_left();
        (l, self, Nothing)
    }
    fn into_folder(self) -> RecFolder<'a> {
        RecFolder { c: self, got: Vec::new() }
    }
    fn full(&self) -> bool {
        self.done(0)
    }
}
impl<'a, 'b> UnindexedConsumer<KV<'b>> for Rec<'a> {
    fn split_off_left(&self) -> Self {
        self.splits.fetch_add(1, SeqCst);
        Rec { ..*self }
    }
    fn to_reducer(&self) -> Nothing {
        Nothing
    }
}
impl<'a, 'b> Folder<KV<'b>> for RecFolder<'a> {
    type Result = ();
    fn consume(mut self, (k, v): KV<'b>) -> Self {
        self.c.total.fetch_add(1, SeqCst);
        self.got.push(k.c);
        self.got.push(v.c);
        self
    }
    fn complete(self) {
        self.c.out.lock().unwrap().push(self.got);
    }
    fn full(&self) -> bool {
        self.c.done(self.got.len() / 2)
    }
}
struct Nothing;
impl Reducer<()> for Nothing {
    fn reduce(self, _: (), _: ()) {}
}

fn par(log: &mut Log, rng: &mut Rng, pools: &[rayon::ThreadPool]) {
    let g = Gen { classes: *rng.pick(&[2, 4, 9, 30, 64]), nan: 0 };
    let mut d = HashTrieMapSync::<El, El, TB>::make(&cfg(rng));
    let m = *rng.pick(&[2, 5, 12, 30, 60, 60]);
    let n = rng.int(0, m);
    let h = history(rng, &g, &mut d, n);
    let pool = rng.pick(pools);
    let never = usize::MAX;
    let (stop, piece) = match rng.below(10) {
        0..6 => (never, never),
        6 | 7 => (rng.below(m as u64 + 1) as usize, never),
        8 => (never, rng.below(3) as usize),
        _ => (rng.below(m as u64 + 1) as usize, 1),
    };
    let early = stop != never || piece != never;
    let want = g.key(rng);
    log.about(&format!("par_iter {h}"));
    let out = Mutex::new(Vec::new());
    let total = AtomicUsize::new(0);
    let splits = AtomicUsize::new(0);
    let r = guard(|| {
        pool.install(|| {
            (&d).into_par_iter().drive_unindexed(Rec {
                out: &out,
                total: &total,
                stop,
                piece,
                splits: &splits,
            });
            let count = (&d).into_par_iter().count() as i64;
            let found =
                (&d).into_par_iter().find_any(|(k, _)| cls(k.c) == cls(want)).is_some() as i64;
            (count, found)
        })
    });
    let (count, found) = r.unwrap_or((PANIC, PANIC));
    let pieces = out.into_inner().unwrap();
    let stopped = early && total.load(SeqCst) >= stop.min(piece);
    log.put(
        Ev::new("par")
            .s("k", "hmap")
            .raw("h", &h)
            .raw("pieces", &J::arr(pieces.iter().map(|p| J::arr(p.chunks(2).map(J::ints)))))
            .raw("stopped", if stopped { "true" } else { "false" })
            .i("splits", splits.load(SeqCst) as i64)
            .i("threads", pool.current_num_threads() as i64)
            .i("count", count)
            .i("want", want)
            .i("found", found),
    );
}
/// What parallel iteration of many threads delivers, in any order.
pub fn par_flat(d: &HashTrieMapSync<El, El, TB>) -> (i64, Vec<(i64, i64)>) {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(8).build().unwrap();
    pool.install(|| {
        let v: Vec<(i64, i64)> = d.into_par_iter().map(|(k, v)| (k.c, v.c)).collect();
        (d.into_par_iter().count() as i64, v)
    })
}
pub fn pars(log: &mut Log, rng: &mut Rng, n: usize) {
    let pools: Vec<_> = [1, 2, 3, 4, 8, 16, 64]
        .iter()
        .map(|t| rayon::ThreadPoolBuilder::new().num_threads(*t).build().unwrap())
        .collect();
    for _ in 0..n {
        par(log, rng, &pools);
    }
}
