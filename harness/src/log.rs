//! The trace: one JSON object per public call, written when the call returns.
use std::fmt::Write as _;
use std::fs::File;
use std::io::Write as _;
use std::os::unix::fs::FileExt;

pub struct Log {
    f: File,
    cur: File,
    pub n: usize,
}
/// One JSON object under construction.
pub struct Ev(String);
impl Ev {
    pub fn new(op: &str) -> Ev {
        Ev(format!("{{\"op\":\"{op}\""))
    }
    pub fn s(mut self, k: &str, v: &str) -> Ev {
        write!(self.0, ",\"{k}\":{}", serde_json::to_string(v).unwrap()).unwrap();
        self
    }
    pub fn i(mut self, k: &str, v: i64) -> Ev {
        write!(self.0, ",\"{k}\":{v}").unwrap();
        self
    }
    pub fn v(mut self, k: &str, v: &[i64]) -> Ev {
        write!(self.0, ",\"{k}\":{}", J::ints(v)).unwrap();
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> Ev {
        write!(self.0, ",\"{k}\":{v}").unwrap();
        self
    }
}
pub struct J;
impl J {
    pub fn ints(v: &[i64]) -> String {
        let mut s = String::with_capacity(v.len() * 5 + 2);
        s.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            // TLC integers have 32 bits.
            write!(s, "{}", (*x).clamp(-2_000_000_000, 2_000_000_000)).unwrap();
        }
        s.push(']');
        s
    }
    pub fn arr<I: IntoIterator<Item = String>>(v: I) -> String {
        let mut s = String::from("[");
        for (i, x) in v.into_iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&x);
        }
        s.push(']');
        s
    }
}
impl Log {
    pub fn create(path: &str) -> Log {
        Log {
            f: File::create(path).expect("trace file"),
            cur: File::create(format!("{path}.cur")).expect("trace file"),
            n: 0,
        }
    }
    pub fn put(&mut self, e: Ev) {
        let mut s = e.0;
        s.push_str("}\n");
        self.f.write_all(s.as_bytes()).expect("trace write");
        self.n += 1;
    }
    /// Notes what is about to be called, so that a call that never returns is known.
    pub fn about(&mut self, what: &str) {
        let mut b = [b' '; 160];
        let n = what.len().min(158);
        b[..n].copy_from_slice(&what.as_bytes()[..n]);
        b[159] = b'\n';
        let _ = self.cur.write_all_at(&b, 0);
    }
}
