//! The replay harness: reads operations (JSON lines) from a file, performs each on the real code, and prints
//! one result line per operation.  A panic is a result; if the process dies the caller starts it again behind
//! the operation that killed it.
pub mod alloc;
pub mod glue;
pub mod json;
pub mod prims;

use bitreader::BitReader;
pub use glue::{set, Glue};
pub use json::J;
use rust_bitwriter::BitWriter;
use std::collections::BTreeMap;
use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use zserio::ztype::ZserioPackableObject;

/// the functions a schema defines on a type
pub trait Calls {
    fn call(&self, _name: &str) -> Option<J> {
        None
    }
}

pub trait AnyObj {
    fn load(&mut self, j: &J) -> Result<(), String>;
    fn put(&mut self, j: &J) -> Result<(), String>;
    fn write(&self, w: &mut BitWriter) -> Result<(), String>;
    fn read(&mut self, r: &mut BitReader) -> Result<(), String>;
    fn size(&self, pos: u64) -> Result<u64, String>;
    fn dump(&self) -> J;
    fn same(&self, o: &dyn AnyObj) -> bool;
    fn copy(&self) -> Box<dyn AnyObj>;
    fn any(&self) -> &dyn std::any::Any;
    fn to_bytes(&self) -> Result<Vec<u8>, String>;
    fn to_writer(&self, w: &mut dyn Write) -> Result<(), String>;
    fn from_bytes(&mut self, b: &[u8]) -> Result<(), String>;
    fn from_reader(&mut self, r: &mut dyn Read) -> Result<(), String>;
    fn from_file(&mut self, p: &str) -> Result<(), String>;
    fn external(&self) -> Result<J, String>;
    fn call(&self, f: &str) -> Option<J>;
}

pub struct Slot<T>(pub T);
fn e<T>(r: Result<T, zserio::ZserioError>) -> Result<T, String> {
    r.map_err(|x| x.to_string())
}

impl<T: ZserioPackableObject + Glue + Calls + Clone + PartialEq + 'static> AnyObj for Slot<T> {
    fn load(&mut self, j: &J) -> Result<(), String> {
        self.0 = T::build(j)?;
        Ok(())
    }
    fn put(&mut self, j: &J) -> Result<(), String> {
        self.load(j)
    }
    fn write(&self, w: &mut BitWriter) -> Result<(), String> {
        e(self.0.zserio_write(w))
    }
    fn read(&mut self, r: &mut BitReader) -> Result<(), String> {
        e(self.0.zserio_read(r))
    }
    fn size(&self, pos: u64) -> Result<u64, String> {
        e(self.0.zserio_bitsize(pos))
    }
    fn dump(&self) -> J {
        self.0.dump()
    }
    fn same(&self, o: &dyn AnyObj) -> bool {
        // not ==: NaN differs from itself
        o.any().downcast_ref::<Slot<T>>().is_some_and(|x| x.0.dump() == self.0.dump())
    }
    fn copy(&self) -> Box<dyn AnyObj> {
        Box::new(Slot(self.0.clone()))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn to_bytes(&self) -> Result<Vec<u8>, String> {
        e(zserio::to_bytes(&self.0))
    }
    fn to_writer(&self, w: &mut dyn Write) -> Result<(), String> {
        e(zserio::to_writer(w, &self.0))
    }
    fn from_bytes(&mut self, b: &[u8]) -> Result<(), String> {
        self.0 = e(zserio::from_bytes(b))?;
        Ok(())
    }
    fn from_reader(&mut self, r: &mut dyn Read) -> Result<(), String> {
        self.0 = e(zserio::from_reader(r))?;
        Ok(())
    }
    fn from_file(&mut self, p: &str) -> Result<(), String> {
        self.0 = e(zserio::from_file(p))?;
        Ok(())
    }
    fn external(&self) -> Result<J, String> {
        Ok(e(zserio::ztype::ExternType::from_object(&self.0))?.dump())
    }
    fn call(&self, f: &str) -> Option<J> {
        self.0.call(f)
    }
}

/// what the glue of one schema provides
pub trait Registry {
    fn make(&self, ty: &str) -> Option<Box<dyn AnyObj>>;
    fn constant(&self, _name: &str) -> Option<J> {
        None
    }
}
pub struct NoTypes;
impl Registry for NoTypes {
    fn make(&self, _: &str) -> Option<Box<dyn AnyObj>> {
        None
    }
}

fn ok(kv: Vec<(&str, J)>) -> J {
    let mut v = kv;
    v.push(("r", J::Str("ok".into())));
    J::obj(v)
}
fn fail(kind: &str, m: &str) -> J {
    let (k, m) = match m.strip_prefix("BUILD ") {
        Some(x) => ("build", x),
        None => (kind, m),
    };
    J::obj(vec![("r", J::Str(k.into())), ("e", J::Str(m.into()))])
}
fn bits_of(data: &[u8], from: u64, to: u64) -> J {
    J::Str((from..to).map(|i| if data[(i / 8) as usize] >> (7 - i % 8) & 1 == 1 { '1' } else { '0' }).collect())
}
fn guarded(f: impl FnOnce() -> J) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(j) => j,
        Err(x) => {
            let m = x
                .downcast_ref::<String>()
                .cloned()
                .or(x.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or("?".into());
            fail("panic", &m)
        }
    }
}
/// a writer that already holds pos one-bits
fn writer_at(pos: u64) -> BitWriter {
    let mut w = BitWriter::new();
    for _ in 0..pos {
        w.write_bool(true).unwrap();
    }
    w
}
fn finish(mut w: BitWriter, pos: u64) -> J {
    let n = w.bit_count() as u64;
    w.close().unwrap();
    let d = w.data();
    if (0..pos).any(|i| d[(i / 8) as usize] >> (7 - i % 8) & 1 == 0) {
        return fail("prefix", "bits before the start position changed");
    }
    ok(vec![("n", J::Int((n - pos) as i64)), ("bits", bits_of(d, pos, n)), ("len", J::Int(d.len() as i64))])
}
fn num(r: Result<u64, String>) -> J {
    match r {
        Ok(n) => J::Int(n as i64),
        Err(m) => fail("err", &m),
    }
}

fn op_enc(reg: &dyn Registry, op: &J) -> J {
    let pos = op.at("pos").int() as u64;
    let Some(mut o) = reg.make(op.at("ty").str()) else { return fail("build", "no such type") };
    if let Err(m) = o.load(op.at("v")) {
        return fail("build", &m);
    }
    let before = o.copy();
    let enc = guarded(|| {
        let mut w = writer_at(pos);
        match o.write(&mut w) {
            Ok(()) => finish(w, pos),
            Err(m) => fail("err", &m),
        }
    });
    let sz = guarded(|| num(o.size(pos)));
    let mut res = vec![("enc", enc), ("sz", sz)];
    if !o.same(before.as_ref()) {
        res.push(("changed", J::Bool(true)));
    }
    ok(res)
}

fn op_dec(reg: &dyn Registry, op: &J) -> J {
    let pos = op.at("pos").int() as u64;
    let Some(mut o) = reg.make(op.at("ty").str()) else { return fail("build", "no such type") };
    if let Some(v) = op.get("before") {
        if let Err(m) = o.load(v) {
            return fail("build", &m);
        }
    } else if let Some(v) = op.get("ps") {
        let mut m = BTreeMap::new();
        m.insert("$".to_string(), v.clone());
        if let Err(m) = o.load(&J::Obj(m)) {
            return fail("build", &m);
        }
    }
    let chunk = zserio::get_array_alloc_chunk();
    if let Some(c) = op.get("chunk") {
        zserio::set_array_alloc_chunk(c.int() as usize);
    }
    let bytes = op.at("b").bytes();
    let mark = alloc::mark();
    let res = guarded(|| {
        let mut r = BitReader::new(&bytes);
        r.skip(pos).unwrap();
        match o.read(&mut r) {
            Ok(()) => {
                let p = alloc::peak(mark);
                ok(vec![("n", J::Int((r.position() - pos) as i64)), ("v", o.dump()), ("peak", J::Int(p as i64))])
            }
            Err(m) => {
                let p = alloc::peak(mark);
                let mut f = fail("err", &m);
                if let J::Obj(x) = &mut f {
                    x.insert("peak".into(), J::Int(p as i64));
                }
                f
            }
        }
    });
    zserio::set_array_alloc_chunk(chunk);
    // canonical bytes again?
    let mut out = vec![("dec", res)];
    if op.at("again").truth() && out[0].1.at("r").str() == "ok" {
        out.push((
            "enc",
            guarded(|| {
                let mut w = writer_at(pos);
                match o.write(&mut w) {
                    Ok(()) => finish(w, pos),
                    Err(m) => fail("err", &m),
                }
            }),
        ));
        out.push(("sz", guarded(|| num(o.size(pos)))));
    }
    ok(out)
}

fn op_prim(op: &J) -> J {
    let pos = op.get("pos").map_or(0, |p| p.int() as u64);
    let t = op.at("t");
    match op.at("op").str() {
        "penc" => {
            let enc = guarded(|| {
                let mut w = writer_at(pos);
                match prims::write(&mut w, t, op.at("v")) {
                    Ok(()) => finish(w, pos),
                    Err(m) => fail("err", &m),
                }
            });
            let sz = guarded(|| num(prims::size(t, op.at("v"))));
            ok(vec![("enc", enc), ("sz", sz)])
        }
        "pdec" => {
            let bytes = op.at("b").bytes();
            let mark = alloc::mark();
            guarded(|| {
                let mut r = BitReader::new(&bytes);
                r.skip(pos).unwrap();
                match prims::read(&mut r, t) {
                    Ok(v) => ok(vec![
                        ("n", J::Int((r.position() - pos) as i64)),
                        ("v", v),
                        ("peak", J::Int(alloc::peak(mark) as i64)),
                    ]),
                    Err(m) => fail("err", &m),
                }
            })
        }
        "lim" => match prims::limits(t) {
            Some((lo, hi)) => ok(vec![("lo", lo), ("hi", hi)]),
            None => fail("build", "no such limits"),
        },
        "aenc" => {
            let enc = guarded(|| {
                let mut w = writer_at(pos);
                match prims::array(t, job(op, prims::What::Write(&mut w, op.at("v")))) {
                    Ok(_) => finish(w, pos),
                    Err(m) => fail("err", &m),
                }
            });
            let sz = guarded(|| match prims::array(t, job(op, prims::What::Size(op.at("v"), pos))) {
                Ok(n) => n,
                Err(m) => fail("err", &m),
            });
            ok(vec![("enc", enc), ("sz", sz)])
        }
        "adec" => {
            let bytes = op.at("b").bytes();
            let chunk = zserio::get_array_alloc_chunk();
            if let Some(c) = op.get("chunk") {
                zserio::set_array_alloc_chunk(c.int() as usize);
            }
            let before = op.get("before").cloned().unwrap_or(J::Arr(vec![]));
            let one = |single: bool| {
                let mark = alloc::mark();
                guarded(|| {
                    let mut r = BitReader::new(&bytes);
                    r.skip(pos).unwrap();
                    let what = if single { prims::What::ReadOne(&mut r) } else { prims::What::Read(&mut r, &before) };
                    match prims::array(t, job(op, what)) {
                        Ok(v) => ok(vec![
                            ("n", J::Int((r.position() - pos) as i64)),
                            ("v", v),
                            ("peak", J::Int(alloc::peak(mark) as i64)),
                        ]),
                        Err(m) => fail("err", &m),
                    }
                })
            };
            let res = ok(vec![("all", one(false)), ("one", one(true))]);
            zserio::set_array_alloc_chunk(chunk);
            res
        }
        x => fail("build", &format!("unknown operation {x}")),
    }
}
fn job<'a, 'b>(op: &J, what: prims::What<'a, 'b>) -> prims::Job<'a, 'b> {
    prims::Job { packed: op.at("packed").truth(), fixed: fixed(op), off: op.at("off").truth(), what }
}
fn fixed(op: &J) -> Option<usize> {
    match op.get("fixed") {
        Some(J::Int(n)) if *n >= 0 => Some(*n as usize),
        _ => None,
    }
}

/// a stream that hands data over in the given portions; -1: interrupted, -2: fails
struct Bumpy {
    data: Vec<u8>,
    at: usize,
    plan: Vec<i64>,
    step: usize,
}
impl Bumpy {
    fn portion(&mut self) -> std::io::Result<usize> {
        let p = if self.plan.is_empty() { i64::MAX } else { self.plan[self.step % self.plan.len()] };
        self.step += 1;
        match p {
            -1 => Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted")),
            -2 => Err(std::io::Error::other("injected failure")),
            n => Ok(n as usize),
        }
    }
}
impl Read for Bumpy {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.at == self.data.len() {
            // a failure planned beyond the data still happens
            if self.plan.get(self.step) == Some(&-2) {
                return Err(std::io::Error::other("injected failure"));
            }
            return Ok(0);
        }
        let n = self.portion()?.min(buf.len()).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl Write for Bumpy {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.portion()?.min(buf.len());
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn plan(op: &J) -> Vec<i64> {
    op.at("plan").arr().iter().map(|x| x.int()).collect()
}

/// A session: objects and streams that live across steps.
fn op_session(reg: &dyn Registry, op: &J) -> J {
    let mut objs: BTreeMap<i64, Box<dyn AnyObj>> = BTreeMap::new();
    let mut writers: BTreeMap<i64, BitWriter> = BTreeMap::new();
    let mut out = vec![];
    let tmp = std::env::var("HX_TMP").unwrap_or("/tmp".into());
    for (k, st) in op.at("steps").arr().iter().enumerate() {
        let s = st.at("s").int();
        let w = st.at("w").int();
        let res = guarded(|| match st.at("do").str() {
            "new" => match reg.make(st.at("ty").str()) {
                Some(x) => {
                    objs.insert(s, x);
                    ok(vec![])
                }
                None => fail("build", "no such type"),
            },
            "load" => match objs.get_mut(&s).unwrap().load(st.at("v")) {
                Ok(()) => ok(vec![]),
                Err(m) => fail("build", &m),
            },
            "dump" => ok(vec![("v", objs[&s].dump())]),
            "wnew" => {
                writers.insert(w, writer_at(st.at("pos").int() as u64));
                ok(vec![])
            }
            "write" => {
                let wr = writers.get_mut(&w).unwrap();
                let before = objs[&s].copy();
                let p0 = wr.bit_count() as u64;
                match objs[&s].write(wr) {
                    Ok(()) => {
                        let n = wr.bit_count() as u64;
                        ok(vec![("n", J::Int((n - p0) as i64)), ("same", J::Bool(before.same(objs[&s].as_ref())))])
                    }
                    Err(m) => fail("err", &m),
                }
            }
            "align" => match zserio::ztype::align_writer(writers.get_mut(&w).unwrap(), st.at("al").int() as u64) {
                Ok(()) => ok(vec![("n", J::Int(writers[&w].bit_count() as i64))]),
                Err(m) => fail("err", &m.to_string()),
            },
            "close" => {
                let wr = writers.get_mut(&w).unwrap();
                match wr.close() {
                    Ok(()) => ok(vec![("b", J::of_bytes(wr.data()))]),
                    Err(m) => fail("err", &m.to_string()),
                }
            }
            "size" => {
                let before = objs[&s].copy();
                let n = num(objs[&s].size(st.at("pos").int() as u64));
                ok(vec![("sz", n), ("same", J::Bool(before.same(objs[&s].as_ref())))])
            }
            "read" => {
                let bytes = st.at("b").bytes();
                let mut r = BitReader::new(&bytes);
                let pos = st.at("pos").int() as u64;
                r.skip(pos).unwrap();
                match objs.get_mut(&s).unwrap().read(&mut r) {
                    Ok(()) => ok(vec![("n", J::Int((r.position() - pos) as i64)), ("v", objs[&s].dump())]),
                    Err(m) => fail("err", &m),
                }
            }
            "tobytes" => match objs[&s].to_bytes() {
                Ok(b) => ok(vec![("b", J::of_bytes(&b))]),
                Err(m) => fail("err", &m),
            },
            "towriter" => {
                let mut b = Bumpy { data: vec![], at: 0, plan: plan(st), step: 0 };
                match objs[&s].to_writer(&mut b) {
                    Ok(()) => ok(vec![("b", J::of_bytes(&b.data))]),
                    Err(m) => fail("err", &m),
                }
            }
            "frombytes" => match objs.get_mut(&s).unwrap().from_bytes(&st.at("b").bytes()) {
                Ok(()) => ok(vec![("v", objs[&s].dump())]),
                Err(m) => fail("err", &m),
            },
            "fromreader" => {
                let mut b = Bumpy { data: st.at("b").bytes(), at: 0, plan: plan(st), step: 0 };
                match objs.get_mut(&s).unwrap().from_reader(&mut b) {
                    Ok(()) => ok(vec![("v", objs[&s].dump())]),
                    Err(m) => fail("err", &m),
                }
            }
            "fromfile" => {
                let p = format!("{}/hx_{}_{}", tmp, std::process::id(), k);
                if !st.at("missing").truth() {
                    std::fs::write(&p, st.at("b").bytes()).unwrap();
                }
                let r = objs.get_mut(&s).unwrap().from_file(&p);
                let _ = std::fs::remove_file(&p);
                match r {
                    Ok(()) => ok(vec![("v", objs[&s].dump())]),
                    Err(m) => fail("err", &m),
                }
            }
            "extern" => match objs[&s].external() {
                Ok(j) => ok(vec![("v", j)]),
                Err(m) => fail("err", &m),
            },
            "chunk" => {
                zserio::set_array_alloc_chunk(st.at("n").int() as usize);
                ok(vec![("n", J::Int(zserio::get_array_alloc_chunk() as i64))])
            }
            x => fail("build", &format!("unknown step {x}")),
        });
        out.push(res);
    }
    zserio::set_array_alloc_chunk(1000);
    ok(vec![("steps", J::Arr(out))])
}

fn perform(reg: &dyn Registry, op: &J) -> J {
    match op.at("op").str() {
        "enc" => op_enc(reg, op),
        "dec" => op_dec(reg, op),
        "fn" => {
            let Some(mut o) = reg.make(op.at("ty").str()) else { return fail("build", "no such type") };
            if let Err(m) = o.load(op.at("v")) {
                return fail("build", &m);
            }
            let fs: Vec<J> = op
                .at("fs")
                .arr()
                .iter()
                .map(|f| {
                    guarded(|| match o.call(f.str()) {
                        Some(v) => ok(vec![("v", v)]),
                        None => fail("build", "no such function"),
                    })
                })
                .collect();
            ok(vec![("fs", J::Arr(fs))])
        }
        "const" => match reg.constant(op.at("n").str()) {
            Some(v) => ok(vec![("v", v)]),
            None => fail("build", "no such constant"),
        },
        "numbits" => guarded(|| match u64::build(op.at("v")) {
            Ok(v) => ok(vec![("v", J::of_num(zserio::numbits(v) as i128)), ("w", J::of_num(zserio::bit_length(v) as i128))]),
            Err(m) => fail("build", &m),
        }),
        "session" => op_session(reg, op),
        _ => op_prim(op),
    }
}

/// one operation per line of the input; a case may hold several operations in "ops"
pub fn main(reg: &dyn Registry) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args.get(2).map(|s| s.parse().unwrap()).unwrap_or(0);
    let f = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let stdout = std::io::stdout();
    for (i, line) in f.lines().enumerate() {
        if i < skip {
            continue;
        }
        let line = line.unwrap();
        let res = match json::parse(&line) {
            Ok(c) => match c.get("ops") {
                Some(J::Arr(ops)) => J::Arr(ops.iter().map(|o| guarded(|| perform(reg, o))).collect()),
                _ => guarded(|| perform(reg, &c)),
            },
            Err(m) => fail("build", &format!("input: {m}")),
        };
        let mut o = stdout.lock();
        writeln!(o, "{res}").unwrap();
        o.flush().unwrap();
    }
}
