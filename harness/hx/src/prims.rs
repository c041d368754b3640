//! Direct use of the runtime library: built-in types and arrays of them.
use crate::glue::Glue;
use crate::json::J;
use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use zserio::ztype::array_traits::array_trait::ArrayTrait;
use zserio::ztype::array_traits::*;
use zserio::ztype::*;

type R<T> = Result<T, String>;
fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> R<T> {
    r.map_err(|x| x.to_string())
}
fn b<T: Glue>(v: &J) -> R<T> {
    T::build(v).map_err(|x| format!("BUILD {x}"))
}

pub fn width(t: &J) -> u8 {
    t.at("n").int() as u8
}
fn m(t: &J) -> i64 {
    t.at("m").int()
}

pub fn write(w: &mut BitWriter, t: &J, v: &J) -> R<()> {
    match t.at("p").str() {
        "uint" => match (width(t), t.at("fn").truth()) {
            (8, true) => e(write_uint8(w, b(v)?)),
            (16, true) => e(write_uint16(w, b(v)?)),
            (32, true) => e(write_uint32(w, b(v)?)),
            (64, true) => e(write_uint64(w, b(v)?)),
            (n, _) => e(write_unsigned_bits(w, b(v)?, n)),
        },
        "sint" => match (width(t), t.at("fn").truth()) {
            (8, true) => e(write_int8(w, b(v)?)),
            (16, true) => e(write_int16(w, b(v)?)),
            (32, true) => e(write_int32(w, b(v)?)),
            (64, true) => e(write_int64(w, b(v)?)),
            (n, _) => e(write_signed_bits(w, b(v)?, n)),
        },
        "varu" => match m(t) {
            2 => e(write_varuint16(w, b(v)?)),
            4 => e(write_varuint32(w, b(v)?)),
            8 => e(write_varuint64(w, b(v)?)),
            _ => e(write_varuint(w, b(v)?)),
        },
        "vars" => match m(t) {
            2 => e(write_varint16(w, b(v)?)),
            4 => e(write_varint32(w, b(v)?)),
            8 => e(write_varint64(w, b(v)?)),
            _ => e(write_varint(w, b(v)?)),
        },
        "varsize" => e(write_varsize(w, b(v)?)),
        "bool" => e(w.write_bool(b(v)?)),
        "f16" => e(write_float16(w, b(v)?)),
        "f32" => e(write_float32(w, b(v)?)),
        "f64" => e(write_float64(w, b(v)?)),
        "str" => e(write_string(w, &b::<String>(v)?)),
        "bytes" => e(write_bytes_type(w, &b(v)?)),
        "extern" => e(write_extern_type(w, &b(v)?)),
        _ => Err("BUILD type".into()),
    }
}

pub fn size(t: &J, v: &J) -> R<u64> {
    Ok(match t.at("p").str() {
        "varu" => (match m(t) {
            2 => e(varuint16_bitsize(b(v)?)),
            4 => e(varuint32_bitsize(b(v)?)),
            8 => e(varuint64_bitsize(b(v)?)),
            _ => e(varuint_bitsize(b(v)?)),
        })? as u64,
        "vars" => (match m(t) {
            2 => e(varint16_bitsize(b(v)?)),
            4 => e(varint32_bitsize(b(v)?)),
            8 => e(varint64_bitsize(b(v)?)),
            _ => e(varint_bitsize(b(v)?)),
        })? as u64,
        "varsize" => e(varsize_bitsize(b(v)?))? as u64,
        "str" => e(bitsize_string(&b::<String>(v)?))?,
        "bytes" => e(bitsize_of_bytes(&b(v)?))?,
        "extern" => e(bitsize_of_extern(&b(v)?))?,
        "uint" | "sint" => width(t) as u64,
        "bool" => 1,
        "f16" => 16,
        "f32" => 32,
        "f64" => 64,
        _ => return Err("BUILD type".into()),
    })
}

pub fn read(r: &mut BitReader, t: &J) -> R<J> {
    fn d<T: Glue, E: std::fmt::Display>(x: Result<T, E>) -> R<J> {
        x.map(|v| v.dump()).map_err(|x| x.to_string())
    }
    match t.at("p").str() {
        "uint" => match (width(t), t.at("fn").truth()) {
            (8, true) => d(read_uint8(r)),
            (16, true) => d(read_uint16(r)),
            (32, true) => d(read_uint32(r)),
            (64, true) => d(read_uint64(r)),
            (n, _) => d(read_unsigned_bits(r, n)),
        },
        "sint" => match (width(t), t.at("fn").truth()) {
            (8, true) => d(read_int8(r)),
            (16, true) => d(read_int16(r)),
            (32, true) => d(read_int32(r)),
            (64, true) => d(read_int64(r)),
            (n, _) => d(read_signed_bits(r, n)),
        },
        "varu" => match m(t) {
            2 => d(read_varuint16(r)),
            4 => d(read_varuint32(r)),
            8 => d(read_varuint64(r)),
            _ => d(read_varuint(r)),
        },
        "vars" => match m(t) {
            2 => d(read_varint16(r)),
            4 => d(read_varint32(r)),
            8 => d(read_varint64(r)),
            _ => d(read_varint(r)),
        },
        "varsize" => d(read_varsize(r)),
        "bool" => d(r.read_bool()),
        "f16" => d(read_float16(r)),
        "f32" => d(read_float32(r)),
        "f64" => d(read_float64(r)),
        "str" => d(read_string(r)),
        "bytes" => d(read_bytes_type(r)),
        "extern" => d(read_extern_type(r)),
        _ => Err("BUILD type".into()),
    }
}

/// an array job: [packed, fixed, off]
pub struct Job<'a, 'b> {
    pub packed: bool,
    pub fixed: Option<usize>,
    pub off: bool,
    pub what: What<'a, 'b>,
}
pub enum What<'a, 'b> {
    Write(&'a mut BitWriter, &'a J),
    Size(&'a J, u64),
    Read(&'a mut BitReader<'b>, &'a J),
    /// one element at a time, as generated code does for parameterised elements
    ReadOne(&'a mut BitReader<'b>),
}

fn run<T: Glue + Default>(tr: Box<dyn ArrayTrait<T>>, j: Job) -> R<J> {
    let mut a = Array { array_trait: tr, is_packed: j.packed, fixed_size: j.fixed };
    let offs: Vec<u32> = vec![];
    let off = if j.off { Some(&offs) } else { None };
    match j.what {
        What::Write(w, vs) => e(a.zserio_write(w, &b::<Vec<T>>(vs)?, off)).map(|_| J::Null),
        What::Size(vs, pos) => {
            let xs = b::<Vec<T>>(vs)?;
            let n = e(a.zserio_bitsize(&xs, off, pos))?;
            if a.is_packed {
                let p = e(a.zserio_bitsize_packed(&xs, off, pos))?;
                if p != n {
                    return Err(format!("zserio_bitsize says {n}, zserio_bitsize_packed says {p}"));
                }
            }
            Ok(J::Int(n as i64))
        }
        What::Read(r, before) => {
            let n = e(a.zserio_read_array_length(r))?;
            let mut xs = b::<Vec<T>>(before)?;
            e(a.zserio_read(r, &mut xs, n, off))?;
            Ok(xs.dump())
        }
        What::ReadOne(r) => {
            let n = e(a.zserio_read_array_length(r))?;
            let mut xs: Vec<T> = vec![];
            let mut cx = a.array_trait.create_context();
            for i in 0..n {
                let mut x = T::default();
                e(a.read_one_element(r, &mut cx, &mut x, i, off))?;
                xs.push(x);
            }
            Ok(xs.dump())
        }
    }
}

pub fn array(t: &J, j: Job) -> R<J> {
    let n = width(t);
    // "as": the Rust element type to use for a bit field, if wider than needed
    let w = match t.get("as") {
        Some(x) => x.int() as u8,
        None => n,
    };
    match t.at("p").str() {
        "uint" => {
            let num_bits = n;
            if w <= 8 {
                run::<u8>(Box::new(UnsignedBitFieldArrayTrait { num_bits }), j)
            } else if w <= 16 {
                run::<u16>(Box::new(UnsignedBitFieldArrayTrait { num_bits }), j)
            } else if w <= 32 {
                run::<u32>(Box::new(UnsignedBitFieldArrayTrait { num_bits }), j)
            } else {
                run::<u64>(Box::new(UnsignedBitFieldArrayTrait { num_bits }), j)
            }
        }
        "sint" => {
            let num_bits = n;
            if w <= 8 {
                run::<i8>(Box::new(BitFieldArrayTrait { num_bits }), j)
            } else if w <= 16 {
                run::<i16>(Box::new(BitFieldArrayTrait { num_bits }), j)
            } else if w <= 32 {
                run::<i32>(Box::new(BitFieldArrayTrait { num_bits }), j)
            } else {
                run::<i64>(Box::new(BitFieldArrayTrait { num_bits }), j)
            }
        }
        "varu" => match m(t) {
            2 => run::<u16>(Box::new(VarUint16ArrayTrait {}), j),
            4 => run::<u32>(Box::new(VarUint32ArrayTrait {}), j),
            8 => run::<u64>(Box::new(VarUint64ArrayTrait {}), j),
            _ => run::<u64>(Box::new(VarUintArrayTrait {}), j),
        },
        "vars" => match m(t) {
            2 => run::<i16>(Box::new(VarInt16ArrayTrait {}), j),
            4 => run::<i32>(Box::new(VarInt32ArrayTrait {}), j),
            8 => run::<i64>(Box::new(VarInt64ArrayTrait {}), j),
            _ => run::<i64>(Box::new(VarIntArrayTrait {}), j),
        },
        "varsize" => run::<u32>(Box::new(VarSizeArrayTrait {}), j),
        "bool" => run::<bool>(Box::new(BooleanArrayTrait {}), j),
        "f16" => run::<f32>(Box::new(Float16ArrayTrait {}), j),
        "f32" => run::<f32>(Box::new(Float32ArrayTrait {}), j),
        "f64" => run::<f64>(Box::new(Float64ArrayTrait {}), j),
        "str" => run::<String>(Box::new(StringArrayTrait {}), j),
        "bytes" => run::<BytesType>(Box::new(ByteBufferArrayTrait {}), j),
        "extern" => run::<ExternType>(Box::new(BitBufferArrayTrait {}), j),
        _ => Err("BUILD type".into()),
    }
}

/// the smallest and the largest value of a type, as the runtime states them
pub fn limits(t: &J) -> Option<(J, J)> {
    use zserio::ztype::*;
    let n = |k: &str| t.get(k).map_or(0, |v| v.int());
    macro_rules! lim {
        ($lo:ident, $hi:ident) => {
            Some(($lo.dump(), $hi.dump()))
        };
    }
    match (t.at("p").str(), n("n"), n("m")) {
        ("uint", 8, _) => lim!(MIN_UINT8, MAX_UINT8),
        ("uint", 16, _) => lim!(MIN_UINT16, MAX_UINT16),
        ("uint", 32, _) => lim!(MIN_UINT32, MAX_UINT32),
        ("uint", 64, _) => lim!(MIN_UINT64, MAX_UINT64),
        ("sint", 8, _) => lim!(MIN_INT8, MAX_INT8),
        ("sint", 16, _) => lim!(MIN_INT16, MAX_INT16),
        ("sint", 32, _) => lim!(MIN_INT32, MAX_INT32),
        ("sint", 64, _) => lim!(MIN_INT64, MAX_INT64),
        ("varu", _, 2) => lim!(MIN_VARUINT16, MAX_VARUINT16),
        ("varu", _, 4) => lim!(MIN_VARUINT32, MAX_VARUINT32),
        ("varu", _, 8) => lim!(MIN_VARUINT64, MAX_VARUINT64),
        ("varu", _, 9) => lim!(MIN_VARUINT, MAX_VARUINT),
        ("vars", _, 2) => lim!(MIN_VARINT16, MAX_VARINT16),
        ("vars", _, 4) => lim!(MIN_VARINT32, MAX_VARINT32),
        ("vars", _, 8) => lim!(MIN_VARINT64, MAX_VARINT64),
        ("vars", _, 9) => lim!(MIN_VARINT, MAX_VARINT),
        ("varsize", _, _) => lim!(MIN_VARSIZE, MAX_VARSIZE),
        _ => None,
    }
}
