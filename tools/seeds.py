"""Planted bugs: each is an edit of original code that breaks one property, with a demonstration."""
RT = "crates/zserio/src/"
GN = "crates/zserio-rs-build/src/internal/"

PRE = '''
#![allow(dead_code, unused_imports)]
use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use zserio::ztype;
use zserio::ztype::ZserioPackableObject;
fn bits<T: ZserioPackableObject>(v: &T, pos: u8) -> (Vec<u8>, u64) {
    let mut w = BitWriter::new();
    for _ in 0..pos { w.write_bool(true).unwrap(); }
    v.zserio_write(&mut w).unwrap();
    let n = w.bit_count() as u64 - pos as u64;
    w.close().unwrap();
    (w.data().clone(), n)
}
fn rt<T: ZserioPackableObject + PartialEq + std::fmt::Debug>(v: &T) {
    let b = zserio::to_bytes(v).unwrap();
    let mut r = BitReader::new(&b);
    let mut x = T::default();
    x.zserio_read(&mut r).unwrap();
    assert_eq!(&x, v);
    let (_, n) = bits(v, 0);
    assert_eq!(r.position(), n);
}
'''

SEEDS = []
def seed(**k):
    SEEDS.append(k)

# ---------------------------------------------------------------- runtime

seed(id="c01-varint-last-byte", property="C01",
  edits=[(RT + "ztype/varint_decode.rs", "    for _ in 0..bit_length - 2 {", "    for _ in 0..(bit_length - 2).min(6) {")],
  needs="a varint of 9 bytes (magnitude of 56 bits or more) with more data after it",
  breaks="The loop over the middle bytes stops one byte early for the 9-byte type, so the value is read from 8 bytes.",
  main=PRE + '''
fn main() {
    for v in [1i64 << 62, -(1i64 << 60) + 77, i64::MAX, 5, -1] {
        let mut w = BitWriter::new();
        ztype::write_varint(&mut w, v).unwrap();
        w.close().unwrap();
        let d = w.data().clone();
        let mut r = BitReader::new(&d);
        assert_eq!(ztype::read_varint(&mut r).unwrap(), v);
        assert_eq!(r.position(), d.len() as u64 * 8);
    }
}
''')

seed(id="c01-extern-tail", property="C01",
  edits=[(RT + "ztype/extern_type.rs", "    let num_of_full_bytes = bit_size / 8;\n    let remaining_bits = (bit_size % 8) as u8;\n\n    let mut extern_bytes",
          "    let num_of_full_bytes = bit_size / 8;\n    let remaining_bits = (bit_size % 8) as u8;\n    if remaining_bits > 0 && reader_is_short(bit_reader, bit_size) {\n        return Ok(ExternType::default());\n    }\n\n    let mut extern_bytes"),
         (RT + "ztype/extern_type.rs", "/// Reads an zserio extern type from a bit stream.", "fn reader_is_short(bit_reader: &BitReader, bit_size: u32) -> bool {\n    bit_reader.remaining() <= bit_size as u64\n}\n\n/// Reads an zserio extern type from a bit stream.")],
  needs="an extern whose size is not a multiple of 8 bits, and whose last bit is the last bit of the data",
  breaks="An extern that ends exactly at the end of the data is read as an empty one.",
  main=PRE + '''
fn main() {
    // five bits before the extern, 8 bits of length, 11 bits of data: 24 bits
    let e = ztype::ExternType { bit_size: 11, data_blob: vec![0xab, 0xc0] };
    let mut w = BitWriter::new();
    for _ in 0..5 { w.write_bool(false).unwrap(); }
    ztype::write_extern_type(&mut w, &e).unwrap();
    w.close().unwrap();
    let d = w.data().clone();
    assert_eq!(d.len(), 3);
    let mut r = BitReader::new(&d);
    r.skip(5).unwrap();
    assert_eq!(ztype::read_extern_type(&mut r).unwrap(), e);
}
''')

seed(id="c02-varuint-top", property="C02",
  edits=[(RT + "ztype/varuint_bitsize.rs", "        if bytes == max_bytes {", "        if bytes == max_bytes && max < u64::MAX >> 8 {")],
  needs="a varuint of 2^63 or more (the upper half of the range of the 9-byte type)",
  breaks="The upper half of the varuint range is refused although the format represents it.",
  main=PRE + '''
fn main() {
    for v in [u64::MAX, 1u64 << 63, (1u64 << 63) - 1, 1u64 << 56] {
        assert_eq!(ztype::varuint_bitsize(v).unwrap(), 72);
        let mut w = BitWriter::new();
        ztype::write_varuint(&mut w, v).unwrap();
        w.close().unwrap();
        let d = w.data().clone();
        let mut r = BitReader::new(&d);
        assert_eq!(ztype::read_varuint(&mut r).unwrap(), v);
    }
}
''')

seed(id="c03-param-reserve", property="C03",
  edits=[(GN + "generator/decode.rs", '"{}.reserve({}_array_length.min(zserio::get_array_alloc_chunk()));",', '"{}.reserve({}_array_length);",')],
  needs="a declared length of up to 2^31-1 for an array of parameterised elements, without data behind it",
  breaks="Decoding reserves memory for the whole declared length before any element is read.",
  schema={"p.zs": "package p;\nstruct E(uint8 n) { bit<n> v; uint64 a[]; };\nstruct S { uint8 n; E(n) es[]; };\n"},
  main=PRE + '''
use demo::p::S;
fn main() {
    // n = 3, length 2^31-1, nothing behind it; the address space is limited to 4 GB
    let d = [3u8, 0x83, 0xff, 0xff, 0xff, 0xff];
    assert!(zserio::from_bytes::<S>(&d).is_err());
    println!("ok");
}
''')

seed(id="c04-const-size-offsets", property="C04",
  edits=[(RT + "ztype/array.rs", "self.array_trait.is_bitsizeof_constant() && index_offsets.is_none()", "self.array_trait.is_bitsizeof_constant() && end_position % 8 == 0")],
  needs="an array with indexed offsets whose elements have a constant size that is no multiple of 8 bits, starting on a byte boundary",
  breaks="The size computation leaves out the padding between the elements.",
  schema={"p.zs": "package p;\nstruct S { uint32 o[]; o[@index]: bit:5 v[]; };\n"},
  main=PRE + '''
use demo::p::S;
fn main() {
    let s = S { o: vec![1, 2, 3], v: vec![4, 5, 6] };
    for pos in 0..9u8 {
        let (_, n) = bits(&s, pos);
        assert_eq!(s.zserio_bitsize(pos as u64).unwrap(), n);
    }
}
''')

seed(id="c04-string-size", property="C04",
  edits=[(RT + "ztype/string_encode.rs", "    Ok(header_size + (s.len() * 8) as u64)", "    Ok(header_size + (s.chars().map(|c| if c.is_ascii() { 1 } else { c.len_utf16() * 2 }).sum::<usize>() * 8) as u64)")],
  needs="a string with characters whose UTF-8 form has three bytes",
  breaks="The computed size of such a string is too small, while the written bytes are right.",
  main=PRE + '''
fn main() {
    for s in ["", "a", "\\u{e9}", "\\u{4e16}", "x\\u{1f600}y\\u{20ac}"] {
        let mut w = BitWriter::new();
        ztype::write_string(&mut w, s).unwrap();
        assert_eq!(ztype::bitsize_string(s).unwrap(), w.bit_count() as u64);
    }
}
''')

seed(id="c06-packed-offset-read", property="C06",
  edits=[(RT + "ztype/array.rs", '''        align_array_element_reader(reader, index, index_offsets)?;
        if self.is_packed {
            self.array_trait
                .read_packed(packing_context, reader, item, index)?;''', '''        if self.is_packed && index > 0 {
            return self
                .array_trait
                .read_packed(packing_context, reader, item, index);
        }
        align_array_element_reader(reader, index, index_offsets)?;
        if self.is_packed {
            self.array_trait
                .read_packed(packing_context, reader, item, index)?;''')],
  needs="a packed array of parameterised elements with indexed offsets, at least two elements, sizes that are no multiple of 8",
  breaks="Reading skips the padding only before the first element.",
  schema={"p.zs": "package p;\nstruct E(uint8 k) { uint8 a; bit:3 b; bool c; };\nstruct S { uint8 k; uint32 o[]; o[@index]: packed E(k) es[]; };\n"},
  main=PRE + '''
use demo::p::{S, E};
fn main() {
    let e = |a, b, c| E { k: 7, a, b, c };
    rt(&S { k: 7, o: vec![0, 0, 0], es: vec![e(1, 2, true), e(9, 5, false), e(77, 1, true)] });
}
''')

seed(id="c07-tie", property="C07",
  edits=[(RT + "ztype/array_traits/delta_context.rs", "packed_bit_size_with_descriptor >= unpacked_bit_size_with_descriptor", "packed_bit_size_with_descriptor > unpacked_bit_size_with_descriptor")],
  needs="a sequence whose packed and plain forms have exactly the same size",
  breaks="On a tie the packed form is chosen; the format asks for the plain form.",
  schema={"p.zs": "package p;\nstruct S { packed bit:3 v[]; };\n"},
  main=PRE + '''
use demo::p::S;
fn main() {
    // plain: 1 + 3*3 = 10 bits; packed: 1 + 6 + 3 + 0 = 10 bits
    let (d, n) = bits(&S { v: vec![5, 5, 5] }, 0);
    assert_eq!(n, 8 + 10);
    assert_eq!(d, vec![3, 0b0101_1011, 0b0100_0000]);
}
''')

seed(id="c07-delta-base", property="C07",
  edits=[(RT + "ztype/array_traits/delta_context.rs", '''            if self.max_bit_number > MAX_BIT_NUMBER_LIMIT {
                    self.is_packed = false;
                }
            }
        }
        self.previous_element'''.replace("            if self", "                if self", 1) if False else '''                self.max_bit_number = max_bit_number;
                if self.max_bit_number > MAX_BIT_NUMBER_LIMIT {
                    self.is_packed = false;
                }
            }
            self.previous_element = array_trait.to_u64(element);''', '''                self.max_bit_number = max_bit_number;
                self.previous_element = array_trait.to_u64(element);
                if self.max_bit_number > MAX_BIT_NUMBER_LIMIT {
                    self.is_packed = false;
                }
            }''')],
  needs="a sequence with a large step followed by smaller steps in the same direction that add up to more than the width",
  breaks="The delta width is computed against the wrong predecessor: too wide, or the choice for packed is wrong.",
  schema={"p.zs": "package p;\nstruct S { packed uint32 v[]; };\n"},
  main=PRE + '''
use demo::p::S;
fn main() {
    // steps of 3, 2, 2, 2, 2, 2, 2: two bits and a sign
    let v = vec![0u32, 3, 5, 7, 9, 11, 13, 15];
    let (_, n) = bits(&S { v: v.clone() }, 0);
    assert_eq!(n, 8 + 1 + 6 + 32 + 7 * 3);
    rt(&S { v });
}
''')

seed(id="c08-union-context", property="C08",
  edits=[(GN + "generator/packed_contexts.rs", '''        if field_details.native_type.is_marshaler {
            fn_gen.line(format!(
                "{}::zserio_create_packing_context(&mut {});",''', '''        if field_details.native_type.is_marshaler && !field_details.field.borrow().is_optional {
            fn_gen.line(format!(
                "{}::zserio_create_packing_context(&mut {});",''')],
  needs="a packed array of structs with an optional compound field that has packable fields",
  breaks="The context of the nested compound is not created, so packing such an array crashes.",
  schema={"p.zs": "package p;\nstruct I { uint16 a; };\nstruct E { uint8 x; optional I i; };\nstruct S { packed E es[]; };\n"},
  main=PRE + '''
use demo::p::{S, E, I};
fn main() {
    rt(&S { es: vec![E { x: 1, i: None }, E { x: 2, i: Some(I { a: 5 }) }, E { x: 3, i: Some(I { a: 6 }) }] });
}
''')

seed(id="c09-align-mask", property="C09",
  edits=[(RT + "ztype/alignment.rs", "    let cur_alignment = reader.position() % u64_alignment_bits;", "    let cur_alignment = reader.position() & (u64_alignment_bits - 1);"),
         (RT + "ztype/alignment.rs", "    let cur_alignment = writer.bit_count() % u64_alignment_bits;", "    let cur_alignment = writer.bit_count() & (u64_alignment_bits - 1);"),
         (RT + "ztype/alignment.rs", "    let cur_alignment = bit_pos % u64_alignment_bits;", "    let cur_alignment = bit_pos & (u64_alignment_bits - 1);")],
  needs="an alignment that is not a power of two",
  breaks="Such a field does not start at a multiple of its alignment (writer, reader and size agree with each other).",
  schema={"p.zs": "package p;\nstruct S { bit:5 a; align(12): uint8 b; };\n"},
  main=PRE + '''
use demo::p::S;
fn main() {
    let (d, n) = bits(&S { a: 31, b: 0xff }, 0);
    assert_eq!(n, 20);
    assert_eq!(d, vec![0xf8, 0x0f, 0xf0]);
}
''')

seed(id="c09-offset-before-align", property="C09",
  edits=[(GN + "generator/bitsize.rs", '''            "end_position += ztype::align_bitsize(end_position, {});",
            field.alignment
        ));''', '''            "end_position += ztype::align_bitsize(end_position, {}).min(64);",
            field.alignment
        ));''')],
  needs="an alignment of more than 64 bits with more than 64 bits of padding",
  breaks="The size computation caps the padding.",
  schema={"p.zs": "package p;\nstruct S { bit:5 a; align(128): uint8 b; };\n"},
  main=PRE + '''
use demo::p::S;
fn main() {
    let s = S { a: 31, b: 0xff };
    for pos in [0u8, 3, 70] {
        let (_, n) = bits(&s, pos);
        assert_eq!(s.zserio_bitsize(pos as u64).unwrap(), n);
    }
}
''')

seed(id="c08-choice-index", property="C08",
  edits=[(GN + "generator/zchoice.rs", "            context_node_index += 1;\n", "            if field_details.is_packable {\n                context_node_index += 1;\n            }\n")],
  needs="a packed array of choices in which a member that cannot be packed comes before one that can",
  breaks="Members after it use the delta state of another member.",
  schema={"p.zs": "package p;\nchoice C(uint8 s) on s { case 1: string t; case 2: uint16 a; case 3: uint32 b; default: uint64 c; };\nstruct E { uint8 s; C(s) c; };\nstruct S { packed E es[]; };\n"},
  main=PRE + '''
use demo::p::{S, E, C};
fn main() {
    let a = |v: u16| E { s: 2, c: C { s: 2, a: v, ..Default::default() } };
    let b = |v: u32| E { s: 3, c: C { s: 3, b: v, ..Default::default() } };
    let t = |v: &str| E { s: 1, c: C { s: 1, t: v.into(), ..Default::default() } };
    rt(&S { es: vec![a(1), a(2), a(3), b(70000), t("x"), b(70001), a(4), a(5), a(6)] });
}
''')

seed(id="c11-index-ternary", property="C11",
  edits=[(GN + "generator/pass_parameters.rs", '''        if let Some(op3) = &current_exp.operand3 {
            expressions_to_check.push(op3);
        }
''', '''        if let Some(op3) = &current_exp.operand3 {
            // The branches of a conditional expression have the same shape.
            if current_exp.operand2.is_none() {
                expressions_to_check.push(op3);
            }
        }
''')],
  needs="an array argument with @index only in the last operand of a conditional expression",
  breaks="The index is not recognised, so the generated code does not compile.",
  schema={"p.zs": "package p;\nstruct E(uint8 k) { uint8 a if k > 0; };\nstruct S { bool f; E(f ? 1 : @index) es[]; };\n"},
  main=PRE + '''
use demo::p::{S, E};
fn main() {
    rt(&S { f: false, es: vec![E { k: 0, a: 0 }, E { k: 1, a: 6 }] });
    rt(&S { f: true, es: vec![E { k: 1, a: 3 }, E { k: 1, a: 6 }] });
}
''')

seed(id="c12-bitmask-negative", property="C12",
  edits=[(GN + "ast/zbitmask.rs", "                bitmask_value = expr_bitmask_value;", "                bitmask_value = expr_bitmask_value.max(bitmask_value);")],
  needs="a bitmask whose explicit value is smaller than the one that would follow implicitly (e.g. zero first, or a value below the previous one)",
  breaks="The explicit value is replaced.",
  schema={"p.zs": "package p;\nbitmask uint8 B { A = 4, Z = 2, Q };\nstruct S { B b; };\n"},
  main=PRE + '''
use demo::p::{S, B};
fn main() {
    let (d, _) = bits(&S { b: B::Z }, 0);
    assert_eq!(d, vec![2]);
}
''')

seed(id="c13-mod-negative", property="C13",
  edits=[(GN + "ast/expression.rs", None, None)],
  needs="", breaks="") if False else None

seed(id="c14-struct-before-field", property="C14",
  edits=[(GN + "compiler/symbol_scope.rs", "                    if let Some(symbol) = symbol_scope.get(name) {", "                    if let Some(symbol) = symbol_scope\n                        .get(name)\n                        .filter(|s| !matches!(s, Symbol::Parameter(_)) || !self.file_symbols.contains_key(name))\n                    {")],
  needs="a parameter that has the name of a declaration of the package",
  breaks="In the type's expressions the name denotes the package's declaration instead of the parameter.",
  schema={"p.zs": "package p;\nconst uint8 LIMIT = 3;\nstruct E(uint8 LIMIT) { uint8 a if LIMIT > 5; };\nstruct S { uint8 n; E(n) e; };\n"},
  main=PRE + '''
use demo::p::{S, E};
fn main() {
    let (_, n) = bits(&S { n: 9, e: E { limit: 9, a: 1 } }, 0);
    assert_eq!(n, 16);
}
''')

seed(id="c15-first-argument", property="C15",
  edits=[(GN + "compiler/template_instantiation.rs", '''    for template_arg in &type_reference.template_arguments {
        // The''', '''    for template_arg in type_reference.template_arguments.iter().take(3) {
        // The''')],
  needs="two instances of a template with four parameters that differ in the last argument only",
  breaks="The second instance is taken for the first.",
  schema={"p.zs": "package p;\nstruct T<A, B, C, D> { A a; B b; C c; D d; };\nstruct S { T<uint8, uint8, uint8, uint16> x; T<uint8, uint8, uint8, uint32> y; };\n"},
  main=PRE + '''
use demo::p::S;
fn main() {
    let (_, n) = bits(&S::default(), 0);
    assert_eq!(n, 24 + 16 + 24 + 32);
}
''')

seed(id="c16-unsorted", property="C16",
  edits=[(GN + "generator/package.rs", "    module_names.sort_unstable();", "    module_names.sort_unstable_by_key(|n| n.split('_').next().unwrap_or_default().to_string());")],
  needs="several declarations whose names share their first word (and the hash order of a run)",
  breaks="The order of such modules in mod.rs follows the hash order, which differs from run to run.",
  schema={"p.zs": "package p;\n" + "".join(f"struct Road{c} {{ uint8 a; }};\n" for c in "ABCDEFGH")},
  demo='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
for i in $(seq 12); do
    "$repo/target/debug/zserio-rs-build" -o "$w/o$i" "$here/schema" || exit 1
    diff -r "$w/o1" "$w/o$i" || exit 1
done
''')

seed(id="c17-write", property="C17",
  edits=[(RT + "lib.rs", "    Ok(out.write_all(writer.data())?)", "    let written = out.write(writer.data())?;\n    if written == 0 && !writer.data().is_empty() {\n        return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into());\n    }\n    Ok(out.flush()?)")],
  needs="an output stream that takes only part of the data per call",
  breaks="The rest of the data is dropped and success is reported.",
  schema={"p.zs": "package p;\nstruct S { uint8 v[]; };\n"},
  main=PRE + '''
use demo::p::S;
struct Short(Vec<u8>);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(3); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let s = S { v: vec![1, 2, 3, 4, 5, 6, 7] };
    let mut w = Short(vec![]);
    zserio::to_writer(&mut w, &s).unwrap();
    assert_eq!(w.0, zserio::to_bytes(&s).unwrap());
}
''')

seed(id="c18-array-clear", property="C18",
  edits=[(RT + "ztype/array.rs", "        data.clear();\n        data.reserve(", "        if data.len() > array_length {\n            data.clear();\n        }\n        data.reserve(")],
  needs="decoding into an object that was used before, with a shorter or equally long array in it",
  breaks="The new elements are appended to the old ones.",
  schema={"p.zs": "package p;\nstruct S { uint8 v[]; };\n"},
  main=PRE + '''
use demo::p::S;
fn main() {
    let mut s = S { v: vec![1] };
    let d = [2u8, 5, 6];
    s.zserio_read(&mut BitReader::new(&d)).unwrap();
    assert_eq!(s.v, vec![5, 6]);
}
''')

seed(id="c05-enum-default", property="C05",
  edits=[(GN + "generator/decode.rs", "        if field.array.is_some() {\n            field_type = format!(\"Vec<{field_type}>\");", "        if field.array.is_some() {\n            function.line(format!(\"if reader.remaining() == 0 {{ {lvalue_field_name} = Some(Default::default()); }} else {{\"));\n            field_type = format!(\"Vec<{field_type}>\");")],
  needs="-", breaks="-") if False else None
SEEDS = [s for s in SEEDS if s]

# ---------------------------------------------------------------- second round

seed(id="c07-limit", property="C07",
  edits=[(RT + "ztype/array_traits/delta_context.rs", """                if self.max_bit_number > MAX_BIT_NUMBER_LIMIT {
                    self.is_packed = false;""", """                if self.max_bit_number >= MAX_BIT_NUMBER_LIMIT {
                    self.is_packed = false;""")],
  needs="at least eight 64-bit elements whose last delta is the first one of exactly 62 bits",
  breaks="The widest deltas the format allows are not used: the array is written in the plain form although the packed one is smaller.",
  main=PRE + '''
use zserio::ztype::array_traits::UnsignedBitFieldArrayTrait;
use zserio::ztype::Array;
fn main() {
    for (step, width) in [(1u64 << 62, 64u64), (1u64 << 61, 63), (1u64 << 60, 62)] {
        let v: Vec<u64> = (0..20).map(|i| if i < 19 { 0 } else { step }).collect();
        let mut a: Array<u64> = Array { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: 64 }), is_packed: true, fixed_size: Some(20) };
        let mut w = BitWriter::new();
        a.zserio_write::<u32>(&mut w, &v, None).unwrap();
        let expected = if width > 63 { 1 + 20 * 64 } else { 7 + 64 + 19 * width };
        assert_eq!(w.bit_count() as u64, expected);
    }
}
''')

seed(id="c13-lengthof", property="C13",
  edits=[(GN + "generator/expression.rs", '"({}.len() as u32)"', '"({}.len() as u8 as u32)"')],
  needs="lengthof of an array with more than 255 elements",
  breaks="lengthof is reduced modulo 256.",
  schema={"p.zs": "package p;\nstruct S { uint8 a[]; bool big if lengthof(a) > 250; function uint32 n() { return lengthof(a); } };\n"},
  main=PRE + '''
use demo::p::S;
fn main() {
    for n in [0usize, 5, 255, 256, 300, 70000] {
        let s = S { a: vec![7; n], ..Default::default() };
        assert_eq!(s.n() as usize, n);
        rt(&s);
    }
}
''')

UNI = "package p;\nunion U { " + " ".join("uint8 m%d;" % i for i in range(140)) + " };\n"
seed(id="c10-selector-byte", property="C10",
  edits=[(GN + "generator/zunion.rs", '"ztype::write_varsize(writer, self.union_selector as u32)?;".to_string()', '"ztype::write_unsigned_bits(writer, self.union_selector as u64, 8)?;".to_string()')],
  needs="a union with more than 128 members, with one of the last of them selected",
  breaks="The index of the member is written as one byte, which is not its varsize form above 127.",
  schema={"p.zs": UNI},
  main=PRE + '''
use demo::p::u::{U, USelector};
fn main() {
    rt(&U { union_selector: USelector::M5, m_5: 9, ..Default::default() });
    rt(&U { union_selector: USelector::M127, m_127: 9, ..Default::default() });
    rt(&U { union_selector: USelector::M130, m_130: 9, ..Default::default() });
}
''')

seed(id="c05-string-nul", property="C05",
  edits=[(RT + "ztype/string_decode.rs", "    Ok(String::from_utf8(buffer)?)\n}", "    while buffer.last() == Some(&0) {\n        buffer.pop();\n    }\n    Ok(String::from_utf8(buffer)?)\n}")],
  needs="a string that ends with a NUL character",
  breaks="NUL characters at the end of a string are dropped while decoding.",
  main=PRE + '''
fn main() {
    for s in ["", "abc", "a\\u{0}b", "a\\u{0}"] {
        let mut w = BitWriter::new();
        ztype::write_string(&mut w, s).unwrap();
        w.close().unwrap();
        let d = w.data().clone();
        let mut r = BitReader::new(&d);
        assert_eq!(ztype::read_string(&mut r).unwrap(), s);
    }
}
''')

seed(id="c12-empty-mask", property="C12",
  edits=[(GN + "generator/zbitmask.rs", '    zserio_read_fn.line("self.bits = v;");', '    zserio_read_fn.line("if v != 0 { self.bits = v; }");')],
  needs="a bitmask without any bit, outside packed arrays, for a type whose first item is not zero",
  breaks="An empty bitmask is decoded as the first item of the type.",
  schema={"p.zs": "package p;\nbitmask uint8 M { A, B, C };\nstruct S { M a; packed M b[]; M c; };\n"},
  main=PRE + '''
use demo::p::{S, M};
fn main() {
    rt(&S { a: M::A, b: vec![M::A, M::B], c: M::B | M::C });
    rt(&S { a: M::none(), b: vec![M::none(), M::C], c: M::B });
    rt(&S { a: M::B, b: vec![], c: M::none() });
}
''')

seed(id="c06-chunk-context", property="C06",
  edits=[(RT + "ztype/array.rs", '''            let mut packing_context_node = self.array_trait.create_context();
            for index in 0..array_length {
                align_array_element_reader(reader, index, index_offsets)?;
                let mut item = T::default();
''', '''            let chunk = ARRAY_ALLOC_CHUNK.load(Ordering::Relaxed).max(1);
            let mut packing_context_node = self.array_trait.create_context();
            for index in 0..array_length {
                if index > 0 && index % chunk == 0 && data.len() == data.capacity() {
                    data.reserve(chunk.min(array_length - index));
                    packing_context_node = self.array_trait.create_context();
                }
                align_array_element_reader(reader, index, index_offsets)?;
                let mut item = T::default();
''')],
  needs="a packed array with more elements than the pre-allocation limit (1000, unless it was set to something else)",
  breaks="The delta states are set up afresh for every chunk of elements while reading.",
  main=PRE + '''
use zserio::ztype::array_traits::UnsignedBitFieldArrayTrait;
use zserio::ztype::Array;
fn arr() -> Array<u32> { Array { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: 32 }), is_packed: true, fixed_size: None } }
fn check(n: u32) {
    let v: Vec<u32> = (0..n).map(|i| 1000 + 3 * i).collect();
    let mut w = BitWriter::new();
    arr().zserio_write::<u32>(&mut w, &v, None).unwrap();
    w.close().unwrap();
    let d = w.data().clone();
    let mut r = BitReader::new(&d);
    let mut a = arr();
    let n = a.zserio_read_array_length(&mut r).unwrap();
    let mut x = vec![];
    a.zserio_read::<u32>(&mut r, &mut x, n, None).unwrap();
    assert!(x == v);
}
fn main() {
    check(5);
    check(1000);
    check(2500);
}
''')
