//! Instruction signatures and binary opcodes, written from the WebAssembly core
//! specification (2.0 with SIMD), independent of the tool's own data set.
use std::{collections::HashMap, sync::LazyLock};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    I32,
    I64,
    F32,
    F64,
    V128,
    Func,
    Extern,
}
pub const ALLV: [V; 7] = [V::I32, V::I64, V::F32, V::F64, V::V128, V::Func, V::Extern];
impl V {
    pub fn s(self) -> &'static str {
        match self {
            V::I32 => "i32",
            V::I64 => "i64",
            V::F32 => "f32",
            V::F64 => "f64",
            V::V128 => "v128",
            V::Func => "funcref",
            V::Extern => "externref",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Imm {
    /// i32/i64/f32/f64 literal
    Lit(V),
    /// optional offset=/align= arguments
    Mem,
    /// lane index
    Lane,
    /// sixteen lane indices
    Shuffle,
    /// `i32x4 1 2 3 4` style literal
    V128,
}
#[derive(Clone, Debug)]
pub struct Ins {
    pub name: String,
    pub imms: Vec<Imm>,
    pub params: Vec<V>,
    pub results: Vec<V>,
    /// 0xXX or 0xFC/0xFD followed by the sub-opcode
    pub op: (u8, Option<u32>),
}
fn v(s: &str) -> V {
    match s {
        "i32" => V::I32,
        "i64" => V::I64,
        "f32" => V::F32,
        "f64" => V::F64,
        "v128" | "v" => V::V128,
        _ => panic!("{s}"),
    }
}
fn vs(s: &str) -> Vec<V> {
    s.split_whitespace().map(v).collect()
}
pub static TABLE: LazyLock<Vec<Ins>> = LazyLock::new(build);
pub static BY_NAME: LazyLock<HashMap<String, usize>> =
    LazyLock::new(|| TABLE.iter().enumerate().map(|(i, x)| (x.name.clone(), i)).collect());

fn build() -> Vec<Ins> {
    let mut t: Vec<Ins> = vec![];
    let mut add = |name: String, imms: Vec<Imm>, p: &str, r: &str, op: (u8, Option<u32>)| {
        t.push(Ins { name, imms, params: vs(p), results: vs(r), op });
    };
    let rel = ["eq", "ne", "lt_s", "lt_u", "gt_s", "gt_u", "le_s", "le_u", "ge_s", "ge_u"];
    let frel = ["eq", "ne", "lt", "gt", "le", "ge"];
    let ibin = ["add", "sub", "mul", "div_s", "div_u", "rem_s", "rem_u", "and", "or", "xor", "shl", "shr_s", "shr_u", "rotl", "rotr"];
    let fun = ["abs", "neg", "ceil", "floor", "trunc", "nearest", "sqrt"];
    let fbin = ["add", "sub", "mul", "div", "min", "max", "copysign"];
    let mut op = 0x28u8;
    for (n, ty) in [
        ("i32.load", "i32"), ("i64.load", "i64"), ("f32.load", "f32"), ("f64.load", "f64"),
        ("i32.load8_s", "i32"), ("i32.load8_u", "i32"), ("i32.load16_s", "i32"), ("i32.load16_u", "i32"),
        ("i64.load8_s", "i64"), ("i64.load8_u", "i64"), ("i64.load16_s", "i64"), ("i64.load16_u", "i64"),
        ("i64.load32_s", "i64"), ("i64.load32_u", "i64"),
    ] {
        add(n.into(), vec![Imm::Mem], "i32", ty, (op, None));
        op += 1;
    }
    for (n, ty) in [
        ("i32.store", "i32"), ("i64.store", "i64"), ("f32.store", "f32"), ("f64.store", "f64"),
        ("i32.store8", "i32"), ("i32.store16", "i32"), ("i64.store8", "i64"), ("i64.store16", "i64"), ("i64.store32", "i64"),
    ] {
        add(n.into(), vec![Imm::Mem], &format!("i32 {ty}"), "", (op, None));
        op += 1;
    }
    add("memory.size".into(), vec![], "", "i32", (0x3f, None));
    add("memory.grow".into(), vec![], "i32", "i32", (0x40, None));
    op = 0x41;
    for ty in ["i32", "i64", "f32", "f64"] {
        add(format!("{ty}.const"), vec![Imm::Lit(v(ty))], "", ty, (op, None));
        op += 1;
    }
    for ty in ["i32", "i64"] {
        add(format!("{ty}.eqz"), vec![], ty, "i32", (op, None));
        op += 1;
        for r in rel {
            add(format!("{ty}.{r}"), vec![], &format!("{ty} {ty}"), "i32", (op, None));
            op += 1;
        }
    }
    for ty in ["f32", "f64"] {
        for r in frel {
            add(format!("{ty}.{r}"), vec![], &format!("{ty} {ty}"), "i32", (op, None));
            op += 1;
        }
    }
    for ty in ["i32", "i64"] {
        for u in ["clz", "ctz", "popcnt"] {
            add(format!("{ty}.{u}"), vec![], ty, ty, (op, None));
            op += 1;
        }
        for b in ibin {
            add(format!("{ty}.{b}"), vec![], &format!("{ty} {ty}"), ty, (op, None));
            op += 1;
        }
    }
    for ty in ["f32", "f64"] {
        for u in fun {
            add(format!("{ty}.{u}"), vec![], ty, ty, (op, None));
            op += 1;
        }
        for b in fbin {
            add(format!("{ty}.{b}"), vec![], &format!("{ty} {ty}"), ty, (op, None));
            op += 1;
        }
    }
    assert_eq!(op, 0xa7);
    for (n, p, r) in [
        ("i32.wrap_i64", "i64", "i32"), ("i32.trunc_f32_s", "f32", "i32"), ("i32.trunc_f32_u", "f32", "i32"),
        ("i32.trunc_f64_s", "f64", "i32"), ("i32.trunc_f64_u", "f64", "i32"), ("i64.extend_i32_s", "i32", "i64"),
        ("i64.extend_i32_u", "i32", "i64"), ("i64.trunc_f32_s", "f32", "i64"), ("i64.trunc_f32_u", "f32", "i64"),
        ("i64.trunc_f64_s", "f64", "i64"), ("i64.trunc_f64_u", "f64", "i64"), ("f32.convert_i32_s", "i32", "f32"),
        ("f32.convert_i32_u", "i32", "f32"), ("f32.convert_i64_s", "i64", "f32"), ("f32.convert_i64_u", "i64", "f32"),
        ("f32.demote_f64", "f64", "f32"), ("f64.convert_i32_s", "i32", "f64"), ("f64.convert_i32_u", "i32", "f64"),
        ("f64.convert_i64_s", "i64", "f64"), ("f64.convert_i64_u", "i64", "f64"), ("f64.promote_f32", "f32", "f64"),
        ("i32.reinterpret_f32", "f32", "i32"), ("i64.reinterpret_f64", "f64", "i64"), ("f32.reinterpret_i32", "i32", "f32"),
        ("f64.reinterpret_i64", "i64", "f64"), ("i32.extend8_s", "i32", "i32"), ("i32.extend16_s", "i32", "i32"),
        ("i64.extend8_s", "i64", "i64"), ("i64.extend16_s", "i64", "i64"), ("i64.extend32_s", "i64", "i64"),
    ] {
        add(n.into(), vec![], p, r, (op, None));
        op += 1;
    }
    for (i, (n, p, r)) in [
        ("i32.trunc_sat_f32_s", "f32", "i32"), ("i32.trunc_sat_f32_u", "f32", "i32"), ("i32.trunc_sat_f64_s", "f64", "i32"),
        ("i32.trunc_sat_f64_u", "f64", "i32"), ("i64.trunc_sat_f32_s", "f32", "i64"), ("i64.trunc_sat_f32_u", "f32", "i64"),
        ("i64.trunc_sat_f64_s", "f64", "i64"), ("i64.trunc_sat_f64_u", "f64", "i64"),
    ]
    .into_iter()
    .enumerate()
    {
        add(n.into(), vec![], p, r, (0xfc, Some(i as u32)));
    }
    add("memory.copy".into(), vec![], "i32 i32 i32", "", (0xfc, Some(10)));
    add("memory.fill".into(), vec![], "i32 i32 i32", "", (0xfc, Some(11)));
    // ---- SIMD ----
    let mut s = |n: &str, imms: Vec<Imm>, p: &str, r: &str, c: u32| add(n.to_string(), imms, p, r, (0xfd, Some(c)));
    for (i, n) in ["load", "load8x8_s", "load8x8_u", "load16x4_s", "load16x4_u", "load32x2_s", "load32x2_u", "load8_splat", "load16_splat", "load32_splat", "load64_splat"].iter().enumerate() {
        s(&format!("v128.{n}"), vec![Imm::Mem], "i32", "v", i as u32);
    }
    s("v128.store", vec![Imm::Mem], "i32 v", "", 11);
    s("v128.const", vec![Imm::V128], "", "v", 12);
    s("i8x16.shuffle", vec![Imm::Shuffle], "v v", "v", 13);
    s("i8x16.swizzle", vec![], "v v", "v", 14);
    for (i, (n, p)) in [("i8x16", "i32"), ("i16x8", "i32"), ("i32x4", "i32"), ("i64x2", "i64"), ("f32x4", "f32"), ("f64x2", "f64")].iter().enumerate() {
        s(&format!("{n}.splat"), vec![], p, "v", 15 + i as u32);
    }
    let mut c = 21;
    for (n, p) in [("i8x16", "i32"), ("i16x8", "i32")] {
        s(&format!("{n}.extract_lane_s"), vec![Imm::Lane], "v", p, c);
        s(&format!("{n}.extract_lane_u"), vec![Imm::Lane], "v", p, c + 1);
        s(&format!("{n}.replace_lane"), vec![Imm::Lane], &format!("v {p}"), "v", c + 2);
        c += 3;
    }
    for (n, p) in [("i32x4", "i32"), ("i64x2", "i64"), ("f32x4", "f32"), ("f64x2", "f64")] {
        s(&format!("{n}.extract_lane"), vec![Imm::Lane], "v", p, c);
        s(&format!("{n}.replace_lane"), vec![Imm::Lane], &format!("v {p}"), "v", c + 1);
        c += 2;
    }
    assert_eq!(c, 35);
    for n in ["i8x16", "i16x8", "i32x4"] {
        for r in rel {
            s(&format!("{n}.{r}"), vec![], "v v", "v", c);
            c += 1;
        }
    }
    for n in ["f32x4", "f64x2"] {
        for r in frel {
            s(&format!("{n}.{r}"), vec![], "v v", "v", c);
            c += 1;
        }
    }
    assert_eq!(c, 77);
    s("v128.not", vec![], "v", "v", 77);
    for (i, n) in ["and", "andnot", "or", "xor"].iter().enumerate() {
        s(&format!("v128.{n}"), vec![], "v v", "v", 78 + i as u32);
    }
    s("v128.bitselect", vec![], "v v v", "v", 82);
    s("v128.any_true", vec![], "v", "i32", 83);
    for (i, w) in [8, 16, 32, 64].iter().enumerate() {
        s(&format!("v128.load{w}_lane"), vec![Imm::Mem, Imm::Lane], "i32 v", "v", 84 + i as u32);
        s(&format!("v128.store{w}_lane"), vec![Imm::Mem, Imm::Lane], "i32 v", "", 88 + i as u32);
    }
    s("v128.load32_zero", vec![Imm::Mem], "i32", "v", 92);
    s("v128.load64_zero", vec![Imm::Mem], "i32", "v", 93);
    let un = |s: &mut dyn FnMut(&str, Vec<Imm>, &str, &str, u32), n: &str, c: u32| s(n, vec![], "v", "v", c);
    let bi = |s: &mut dyn FnMut(&str, Vec<Imm>, &str, &str, u32), n: &str, c: u32| s(n, vec![], "v v", "v", c);
    let sh = |s: &mut dyn FnMut(&str, Vec<Imm>, &str, &str, u32), n: &str, c: u32| s(n, vec![], "v i32", "v", c);
    let te = |s: &mut dyn FnMut(&str, Vec<Imm>, &str, &str, u32), n: &str, c: u32| s(n, vec![], "v", "i32", c);
    for (n, c) in [
        ("f32x4.demote_f64x2_zero", 94), ("f64x2.promote_low_f32x4", 95), ("i8x16.abs", 96), ("i8x16.neg", 97), ("i8x16.popcnt", 98),
        ("f32x4.ceil", 103), ("f32x4.floor", 104), ("f32x4.trunc", 105), ("f32x4.nearest", 106), ("f64x2.ceil", 116), ("f64x2.floor", 117),
        ("f64x2.trunc", 122), ("i16x8.extadd_pairwise_i8x16_s", 124), ("i16x8.extadd_pairwise_i8x16_u", 125),
        ("i32x4.extadd_pairwise_i16x8_s", 126), ("i32x4.extadd_pairwise_i16x8_u", 127), ("i16x8.abs", 128), ("i16x8.neg", 129),
        ("i16x8.extend_low_i8x16_s", 135), ("i16x8.extend_high_i8x16_s", 136), ("i16x8.extend_low_i8x16_u", 137), ("i16x8.extend_high_i8x16_u", 138),
        ("f64x2.nearest", 148), ("i32x4.abs", 160), ("i32x4.neg", 161),
        ("i32x4.extend_low_i16x8_s", 167), ("i32x4.extend_high_i16x8_s", 168), ("i32x4.extend_low_i16x8_u", 169), ("i32x4.extend_high_i16x8_u", 170),
        ("i64x2.abs", 192), ("i64x2.neg", 193),
        ("i64x2.extend_low_i32x4_s", 199), ("i64x2.extend_high_i32x4_s", 200), ("i64x2.extend_low_i32x4_u", 201), ("i64x2.extend_high_i32x4_u", 202),
        ("f32x4.abs", 224), ("f32x4.neg", 225), ("f32x4.sqrt", 227), ("f64x2.abs", 236), ("f64x2.neg", 237), ("f64x2.sqrt", 239),
        ("i32x4.trunc_sat_f32x4_s", 248), ("i32x4.trunc_sat_f32x4_u", 249), ("f32x4.convert_i32x4_s", 250), ("f32x4.convert_i32x4_u", 251),
        ("i32x4.trunc_sat_f64x2_s_zero", 252), ("i32x4.trunc_sat_f64x2_u_zero", 253), ("f64x2.convert_low_i32x4_s", 254), ("f64x2.convert_low_i32x4_u", 255),
    ] {
        un(&mut s, n, c);
    }
    for (n, c) in [("i8x16", 99), ("i16x8", 131), ("i32x4", 163), ("i64x2", 195)] {
        te(&mut s, &format!("{n}.all_true"), c);
        te(&mut s, &format!("{n}.bitmask"), c + 1);
    }
    for (n, c) in [("i8x16", 107), ("i16x8", 139), ("i32x4", 171), ("i64x2", 203)] {
        sh(&mut s, &format!("{n}.shl"), c);
        sh(&mut s, &format!("{n}.shr_s"), c + 1);
        sh(&mut s, &format!("{n}.shr_u"), c + 2);
    }
    for (n, c) in [
        ("i8x16.narrow_i16x8_s", 101), ("i8x16.narrow_i16x8_u", 102), ("i8x16.add", 110), ("i8x16.add_sat_s", 111), ("i8x16.add_sat_u", 112),
        ("i8x16.sub", 113), ("i8x16.sub_sat_s", 114), ("i8x16.sub_sat_u", 115), ("i8x16.min_s", 118), ("i8x16.min_u", 119), ("i8x16.max_s", 120),
        ("i8x16.max_u", 121), ("i8x16.avgr_u", 123), ("i16x8.q15mulr_sat_s", 130), ("i16x8.narrow_i32x4_s", 133), ("i16x8.narrow_i32x4_u", 134),
        ("i16x8.add", 142), ("i16x8.add_sat_s", 143), ("i16x8.add_sat_u", 144), ("i16x8.sub", 145), ("i16x8.sub_sat_s", 146), ("i16x8.sub_sat_u", 147),
        ("i16x8.mul", 149), ("i16x8.min_s", 150), ("i16x8.min_u", 151), ("i16x8.max_s", 152), ("i16x8.max_u", 153), ("i16x8.avgr_u", 155),
        ("i16x8.extmul_low_i8x16_s", 156), ("i16x8.extmul_high_i8x16_s", 157), ("i16x8.extmul_low_i8x16_u", 158), ("i16x8.extmul_high_i8x16_u", 159),
        ("i32x4.add", 174), ("i32x4.sub", 177), ("i32x4.mul", 181), ("i32x4.min_s", 182), ("i32x4.min_u", 183), ("i32x4.max_s", 184), ("i32x4.max_u", 185),
        ("i32x4.dot_i16x8_s", 186), ("i32x4.extmul_low_i16x8_s", 188), ("i32x4.extmul_high_i16x8_s", 189), ("i32x4.extmul_low_i16x8_u", 190), ("i32x4.extmul_high_i16x8_u", 191),
        ("i64x2.add", 206), ("i64x2.sub", 209), ("i64x2.mul", 213), ("i64x2.eq", 214), ("i64x2.ne", 215), ("i64x2.lt_s", 216), ("i64x2.gt_s", 217),
        ("i64x2.le_s", 218), ("i64x2.ge_s", 219), ("i64x2.extmul_low_i32x4_s", 220), ("i64x2.extmul_high_i32x4_s", 221), ("i64x2.extmul_low_i32x4_u", 222), ("i64x2.extmul_high_i32x4_u", 223),
        ("f32x4.add", 228), ("f32x4.sub", 229), ("f32x4.mul", 230), ("f32x4.div", 231), ("f32x4.min", 232), ("f32x4.max", 233), ("f32x4.pmin", 234), ("f32x4.pmax", 235),
        ("f64x2.add", 240), ("f64x2.sub", 241), ("f64x2.mul", 242), ("f64x2.div", 243), ("f64x2.min", 244), ("f64x2.max", 245), ("f64x2.pmin", 246), ("f64x2.pmax", 247),
    ] {
        bi(&mut s, n, c);
    }
    t
}
