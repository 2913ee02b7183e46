#![allow(unused_mut)]
// Generated by gen.py; do not edit.
#![allow(dead_code, unused_variables, clippy::all)]
use crate::{model::*, Trk};
use facet::Facet;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Copy)]
pub struct UnitS;
impl Gt for UnitS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("UnitS", Stk::Unit, vec![
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![]) }
    fn from_v(_: &V) -> Self { UnitS }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct EmptyS {
}
impl Gt for EmptyS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("EmptyS", Stk::Named, vec![
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); EmptyS {  } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct EmptyT();
impl Gt for EmptyT {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("EmptyT", Stk::TupleStruct, vec![
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); EmptyT() }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Copy)]
pub struct NtU32( pub u32);
impl Gt for NtU32 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("NtU32", Stk::TupleStruct, vec![
            Fd::new("0", ty::<u32>, std::mem::offset_of!(Self, 0)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); NtU32(Gt::from_v(&_f[0])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct NtStr( pub String);
impl Gt for NtStr {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("NtStr", Stk::TupleStruct, vec![
            Fd::new("0", ty::<String>, std::mem::offset_of!(Self, 0)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); NtStr(Gt::from_v(&_f[0])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct NtOpt( pub Option<String>);
impl Gt for NtOpt {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("NtOpt", Stk::TupleStruct, vec![
            Fd::new("0", ty::<Option<String>>, std::mem::offset_of!(Self, 0)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); NtOpt(Gt::from_v(&_f[0])) }
}
/// A point.
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Copy)]
pub struct Point {
    pub x: i32,
    pub y: i32,
}
impl Gt for Point {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Point", Stk::Named, vec![
            Fd::new("x", ty::<i32>, std::mem::offset_of!(Self, x)),
            Fd::new("y", ty::<i32>, std::mem::offset_of!(Self, y)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.x.to_v(), self.y.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Point { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) } }
}
#[derive(Facet)]
pub struct Bare {
    pub a: u16,
    pub b: String,
}
impl Gt for Bare {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Bare", Stk::Named, vec![
            Fd::new("a", ty::<u16>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Bare { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Default, PartialOrd)]
pub struct Mixed {
    pub a: u8,
    pub b: u64,
    pub c: u16,
    pub d: String,
    pub e: bool,
    pub f: f32,
    pub g: char,
    pub h: f64,
}
impl Gt for Mixed {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Mixed", Stk::Named, vec![
            Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<u64>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<u16>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<String>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<bool>, std::mem::offset_of!(Self, e)),
            Fd::new("f", ty::<f32>, std::mem::offset_of!(Self, f)),
            Fd::new("g", ty::<char>, std::mem::offset_of!(Self, g)),
            Fd::new("h", ty::<f64>, std::mem::offset_of!(Self, h)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v(), self.g.to_v(), self.h.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Mixed { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]), g: Gt::from_v(&_f[6]), h: Gt::from_v(&_f[7]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct AllInts {
    pub fu8: u8,
    pub fi8: i8,
    pub fu16: u16,
    pub fi16: i16,
    pub fu32: u32,
    pub fi32: i32,
    pub fu64: u64,
    pub fi64: i64,
    pub fu128: u128,
    pub fi128: i128,
    pub fusize: usize,
    pub fisize: isize,
}
impl Gt for AllInts {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("AllInts", Stk::Named, vec![
            Fd::new("fu8", ty::<u8>, std::mem::offset_of!(Self, fu8)),
            Fd::new("fi8", ty::<i8>, std::mem::offset_of!(Self, fi8)),
            Fd::new("fu16", ty::<u16>, std::mem::offset_of!(Self, fu16)),
            Fd::new("fi16", ty::<i16>, std::mem::offset_of!(Self, fi16)),
            Fd::new("fu32", ty::<u32>, std::mem::offset_of!(Self, fu32)),
            Fd::new("fi32", ty::<i32>, std::mem::offset_of!(Self, fi32)),
            Fd::new("fu64", ty::<u64>, std::mem::offset_of!(Self, fu64)),
            Fd::new("fi64", ty::<i64>, std::mem::offset_of!(Self, fi64)),
            Fd::new("fu128", ty::<u128>, std::mem::offset_of!(Self, fu128)),
            Fd::new("fi128", ty::<i128>, std::mem::offset_of!(Self, fi128)),
            Fd::new("fusize", ty::<usize>, std::mem::offset_of!(Self, fusize)),
            Fd::new("fisize", ty::<isize>, std::mem::offset_of!(Self, fisize)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.fu8.to_v(), self.fi8.to_v(), self.fu16.to_v(), self.fi16.to_v(), self.fu32.to_v(), self.fi32.to_v(), self.fu64.to_v(), self.fi64.to_v(), self.fu128.to_v(), self.fi128.to_v(), self.fusize.to_v(), self.fisize.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); AllInts { fu8: Gt::from_v(&_f[0]), fi8: Gt::from_v(&_f[1]), fu16: Gt::from_v(&_f[2]), fi16: Gt::from_v(&_f[3]), fu32: Gt::from_v(&_f[4]), fi32: Gt::from_v(&_f[5]), fu64: Gt::from_v(&_f[6]), fi64: Gt::from_v(&_f[7]), fu128: Gt::from_v(&_f[8]), fi128: Gt::from_v(&_f[9]), fusize: Gt::from_v(&_f[10]), fisize: Gt::from_v(&_f[11]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct AllNz {
    pub fu8: std::num::NonZero<u8>,
    pub fi8: std::num::NonZero<i8>,
    pub fu16: std::num::NonZero<u16>,
    pub fi16: std::num::NonZero<i16>,
    pub fu32: std::num::NonZero<u32>,
    pub fi32: std::num::NonZero<i32>,
    pub fu64: std::num::NonZero<u64>,
    pub fi64: std::num::NonZero<i64>,
    pub fu128: std::num::NonZero<u128>,
    pub fi128: std::num::NonZero<i128>,
    pub fusize: std::num::NonZero<usize>,
    pub fisize: std::num::NonZero<isize>,
}
impl Gt for AllNz {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("AllNz", Stk::Named, vec![
            Fd::new("fu8", ty::<std::num::NonZero<u8>>, std::mem::offset_of!(Self, fu8)),
            Fd::new("fi8", ty::<std::num::NonZero<i8>>, std::mem::offset_of!(Self, fi8)),
            Fd::new("fu16", ty::<std::num::NonZero<u16>>, std::mem::offset_of!(Self, fu16)),
            Fd::new("fi16", ty::<std::num::NonZero<i16>>, std::mem::offset_of!(Self, fi16)),
            Fd::new("fu32", ty::<std::num::NonZero<u32>>, std::mem::offset_of!(Self, fu32)),
            Fd::new("fi32", ty::<std::num::NonZero<i32>>, std::mem::offset_of!(Self, fi32)),
            Fd::new("fu64", ty::<std::num::NonZero<u64>>, std::mem::offset_of!(Self, fu64)),
            Fd::new("fi64", ty::<std::num::NonZero<i64>>, std::mem::offset_of!(Self, fi64)),
            Fd::new("fu128", ty::<std::num::NonZero<u128>>, std::mem::offset_of!(Self, fu128)),
            Fd::new("fi128", ty::<std::num::NonZero<i128>>, std::mem::offset_of!(Self, fi128)),
            Fd::new("fusize", ty::<std::num::NonZero<usize>>, std::mem::offset_of!(Self, fusize)),
            Fd::new("fisize", ty::<std::num::NonZero<isize>>, std::mem::offset_of!(Self, fisize)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.fu8.to_v(), self.fi8.to_v(), self.fu16.to_v(), self.fi16.to_v(), self.fu32.to_v(), self.fi32.to_v(), self.fu64.to_v(), self.fi64.to_v(), self.fu128.to_v(), self.fi128.to_v(), self.fusize.to_v(), self.fisize.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); AllNz { fu8: Gt::from_v(&_f[0]), fi8: Gt::from_v(&_f[1]), fu16: Gt::from_v(&_f[2]), fi16: Gt::from_v(&_f[3]), fu32: Gt::from_v(&_f[4]), fi32: Gt::from_v(&_f[5]), fu64: Gt::from_v(&_f[6]), fi64: Gt::from_v(&_f[7]), fu128: Gt::from_v(&_f[8]), fi128: Gt::from_v(&_f[9]), fusize: Gt::from_v(&_f[10]), fisize: Gt::from_v(&_f[11]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct IntsS {
    pub fu8: u8,
    pub fi8: i8,
    pub fu16: u16,
    pub fi16: i16,
    pub fu32: u32,
    pub fi32: i32,
    pub fu64: u64,
    pub fi64: i64,
}
impl Gt for IntsS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("IntsS", Stk::Named, vec![
            Fd::new("fu8", ty::<u8>, std::mem::offset_of!(Self, fu8)),
            Fd::new("fi8", ty::<i8>, std::mem::offset_of!(Self, fi8)),
            Fd::new("fu16", ty::<u16>, std::mem::offset_of!(Self, fu16)),
            Fd::new("fi16", ty::<i16>, std::mem::offset_of!(Self, fi16)),
            Fd::new("fu32", ty::<u32>, std::mem::offset_of!(Self, fu32)),
            Fd::new("fi32", ty::<i32>, std::mem::offset_of!(Self, fi32)),
            Fd::new("fu64", ty::<u64>, std::mem::offset_of!(Self, fu64)),
            Fd::new("fi64", ty::<i64>, std::mem::offset_of!(Self, fi64)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.fu8.to_v(), self.fi8.to_v(), self.fu16.to_v(), self.fi16.to_v(), self.fu32.to_v(), self.fi32.to_v(), self.fu64.to_v(), self.fi64.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); IntsS { fu8: Gt::from_v(&_f[0]), fi8: Gt::from_v(&_f[1]), fu16: Gt::from_v(&_f[2]), fi16: Gt::from_v(&_f[3]), fu32: Gt::from_v(&_f[4]), fi32: Gt::from_v(&_f[5]), fu64: Gt::from_v(&_f[6]), fi64: Gt::from_v(&_f[7]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Default)]
pub struct Floats {
    pub a: f32,
    pub b: f64,
}
impl Gt for Floats {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Floats", Stk::Named, vec![
            Fd::new("a", ty::<f32>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<f64>, std::mem::offset_of!(Self, b)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Floats { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Strs {
    pub a: String,
    pub b: char,
    pub c: Option<String>,
}
impl Gt for Strs {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Strs", Stk::Named, vec![
            Fd::new("a", ty::<String>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<char>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Option<String>>, std::mem::offset_of!(Self, c)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Strs { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct CowS {
    pub a: Cow<'static, str>,
    pub b: u32,
}
impl Gt for CowS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("CowS", Stk::Named, vec![
            Fd::new("a", ty::<Cow<'static, str>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<u32>, std::mem::offset_of!(Self, b)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); CowS { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct RefS {
    pub a: &'static str,
    pub b: u32,
}
impl Gt for RefS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("RefS", Stk::Named, vec![
            Fd::new("a", ty::<&'static str>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<u32>, std::mem::offset_of!(Self, b)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); RefS { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct SliceS {
    pub a: &'static [u32],
    pub b: u8,
}
impl Gt for SliceS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("SliceS", Stk::Named, vec![
            Fd::new("a", ty::<&'static [u32]>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<u8>, std::mem::offset_of!(Self, b)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); SliceS { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TupS( pub u8,  pub String,  pub bool);
impl Gt for TupS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TupS", Stk::TupleStruct, vec![
            Fd::new("0", ty::<u8>, std::mem::offset_of!(Self, 0)),
            Fd::new("1", ty::<String>, std::mem::offset_of!(Self, 1)),
            Fd::new("2", ty::<bool>, std::mem::offset_of!(Self, 2)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v(), self.2.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TupS(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TupNest( pub Point,  pub Option<Point>,  pub Vec<u8>);
impl Gt for TupNest {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TupNest", Stk::TupleStruct, vec![
            Fd::new("0", ty::<Point>, std::mem::offset_of!(Self, 0)),
            Fd::new("1", ty::<Option<Point>>, std::mem::offset_of!(Self, 1)),
            Fd::new("2", ty::<Vec<u8>>, std::mem::offset_of!(Self, 2)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v(), self.2.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TupNest(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Nested {
    pub p: Point,
    pub q: Option<Point>,
    pub name: String,
}
impl Gt for Nested {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Nested", Stk::Named, vec![
            Fd::new("p", ty::<Point>, std::mem::offset_of!(Self, p)),
            Fd::new("q", ty::<Option<Point>>, std::mem::offset_of!(Self, q)),
            Fd::new("name", ty::<String>, std::mem::offset_of!(Self, name)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.p.to_v(), self.q.to_v(), self.name.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Nested { p: Gt::from_v(&_f[0]), q: Gt::from_v(&_f[1]), name: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Deep {
    pub n: Nested,
    pub m: Mixed,
    pub t: TupS,
    pub o: Option<Nested>,
}
impl Gt for Deep {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Deep", Stk::Named, vec![
            Fd::new("n", ty::<Nested>, std::mem::offset_of!(Self, n)),
            Fd::new("m", ty::<Mixed>, std::mem::offset_of!(Self, m)),
            Fd::new("t", ty::<TupS>, std::mem::offset_of!(Self, t)),
            Fd::new("o", ty::<Option<Nested>>, std::mem::offset_of!(Self, o)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.n.to_v(), self.m.to_v(), self.t.to_v(), self.o.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Deep { n: Gt::from_v(&_f[0]), m: Gt::from_v(&_f[1]), t: Gt::from_v(&_f[2]), o: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Lists {
    pub a: Vec<u32>,
    pub b: Vec<String>,
    pub c: Vec<Point>,
    pub d: Vec<Vec<u8>>,
    pub e: Vec<Option<String>>,
}
impl Gt for Lists {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Lists", Stk::Named, vec![
            Fd::new("a", ty::<Vec<u32>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<Vec<String>>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Vec<Point>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<Vec<Vec<u8>>>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<Vec<Option<String>>>, std::mem::offset_of!(Self, e)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Lists { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Opts {
    pub a: Option<u8>,
    pub b: Option<Option<u8>>,
    pub c: Option<Vec<u8>>,
    pub d: Option<Nested>,
    pub e: Option<String>,
}
impl Gt for Opts {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Opts", Stk::Named, vec![
            Fd::new("a", ty::<Option<u8>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<Option<Option<u8>>>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Option<Vec<u8>>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<Option<Nested>>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<Option<String>>, std::mem::offset_of!(Self, e)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Opts { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Maps {
    pub a: HashMap<String, u32>,
    pub b: BTreeMap<String, Point>,
    pub c: HashMap<String, Vec<String>>,
    pub d: BTreeMap<String, Option<u8>>,
}
impl Gt for Maps {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Maps", Stk::Named, vec![
            Fd::new("a", ty::<HashMap<String, u32>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<BTreeMap<String, Point>>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<HashMap<String, Vec<String>>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<BTreeMap<String, Option<u8>>>, std::mem::offset_of!(Self, d)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Maps { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct KeyMaps {
    pub a: HashMap<u8, String>,
    pub b: BTreeMap<i32, bool>,
    pub c: BTreeMap<char, u8>,
    pub d: HashMap<bool, u8>,
}
impl Gt for KeyMaps {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("KeyMaps", Stk::Named, vec![
            Fd::new("a", ty::<HashMap<u8, String>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<BTreeMap<i32, bool>>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<BTreeMap<char, u8>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<HashMap<bool, u8>>, std::mem::offset_of!(Self, d)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); KeyMaps { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct MapMap {
    pub a: HashMap<String, HashMap<String, u8>>,
    pub b: BTreeMap<String, Vec<BTreeMap<String, String>>>,
}
impl Gt for MapMap {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("MapMap", Stk::Named, vec![
            Fd::new("a", ty::<HashMap<String, HashMap<String, u8>>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<BTreeMap<String, Vec<BTreeMap<String, String>>>>, std::mem::offset_of!(Self, b)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); MapMap { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet)]
pub struct FixMap {
    pub a: HashMap<String, u32, FixedState>,
    pub b: u8,
}
impl Gt for FixMap {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("FixMap", Stk::Named, vec![
            Fd::new("a", ty::<HashMap<String, u32, FixedState>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<u8>, std::mem::offset_of!(Self, b)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); FixMap { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Tree {
    pub v: u32,
    pub kids: Vec<Tree>,
}
impl Gt for Tree {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Tree", Stk::Named, vec![
            Fd::new("v", ty::<u32>, std::mem::offset_of!(Self, v)),
            Fd::new("kids", ty::<Vec<Tree>>, std::mem::offset_of!(Self, kids)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.v.to_v(), self.kids.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Tree { v: Gt::from_v(&_f[0]), kids: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Org {
    pub name: String,
    pub lead: Option<NtStr>,
    pub units: Vec<Nested>,
    pub tags: HashMap<String, Vec<Point>>,
}
impl Gt for Org {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Org", Stk::Named, vec![
            Fd::new("name", ty::<String>, std::mem::offset_of!(Self, name)),
            Fd::new("lead", ty::<Option<NtStr>>, std::mem::offset_of!(Self, lead)),
            Fd::new("units", ty::<Vec<Nested>>, std::mem::offset_of!(Self, units)),
            Fd::new("tags", ty::<HashMap<String, Vec<Point>>>, std::mem::offset_of!(Self, tags)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.name.to_v(), self.lead.to_v(), self.units.to_v(), self.tags.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Org { name: Gt::from_v(&_f[0]), lead: Gt::from_v(&_f[1]), units: Gt::from_v(&_f[2]), tags: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Zsts {
    pub a: (),
    pub b: UnitS,
    pub c: u32,
    pub d: EmptyS,
    pub e: std::marker::PhantomData<String>,
    pub f: UnitS,
    pub g: (),
}
impl Gt for Zsts {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Zsts", Stk::Named, vec![
            Fd::new("a", ty::<()>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<UnitS>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<u32>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<EmptyS>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<std::marker::PhantomData<String>>, std::mem::offset_of!(Self, e)),
            Fd::new("f", ty::<UnitS>, std::mem::offset_of!(Self, f)),
            Fd::new("g", ty::<()>, std::mem::offset_of!(Self, g)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v(), self.g.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Zsts { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]), g: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Arrs {
    pub a: [u8; 1],
    pub b: [String; 1],
    pub c: u16,
}
impl Gt for Arrs {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Arrs", Stk::Named, vec![
            Fd::new("a", ty::<[u8; 1]>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<[String; 1]>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<u16>, std::mem::offset_of!(Self, c)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Arrs { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Arcs {
    pub a: Arc<Point>,
    pub b: Arc<String>,
    pub c: Option<Arc<u8>>,
}
impl Gt for Arcs {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Arcs", Stk::Named, vec![
            Fd::new("a", ty::<Arc<Point>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<Arc<String>>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Option<Arc<u8>>>, std::mem::offset_of!(Self, c)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Arcs { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TupF {
    pub a: (u8, String),
    pub b: (i32,),
    pub c: Vec<(u8, u16)>,
}
impl Gt for TupF {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TupF", Stk::Named, vec![
            Fd::new("a", ty::<(u8, String)>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<(i32,)>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Vec<(u8, u16)>>, std::mem::offset_of!(Self, c)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TupF { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(C)]
pub struct ReprC {
    pub a: u8,
    pub b: u32,
    pub c: u16,
    pub d: u64,
}
impl Gt for ReprC {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ReprC", Stk::Named, vec![
            Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<u32>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<u16>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<u64>, std::mem::offset_of!(Self, d)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ReprC { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(align(64))]
pub struct Align64 {
    pub a: u8,
    pub b: String,
}
impl Gt for Align64 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Align64", Stk::Named, vec![
            Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Align64 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Net {
    pub a: std::net::IpAddr,
    pub b: std::net::Ipv4Addr,
    pub c: std::net::Ipv6Addr,
    pub d: std::net::SocketAddr,
}
impl Gt for Net {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Net", Stk::Named, vec![
            Fd::new("a", ty::<std::net::IpAddr>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<std::net::Ipv4Addr>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<std::net::Ipv6Addr>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<std::net::SocketAddr>, std::mem::offset_of!(Self, d)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Net { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Wide63 {
    pub f0: u8,
    pub f1: String,
    pub f2: u32,
    pub f3: bool,
    pub f4: Option<u8>,
    pub f5: u8,
    pub f6: String,
    pub f7: u32,
    pub f8: bool,
    pub f9: Option<u8>,
    pub f10: u8,
    pub f11: String,
    pub f12: u32,
    pub f13: bool,
    pub f14: Option<u8>,
    pub f15: u8,
    pub f16: String,
    pub f17: u32,
    pub f18: bool,
    pub f19: Option<u8>,
    pub f20: u8,
    pub f21: String,
    pub f22: u32,
    pub f23: bool,
    pub f24: Option<u8>,
    pub f25: u8,
    pub f26: String,
    pub f27: u32,
    pub f28: bool,
    pub f29: Option<u8>,
    pub f30: u8,
    pub f31: String,
    pub f32: u32,
    pub f33: bool,
    pub f34: Option<u8>,
    pub f35: u8,
    pub f36: String,
    pub f37: u32,
    pub f38: bool,
    pub f39: Option<u8>,
    pub f40: u8,
    pub f41: String,
    pub f42: u32,
    pub f43: bool,
    pub f44: Option<u8>,
    pub f45: u8,
    pub f46: String,
    pub f47: u32,
    pub f48: bool,
    pub f49: Option<u8>,
    pub f50: u8,
    pub f51: String,
    pub f52: u32,
    pub f53: bool,
    pub f54: Option<u8>,
    pub f55: u8,
    pub f56: String,
    pub f57: u32,
    pub f58: bool,
    pub f59: Option<u8>,
    pub f60: u8,
    pub f61: String,
    pub f62: u32,
}
impl Gt for Wide63 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Wide63", Stk::Named, vec![
            Fd::new("f0", ty::<u8>, std::mem::offset_of!(Self, f0)),
            Fd::new("f1", ty::<String>, std::mem::offset_of!(Self, f1)),
            Fd::new("f2", ty::<u32>, std::mem::offset_of!(Self, f2)),
            Fd::new("f3", ty::<bool>, std::mem::offset_of!(Self, f3)),
            Fd::new("f4", ty::<Option<u8>>, std::mem::offset_of!(Self, f4)),
            Fd::new("f5", ty::<u8>, std::mem::offset_of!(Self, f5)),
            Fd::new("f6", ty::<String>, std::mem::offset_of!(Self, f6)),
            Fd::new("f7", ty::<u32>, std::mem::offset_of!(Self, f7)),
            Fd::new("f8", ty::<bool>, std::mem::offset_of!(Self, f8)),
            Fd::new("f9", ty::<Option<u8>>, std::mem::offset_of!(Self, f9)),
            Fd::new("f10", ty::<u8>, std::mem::offset_of!(Self, f10)),
            Fd::new("f11", ty::<String>, std::mem::offset_of!(Self, f11)),
            Fd::new("f12", ty::<u32>, std::mem::offset_of!(Self, f12)),
            Fd::new("f13", ty::<bool>, std::mem::offset_of!(Self, f13)),
            Fd::new("f14", ty::<Option<u8>>, std::mem::offset_of!(Self, f14)),
            Fd::new("f15", ty::<u8>, std::mem::offset_of!(Self, f15)),
            Fd::new("f16", ty::<String>, std::mem::offset_of!(Self, f16)),
            Fd::new("f17", ty::<u32>, std::mem::offset_of!(Self, f17)),
            Fd::new("f18", ty::<bool>, std::mem::offset_of!(Self, f18)),
            Fd::new("f19", ty::<Option<u8>>, std::mem::offset_of!(Self, f19)),
            Fd::new("f20", ty::<u8>, std::mem::offset_of!(Self, f20)),
            Fd::new("f21", ty::<String>, std::mem::offset_of!(Self, f21)),
            Fd::new("f22", ty::<u32>, std::mem::offset_of!(Self, f22)),
            Fd::new("f23", ty::<bool>, std::mem::offset_of!(Self, f23)),
            Fd::new("f24", ty::<Option<u8>>, std::mem::offset_of!(Self, f24)),
            Fd::new("f25", ty::<u8>, std::mem::offset_of!(Self, f25)),
            Fd::new("f26", ty::<String>, std::mem::offset_of!(Self, f26)),
            Fd::new("f27", ty::<u32>, std::mem::offset_of!(Self, f27)),
            Fd::new("f28", ty::<bool>, std::mem::offset_of!(Self, f28)),
            Fd::new("f29", ty::<Option<u8>>, std::mem::offset_of!(Self, f29)),
            Fd::new("f30", ty::<u8>, std::mem::offset_of!(Self, f30)),
            Fd::new("f31", ty::<String>, std::mem::offset_of!(Self, f31)),
            Fd::new("f32", ty::<u32>, std::mem::offset_of!(Self, f32)),
            Fd::new("f33", ty::<bool>, std::mem::offset_of!(Self, f33)),
            Fd::new("f34", ty::<Option<u8>>, std::mem::offset_of!(Self, f34)),
            Fd::new("f35", ty::<u8>, std::mem::offset_of!(Self, f35)),
            Fd::new("f36", ty::<String>, std::mem::offset_of!(Self, f36)),
            Fd::new("f37", ty::<u32>, std::mem::offset_of!(Self, f37)),
            Fd::new("f38", ty::<bool>, std::mem::offset_of!(Self, f38)),
            Fd::new("f39", ty::<Option<u8>>, std::mem::offset_of!(Self, f39)),
            Fd::new("f40", ty::<u8>, std::mem::offset_of!(Self, f40)),
            Fd::new("f41", ty::<String>, std::mem::offset_of!(Self, f41)),
            Fd::new("f42", ty::<u32>, std::mem::offset_of!(Self, f42)),
            Fd::new("f43", ty::<bool>, std::mem::offset_of!(Self, f43)),
            Fd::new("f44", ty::<Option<u8>>, std::mem::offset_of!(Self, f44)),
            Fd::new("f45", ty::<u8>, std::mem::offset_of!(Self, f45)),
            Fd::new("f46", ty::<String>, std::mem::offset_of!(Self, f46)),
            Fd::new("f47", ty::<u32>, std::mem::offset_of!(Self, f47)),
            Fd::new("f48", ty::<bool>, std::mem::offset_of!(Self, f48)),
            Fd::new("f49", ty::<Option<u8>>, std::mem::offset_of!(Self, f49)),
            Fd::new("f50", ty::<u8>, std::mem::offset_of!(Self, f50)),
            Fd::new("f51", ty::<String>, std::mem::offset_of!(Self, f51)),
            Fd::new("f52", ty::<u32>, std::mem::offset_of!(Self, f52)),
            Fd::new("f53", ty::<bool>, std::mem::offset_of!(Self, f53)),
            Fd::new("f54", ty::<Option<u8>>, std::mem::offset_of!(Self, f54)),
            Fd::new("f55", ty::<u8>, std::mem::offset_of!(Self, f55)),
            Fd::new("f56", ty::<String>, std::mem::offset_of!(Self, f56)),
            Fd::new("f57", ty::<u32>, std::mem::offset_of!(Self, f57)),
            Fd::new("f58", ty::<bool>, std::mem::offset_of!(Self, f58)),
            Fd::new("f59", ty::<Option<u8>>, std::mem::offset_of!(Self, f59)),
            Fd::new("f60", ty::<u8>, std::mem::offset_of!(Self, f60)),
            Fd::new("f61", ty::<String>, std::mem::offset_of!(Self, f61)),
            Fd::new("f62", ty::<u32>, std::mem::offset_of!(Self, f62)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.f0.to_v(), self.f1.to_v(), self.f2.to_v(), self.f3.to_v(), self.f4.to_v(), self.f5.to_v(), self.f6.to_v(), self.f7.to_v(), self.f8.to_v(), self.f9.to_v(), self.f10.to_v(), self.f11.to_v(), self.f12.to_v(), self.f13.to_v(), self.f14.to_v(), self.f15.to_v(), self.f16.to_v(), self.f17.to_v(), self.f18.to_v(), self.f19.to_v(), self.f20.to_v(), self.f21.to_v(), self.f22.to_v(), self.f23.to_v(), self.f24.to_v(), self.f25.to_v(), self.f26.to_v(), self.f27.to_v(), self.f28.to_v(), self.f29.to_v(), self.f30.to_v(), self.f31.to_v(), self.f32.to_v(), self.f33.to_v(), self.f34.to_v(), self.f35.to_v(), self.f36.to_v(), self.f37.to_v(), self.f38.to_v(), self.f39.to_v(), self.f40.to_v(), self.f41.to_v(), self.f42.to_v(), self.f43.to_v(), self.f44.to_v(), self.f45.to_v(), self.f46.to_v(), self.f47.to_v(), self.f48.to_v(), self.f49.to_v(), self.f50.to_v(), self.f51.to_v(), self.f52.to_v(), self.f53.to_v(), self.f54.to_v(), self.f55.to_v(), self.f56.to_v(), self.f57.to_v(), self.f58.to_v(), self.f59.to_v(), self.f60.to_v(), self.f61.to_v(), self.f62.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Wide63 { f0: Gt::from_v(&_f[0]), f1: Gt::from_v(&_f[1]), f2: Gt::from_v(&_f[2]), f3: Gt::from_v(&_f[3]), f4: Gt::from_v(&_f[4]), f5: Gt::from_v(&_f[5]), f6: Gt::from_v(&_f[6]), f7: Gt::from_v(&_f[7]), f8: Gt::from_v(&_f[8]), f9: Gt::from_v(&_f[9]), f10: Gt::from_v(&_f[10]), f11: Gt::from_v(&_f[11]), f12: Gt::from_v(&_f[12]), f13: Gt::from_v(&_f[13]), f14: Gt::from_v(&_f[14]), f15: Gt::from_v(&_f[15]), f16: Gt::from_v(&_f[16]), f17: Gt::from_v(&_f[17]), f18: Gt::from_v(&_f[18]), f19: Gt::from_v(&_f[19]), f20: Gt::from_v(&_f[20]), f21: Gt::from_v(&_f[21]), f22: Gt::from_v(&_f[22]), f23: Gt::from_v(&_f[23]), f24: Gt::from_v(&_f[24]), f25: Gt::from_v(&_f[25]), f26: Gt::from_v(&_f[26]), f27: Gt::from_v(&_f[27]), f28: Gt::from_v(&_f[28]), f29: Gt::from_v(&_f[29]), f30: Gt::from_v(&_f[30]), f31: Gt::from_v(&_f[31]), f32: Gt::from_v(&_f[32]), f33: Gt::from_v(&_f[33]), f34: Gt::from_v(&_f[34]), f35: Gt::from_v(&_f[35]), f36: Gt::from_v(&_f[36]), f37: Gt::from_v(&_f[37]), f38: Gt::from_v(&_f[38]), f39: Gt::from_v(&_f[39]), f40: Gt::from_v(&_f[40]), f41: Gt::from_v(&_f[41]), f42: Gt::from_v(&_f[42]), f43: Gt::from_v(&_f[43]), f44: Gt::from_v(&_f[44]), f45: Gt::from_v(&_f[45]), f46: Gt::from_v(&_f[46]), f47: Gt::from_v(&_f[47]), f48: Gt::from_v(&_f[48]), f49: Gt::from_v(&_f[49]), f50: Gt::from_v(&_f[50]), f51: Gt::from_v(&_f[51]), f52: Gt::from_v(&_f[52]), f53: Gt::from_v(&_f[53]), f54: Gt::from_v(&_f[54]), f55: Gt::from_v(&_f[55]), f56: Gt::from_v(&_f[56]), f57: Gt::from_v(&_f[57]), f58: Gt::from_v(&_f[58]), f59: Gt::from_v(&_f[59]), f60: Gt::from_v(&_f[60]), f61: Gt::from_v(&_f[61]), f62: Gt::from_v(&_f[62]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Wide64 {
    pub f0: u8,
    pub f1: String,
    pub f2: u32,
    pub f3: bool,
    pub f4: Option<u8>,
    pub f5: u8,
    pub f6: String,
    pub f7: u32,
    pub f8: bool,
    pub f9: Option<u8>,
    pub f10: u8,
    pub f11: String,
    pub f12: u32,
    pub f13: bool,
    pub f14: Option<u8>,
    pub f15: u8,
    pub f16: String,
    pub f17: u32,
    pub f18: bool,
    pub f19: Option<u8>,
    pub f20: u8,
    pub f21: String,
    pub f22: u32,
    pub f23: bool,
    pub f24: Option<u8>,
    pub f25: u8,
    pub f26: String,
    pub f27: u32,
    pub f28: bool,
    pub f29: Option<u8>,
    pub f30: u8,
    pub f31: String,
    pub f32: u32,
    pub f33: bool,
    pub f34: Option<u8>,
    pub f35: u8,
    pub f36: String,
    pub f37: u32,
    pub f38: bool,
    pub f39: Option<u8>,
    pub f40: u8,
    pub f41: String,
    pub f42: u32,
    pub f43: bool,
    pub f44: Option<u8>,
    pub f45: u8,
    pub f46: String,
    pub f47: u32,
    pub f48: bool,
    pub f49: Option<u8>,
    pub f50: u8,
    pub f51: String,
    pub f52: u32,
    pub f53: bool,
    pub f54: Option<u8>,
    pub f55: u8,
    pub f56: String,
    pub f57: u32,
    pub f58: bool,
    pub f59: Option<u8>,
    pub f60: u8,
    pub f61: String,
    pub f62: u32,
    pub f63: bool,
}
impl Gt for Wide64 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Wide64", Stk::Named, vec![
            Fd::new("f0", ty::<u8>, std::mem::offset_of!(Self, f0)),
            Fd::new("f1", ty::<String>, std::mem::offset_of!(Self, f1)),
            Fd::new("f2", ty::<u32>, std::mem::offset_of!(Self, f2)),
            Fd::new("f3", ty::<bool>, std::mem::offset_of!(Self, f3)),
            Fd::new("f4", ty::<Option<u8>>, std::mem::offset_of!(Self, f4)),
            Fd::new("f5", ty::<u8>, std::mem::offset_of!(Self, f5)),
            Fd::new("f6", ty::<String>, std::mem::offset_of!(Self, f6)),
            Fd::new("f7", ty::<u32>, std::mem::offset_of!(Self, f7)),
            Fd::new("f8", ty::<bool>, std::mem::offset_of!(Self, f8)),
            Fd::new("f9", ty::<Option<u8>>, std::mem::offset_of!(Self, f9)),
            Fd::new("f10", ty::<u8>, std::mem::offset_of!(Self, f10)),
            Fd::new("f11", ty::<String>, std::mem::offset_of!(Self, f11)),
            Fd::new("f12", ty::<u32>, std::mem::offset_of!(Self, f12)),
            Fd::new("f13", ty::<bool>, std::mem::offset_of!(Self, f13)),
            Fd::new("f14", ty::<Option<u8>>, std::mem::offset_of!(Self, f14)),
            Fd::new("f15", ty::<u8>, std::mem::offset_of!(Self, f15)),
            Fd::new("f16", ty::<String>, std::mem::offset_of!(Self, f16)),
            Fd::new("f17", ty::<u32>, std::mem::offset_of!(Self, f17)),
            Fd::new("f18", ty::<bool>, std::mem::offset_of!(Self, f18)),
            Fd::new("f19", ty::<Option<u8>>, std::mem::offset_of!(Self, f19)),
            Fd::new("f20", ty::<u8>, std::mem::offset_of!(Self, f20)),
            Fd::new("f21", ty::<String>, std::mem::offset_of!(Self, f21)),
            Fd::new("f22", ty::<u32>, std::mem::offset_of!(Self, f22)),
            Fd::new("f23", ty::<bool>, std::mem::offset_of!(Self, f23)),
            Fd::new("f24", ty::<Option<u8>>, std::mem::offset_of!(Self, f24)),
            Fd::new("f25", ty::<u8>, std::mem::offset_of!(Self, f25)),
            Fd::new("f26", ty::<String>, std::mem::offset_of!(Self, f26)),
            Fd::new("f27", ty::<u32>, std::mem::offset_of!(Self, f27)),
            Fd::new("f28", ty::<bool>, std::mem::offset_of!(Self, f28)),
            Fd::new("f29", ty::<Option<u8>>, std::mem::offset_of!(Self, f29)),
            Fd::new("f30", ty::<u8>, std::mem::offset_of!(Self, f30)),
            Fd::new("f31", ty::<String>, std::mem::offset_of!(Self, f31)),
            Fd::new("f32", ty::<u32>, std::mem::offset_of!(Self, f32)),
            Fd::new("f33", ty::<bool>, std::mem::offset_of!(Self, f33)),
            Fd::new("f34", ty::<Option<u8>>, std::mem::offset_of!(Self, f34)),
            Fd::new("f35", ty::<u8>, std::mem::offset_of!(Self, f35)),
            Fd::new("f36", ty::<String>, std::mem::offset_of!(Self, f36)),
            Fd::new("f37", ty::<u32>, std::mem::offset_of!(Self, f37)),
            Fd::new("f38", ty::<bool>, std::mem::offset_of!(Self, f38)),
            Fd::new("f39", ty::<Option<u8>>, std::mem::offset_of!(Self, f39)),
            Fd::new("f40", ty::<u8>, std::mem::offset_of!(Self, f40)),
            Fd::new("f41", ty::<String>, std::mem::offset_of!(Self, f41)),
            Fd::new("f42", ty::<u32>, std::mem::offset_of!(Self, f42)),
            Fd::new("f43", ty::<bool>, std::mem::offset_of!(Self, f43)),
            Fd::new("f44", ty::<Option<u8>>, std::mem::offset_of!(Self, f44)),
            Fd::new("f45", ty::<u8>, std::mem::offset_of!(Self, f45)),
            Fd::new("f46", ty::<String>, std::mem::offset_of!(Self, f46)),
            Fd::new("f47", ty::<u32>, std::mem::offset_of!(Self, f47)),
            Fd::new("f48", ty::<bool>, std::mem::offset_of!(Self, f48)),
            Fd::new("f49", ty::<Option<u8>>, std::mem::offset_of!(Self, f49)),
            Fd::new("f50", ty::<u8>, std::mem::offset_of!(Self, f50)),
            Fd::new("f51", ty::<String>, std::mem::offset_of!(Self, f51)),
            Fd::new("f52", ty::<u32>, std::mem::offset_of!(Self, f52)),
            Fd::new("f53", ty::<bool>, std::mem::offset_of!(Self, f53)),
            Fd::new("f54", ty::<Option<u8>>, std::mem::offset_of!(Self, f54)),
            Fd::new("f55", ty::<u8>, std::mem::offset_of!(Self, f55)),
            Fd::new("f56", ty::<String>, std::mem::offset_of!(Self, f56)),
            Fd::new("f57", ty::<u32>, std::mem::offset_of!(Self, f57)),
            Fd::new("f58", ty::<bool>, std::mem::offset_of!(Self, f58)),
            Fd::new("f59", ty::<Option<u8>>, std::mem::offset_of!(Self, f59)),
            Fd::new("f60", ty::<u8>, std::mem::offset_of!(Self, f60)),
            Fd::new("f61", ty::<String>, std::mem::offset_of!(Self, f61)),
            Fd::new("f62", ty::<u32>, std::mem::offset_of!(Self, f62)),
            Fd::new("f63", ty::<bool>, std::mem::offset_of!(Self, f63)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.f0.to_v(), self.f1.to_v(), self.f2.to_v(), self.f3.to_v(), self.f4.to_v(), self.f5.to_v(), self.f6.to_v(), self.f7.to_v(), self.f8.to_v(), self.f9.to_v(), self.f10.to_v(), self.f11.to_v(), self.f12.to_v(), self.f13.to_v(), self.f14.to_v(), self.f15.to_v(), self.f16.to_v(), self.f17.to_v(), self.f18.to_v(), self.f19.to_v(), self.f20.to_v(), self.f21.to_v(), self.f22.to_v(), self.f23.to_v(), self.f24.to_v(), self.f25.to_v(), self.f26.to_v(), self.f27.to_v(), self.f28.to_v(), self.f29.to_v(), self.f30.to_v(), self.f31.to_v(), self.f32.to_v(), self.f33.to_v(), self.f34.to_v(), self.f35.to_v(), self.f36.to_v(), self.f37.to_v(), self.f38.to_v(), self.f39.to_v(), self.f40.to_v(), self.f41.to_v(), self.f42.to_v(), self.f43.to_v(), self.f44.to_v(), self.f45.to_v(), self.f46.to_v(), self.f47.to_v(), self.f48.to_v(), self.f49.to_v(), self.f50.to_v(), self.f51.to_v(), self.f52.to_v(), self.f53.to_v(), self.f54.to_v(), self.f55.to_v(), self.f56.to_v(), self.f57.to_v(), self.f58.to_v(), self.f59.to_v(), self.f60.to_v(), self.f61.to_v(), self.f62.to_v(), self.f63.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Wide64 { f0: Gt::from_v(&_f[0]), f1: Gt::from_v(&_f[1]), f2: Gt::from_v(&_f[2]), f3: Gt::from_v(&_f[3]), f4: Gt::from_v(&_f[4]), f5: Gt::from_v(&_f[5]), f6: Gt::from_v(&_f[6]), f7: Gt::from_v(&_f[7]), f8: Gt::from_v(&_f[8]), f9: Gt::from_v(&_f[9]), f10: Gt::from_v(&_f[10]), f11: Gt::from_v(&_f[11]), f12: Gt::from_v(&_f[12]), f13: Gt::from_v(&_f[13]), f14: Gt::from_v(&_f[14]), f15: Gt::from_v(&_f[15]), f16: Gt::from_v(&_f[16]), f17: Gt::from_v(&_f[17]), f18: Gt::from_v(&_f[18]), f19: Gt::from_v(&_f[19]), f20: Gt::from_v(&_f[20]), f21: Gt::from_v(&_f[21]), f22: Gt::from_v(&_f[22]), f23: Gt::from_v(&_f[23]), f24: Gt::from_v(&_f[24]), f25: Gt::from_v(&_f[25]), f26: Gt::from_v(&_f[26]), f27: Gt::from_v(&_f[27]), f28: Gt::from_v(&_f[28]), f29: Gt::from_v(&_f[29]), f30: Gt::from_v(&_f[30]), f31: Gt::from_v(&_f[31]), f32: Gt::from_v(&_f[32]), f33: Gt::from_v(&_f[33]), f34: Gt::from_v(&_f[34]), f35: Gt::from_v(&_f[35]), f36: Gt::from_v(&_f[36]), f37: Gt::from_v(&_f[37]), f38: Gt::from_v(&_f[38]), f39: Gt::from_v(&_f[39]), f40: Gt::from_v(&_f[40]), f41: Gt::from_v(&_f[41]), f42: Gt::from_v(&_f[42]), f43: Gt::from_v(&_f[43]), f44: Gt::from_v(&_f[44]), f45: Gt::from_v(&_f[45]), f46: Gt::from_v(&_f[46]), f47: Gt::from_v(&_f[47]), f48: Gt::from_v(&_f[48]), f49: Gt::from_v(&_f[49]), f50: Gt::from_v(&_f[50]), f51: Gt::from_v(&_f[51]), f52: Gt::from_v(&_f[52]), f53: Gt::from_v(&_f[53]), f54: Gt::from_v(&_f[54]), f55: Gt::from_v(&_f[55]), f56: Gt::from_v(&_f[56]), f57: Gt::from_v(&_f[57]), f58: Gt::from_v(&_f[58]), f59: Gt::from_v(&_f[59]), f60: Gt::from_v(&_f[60]), f61: Gt::from_v(&_f[61]), f62: Gt::from_v(&_f[62]), f63: Gt::from_v(&_f[63]) } }
}
#[derive(Facet)]
pub struct GOne<A> {
    pub a: A,
    pub v: Vec<A>,
}
impl<A: Gt> Gt for GOne<A> {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>(std::any::type_name::<Self>(), Stk::Named, vec![
            Fd::new("a", ty::<A>, std::mem::offset_of!(Self, a)),
            Fd::new("v", ty::<Vec<A>>, std::mem::offset_of!(Self, v)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.v.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); GOne { a: Gt::from_v(&_f[0]), v: Gt::from_v(&_f[1]) } }
}
#[derive(Facet)]
pub struct GTwo<A, B> {
    pub a: A,
    pub b: B,
    pub o: Option<A>,
}
impl<A: Gt, B: Gt> Gt for GTwo<A, B> {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>(std::any::type_name::<Self>(), Stk::Named, vec![
            Fd::new("a", ty::<A>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<B>, std::mem::offset_of!(Self, b)),
            Fd::new("o", ty::<Option<A>>, std::mem::offset_of!(Self, o)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.o.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); GTwo { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), o: Gt::from_v(&_f[2]) } }
}
#[derive(Facet)]
pub struct GTup<A>( pub A,  pub u8);
impl<A: Gt> Gt for GTup<A> {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>(std::any::type_name::<Self>(), Stk::TupleStruct, vec![
            Fd::new("0", ty::<A>, std::mem::offset_of!(Self, 0)),
            Fd::new("1", ty::<u8>, std::mem::offset_of!(Self, 1)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); GTup(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])) }
}
#[derive(Facet, Debug, Clone, PartialEq, PartialOrd)]
pub struct PartEq {
    pub a: f64,
    pub b: Vec<f32>,
}
impl Gt for PartEq {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("PartEq", Stk::Named, vec![
            Fd::new("a", ty::<f64>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<Vec<f32>>, std::mem::offset_of!(Self, b)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); PartEq { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug)]
pub struct OnlyDebug {
    pub a: u8,
}
impl Gt for OnlyDebug {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("OnlyDebug", Stk::Named, vec![
            Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); OnlyDebug { a: Gt::from_v(&_f[0]) } }
}

/// Displays and parses as `a/b`.
#[derive(Facet, Debug, Clone, PartialEq, Eq)]
pub struct Ratio { pub a: u32, pub b: u32 }
impl std::fmt::Display for Ratio {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if f.alternate() { write!(f, "{} over {}", self.a, self.b) } else { f.pad(&format!("{}/{}", self.a, self.b)) }
    }
}
impl std::str::FromStr for Ratio {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let (a, b) = s.split_once('/').ok_or("no slash")?;
        Ok(Ratio { a: a.parse().map_err(|_| "a")?, b: b.parse().map_err(|_| "b")? })
    }
}
impl Gt for Ratio {
    fn make_ty() -> Ty {
        Ty::strukt::<Self>("Ratio", Stk::Named, vec![Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)), Fd::new("b", ty::<u32>, std::mem::offset_of!(Self, b))])
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let f = v.fields(); Ratio { a: Gt::from_v(&f[0]), b: Gt::from_v(&f[1]) } }
}

#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TrkS {
    pub a: Trk,
    pub b: Option<Trk>,
    pub c: Vec<Trk>,
    pub d: Trk,
}
impl Gt for TrkS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TrkS", Stk::Named, vec![
            Fd::new("a", ty::<Trk>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<Option<Trk>>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Vec<Trk>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<Trk>, std::mem::offset_of!(Self, d)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TrkS { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TrkDeep {
    pub s: TrkS,
    pub e: ETrk,
    pub m: HashMap<String, Trk>,
    pub t: (Trk, u8),
}
impl Gt for TrkDeep {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TrkDeep", Stk::Named, vec![
            Fd::new("s", ty::<TrkS>, std::mem::offset_of!(Self, s)),
            Fd::new("e", ty::<ETrk>, std::mem::offset_of!(Self, e)),
            Fd::new("m", ty::<HashMap<String, Trk>>, std::mem::offset_of!(Self, m)),
            Fd::new("t", ty::<(Trk, u8)>, std::mem::offset_of!(Self, t)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.s.to_v(), self.e.to_v(), self.m.to_v(), self.t.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TrkDeep { s: Gt::from_v(&_f[0]), e: Gt::from_v(&_f[1]), m: Gt::from_v(&_f[2]), t: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TrkKey {
    pub m: BTreeMap<Trk, Trk>,
    pub h: HashMap<Trk, Vec<Trk>>,
}
impl Gt for TrkKey {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TrkKey", Stk::Named, vec![
            Fd::new("m", ty::<BTreeMap<Trk, Trk>>, std::mem::offset_of!(Self, m)),
            Fd::new("h", ty::<HashMap<Trk, Vec<Trk>>>, std::mem::offset_of!(Self, h)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.m.to_v(), self.h.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TrkKey { m: Gt::from_v(&_f[0]), h: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
pub enum ETrk {
    Non,
    One( Trk),
    Two {  a: Trk,  b: Option<Trk> },
    Many( Vec<Trk>,  Trk),
}
impl Gt for ETrk {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("ETrk", "u8", vec![
            Vd { name: "Non", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "One", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<Trk>, usize::MAX)] },
            Vd { name: "Two", kind: Vk::Named, disc: 2, fields: vec![Fd::new("a", ty::<Trk>, usize::MAX), Fd::new("b", ty::<Option<Trk>>, usize::MAX)] },
            Vd { name: "Many", kind: Vk::Tuple, disc: 3, fields: vec![Fd::new("_0", ty::<Vec<Trk>>, usize::MAX), Fd::new("_1", ty::<Trk>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        ETrk::Non => V::En(0, vec![]),
        ETrk::One(f0) => V::En(1, vec![f0.to_v()]),
        ETrk::Two { a, b } => V::En(2, vec![a.to_v(), b.to_v()]),
        ETrk::Many(f0, f1) => V::En(3, vec![f0.to_v(), f1.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => ETrk::Non,
        1 => ETrk::One(Gt::from_v(&_f[0])),
        2 => ETrk::Two { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        3 => ETrk::Many(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Copy)]
#[repr(u8)]
pub enum CLike {
    A,
    B,
    C,
}
impl Gt for CLike {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("CLike", "u8", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Unit, disc: 1, fields: vec![] },
            Vd { name: "C", kind: Vk::Unit, disc: 2, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        CLike::A => V::En(0, vec![]),
        CLike::B => V::En(1, vec![]),
        CLike::C => V::En(2, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => CLike::A,
        1 => CLike::B,
        2 => CLike::C,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Copy)]
#[repr(u8)]
pub enum CDisc {
    Lo = 3,
    Mid,
    Hi = 200,
    Top,
}
impl Gt for CDisc {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("CDisc", "u8", vec![
            Vd { name: "Lo", kind: Vk::Unit, disc: 3, fields: vec![] },
            Vd { name: "Mid", kind: Vk::Unit, disc: 4, fields: vec![] },
            Vd { name: "Hi", kind: Vk::Unit, disc: 200, fields: vec![] },
            Vd { name: "Top", kind: Vk::Unit, disc: 201, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        CDisc::Lo => V::En(0, vec![]),
        CDisc::Mid => V::En(1, vec![]),
        CDisc::Hi => V::En(2, vec![]),
        CDisc::Top => V::En(3, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => CDisc::Lo,
        1 => CDisc::Mid,
        2 => CDisc::Hi,
        3 => CDisc::Top,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(i16)]
pub enum CI16 {
    A = 5,
    B = 300,
    C = 32767,
}
impl Gt for CI16 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("CI16", "i16", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 5, fields: vec![] },
            Vd { name: "B", kind: Vk::Unit, disc: 300, fields: vec![] },
            Vd { name: "C", kind: Vk::Unit, disc: 32767, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        CI16::A => V::En(0, vec![]),
        CI16::B => V::En(1, vec![]),
        CI16::C => V::En(2, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => CI16::A,
        1 => CI16::B,
        2 => CI16::C,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u64)]
pub enum CU64 {
    A,
    B = 1099511627776,
    C,
}
impl Gt for CU64 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("CU64", "u64", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Unit, disc: 1099511627776, fields: vec![] },
            Vd { name: "C", kind: Vk::Unit, disc: 1099511627777, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        CU64::A => V::En(0, vec![]),
        CU64::B => V::En(1, vec![]),
        CU64::C => V::En(2, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => CU64::A,
        1 => CU64::B,
        2 => CU64::C,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum EU8 {
    Unit,
    Tup( u32,  String),
    St {  a: u8,  b: Vec<u16> },
    New( Option<u64>),
}
impl Gt for EU8 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EU8", "u8", vec![
            Vd { name: "Unit", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "Tup", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<u32>, usize::MAX), Fd::new("_1", ty::<String>, usize::MAX)] },
            Vd { name: "St", kind: Vk::Named, disc: 2, fields: vec![Fd::new("a", ty::<u8>, usize::MAX), Fd::new("b", ty::<Vec<u16>>, usize::MAX)] },
            Vd { name: "New", kind: Vk::Tuple, disc: 3, fields: vec![Fd::new("_0", ty::<Option<u64>>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EU8::Unit => V::En(0, vec![]),
        EU8::Tup(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        EU8::St { a, b } => V::En(2, vec![a.to_v(), b.to_v()]),
        EU8::New(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EU8::Unit,
        1 => EU8::Tup(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => EU8::St { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        3 => EU8::New(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
pub enum EU16 {
    A( u8),
    B {  x: u64,  y: u8 },
    C,
}
impl Gt for EU16 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EU16", "u16", vec![
            Vd { name: "A", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "B", kind: Vk::Named, disc: 1, fields: vec![Fd::new("x", ty::<u64>, usize::MAX), Fd::new("y", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 2, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EU16::A(f0) => V::En(0, vec![f0.to_v()]),
        EU16::B { x, y } => V::En(1, vec![x.to_v(), y.to_v()]),
        EU16::C => V::En(2, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EU16::A(Gt::from_v(&_f[0])),
        1 => EU16::B { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        2 => EU16::C,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u32)]
pub enum EU32 {
    A = 7,
    B( String) = 9,
}
impl Gt for EU32 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EU32", "u32", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 7, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 9, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EU32::A => V::En(0, vec![]),
        EU32::B(f0) => V::En(1, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EU32::A,
        1 => EU32::B(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u64)]
pub enum EU64 {
    A( u8,  u16,  u32),
    B,
}
impl Gt for EU64 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EU64", "u64", vec![
            Vd { name: "A", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<u16>, usize::MAX), Fd::new("_2", ty::<u32>, usize::MAX)] },
            Vd { name: "B", kind: Vk::Unit, disc: 1, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EU64::A(f0, f1, f2) => V::En(0, vec![f0.to_v(), f1.to_v(), f2.to_v()]),
        EU64::B => V::En(1, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EU64::A(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2])),
        1 => EU64::B,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(usize)]
pub enum EUsize {
    A,
    B( bool),
}
impl Gt for EUsize {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EUsize", "usize", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<bool>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EUsize::A => V::En(0, vec![]),
        EUsize::B(f0) => V::En(1, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EUsize::A,
        1 => EUsize::B(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(i8)]
pub enum EI8 {
    A = 1,
    B( i64) = 100,
    C = 127,
}
impl Gt for EI8 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EI8", "i8", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 1, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 100, fields: vec![Fd::new("_0", ty::<i64>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 127, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EI8::A => V::En(0, vec![]),
        EI8::B(f0) => V::En(1, vec![f0.to_v()]),
        EI8::C => V::En(2, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EI8::A,
        1 => EI8::B(Gt::from_v(&_f[0])),
        2 => EI8::C,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(i32)]
pub enum EI32 {
    A( String,  u8),
    B {  s: String },
}
impl Gt for EI32 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EI32", "i32", vec![
            Vd { name: "A", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<String>, usize::MAX), Fd::new("_1", ty::<u8>, usize::MAX)] },
            Vd { name: "B", kind: Vk::Named, disc: 1, fields: vec![Fd::new("s", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EI32::A(f0, f1) => V::En(0, vec![f0.to_v(), f1.to_v()]),
        EI32::B { s } => V::En(1, vec![s.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EI32::A(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        1 => EI32::B { s: Gt::from_v(&_f[0]) },
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(i64)]
pub enum EI64 {
    A,
    B( u8),
}
impl Gt for EI64 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EI64", "i64", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EI64::A => V::En(0, vec![]),
        EI64::B(f0) => V::En(1, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EI64::A,
        1 => EI64::B(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(isize)]
pub enum EIsize {
    A,
    B( u8),
}
impl Gt for EIsize {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EIsize", "isize", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EIsize::A => V::En(0, vec![]),
        EIsize::B(f0) => V::En(1, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EIsize::A,
        1 => EIsize::B(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(C)]
pub enum EC {
    A,
    B( u8,  u64),
    D {  p: Point,  s: String },
}
impl Gt for EC {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EC", "C", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<u64>, usize::MAX)] },
            Vd { name: "D", kind: Vk::Named, disc: 2, fields: vec![Fd::new("p", ty::<Point>, usize::MAX), Fd::new("s", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EC::A => V::En(0, vec![]),
        EC::B(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        EC::D { p, s } => V::En(2, vec![p.to_v(), s.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EC::A,
        1 => EC::B(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => EC::D { p: Gt::from_v(&_f[0]), s: Gt::from_v(&_f[1]) },
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(C)]
pub enum ECU {
    A,
    B,
    D = 70000,
}
impl Gt for ECU {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("ECU", "C", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Unit, disc: 1, fields: vec![] },
            Vd { name: "D", kind: Vk::Unit, disc: 70000, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        ECU::A => V::En(0, vec![]),
        ECU::B => V::En(1, vec![]),
        ECU::D => V::En(2, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => ECU::A,
        1 => ECU::B,
        2 => ECU::D,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum ENest {
    Leaf,
    E( EU8),
    S {  n: Nested,  e: EU8 },
    L( Vec<EU8>),
    O( Option<EU8>),
}
impl Gt for ENest {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("ENest", "u8", vec![
            Vd { name: "Leaf", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "E", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<EU8>, usize::MAX)] },
            Vd { name: "S", kind: Vk::Named, disc: 2, fields: vec![Fd::new("n", ty::<Nested>, usize::MAX), Fd::new("e", ty::<EU8>, usize::MAX)] },
            Vd { name: "L", kind: Vk::Tuple, disc: 3, fields: vec![Fd::new("_0", ty::<Vec<EU8>>, usize::MAX)] },
            Vd { name: "O", kind: Vk::Tuple, disc: 4, fields: vec![Fd::new("_0", ty::<Option<EU8>>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        ENest::Leaf => V::En(0, vec![]),
        ENest::E(f0) => V::En(1, vec![f0.to_v()]),
        ENest::S { n, e } => V::En(2, vec![n.to_v(), e.to_v()]),
        ENest::L(f0) => V::En(3, vec![f0.to_v()]),
        ENest::O(f0) => V::En(4, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => ENest::Leaf,
        1 => ENest::E(Gt::from_v(&_f[0])),
        2 => ENest::S { n: Gt::from_v(&_f[0]), e: Gt::from_v(&_f[1]) },
        3 => ENest::L(Gt::from_v(&_f[0])),
        4 => ENest::O(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum ERec {
    Nil,
    Node( u32,  Vec<ERec>),
}
impl Gt for ERec {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("ERec", "u8", vec![
            Vd { name: "Nil", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "Node", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<u32>, usize::MAX), Fd::new("_1", ty::<Vec<ERec>>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        ERec::Nil => V::En(0, vec![]),
        ERec::Node(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => ERec::Nil,
        1 => ERec::Node(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum EOneStruct {
    S {  a: u8,  b: String },
}
impl Gt for EOneStruct {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EOneStruct", "u8", vec![
            Vd { name: "S", kind: Vk::Named, disc: 0, fields: vec![Fd::new("a", ty::<u8>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EOneStruct::S { a, b } => V::En(0, vec![a.to_v(), b.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EOneStruct::S { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum EZst {
    A( ()),
    B( UnitS,  u8),
    C {  z: EmptyS,  w: () },
}
impl Gt for EZst {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EZst", "u8", vec![
            Vd { name: "A", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<()>, usize::MAX)] },
            Vd { name: "B", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<UnitS>, usize::MAX), Fd::new("_1", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Named, disc: 2, fields: vec![Fd::new("z", ty::<EmptyS>, usize::MAX), Fd::new("w", ty::<()>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EZst::A(f0) => V::En(0, vec![f0.to_v()]),
        EZst::B(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        EZst::C { z, w } => V::En(2, vec![z.to_v(), w.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EZst::A(Gt::from_v(&_f[0])),
        1 => EZst::B(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => EZst::C { z: Gt::from_v(&_f[0]), w: Gt::from_v(&_f[1]) },
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum DU8 {
    A = 127,
    B( u8) = 128,
    C = 254,
    D( String),
}
impl Gt for DU8 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DU8", "u8", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 127, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 128, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 254, fields: vec![] },
            Vd { name: "D", kind: Vk::Tuple, disc: 255, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DU8::A => V::En(0, vec![]),
        DU8::B(f0) => V::En(1, vec![f0.to_v()]),
        DU8::C => V::En(2, vec![]),
        DU8::D(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DU8::A,
        1 => DU8::B(Gt::from_v(&_f[0])),
        2 => DU8::C,
        3 => DU8::D(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
pub enum DU16 {
    A = 32767,
    B( u8),
    C = 65534,
    D( String),
}
impl Gt for DU16 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DU16", "u16", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 32767, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 32768, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 65534, fields: vec![] },
            Vd { name: "D", kind: Vk::Tuple, disc: 65535, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DU16::A => V::En(0, vec![]),
        DU16::B(f0) => V::En(1, vec![f0.to_v()]),
        DU16::C => V::En(2, vec![]),
        DU16::D(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DU16::A,
        1 => DU16::B(Gt::from_v(&_f[0])),
        2 => DU16::C,
        3 => DU16::D(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u32)]
pub enum DU32 {
    A = 2147483647,
    B( u8),
    C = 4294967294,
    D( String),
}
impl Gt for DU32 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DU32", "u32", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 2147483647, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 2147483648, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 4294967294, fields: vec![] },
            Vd { name: "D", kind: Vk::Tuple, disc: 4294967295, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DU32::A => V::En(0, vec![]),
        DU32::B(f0) => V::En(1, vec![f0.to_v()]),
        DU32::C => V::En(2, vec![]),
        DU32::D(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DU32::A,
        1 => DU32::B(Gt::from_v(&_f[0])),
        2 => DU32::C,
        3 => DU32::D(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u64)]
pub enum DU64 {
    A = 4294967295,
    B( u8),
    C = 9223372036854775806,
    D( String),
}
impl Gt for DU64 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DU64", "u64", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 4294967295, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 4294967296, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 9223372036854775806, fields: vec![] },
            Vd { name: "D", kind: Vk::Tuple, disc: 9223372036854775807, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DU64::A => V::En(0, vec![]),
        DU64::B(f0) => V::En(1, vec![f0.to_v()]),
        DU64::C => V::En(2, vec![]),
        DU64::D(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DU64::A,
        1 => DU64::B(Gt::from_v(&_f[0])),
        2 => DU64::C,
        3 => DU64::D(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(usize)]
pub enum DUs {
    A = 4294967295,
    B( u8),
    C = 9223372036854775806,
    D( String),
}
impl Gt for DUs {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DUs", "usize", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 4294967295, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 4294967296, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 9223372036854775806, fields: vec![] },
            Vd { name: "D", kind: Vk::Tuple, disc: 9223372036854775807, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DUs::A => V::En(0, vec![]),
        DUs::B(f0) => V::En(1, vec![f0.to_v()]),
        DUs::C => V::En(2, vec![]),
        DUs::D(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DUs::A,
        1 => DUs::B(Gt::from_v(&_f[0])),
        2 => DUs::C,
        3 => DUs::D(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(i8)]
pub enum DI8 {
    A = 126,
    B( u16),
}
impl Gt for DI8 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DI8", "i8", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 126, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 127, fields: vec![Fd::new("_0", ty::<u16>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DI8::A => V::En(0, vec![]),
        DI8::B(f0) => V::En(1, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DI8::A,
        1 => DI8::B(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(i16)]
pub enum DI16 {
    A = 255,
    B( u8),
    C = 32766,
    D( String),
}
impl Gt for DI16 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DI16", "i16", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 255, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 256, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 32766, fields: vec![] },
            Vd { name: "D", kind: Vk::Tuple, disc: 32767, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DI16::A => V::En(0, vec![]),
        DI16::B(f0) => V::En(1, vec![f0.to_v()]),
        DI16::C => V::En(2, vec![]),
        DI16::D(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DI16::A,
        1 => DI16::B(Gt::from_v(&_f[0])),
        2 => DI16::C,
        3 => DI16::D(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(i32)]
pub enum DI32 {
    A = 65535,
    B( u8),
    C = 2147483646,
    D( String),
}
impl Gt for DI32 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DI32", "i32", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 65535, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 65536, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 2147483646, fields: vec![] },
            Vd { name: "D", kind: Vk::Tuple, disc: 2147483647, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DI32::A => V::En(0, vec![]),
        DI32::B(f0) => V::En(1, vec![f0.to_v()]),
        DI32::C => V::En(2, vec![]),
        DI32::D(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DI32::A,
        1 => DI32::B(Gt::from_v(&_f[0])),
        2 => DI32::C,
        3 => DI32::D(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(i64)]
pub enum DI64 {
    A = 2147483647,
    B( u8),
    C = 9223372036854775806,
    D( String),
}
impl Gt for DI64 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DI64", "i64", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 2147483647, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 2147483648, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 9223372036854775806, fields: vec![] },
            Vd { name: "D", kind: Vk::Tuple, disc: 9223372036854775807, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DI64::A => V::En(0, vec![]),
        DI64::B(f0) => V::En(1, vec![f0.to_v()]),
        DI64::C => V::En(2, vec![]),
        DI64::D(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DI64::A,
        1 => DI64::B(Gt::from_v(&_f[0])),
        2 => DI64::C,
        3 => DI64::D(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(isize)]
pub enum DIs {
    A = 2147483647,
    B( u8),
    C = 9223372036854775806,
    D( String),
}
impl Gt for DIs {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DIs", "isize", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 2147483647, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 2147483648, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Unit, disc: 9223372036854775806, fields: vec![] },
            Vd { name: "D", kind: Vk::Tuple, disc: 9223372036854775807, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DIs::A => V::En(0, vec![]),
        DIs::B(f0) => V::En(1, vec![f0.to_v()]),
        DIs::C => V::En(2, vec![]),
        DIs::D(f0) => V::En(3, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DIs::A,
        1 => DIs::B(Gt::from_v(&_f[0])),
        2 => DIs::C,
        3 => DIs::D(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(C, u8)]
pub enum DC8 {
    A = 127,
    B( u64,  u8),
    C {  x: u8,  y: String } = 255,
}
impl Gt for DC8 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DC8", "C, u8", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 127, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 128, fields: vec![Fd::new("_0", ty::<u64>, usize::MAX), Fd::new("_1", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Named, disc: 255, fields: vec![Fd::new("x", ty::<u8>, usize::MAX), Fd::new("y", ty::<String>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DC8::A => V::En(0, vec![]),
        DC8::B(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        DC8::C { x, y } => V::En(2, vec![x.to_v(), y.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DC8::A,
        1 => DC8::B(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => DC8::C { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(C, i16)]
pub enum DC16 {
    A = 300,
    B( u8,  u16),
    C {  x: u8,  y: u32 } = 32767,
}
impl Gt for DC16 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DC16", "C, i16", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 300, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 301, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<u16>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Named, disc: 32767, fields: vec![Fd::new("x", ty::<u8>, usize::MAX), Fd::new("y", ty::<u32>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DC16::A => V::En(0, vec![]),
        DC16::B(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        DC16::C { x, y } => V::En(2, vec![x.to_v(), y.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DC16::A,
        1 => DC16::B(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => DC16::C { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(C, u64)]
pub enum DC64 {
    A = 8589934592,
    B( u8,  u16),
    C {  x: u8,  y: u32 } = 9223372036854775807,
}
impl Gt for DC64 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DC64", "C, u64", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 8589934592, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 8589934593, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<u16>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Named, disc: 9223372036854775807, fields: vec![Fd::new("x", ty::<u8>, usize::MAX), Fd::new("y", ty::<u32>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DC64::A => V::En(0, vec![]),
        DC64::B(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        DC64::C { x, y } => V::En(2, vec![x.to_v(), y.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DC64::A,
        1 => DC64::B(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => DC64::C { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Discs {
    pub a: DU8,
    pub b: DU16,
    pub c: Vec<DU32>,
    pub d: DU64,
    pub e: DI8,
    pub f: Option<DI16>,
    pub g: DI32,
    pub h: DI64,
    pub i: DC8,
    pub j: DC16,
    pub k: DC64,
}
impl Gt for Discs {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Discs", Stk::Named, vec![
            Fd::new("a", ty::<DU8>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<DU16>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Vec<DU32>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<DU64>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<DI8>, std::mem::offset_of!(Self, e)),
            Fd::new("f", ty::<Option<DI16>>, std::mem::offset_of!(Self, f)),
            Fd::new("g", ty::<DI32>, std::mem::offset_of!(Self, g)),
            Fd::new("h", ty::<DI64>, std::mem::offset_of!(Self, h)),
            Fd::new("i", ty::<DC8>, std::mem::offset_of!(Self, i)),
            Fd::new("j", ty::<DC16>, std::mem::offset_of!(Self, j)),
            Fd::new("k", ty::<DC64>, std::mem::offset_of!(Self, k)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v(), self.g.to_v(), self.h.to_v(), self.i.to_v(), self.j.to_v(), self.k.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Discs { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]), g: Gt::from_v(&_f[6]), h: Gt::from_v(&_f[7]), i: Gt::from_v(&_f[8]), j: Gt::from_v(&_f[9]), k: Gt::from_v(&_f[10]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[allow(non_snake_case)]
pub struct Names {
    pub ab: u8,
    pub ab_: u16,
    pub _ab: u32,
    pub aB: u64,
    pub a_b: i8,
    pub AB: i16,
    pub a: String,
    pub abb: bool,
    pub b: Option<u8>,
    pub ba: i32,
}
impl Gt for Names {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Names", Stk::Named, vec![
            Fd::new("ab", ty::<u8>, std::mem::offset_of!(Self, ab)),
            Fd::new("ab_", ty::<u16>, std::mem::offset_of!(Self, ab_)),
            Fd::new("_ab", ty::<u32>, std::mem::offset_of!(Self, _ab)),
            Fd::new("aB", ty::<u64>, std::mem::offset_of!(Self, aB)),
            Fd::new("a_b", ty::<i8>, std::mem::offset_of!(Self, a_b)),
            Fd::new("AB", ty::<i16>, std::mem::offset_of!(Self, AB)),
            Fd::new("a", ty::<String>, std::mem::offset_of!(Self, a)),
            Fd::new("abb", ty::<bool>, std::mem::offset_of!(Self, abb)),
            Fd::new("b", ty::<Option<u8>>, std::mem::offset_of!(Self, b)),
            Fd::new("ba", ty::<i32>, std::mem::offset_of!(Self, ba)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.ab.to_v(), self.ab_.to_v(), self._ab.to_v(), self.aB.to_v(), self.a_b.to_v(), self.AB.to_v(), self.a.to_v(), self.abb.to_v(), self.b.to_v(), self.ba.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Names { ab: Gt::from_v(&_f[0]), ab_: Gt::from_v(&_f[1]), _ab: Gt::from_v(&_f[2]), aB: Gt::from_v(&_f[3]), a_b: Gt::from_v(&_f[4]), AB: Gt::from_v(&_f[5]), a: Gt::from_v(&_f[6]), abb: Gt::from_v(&_f[7]), b: Gt::from_v(&_f[8]), ba: Gt::from_v(&_f[9]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum NamesE {
    Ab,
    AB( u8),
    Ab_ {  x: u8,  X: u16,  x_: String,  _x: bool },
    Abb {  xx: u8,  x: u16 },
    A( u16,  String),
    B,
    AB_( bool),
}
impl Gt for NamesE {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("NamesE", "u8", vec![
            Vd { name: "Ab", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "AB", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "Ab_", kind: Vk::Named, disc: 2, fields: vec![Fd::new("x", ty::<u8>, usize::MAX), Fd::new("X", ty::<u16>, usize::MAX), Fd::new("x_", ty::<String>, usize::MAX), Fd::new("_x", ty::<bool>, usize::MAX)] },
            Vd { name: "Abb", kind: Vk::Named, disc: 3, fields: vec![Fd::new("xx", ty::<u8>, usize::MAX), Fd::new("x", ty::<u16>, usize::MAX)] },
            Vd { name: "A", kind: Vk::Tuple, disc: 4, fields: vec![Fd::new("_0", ty::<u16>, usize::MAX), Fd::new("_1", ty::<String>, usize::MAX)] },
            Vd { name: "B", kind: Vk::Unit, disc: 5, fields: vec![] },
            Vd { name: "AB_", kind: Vk::Tuple, disc: 6, fields: vec![Fd::new("_0", ty::<bool>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        NamesE::Ab => V::En(0, vec![]),
        NamesE::AB(f0) => V::En(1, vec![f0.to_v()]),
        NamesE::Ab_ { x, X, x_, _x } => V::En(2, vec![x.to_v(), X.to_v(), x_.to_v(), _x.to_v()]),
        NamesE::Abb { xx, x } => V::En(3, vec![xx.to_v(), x.to_v()]),
        NamesE::A(f0, f1) => V::En(4, vec![f0.to_v(), f1.to_v()]),
        NamesE::B => V::En(5, vec![]),
        NamesE::AB_(f0) => V::En(6, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => NamesE::Ab,
        1 => NamesE::AB(Gt::from_v(&_f[0])),
        2 => NamesE::Ab_ { x: Gt::from_v(&_f[0]), X: Gt::from_v(&_f[1]), x_: Gt::from_v(&_f[2]), _x: Gt::from_v(&_f[3]) },
        3 => NamesE::Abb { xx: Gt::from_v(&_f[0]), x: Gt::from_v(&_f[1]) },
        4 => NamesE::A(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        5 => NamesE::B,
        6 => NamesE::AB_(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[allow(non_snake_case)]
pub struct NamesDeep {
    pub names: Names,
    pub Names: NamesE,
    pub names_: Vec<NamesE>,
    pub name: Option<Names>,
}
impl Gt for NamesDeep {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("NamesDeep", Stk::Named, vec![
            Fd::new("names", ty::<Names>, std::mem::offset_of!(Self, names)),
            Fd::new("Names", ty::<NamesE>, std::mem::offset_of!(Self, Names)),
            Fd::new("names_", ty::<Vec<NamesE>>, std::mem::offset_of!(Self, names_)),
            Fd::new("name", ty::<Option<Names>>, std::mem::offset_of!(Self, name)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.names.to_v(), self.Names.to_v(), self.names_.to_v(), self.name.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); NamesDeep { names: Gt::from_v(&_f[0]), Names: Gt::from_v(&_f[1]), names_: Gt::from_v(&_f[2]), name: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct KeyS {
    pub a: u8,
    pub b: String,
}
impl Gt for KeyS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("KeyS", Stk::Named, vec![
            Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); KeyS { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum KeyE {
    A,
    B( u8,  String),
    C {  k: KeyS,  t: Option<u8> },
}
impl Gt for KeyE {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("KeyE", "u8", vec![
            Vd { name: "A", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<String>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Named, disc: 2, fields: vec![Fd::new("k", ty::<KeyS>, usize::MAX), Fd::new("t", ty::<Option<u8>>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        KeyE::A => V::En(0, vec![]),
        KeyE::B(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        KeyE::C { k, t } => V::En(2, vec![k.to_v(), t.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => KeyE::A,
        1 => KeyE::B(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => KeyE::C { k: Gt::from_v(&_f[0]), t: Gt::from_v(&_f[1]) },
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct KeyM {
    pub m: BTreeMap<KeyS, u8>,
    pub h: HashMap<KeyS, String>,
    pub e: BTreeMap<KeyE, KeyS>,
    pub t: HashMap<(u8, String), Vec<u8>>,
    pub o: BTreeMap<Option<u8>, u8>,
    pub v: BTreeMap<Vec<String>, u8>,
    pub mm: BTreeMap<BTreeMap<String, u8>, KeyE>,
}
impl Gt for KeyM {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("KeyM", Stk::Named, vec![
            Fd::new("m", ty::<BTreeMap<KeyS, u8>>, std::mem::offset_of!(Self, m)),
            Fd::new("h", ty::<HashMap<KeyS, String>>, std::mem::offset_of!(Self, h)),
            Fd::new("e", ty::<BTreeMap<KeyE, KeyS>>, std::mem::offset_of!(Self, e)),
            Fd::new("t", ty::<HashMap<(u8, String), Vec<u8>>>, std::mem::offset_of!(Self, t)),
            Fd::new("o", ty::<BTreeMap<Option<u8>, u8>>, std::mem::offset_of!(Self, o)),
            Fd::new("v", ty::<BTreeMap<Vec<String>, u8>>, std::mem::offset_of!(Self, v)),
            Fd::new("mm", ty::<BTreeMap<BTreeMap<String, u8>, KeyE>>, std::mem::offset_of!(Self, mm)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.m.to_v(), self.h.to_v(), self.e.to_v(), self.t.to_v(), self.o.to_v(), self.v.to_v(), self.mm.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); KeyM { m: Gt::from_v(&_f[0]), h: Gt::from_v(&_f[1]), e: Gt::from_v(&_f[2]), t: Gt::from_v(&_f[3]), o: Gt::from_v(&_f[4]), v: Gt::from_v(&_f[5]), mm: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TrkKeyS {
    pub k: u8,
    pub a: Trk,
    pub b: Option<Trk>,
}
impl Gt for TrkKeyS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TrkKeyS", Stk::Named, vec![
            Fd::new("k", ty::<u8>, std::mem::offset_of!(Self, k)),
            Fd::new("a", ty::<Trk>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<Option<Trk>>, std::mem::offset_of!(Self, b)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.k.to_v(), self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TrkKeyS { k: Gt::from_v(&_f[0]), a: Gt::from_v(&_f[1]), b: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TrkKeys {
    pub m: BTreeMap<TrkKeyS, Trk>,
    pub h: HashMap<TrkKeyS, Vec<Trk>>,
    pub t: HashMap<(Trk, Trk), Trk>,
}
impl Gt for TrkKeys {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TrkKeys", Stk::Named, vec![
            Fd::new("m", ty::<BTreeMap<TrkKeyS, Trk>>, std::mem::offset_of!(Self, m)),
            Fd::new("h", ty::<HashMap<TrkKeyS, Vec<Trk>>>, std::mem::offset_of!(Self, h)),
            Fd::new("t", ty::<HashMap<(Trk, Trk), Trk>>, std::mem::offset_of!(Self, t)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.m.to_v(), self.h.to_v(), self.t.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TrkKeys { m: Gt::from_v(&_f[0]), h: Gt::from_v(&_f[1]), t: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct WithEnums {
    pub a: CLike,
    pub b: EU8,
    pub c: Option<EU8>,
    pub d: Vec<CLike>,
    pub e: EC,
}
impl Gt for WithEnums {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("WithEnums", Stk::Named, vec![
            Fd::new("a", ty::<CLike>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<EU8>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Option<EU8>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<Vec<CLike>>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<EC>, std::mem::offset_of!(Self, e)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); WithEnums { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct EnumMap {
    pub m: HashMap<String, EU8>,
    pub k: BTreeMap<CLike, u8>,
}
impl Gt for EnumMap {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("EnumMap", Stk::Named, vec![
            Fd::new("m", ty::<HashMap<String, EU8>>, std::mem::offset_of!(Self, m)),
            Fd::new("k", ty::<BTreeMap<CLike, u8>>, std::mem::offset_of!(Self, k)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.m.to_v(), self.k.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); EnumMap { m: Gt::from_v(&_f[0]), k: Gt::from_v(&_f[1]) } }
}

impl Range { pub fn ok(&self) -> bool { self.lo <= self.hi } }
impl Even { pub fn ok(&self) -> bool { self.0 % 2 == 0 } }
impl Sorted { pub fn ok(&self) -> bool { self.v.windows(2).all(|w| w[0] <= w[1]) && self.n as usize == self.v.len() } }
impl InvDflt { pub fn ok(&self) -> bool { self.a < self.b } }
fn hundred() -> u32 { 100 }

#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(invariants = "ok")]
pub struct Range {
    pub lo: i32,
    pub hi: i32,
}
impl Gt for Range {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Range", Stk::Named, vec![
            Fd::new("lo", ty::<i32>, std::mem::offset_of!(Self, lo)),
            Fd::new("hi", ty::<i32>, std::mem::offset_of!(Self, hi)),
        ]);
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.lo.to_v(), self.hi.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Range { lo: Gt::from_v(&_f[0]), hi: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(invariants = "ok")]
pub struct Even( pub u32);
impl Gt for Even {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Even", Stk::TupleStruct, vec![
            Fd::new("0", ty::<u32>, std::mem::offset_of!(Self, 0)),
        ]);
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Even(Gt::from_v(&_f[0])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(invariants = "ok")]
pub struct Sorted {
    pub v: Vec<u8>,
    pub n: u8,
}
impl Gt for Sorted {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Sorted", Stk::Named, vec![
            Fd::new("v", ty::<Vec<u8>>, std::mem::offset_of!(Self, v)),
            Fd::new("n", ty::<u8>, std::mem::offset_of!(Self, n)),
        ]);
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.v.to_v(), self.n.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Sorted { v: Gt::from_v(&_f[0]), n: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(invariants = "ok")]
pub struct InvDflt {
    #[facet(default)]
    pub a: u32,
    #[facet(default = "hundred")]
    pub b: u32,
}
impl Gt for InvDflt {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InvDflt", Stk::Named, vec![
            Fd { default: Dflt::Trait, default_v: Some(|| <u32 as Default>::default().to_v()), ..Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)) },
            Fd { default: Dflt::Fn, default_v: Some(|| hundred().to_v()), ..Fd::new("b", ty::<u32>, std::mem::offset_of!(Self, b)) },
        ]);
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InvDflt { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct HasInv {
    pub r: Range,
    pub e: Option<Even>,
    pub l: Vec<Even>,
    pub m: HashMap<String, Range>,
    pub x: u8,
}
impl Gt for HasInv {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("HasInv", Stk::Named, vec![
            Fd::new("r", ty::<Range>, std::mem::offset_of!(Self, r)),
            Fd::new("e", ty::<Option<Even>>, std::mem::offset_of!(Self, e)),
            Fd::new("l", ty::<Vec<Even>>, std::mem::offset_of!(Self, l)),
            Fd::new("m", ty::<HashMap<String, Range>>, std::mem::offset_of!(Self, m)),
            Fd::new("x", ty::<u8>, std::mem::offset_of!(Self, x)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.r.to_v(), self.e.to_v(), self.l.to_v(), self.m.to_v(), self.x.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); HasInv { r: Gt::from_v(&_f[0]), e: Gt::from_v(&_f[1]), l: Gt::from_v(&_f[2]), m: Gt::from_v(&_f[3]), x: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
#[facet(invariants = "fits")]
pub enum EInv {
    Low( u8),
    High {  v: u32,  s: String },
    Off,
}
impl Gt for EInv {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EInv", "u8", vec![
            Vd { name: "Low", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "High", kind: Vk::Named, disc: 1, fields: vec![Fd::new("v", ty::<u32>, usize::MAX), Fd::new("s", ty::<String>, usize::MAX)] },
            Vd { name: "Off", kind: Vk::Unit, disc: 2, fields: vec![] },
        ]);
        t.invariant = Some(|v| Self::from_v(v).fits());
        t
    }
    fn to_v(&self) -> V { match self {
        EInv::Low(f0) => V::En(0, vec![f0.to_v()]),
        EInv::High { v, s } => V::En(1, vec![v.to_v(), s.to_v()]),
        EInv::Off => V::En(2, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EInv::Low(Gt::from_v(&_f[0])),
        1 => EInv::High { v: Gt::from_v(&_f[0]), s: Gt::from_v(&_f[1]) },
        2 => EInv::Off,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(C)]
#[facet(invariants = "fits")]
pub enum ECInv {
    A( u8,  u8),
    B,
}
impl Gt for ECInv {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("ECInv", "C", vec![
            Vd { name: "A", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<u8>, usize::MAX)] },
            Vd { name: "B", kind: Vk::Unit, disc: 1, fields: vec![] },
        ]);
        t.invariant = Some(|v| Self::from_v(v).fits());
        t
    }
    fn to_v(&self) -> V { match self {
        ECInv::A(f0, f1) => V::En(0, vec![f0.to_v(), f1.to_v()]),
        ECInv::B => V::En(1, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => ECInv::A(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        1 => ECInv::B,
        _ => panic!("harness: variant"),
    } }
}

impl EInv { pub fn fits(&self) -> bool { match self { EInv::Low(x) => *x < 4, EInv::High { v, s } => *v as usize >= s.len(), EInv::Off => true } } }
impl ECInv { pub fn fits(&self) -> bool { match self { ECInv::A(x, y) => x != y, ECInv::B => false } } }


impl NeverU { pub fn ok(&self) -> bool { false } }
impl NeverE { pub fn ok(&self) -> bool { false } }
impl NeverT { pub fn ok(&self) -> bool { false } }
impl AlwaysU { pub fn ok(&self) -> bool { true } }
impl InvVec { pub fn ok(&self) -> bool { self.0.len() != 1 } }
impl InvOpt { pub fn ok(&self) -> bool { self.a.is_some() != self.b.is_some() } }
impl InvNest { pub fn ok(&self) -> bool { self.r.lo != 0 && self.e.len() < 2 } }

#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct NeverU;
impl Gt for NeverU {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("NeverU", Stk::Unit, vec![
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![]) }
    fn from_v(_: &V) -> Self { NeverU }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct NeverE {
}
impl Gt for NeverE {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("NeverE", Stk::Named, vec![
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); NeverE {  } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(invariants = "ok")]
pub struct NeverT( pub (),  pub UnitS);
impl Gt for NeverT {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("NeverT", Stk::TupleStruct, vec![
            Fd::new("0", ty::<()>, std::mem::offset_of!(Self, 0)),
            Fd::new("1", ty::<UnitS>, std::mem::offset_of!(Self, 1)),
        ]);
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); NeverT(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct AlwaysU;
impl Gt for AlwaysU {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("AlwaysU", Stk::Unit, vec![
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![]) }
    fn from_v(_: &V) -> Self { AlwaysU }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct InvVec( pub Vec<String>);
impl Gt for InvVec {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InvVec", Stk::TupleStruct, vec![
            Fd::new("0", ty::<Vec<String>>, std::mem::offset_of!(Self, 0)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InvVec(Gt::from_v(&_f[0])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct InvOpt {
    pub a: Option<u8>,
    pub b: Option<String>,
}
impl Gt for InvOpt {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InvOpt", Stk::Named, vec![
            Fd::new("a", ty::<Option<u8>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<Option<String>>, std::mem::offset_of!(Self, b)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InvOpt { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "ok")]
pub struct InvNest {
    pub r: Range,
    pub e: Vec<Even>,
    pub t: BTreeMap<String, Two>,
}
impl Gt for InvNest {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InvNest", Stk::Named, vec![
            Fd::new("r", ty::<Range>, std::mem::offset_of!(Self, r)),
            Fd::new("e", ty::<Vec<Even>>, std::mem::offset_of!(Self, e)),
            Fd::new("t", ty::<BTreeMap<String, Two>>, std::mem::offset_of!(Self, t)),
        ]);
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.r.to_v(), self.e.to_v(), self.t.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InvNest { r: Gt::from_v(&_f[0]), e: Gt::from_v(&_f[1]), t: Gt::from_v(&_f[2]) } }
}

impl InvU { pub fn ok(&self) -> bool { self.lo <= self.hi && self.name.len() < 4 } }
impl InvUN { pub fn ok(&self) -> bool { self.a.lo != self.b.lo } }
impl InvUL { pub fn ok(&self) -> bool { !self.first.is_empty() || self.last == 0 } }
impl InvTup { pub fn ok(&self) -> bool { self.0 != self.1 } }
impl ArgsInv { pub fn ok(&self) -> bool { self.lo <= self.hi && self.n != 3 } }
impl ArgsInvB { pub fn ok(&self) -> bool { self.k < 9 || self.name.len() < 3 } }

#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct InvU {
    pub lo: u64,
    pub hi: u64,
    pub name: String,
}
impl Gt for InvU {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InvU", Stk::Named, vec![
            Fd::new("lo", ty::<u64>, std::mem::offset_of!(Self, lo)),
            Fd::new("hi", ty::<u64>, std::mem::offset_of!(Self, hi)),
            Fd::new("name", ty::<String>, std::mem::offset_of!(Self, name)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.lo.to_v(), self.hi.to_v(), self.name.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InvU { lo: Gt::from_v(&_f[0]), hi: Gt::from_v(&_f[1]), name: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct InvUL {
    pub first: String,
    pub last: u64,
}
impl Gt for InvUL {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InvUL", Stk::Named, vec![
            Fd::new("first", ty::<String>, std::mem::offset_of!(Self, first)),
            Fd::new("last", ty::<u64>, std::mem::offset_of!(Self, last)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.first.to_v(), self.last.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InvUL { first: Gt::from_v(&_f[0]), last: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct InvUN {
    pub a: InvU,
    pub b: InvUL2,
    pub c: String,
}
impl Gt for InvUN {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InvUN", Stk::Named, vec![
            Fd::new("a", ty::<InvU>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<InvUL2>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<String>, std::mem::offset_of!(Self, c)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InvUN { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct InvUL2 {
    pub lo: u64,
    pub s: String,
}
impl Gt for InvUL2 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InvUL2", Stk::Named, vec![
            Fd::new("lo", ty::<u64>, std::mem::offset_of!(Self, lo)),
            Fd::new("s", ty::<String>, std::mem::offset_of!(Self, s)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.lo.to_v(), self.s.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InvUL2 { lo: Gt::from_v(&_f[0]), s: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct InvTup( pub u8,  pub u8);
impl Gt for InvTup {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InvTup", Stk::TupleStruct, vec![
            Fd::new("0", ty::<u8>, std::mem::offset_of!(Self, 0)),
            Fd::new("1", ty::<u8>, std::mem::offset_of!(Self, 1)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InvTup(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct ArgsInv {
    pub lo: i32,
    pub hi: i32,
    #[facet(positional)]
    pub n: u8,
}
impl Gt for ArgsInv {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArgsInv", Stk::Named, vec![
            Fd::new("lo", ty::<i32>, std::mem::offset_of!(Self, lo)),
            Fd::new("hi", ty::<i32>, std::mem::offset_of!(Self, hi)),
            Fd { positional: true, ..Fd::new("n", ty::<u8>, std::mem::offset_of!(Self, n)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.lo.to_v(), self.hi.to_v(), self.n.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArgsInv { lo: Gt::from_v(&_f[0]), hi: Gt::from_v(&_f[1]), n: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(invariants = "ok")]
pub struct ArgsInvB {
    pub fast: bool,
    pub name: String,
    #[facet(positional)]
    pub k: u16,
}
impl Gt for ArgsInvB {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArgsInvB", Stk::Named, vec![
            Fd::new("fast", ty::<bool>, std::mem::offset_of!(Self, fast)),
            Fd::new("name", ty::<String>, std::mem::offset_of!(Self, name)),
            Fd { positional: true, ..Fd::new("k", ty::<u16>, std::mem::offset_of!(Self, k)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t.invariant = Some(|v| Self::from_v(v).ok());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.fast.to_v(), self.name.to_v(), self.k.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArgsInvB { fast: Gt::from_v(&_f[0]), name: Gt::from_v(&_f[1]), k: Gt::from_v(&_f[2]) } }
}

#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "small")]
#[facet(invariants = "odd")]
pub struct Two { pub a: u32, pub s: String }
impl Two {
    pub fn small(&self) -> bool { self.a < 1000 }
    pub fn odd(&self) -> bool { self.a % 2 == 1 && self.s.len() < 4 }
}
impl Gt for Two {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Two", Stk::Named, vec![Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)), Fd::new("s", ty::<String>, std::mem::offset_of!(Self, s))]);
        t.invariant = Some(|v| { let x = Self::from_v(v); x.small() && x.odd() });
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.s.to_v()]) }
    fn from_v(v: &V) -> Self { let f = v.fields(); Two { a: Gt::from_v(&f[0]), s: Gt::from_v(&f[1]) } }
}


fn dflt_name() -> String { "anonymous".to_string() }
fn dflt_list() -> Vec<u16> { vec![1, 2, 3] }
fn dflt_point() -> Point { Point { x: -1, y: 1 } }
fn dflt_opt() -> Option<String> { Some("d".to_string()) }
impl Default for DfltDeny { fn default() -> Self { DfltDeny { a: 12, b: "cee".to_string(), c: Some(4) } } }
impl Default for DenyThenDflt { fn default() -> Self { DenyThenDflt { a: 13, b: "dee".to_string(), n: DfltDeny::default(), l: vec![DfltDeny::default()] } } }
impl Default for DfltAll { fn default() -> Self { DfltAll { a: 11, b: "bee".to_string(), c: vec![1, 2], d: None, p: Point { x: 5, y: 6 } } } }

#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Ren {
    #[facet(rename = "alpha")]
    pub a: u32,
    #[facet(rename = "b-key \u{e9}")]
    pub b: String,
    pub alpha2: bool,
    #[facet(rename = "a")]
    pub c: Option<u8>,
}
impl Gt for Ren {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Ren", Stk::Named, vec![
            Fd { rename: Some("alpha"), ..Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)) },
            Fd { rename: Some("b-key \u{e9}"), ..Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)) },
            Fd::new("alpha2", ty::<bool>, std::mem::offset_of!(Self, alpha2)),
            Fd { rename: Some("a"), ..Fd::new("c", ty::<Option<u8>>, std::mem::offset_of!(Self, c)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.alpha2.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Ren { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), alpha2: Gt::from_v(&_f[2]), c: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Dflts {
    #[facet(default)]
    pub a: u32,
    #[facet(default = "dflt_name")]
    pub b: String,
    #[facet(default = "dflt_list")]
    pub c: Vec<u16>,
    pub d: u8,
    #[facet(default = "dflt_opt")]
    pub e: Option<String>,
    #[facet(default = "dflt_point")]
    pub p: Point,
    #[facet(default)]
    pub z: String,
}
impl Gt for Dflts {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Dflts", Stk::Named, vec![
            Fd { default: Dflt::Trait, default_v: Some(|| <u32 as Default>::default().to_v()), ..Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)) },
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_name().to_v()), ..Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)) },
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_list().to_v()), ..Fd::new("c", ty::<Vec<u16>>, std::mem::offset_of!(Self, c)) },
            Fd::new("d", ty::<u8>, std::mem::offset_of!(Self, d)),
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_opt().to_v()), ..Fd::new("e", ty::<Option<String>>, std::mem::offset_of!(Self, e)) },
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_point().to_v()), ..Fd::new("p", ty::<Point>, std::mem::offset_of!(Self, p)) },
            Fd { default: Dflt::Trait, default_v: Some(|| <String as Default>::default().to_v()), ..Fd::new("z", ty::<String>, std::mem::offset_of!(Self, z)) },
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.p.to_v(), self.z.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Dflts { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), p: Gt::from_v(&_f[5]), z: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(default)]
pub struct DfltAll {
    pub a: u32,
    pub b: String,
    pub c: Vec<u8>,
    pub d: Option<u8>,
    pub p: Point,
}
impl Gt for DfltAll {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("DfltAll", Stk::Named, vec![
            Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Vec<u8>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<Option<u8>>, std::mem::offset_of!(Self, d)),
            Fd::new("p", ty::<Point>, std::mem::offset_of!(Self, p)),
        ]);
        t.container_default = true;
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.p.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); DfltAll { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), p: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(deny_unknown_fields)]
pub struct Deny {
    pub a: u32,
    pub b: String,
}
impl Gt for Deny {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Deny", Stk::Named, vec![
            Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)),
        ]);
        t.deny_unknown = true;
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Deny { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[facet(deny_unknown_fields)]
pub struct DenyRen {
    #[facet(rename = "A")]
    #[facet(default)]
    pub a: u32,
    pub n: Deny,
    pub l: Vec<Deny>,
}
impl Gt for DenyRen {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("DenyRen", Stk::Named, vec![
            Fd { rename: Some("A"), default: Dflt::Trait, default_v: Some(|| <u32 as Default>::default().to_v()), ..Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)) },
            Fd::new("n", ty::<Deny>, std::mem::offset_of!(Self, n)),
            Fd::new("l", ty::<Vec<Deny>>, std::mem::offset_of!(Self, l)),
        ]);
        t.deny_unknown = true;
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.n.to_v(), self.l.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); DenyRen { a: Gt::from_v(&_f[0]), n: Gt::from_v(&_f[1]), l: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct RenHard {
    #[facet(rename = "a\"b")]
    pub q: u8,
    #[facet(rename = "l\ni\tne")]
    pub n: u16,
    #[facet(rename = "")]
    pub e: Option<u8>,
    #[facet(rename = " sp ace ")]
    pub s: String,
    #[facet(rename = "back\\slash/")]
    pub b: bool,
    #[facet(rename = "\u{1F600}\u{7f}\u{1}")]
    pub u: u8,
    #[facet(rename = "a:b,{}")]
    pub c: i8,
}
impl Gt for RenHard {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("RenHard", Stk::Named, vec![
            Fd { rename: Some("a\"b"), ..Fd::new("q", ty::<u8>, std::mem::offset_of!(Self, q)) },
            Fd { rename: Some("l\ni\tne"), ..Fd::new("n", ty::<u16>, std::mem::offset_of!(Self, n)) },
            Fd { rename: Some(""), ..Fd::new("e", ty::<Option<u8>>, std::mem::offset_of!(Self, e)) },
            Fd { rename: Some(" sp ace "), ..Fd::new("s", ty::<String>, std::mem::offset_of!(Self, s)) },
            Fd { rename: Some("back\\slash/"), ..Fd::new("b", ty::<bool>, std::mem::offset_of!(Self, b)) },
            Fd { rename: Some("\u{1F600}\u{7f}\u{1}"), ..Fd::new("u", ty::<u8>, std::mem::offset_of!(Self, u)) },
            Fd { rename: Some("a:b,{}"), ..Fd::new("c", ty::<i8>, std::mem::offset_of!(Self, c)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.q.to_v(), self.n.to_v(), self.e.to_v(), self.s.to_v(), self.b.to_v(), self.u.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); RenHard { q: Gt::from_v(&_f[0]), n: Gt::from_v(&_f[1]), e: Gt::from_v(&_f[2]), s: Gt::from_v(&_f[3]), b: Gt::from_v(&_f[4]), u: Gt::from_v(&_f[5]), c: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum RenE {
    A { #[facet(rename = "the x")] x: u8, #[facet(rename = "q\"y")] y: String },
    B(#[facet(rename = "zero")] String,  u8),
    C(#[facet(rename = "one")] u8),
    D,
}
impl Gt for RenE {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("RenE", "u8", vec![
            Vd { name: "A", kind: Vk::Named, disc: 0, fields: vec![Fd { rename: Some("the x"), ..Fd::new("x", ty::<u8>, usize::MAX) }, Fd { rename: Some("q\"y"), ..Fd::new("y", ty::<String>, usize::MAX) }] },
            Vd { name: "B", kind: Vk::Tuple, disc: 1, fields: vec![Fd { rename: Some("zero"), ..Fd::new("_0", ty::<String>, usize::MAX) }, Fd::new("_1", ty::<u8>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Tuple, disc: 2, fields: vec![Fd { rename: Some("one"), ..Fd::new("_0", ty::<u8>, usize::MAX) }] },
            Vd { name: "D", kind: Vk::Unit, disc: 3, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        RenE::A { x, y } => V::En(0, vec![x.to_v(), y.to_v()]),
        RenE::B(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        RenE::C(f0) => V::En(2, vec![f0.to_v()]),
        RenE::D => V::En(3, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => RenE::A { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        1 => RenE::B(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => RenE::C(Gt::from_v(&_f[0])),
        3 => RenE::D,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Policy {
    pub d: Dflts,
    pub a: DfltAll,
    pub r: Ren,
    pub l: Vec<Ren>,
    pub m: HashMap<String, DfltAll>,
    pub o: Option<Dflts>,
}
impl Gt for Policy {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Policy", Stk::Named, vec![
            Fd::new("d", ty::<Dflts>, std::mem::offset_of!(Self, d)),
            Fd::new("a", ty::<DfltAll>, std::mem::offset_of!(Self, a)),
            Fd::new("r", ty::<Ren>, std::mem::offset_of!(Self, r)),
            Fd::new("l", ty::<Vec<Ren>>, std::mem::offset_of!(Self, l)),
            Fd::new("m", ty::<HashMap<String, DfltAll>>, std::mem::offset_of!(Self, m)),
            Fd::new("o", ty::<Option<Dflts>>, std::mem::offset_of!(Self, o)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.d.to_v(), self.a.to_v(), self.r.to_v(), self.l.to_v(), self.m.to_v(), self.o.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Policy { d: Gt::from_v(&_f[0]), a: Gt::from_v(&_f[1]), r: Gt::from_v(&_f[2]), l: Gt::from_v(&_f[3]), m: Gt::from_v(&_f[4]), o: Gt::from_v(&_f[5]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(deny_unknown_fields)]
pub struct DenyDflt {
    pub a: u32,
    #[facet(default)]
    pub d: DfltAll,
    #[facet(rename = "ess")]
    #[facet(default)]
    pub s: String,
}
impl Gt for DenyDflt {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("DenyDflt", Stk::Named, vec![
            Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)),
            Fd { default: Dflt::Trait, default_v: Some(|| <DfltAll as Default>::default().to_v()), ..Fd::new("d", ty::<DfltAll>, std::mem::offset_of!(Self, d)) },
            Fd { rename: Some("ess"), default: Dflt::Trait, default_v: Some(|| <String as Default>::default().to_v()), ..Fd::new("s", ty::<String>, std::mem::offset_of!(Self, s)) },
        ]);
        t.deny_unknown = true;
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.d.to_v(), self.s.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); DenyDflt { a: Gt::from_v(&_f[0]), d: Gt::from_v(&_f[1]), s: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(default)]
#[facet(deny_unknown_fields)]
pub struct DfltDeny {
    #[facet(rename = "A")]
    pub a: u32,
    pub b: String,
    #[facet(sensitive)]
    #[facet(rename = "see")]
    pub c: Option<u8>,
}
impl Gt for DfltDeny {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("DfltDeny", Stk::Named, vec![
            Fd { rename: Some("A"), ..Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)) },
            Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)),
            Fd { rename: Some("see"), sensitive: true, ..Fd::new("c", ty::<Option<u8>>, std::mem::offset_of!(Self, c)) },
        ]);
        t.deny_unknown = true;
        t.container_default = true;
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); DfltDeny { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[facet(deny_unknown_fields)]
#[facet(default)]
pub struct DenyThenDflt {
    pub a: u32,
    #[facet(misc = 1)]
    #[facet(rename = "a2")]
    pub b: String,
    pub n: DfltDeny,
    pub l: Vec<DfltDeny>,
}
impl Gt for DenyThenDflt {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("DenyThenDflt", Stk::Named, vec![
            Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)),
            Fd { rename: Some("a2"), ..Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)) },
            Fd::new("n", ty::<DfltDeny>, std::mem::offset_of!(Self, n)),
            Fd::new("l", ty::<Vec<DfltDeny>>, std::mem::offset_of!(Self, l)),
        ]);
        t.deny_unknown = true;
        t.container_default = true;
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.n.to_v(), self.l.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); DenyThenDflt { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), n: Gt::from_v(&_f[2]), l: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct AttrOrder {
    #[facet(default)]
    #[facet(rename = "b")]
    pub a: u32,
    #[facet(default = "dflt_name")]
    #[facet(sensitive)]
    #[facet(rename = "c")]
    pub b: String,
    #[facet(rename = "d")]
    #[facet(sensitive)]
    #[facet(default = "dflt_list")]
    #[facet(last)]
    pub c: Vec<u16>,
    #[facet(first)]
    #[facet(default = "dflt_opt")]
    #[facet(rename = "a")]
    pub d: Option<String>,
    #[facet(default)]
    #[facet(y = 2)]
    pub n: Option<DfltDeny>,
}
impl Gt for AttrOrder {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("AttrOrder", Stk::Named, vec![
            Fd { rename: Some("b"), default: Dflt::Trait, default_v: Some(|| <u32 as Default>::default().to_v()), ..Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)) },
            Fd { rename: Some("c"), sensitive: true, default: Dflt::Fn, default_v: Some(|| dflt_name().to_v()), ..Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)) },
            Fd { rename: Some("d"), sensitive: true, default: Dflt::Fn, default_v: Some(|| dflt_list().to_v()), ..Fd::new("c", ty::<Vec<u16>>, std::mem::offset_of!(Self, c)) },
            Fd { rename: Some("a"), default: Dflt::Fn, default_v: Some(|| dflt_opt().to_v()), ..Fd::new("d", ty::<Option<String>>, std::mem::offset_of!(Self, d)) },
            Fd { default: Dflt::Trait, default_v: Some(|| <Option<DfltDeny> as Default>::default().to_v()), ..Fd::new("n", ty::<Option<DfltDeny>>, std::mem::offset_of!(Self, n)) },
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.n.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); AttrOrder { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), n: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
pub enum AttrOrderE {
    A { #[facet(sensitive)] #[facet(rename = "y")] x: u8, #[facet(first)] #[facet(rename = "x")] y: AttrOrder },
    T(#[facet(z)] DenyThenDflt,  u8),
}
impl Gt for AttrOrderE {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("AttrOrderE", "u16", vec![
            Vd { name: "A", kind: Vk::Named, disc: 0, fields: vec![Fd { rename: Some("y"), sensitive: true, ..Fd::new("x", ty::<u8>, usize::MAX) }, Fd { rename: Some("x"), ..Fd::new("y", ty::<AttrOrder>, usize::MAX) }] },
            Vd { name: "T", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<DenyThenDflt>, usize::MAX), Fd::new("_1", ty::<u8>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        AttrOrderE::A { x, y } => V::En(0, vec![x.to_v(), y.to_v()]),
        AttrOrderE::T(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => AttrOrderE::A { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        1 => AttrOrderE::T(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct ArrBig {
    pub a: [u8; 4],
    pub s: [String; 2],
    pub z: [u32; 0],
    pub p: [Point; 3],
    pub o: Option<[u16; 2]>,
    pub v: Vec<[i8; 2]>,
    pub n: [[u8; 2]; 2],
    pub t: [(u8, String); 2],
}
impl Gt for ArrBig {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArrBig", Stk::Named, vec![
            Fd::new("a", ty::<[u8; 4]>, std::mem::offset_of!(Self, a)),
            Fd::new("s", ty::<[String; 2]>, std::mem::offset_of!(Self, s)),
            Fd::new("z", ty::<[u32; 0]>, std::mem::offset_of!(Self, z)),
            Fd::new("p", ty::<[Point; 3]>, std::mem::offset_of!(Self, p)),
            Fd::new("o", ty::<Option<[u16; 2]>>, std::mem::offset_of!(Self, o)),
            Fd::new("v", ty::<Vec<[i8; 2]>>, std::mem::offset_of!(Self, v)),
            Fd::new("n", ty::<[[u8; 2]; 2]>, std::mem::offset_of!(Self, n)),
            Fd::new("t", ty::<[(u8, String); 2]>, std::mem::offset_of!(Self, t)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.s.to_v(), self.z.to_v(), self.p.to_v(), self.o.to_v(), self.v.to_v(), self.n.to_v(), self.t.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArrBig { a: Gt::from_v(&_f[0]), s: Gt::from_v(&_f[1]), z: Gt::from_v(&_f[2]), p: Gt::from_v(&_f[3]), o: Gt::from_v(&_f[4]), v: Gt::from_v(&_f[5]), n: Gt::from_v(&_f[6]), t: Gt::from_v(&_f[7]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
pub enum ArrE {
    A( [u8; 3]),
    B {  x: [String; 2],  y: [Vec<u8>; 2] },
    C( [[i32; 1]; 2],  u8),
}
impl Gt for ArrE {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("ArrE", "u8", vec![
            Vd { name: "A", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<[u8; 3]>, usize::MAX)] },
            Vd { name: "B", kind: Vk::Named, disc: 1, fields: vec![Fd::new("x", ty::<[String; 2]>, usize::MAX), Fd::new("y", ty::<[Vec<u8>; 2]>, usize::MAX)] },
            Vd { name: "C", kind: Vk::Tuple, disc: 2, fields: vec![Fd::new("_0", ty::<[[i32; 1]; 2]>, usize::MAX), Fd::new("_1", ty::<u8>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        ArrE::A(f0) => V::En(0, vec![f0.to_v()]),
        ArrE::B { x, y } => V::En(1, vec![x.to_v(), y.to_v()]),
        ArrE::C(f0, f1) => V::En(2, vec![f0.to_v(), f1.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => ArrE::A(Gt::from_v(&_f[0])),
        1 => ArrE::B { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        2 => ArrE::C(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Secret {
    pub user: String,
    #[facet(sensitive)]
    pub pass: String,
    #[facet(sensitive)]
    pub pin: u32,
    pub note: Option<String>,
}
impl Gt for Secret {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Secret", Stk::Named, vec![
            Fd::new("user", ty::<String>, std::mem::offset_of!(Self, user)),
            Fd { sensitive: true, ..Fd::new("pass", ty::<String>, std::mem::offset_of!(Self, pass)) },
            Fd { sensitive: true, ..Fd::new("pin", ty::<u32>, std::mem::offset_of!(Self, pin)) },
            Fd::new("note", ty::<Option<String>>, std::mem::offset_of!(Self, note)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.user.to_v(), self.pass.to_v(), self.pin.to_v(), self.note.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Secret { user: Gt::from_v(&_f[0]), pass: Gt::from_v(&_f[1]), pin: Gt::from_v(&_f[2]), note: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct SecretT( pub String, #[facet(sensitive)] pub String, #[facet(sensitive)] pub Vec<String>);
impl Gt for SecretT {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("SecretT", Stk::TupleStruct, vec![
            Fd::new("0", ty::<String>, std::mem::offset_of!(Self, 0)),
            Fd { sensitive: true, ..Fd::new("1", ty::<String>, std::mem::offset_of!(Self, 1)) },
            Fd { sensitive: true, ..Fd::new("2", ty::<Vec<String>>, std::mem::offset_of!(Self, 2)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v(), self.2.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); SecretT(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2])) }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct SecretDeep {
    pub list: Vec<Secret>,
    pub opt: Option<Secret>,
    pub map: HashMap<String, Secret>,
    #[facet(sensitive)]
    pub inner: Nested,
    pub e: SecretE,
    #[facet(sensitive)]
    pub keys: Vec<String>,
    #[facet(sensitive)]
    pub raw: Vec<u8>,
    #[facet(sensitive)]
    pub om: Option<String>,
    #[facet(sensitive)]
    pub mm: HashMap<String, String>,
}
impl Gt for SecretDeep {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("SecretDeep", Stk::Named, vec![
            Fd::new("list", ty::<Vec<Secret>>, std::mem::offset_of!(Self, list)),
            Fd::new("opt", ty::<Option<Secret>>, std::mem::offset_of!(Self, opt)),
            Fd::new("map", ty::<HashMap<String, Secret>>, std::mem::offset_of!(Self, map)),
            Fd { sensitive: true, ..Fd::new("inner", ty::<Nested>, std::mem::offset_of!(Self, inner)) },
            Fd::new("e", ty::<SecretE>, std::mem::offset_of!(Self, e)),
            Fd { sensitive: true, ..Fd::new("keys", ty::<Vec<String>>, std::mem::offset_of!(Self, keys)) },
            Fd { sensitive: true, ..Fd::new("raw", ty::<Vec<u8>>, std::mem::offset_of!(Self, raw)) },
            Fd { sensitive: true, ..Fd::new("om", ty::<Option<String>>, std::mem::offset_of!(Self, om)) },
            Fd { sensitive: true, ..Fd::new("mm", ty::<HashMap<String, String>>, std::mem::offset_of!(Self, mm)) },
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.list.to_v(), self.opt.to_v(), self.map.to_v(), self.inner.to_v(), self.e.to_v(), self.keys.to_v(), self.raw.to_v(), self.om.to_v(), self.mm.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); SecretDeep { list: Gt::from_v(&_f[0]), opt: Gt::from_v(&_f[1]), map: Gt::from_v(&_f[2]), inner: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), keys: Gt::from_v(&_f[5]), raw: Gt::from_v(&_f[6]), om: Gt::from_v(&_f[7]), mm: Gt::from_v(&_f[8]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum SecretE {
    Anon,
    Tok(#[facet(sensitive)] String,  u8),
    Login {  user: String, #[facet(sensitive)] pass: String, #[facet(sensitive)] n: Nested },
}
impl Gt for SecretE {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("SecretE", "u8", vec![
            Vd { name: "Anon", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "Tok", kind: Vk::Tuple, disc: 1, fields: vec![Fd { sensitive: true, ..Fd::new("_0", ty::<String>, usize::MAX) }, Fd::new("_1", ty::<u8>, usize::MAX)] },
            Vd { name: "Login", kind: Vk::Named, disc: 2, fields: vec![Fd::new("user", ty::<String>, usize::MAX), Fd { sensitive: true, ..Fd::new("pass", ty::<String>, usize::MAX) }, Fd { sensitive: true, ..Fd::new("n", ty::<Nested>, usize::MAX) }] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        SecretE::Anon => V::En(0, vec![]),
        SecretE::Tok(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        SecretE::Login { user, pass, n } => V::En(2, vec![user.to_v(), pass.to_v(), n.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => SecretE::Anon,
        1 => SecretE::Tok(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => SecretE::Login { user: Gt::from_v(&_f[0]), pass: Gt::from_v(&_f[1]), n: Gt::from_v(&_f[2]) },
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct SecretOf {
    pub a: [Secret; 1],
    pub p: Arc<Secret>,
    pub op: Option<Arc<SecretE>>,
    pub t: (u8, Secret),
    pub ve: Vec<SecretE>,
    pub bm: BTreeMap<SecretT, u8>,
    pub vm: Vec<HashMap<String, SecretE>>,
    pub sl: &'static [Secret],
    pub oo: Option<Option<Secret>>,
    pub n: SecretNum,
}
impl Gt for SecretOf {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("SecretOf", Stk::Named, vec![
            Fd::new("a", ty::<[Secret; 1]>, std::mem::offset_of!(Self, a)),
            Fd::new("p", ty::<Arc<Secret>>, std::mem::offset_of!(Self, p)),
            Fd::new("op", ty::<Option<Arc<SecretE>>>, std::mem::offset_of!(Self, op)),
            Fd::new("t", ty::<(u8, Secret)>, std::mem::offset_of!(Self, t)),
            Fd::new("ve", ty::<Vec<SecretE>>, std::mem::offset_of!(Self, ve)),
            Fd::new("bm", ty::<BTreeMap<SecretT, u8>>, std::mem::offset_of!(Self, bm)),
            Fd::new("vm", ty::<Vec<HashMap<String, SecretE>>>, std::mem::offset_of!(Self, vm)),
            Fd::new("sl", ty::<&'static [Secret]>, std::mem::offset_of!(Self, sl)),
            Fd::new("oo", ty::<Option<Option<Secret>>>, std::mem::offset_of!(Self, oo)),
            Fd::new("n", ty::<SecretNum>, std::mem::offset_of!(Self, n)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.p.to_v(), self.op.to_v(), self.t.to_v(), self.ve.to_v(), self.bm.to_v(), self.vm.to_v(), self.sl.to_v(), self.oo.to_v(), self.n.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); SecretOf { a: Gt::from_v(&_f[0]), p: Gt::from_v(&_f[1]), op: Gt::from_v(&_f[2]), t: Gt::from_v(&_f[3]), ve: Gt::from_v(&_f[4]), bm: Gt::from_v(&_f[5]), vm: Gt::from_v(&_f[6]), sl: Gt::from_v(&_f[7]), oo: Gt::from_v(&_f[8]), n: Gt::from_v(&_f[9]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct SecretNum {
    #[facet(sensitive)]
    pub i: i64,
    #[facet(sensitive)]
    pub f: f64,
    #[facet(sensitive)]
    pub b: bool,
    #[facet(sensitive)]
    pub c: char,
    #[facet(sensitive)]
    pub e: TmEnum,
    #[facet(sensitive)]
    pub t: (u8, String),
    #[facet(sensitive)]
    pub a: [u8; 1],
    #[facet(sensitive)]
    pub p: Arc<String>,
    #[facet(sensitive)]
    pub o: Option<u8>,
    #[facet(sensitive)]
    pub m: BTreeMap<String, u8>,
    pub shown: u8,
}
impl Gt for SecretNum {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("SecretNum", Stk::Named, vec![
            Fd { sensitive: true, ..Fd::new("i", ty::<i64>, std::mem::offset_of!(Self, i)) },
            Fd { sensitive: true, ..Fd::new("f", ty::<f64>, std::mem::offset_of!(Self, f)) },
            Fd { sensitive: true, ..Fd::new("b", ty::<bool>, std::mem::offset_of!(Self, b)) },
            Fd { sensitive: true, ..Fd::new("c", ty::<char>, std::mem::offset_of!(Self, c)) },
            Fd { sensitive: true, ..Fd::new("e", ty::<TmEnum>, std::mem::offset_of!(Self, e)) },
            Fd { sensitive: true, ..Fd::new("t", ty::<(u8, String)>, std::mem::offset_of!(Self, t)) },
            Fd { sensitive: true, ..Fd::new("a", ty::<[u8; 1]>, std::mem::offset_of!(Self, a)) },
            Fd { sensitive: true, ..Fd::new("p", ty::<Arc<String>>, std::mem::offset_of!(Self, p)) },
            Fd { sensitive: true, ..Fd::new("o", ty::<Option<u8>>, std::mem::offset_of!(Self, o)) },
            Fd { sensitive: true, ..Fd::new("m", ty::<BTreeMap<String, u8>>, std::mem::offset_of!(Self, m)) },
            Fd::new("shown", ty::<u8>, std::mem::offset_of!(Self, shown)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.i.to_v(), self.f.to_v(), self.b.to_v(), self.c.to_v(), self.e.to_v(), self.t.to_v(), self.a.to_v(), self.p.to_v(), self.o.to_v(), self.m.to_v(), self.shown.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); SecretNum { i: Gt::from_v(&_f[0]), f: Gt::from_v(&_f[1]), b: Gt::from_v(&_f[2]), c: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), t: Gt::from_v(&_f[5]), a: Gt::from_v(&_f[6]), p: Gt::from_v(&_f[7]), o: Gt::from_v(&_f[8]), m: Gt::from_v(&_f[9]), shown: Gt::from_v(&_f[10]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct SecretTree {
    #[facet(sensitive)]
    pub v: String,
    pub kids: Vec<SecretTree>,
    pub by: BTreeMap<String, SecretTree>,
    pub w: u8,
}
impl Gt for SecretTree {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("SecretTree", Stk::Named, vec![
            Fd { sensitive: true, ..Fd::new("v", ty::<String>, std::mem::offset_of!(Self, v)) },
            Fd::new("kids", ty::<Vec<SecretTree>>, std::mem::offset_of!(Self, kids)),
            Fd::new("by", ty::<BTreeMap<String, SecretTree>>, std::mem::offset_of!(Self, by)),
            Fd::new("w", ty::<u8>, std::mem::offset_of!(Self, w)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.v.to_v(), self.kids.to_v(), self.by.to_v(), self.w.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); SecretTree { v: Gt::from_v(&_f[0]), kids: Gt::from_v(&_f[1]), by: Gt::from_v(&_f[2]), w: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u16)]
pub enum SecretAll {
    Only( String),
    Sec(#[facet(sensitive)] String),
    Two(#[facet(sensitive)] Secret,  Secret),
    Nm { #[facet(sensitive)] z: Vec<u8> },
    Nest( SecretE,  SecretNum),
    Un,
    Arr( [SecretE; 1],  Arc<SecretT>),
}
impl Gt for SecretAll {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("SecretAll", "u16", vec![
            Vd { name: "Only", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
            Vd { name: "Sec", kind: Vk::Tuple, disc: 1, fields: vec![Fd { sensitive: true, ..Fd::new("_0", ty::<String>, usize::MAX) }] },
            Vd { name: "Two", kind: Vk::Tuple, disc: 2, fields: vec![Fd { sensitive: true, ..Fd::new("_0", ty::<Secret>, usize::MAX) }, Fd::new("_1", ty::<Secret>, usize::MAX)] },
            Vd { name: "Nm", kind: Vk::Named, disc: 3, fields: vec![Fd { sensitive: true, ..Fd::new("z", ty::<Vec<u8>>, usize::MAX) }] },
            Vd { name: "Nest", kind: Vk::Tuple, disc: 4, fields: vec![Fd::new("_0", ty::<SecretE>, usize::MAX), Fd::new("_1", ty::<SecretNum>, usize::MAX)] },
            Vd { name: "Un", kind: Vk::Unit, disc: 5, fields: vec![] },
            Vd { name: "Arr", kind: Vk::Tuple, disc: 6, fields: vec![Fd::new("_0", ty::<[SecretE; 1]>, usize::MAX), Fd::new("_1", ty::<Arc<SecretT>>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        SecretAll::Only(f0) => V::En(0, vec![f0.to_v()]),
        SecretAll::Sec(f0) => V::En(1, vec![f0.to_v()]),
        SecretAll::Two(f0, f1) => V::En(2, vec![f0.to_v(), f1.to_v()]),
        SecretAll::Nm { z } => V::En(3, vec![z.to_v()]),
        SecretAll::Nest(f0, f1) => V::En(4, vec![f0.to_v(), f1.to_v()]),
        SecretAll::Un => V::En(5, vec![]),
        SecretAll::Arr(f0, f1) => V::En(6, vec![f0.to_v(), f1.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => SecretAll::Only(Gt::from_v(&_f[0])),
        1 => SecretAll::Sec(Gt::from_v(&_f[0])),
        2 => SecretAll::Two(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        3 => SecretAll::Nm { z: Gt::from_v(&_f[0]) },
        4 => SecretAll::Nest(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        5 => SecretAll::Un,
        6 => SecretAll::Arr(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct SecretArr( pub [SecretAll; 1]);
impl Gt for SecretArr {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("SecretArr", Stk::TupleStruct, vec![
            Fd::new("0", ty::<[SecretAll; 1]>, std::mem::offset_of!(Self, 0)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); SecretArr(Gt::from_v(&_f[0])) }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct SecretBusy {
    #[facet(sensitive)]
    #[allow(dead_code)]
    pub a: String,
    #[allow(dead_code)]
    #[facet(sensitive)]
    pub b: String,
    #[facet(rename = "see")]
    #[facet(sensitive)]
    pub c: Vec<u8>,
    #[facet(sensitive)]
    #[facet(rename = "dee")]
    pub d: String,
    #[facet(sensitive)]
    #[facet(default)]
    #[facet(x = 1)]
    pub e: u32,
    #[facet(secret_not)]
    #[facet(default = "dflt_opt")]
    #[facet(sensitive)]
    pub f: Option<String>,
    #[allow(dead_code)]
    #[doc(hidden)]
    pub g: String,
    #[cfg(all())]
    #[doc(hidden)]
    #[facet(sensitive)]
    #[allow(dead_code)]
    #[doc(hidden)]
    pub h: Point,
    #[doc = " Documented."]
    #[facet(sensitive)]
    /** block */
    pub i: String,
    #[facet(sensitive)]
    #[facet(positional)]
    #[cfg(all())]
    pub j: u64,
    #[facet(rename = "sensitive")]
    #[facet(not_sensitive)]
    pub k: String,
}
impl Gt for SecretBusy {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("SecretBusy", Stk::Named, vec![
            Fd { sensitive: true, ..Fd::new("a", ty::<String>, std::mem::offset_of!(Self, a)) },
            Fd { sensitive: true, ..Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)) },
            Fd { rename: Some("see"), sensitive: true, ..Fd::new("c", ty::<Vec<u8>>, std::mem::offset_of!(Self, c)) },
            Fd { rename: Some("dee"), sensitive: true, ..Fd::new("d", ty::<String>, std::mem::offset_of!(Self, d)) },
            Fd { sensitive: true, default: Dflt::Trait, default_v: Some(|| <u32 as Default>::default().to_v()), ..Fd::new("e", ty::<u32>, std::mem::offset_of!(Self, e)) },
            Fd { sensitive: true, default: Dflt::Fn, default_v: Some(|| dflt_opt().to_v()), ..Fd::new("f", ty::<Option<String>>, std::mem::offset_of!(Self, f)) },
            Fd::new("g", ty::<String>, std::mem::offset_of!(Self, g)),
            Fd { sensitive: true, ..Fd::new("h", ty::<Point>, std::mem::offset_of!(Self, h)) },
            Fd { sensitive: true, ..Fd::new("i", ty::<String>, std::mem::offset_of!(Self, i)) },
            Fd { sensitive: true, positional: true, ..Fd::new("j", ty::<u64>, std::mem::offset_of!(Self, j)) },
            Fd { rename: Some("sensitive"), ..Fd::new("k", ty::<String>, std::mem::offset_of!(Self, k)) },
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v(), self.g.to_v(), self.h.to_v(), self.i.to_v(), self.j.to_v(), self.k.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); SecretBusy { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]), g: Gt::from_v(&_f[6]), h: Gt::from_v(&_f[7]), i: Gt::from_v(&_f[8]), j: Gt::from_v(&_f[9]), k: Gt::from_v(&_f[10]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct SecretBusyT( pub u8, #[facet(sensitive)] #[allow(dead_code)] #[cfg(all())] pub String, #[facet(sensitive)] #[facet(last)] pub Vec<String>, #[doc(hidden)] pub String, #[facet(first)] #[facet(sensitive)] #[doc(hidden)] pub u16);
impl Gt for SecretBusyT {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("SecretBusyT", Stk::TupleStruct, vec![
            Fd::new("0", ty::<u8>, std::mem::offset_of!(Self, 0)),
            Fd { sensitive: true, ..Fd::new("1", ty::<String>, std::mem::offset_of!(Self, 1)) },
            Fd { sensitive: true, ..Fd::new("2", ty::<Vec<String>>, std::mem::offset_of!(Self, 2)) },
            Fd::new("3", ty::<String>, std::mem::offset_of!(Self, 3)),
            Fd { sensitive: true, ..Fd::new("4", ty::<u16>, std::mem::offset_of!(Self, 4)) },
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v(), self.2.to_v(), self.3.to_v(), self.4.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); SecretBusyT(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2]), Gt::from_v(&_f[3]), Gt::from_v(&_f[4])) }
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(i8)]
pub enum SecretBusyE {
    T(#[facet(sensitive)] #[allow(dead_code)] String, #[allow(dead_code)] u8),
    N { #[cfg(all())] #[facet(sensitive)] #[doc(hidden)] a: String, #[facet(sensitive)] #[facet(a)] /** block */ b: u32, #[doc(hidden)] c: u8 },
    L( Vec<SecretBusyT>,  Option<SecretBusy>),
}
impl Gt for SecretBusyE {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("SecretBusyE", "i8", vec![
            Vd { name: "T", kind: Vk::Tuple, disc: 0, fields: vec![Fd { sensitive: true, ..Fd::new("_0", ty::<String>, usize::MAX) }, Fd::new("_1", ty::<u8>, usize::MAX)] },
            Vd { name: "N", kind: Vk::Named, disc: 1, fields: vec![Fd { sensitive: true, ..Fd::new("a", ty::<String>, usize::MAX) }, Fd { sensitive: true, ..Fd::new("b", ty::<u32>, usize::MAX) }, Fd::new("c", ty::<u8>, usize::MAX)] },
            Vd { name: "L", kind: Vk::Tuple, disc: 2, fields: vec![Fd::new("_0", ty::<Vec<SecretBusyT>>, usize::MAX), Fd::new("_1", ty::<Option<SecretBusy>>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        SecretBusyE::T(f0, f1) => V::En(0, vec![f0.to_v(), f1.to_v()]),
        SecretBusyE::N { a, b, c } => V::En(1, vec![a.to_v(), b.to_v(), c.to_v()]),
        SecretBusyE::L(f0, f1) => V::En(2, vec![f0.to_v(), f1.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => SecretBusyE::T(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        1 => SecretBusyE::N { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]) },
        2 => SecretBusyE::L(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        _ => panic!("harness: variant"),
    } }
}
/// A documented one.
///
/// With a gap.
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Doc1 {
    #[doc = " First."]
    #[doc = " More on the first."]
    pub a: u8,
    pub b: String,
    #[doc = " Third."]
    pub c: Option<u8>,
    #[doc = " Never shown."]
    #[facet(sensitive)]
    pub s: String,
}
impl Gt for Doc1 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Doc1", Stk::Named, vec![
            Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Option<u8>>, std::mem::offset_of!(Self, c)),
            Fd { sensitive: true, ..Fd::new("s", ty::<String>, std::mem::offset_of!(Self, s)) },
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.s.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Doc1 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), s: Gt::from_v(&_f[3]) } }
}
/// A documented choice.
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
pub enum DocE {
    /// Nothing in it.
    Plain,
    /// Two things.
    Tup(#[doc = " Zeroth."] u8,  Doc1),
    Nm { #[doc = " The x."] x: i32, #[doc = " The y."] y: Doc1 },
    Bare,
}
impl Gt for DocE {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("DocE", "u8", vec![
            Vd { name: "Plain", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "Tup", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<Doc1>, usize::MAX)] },
            Vd { name: "Nm", kind: Vk::Named, disc: 2, fields: vec![Fd::new("x", ty::<i32>, usize::MAX), Fd::new("y", ty::<Doc1>, usize::MAX)] },
            Vd { name: "Bare", kind: Vk::Unit, disc: 3, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        DocE::Plain => V::En(0, vec![]),
        DocE::Tup(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        DocE::Nm { x, y } => V::En(2, vec![x.to_v(), y.to_v()]),
        DocE::Bare => V::En(3, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => DocE::Plain,
        1 => DocE::Tup(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => DocE::Nm { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        3 => DocE::Bare,
        _ => panic!("harness: variant"),
    } }
}
/// Blank at the end. 
///no blank
///   
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct DocOdd {
    #[doc = " ends in a blank "]
    pub a: u8,
    #[doc = ""]
    pub b: u8,
    #[doc = "\tnot a blank first"]
    #[doc = ""]
    #[doc = "  indented  "]
    #[doc = " \u{e9}\u{1F600} // /// \" quoted"]
    pub c: u8,
    #[doc = " "]
    pub d: Vec<u8>,
}
impl Gt for DocOdd {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("DocOdd", Stk::Named, vec![
            Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<u8>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<u8>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<Vec<u8>>, std::mem::offset_of!(Self, d)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); DocOdd { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
pub enum EEmpty {
    A {  },
    B(),
    C,
    D {  x: u8,  y: String },
    F( u8),
}
impl Gt for EEmpty {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EEmpty", "u8", vec![
            Vd { name: "A", kind: Vk::Named, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 1, fields: vec![] },
            Vd { name: "C", kind: Vk::Unit, disc: 2, fields: vec![] },
            Vd { name: "D", kind: Vk::Named, disc: 3, fields: vec![Fd::new("x", ty::<u8>, usize::MAX), Fd::new("y", ty::<String>, usize::MAX)] },
            Vd { name: "F", kind: Vk::Tuple, disc: 4, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EEmpty::A {  } => V::En(0, vec![]),
        EEmpty::B() => V::En(1, vec![]),
        EEmpty::C => V::En(2, vec![]),
        EEmpty::D { x, y } => V::En(3, vec![x.to_v(), y.to_v()]),
        EEmpty::F(f0) => V::En(4, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EEmpty::A {  },
        1 => EEmpty::B(),
        2 => EEmpty::C,
        3 => EEmpty::D { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        4 => EEmpty::F(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
///
///e
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u16)]
pub enum EEmptyDoc {
    /// Braces. 
    A {  },
    ///Parentheses
    B() = 7,
    ///  
    C,
}
impl Gt for EEmptyDoc {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EEmptyDoc", "u16", vec![
            Vd { name: "A", kind: Vk::Named, disc: 0, fields: vec![] },
            Vd { name: "B", kind: Vk::Tuple, disc: 7, fields: vec![] },
            Vd { name: "C", kind: Vk::Unit, disc: 8, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EEmptyDoc::A {  } => V::En(0, vec![]),
        EEmptyDoc::B() => V::En(1, vec![]),
        EEmptyDoc::C => V::En(2, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EEmptyDoc::A {  },
        1 => EEmptyDoc::B(),
        2 => EEmptyDoc::C,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
pub enum EMany {
    V0,
    V1,
    V2,
    V3 {  a: u16,  b: String },
    V4,
    V5,
    V6,
    V7,
    V8,
    V9 {  a: u16,  b: String },
    V10,
    V11,
    V12,
    V13,
    V14,
    V15 {  a: u16,  b: String },
    V16,
    V17,
    V18,
    V19,
    V20,
    V21 {  a: u16,  b: String },
    V22,
    V23,
    V24,
    V25,
    V26,
    V27 {  a: u16,  b: String },
    V28,
    V29,
    V30,
    V31,
    V32,
    V33 {  a: u16,  b: String },
    V34,
    V35,
    V36,
    V37,
    V38,
    V39 {  a: u16,  b: String },
    V40,
    V41,
    V42,
    V43,
    V44,
    V45 {  a: u16,  b: String },
    V46,
    V47,
    V48,
    V49,
    V50,
    V51 {  a: u16,  b: String },
    V52,
    V53,
    V54,
    V55,
    V56,
    V57 {  a: u16,  b: String },
    V58,
    V59,
    V60,
    V61,
    V62,
    V63 {  a: u16,  b: String },
    V64,
    V65,
    V66,
    V67,
    V68,
    V69 {  a: u16,  b: String },
    V70,
    V71,
    V72,
    V73,
    V74,
    V75 {  a: u16,  b: String },
    V76,
    V77,
    V78,
    V79,
    V80,
    V81 {  a: u16,  b: String },
    V82,
    V83,
    V84,
    V85,
    V86,
    V87 {  a: u16,  b: String },
    V88,
    V89,
    V90,
    V91,
    V92,
    V93 {  a: u16,  b: String },
    V94,
    V95,
    V96,
    V97,
    V98,
    V99 {  a: u16,  b: String },
    V100,
    V101,
    V102,
    V103,
    V104,
    V105 {  a: u16,  b: String },
    V106,
    V107,
    V108,
    V109,
    V110,
    V111 {  a: u16,  b: String },
    V112,
    V113,
    V114,
    V115,
    V116,
    V117 {  a: u16,  b: String },
    V118,
    V119,
    V120,
    V121,
    V122,
    V123 {  a: u16,  b: String },
    V124,
    V125,
    V126,
    V127,
    V128,
    V129 {  a: u16,  b: String },
    V130,
    V131,
    V132,
    V133,
    V134,
    V135 {  a: u16,  b: String },
    V136,
    V137,
    V138,
    V139,
    V140,
    V141 {  a: u16,  b: String },
    V142,
    V143,
    V144,
    V145,
    V146,
    V147 {  a: u16,  b: String },
    V148,
    V149,
    V150,
    V151,
    V152,
    V153 {  a: u16,  b: String },
    V154,
    V155,
    V156,
    V157,
    V158,
    V159 {  a: u16,  b: String },
    V160,
    V161,
    V162,
    V163,
    V164,
    V165 {  a: u16,  b: String },
    V166,
    V167,
    V168,
    V169,
    V170,
    V171 {  a: u16,  b: String },
    V172,
    V173,
    V174,
    V175,
    V176,
    V177 {  a: u16,  b: String },
    V178,
    V179,
    V180,
    V181,
    V182,
    V183 {  a: u16,  b: String },
    V184,
    V185,
    V186,
    V187,
    V188,
    V189 {  a: u16,  b: String },
    V190,
    V191,
    V192,
    V193,
    V194,
    V195 {  a: u16,  b: String },
    V196,
    V197,
    V198,
    V199,
    V200,
    V201 {  a: u16,  b: String },
    V202,
    V203,
    V204,
    V205,
    V206,
    V207 {  a: u16,  b: String },
    V208,
    V209,
    V210,
    V211,
    V212,
    V213 {  a: u16,  b: String },
    V214,
    V215,
    V216,
    V217,
    V218,
    V219 {  a: u16,  b: String },
    V220,
    V221,
    V222,
    V223,
    V224,
    V225 {  a: u16,  b: String },
    V226,
    V227,
    V228,
    V229,
    V230,
    V231 {  a: u16,  b: String },
    V232,
    V233,
    V234,
    V235,
    V236,
    V237 {  a: u16,  b: String },
    V238,
    V239,
    V240,
    V241,
    V242,
    V243 {  a: u16,  b: String },
    V244,
    V245,
    V246,
    V247,
    V248,
    V249 {  a: u16,  b: String },
    V250,
    V251,
    V252,
    V253( u8),
    V254,
    V255 {  a: u16,  b: String },
    V256( String,  u32),
    V257,
    V258,
    V259( u8),
    V260,
    V261 {  a: u16,  b: String },
    V262( String,  u32),
    V263,
    V264,
    V265( u8),
    V266,
    V267 {  a: u16,  b: String },
    V268( String,  u32),
    V269,
    V270,
    V271( u8),
    V272,
    V273 {  a: u16,  b: String },
    V274( String,  u32),
    V275,
    V276,
    V277( u8),
    V278,
    V279 {  a: u16,  b: String },
    V280( String,  u32),
    V281,
    V282,
    V283( u8),
    V284,
    V285 {  a: u16,  b: String },
    V286( String,  u32),
    V287,
    V288,
    V289( u8),
    V290,
    V291 {  a: u16,  b: String },
    V292( String,  u32),
    V293,
    V294,
    V295( u8),
    V296,
    V297 {  a: u16,  b: String },
    V298( String,  u32),
    V299,
}
impl Gt for EMany {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EMany", "u16", vec![
            Vd { name: "V0", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "V1", kind: Vk::Unit, disc: 1, fields: vec![] },
            Vd { name: "V2", kind: Vk::Unit, disc: 2, fields: vec![] },
            Vd { name: "V3", kind: Vk::Named, disc: 3, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V4", kind: Vk::Unit, disc: 4, fields: vec![] },
            Vd { name: "V5", kind: Vk::Unit, disc: 5, fields: vec![] },
            Vd { name: "V6", kind: Vk::Unit, disc: 6, fields: vec![] },
            Vd { name: "V7", kind: Vk::Unit, disc: 7, fields: vec![] },
            Vd { name: "V8", kind: Vk::Unit, disc: 8, fields: vec![] },
            Vd { name: "V9", kind: Vk::Named, disc: 9, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V10", kind: Vk::Unit, disc: 10, fields: vec![] },
            Vd { name: "V11", kind: Vk::Unit, disc: 11, fields: vec![] },
            Vd { name: "V12", kind: Vk::Unit, disc: 12, fields: vec![] },
            Vd { name: "V13", kind: Vk::Unit, disc: 13, fields: vec![] },
            Vd { name: "V14", kind: Vk::Unit, disc: 14, fields: vec![] },
            Vd { name: "V15", kind: Vk::Named, disc: 15, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V16", kind: Vk::Unit, disc: 16, fields: vec![] },
            Vd { name: "V17", kind: Vk::Unit, disc: 17, fields: vec![] },
            Vd { name: "V18", kind: Vk::Unit, disc: 18, fields: vec![] },
            Vd { name: "V19", kind: Vk::Unit, disc: 19, fields: vec![] },
            Vd { name: "V20", kind: Vk::Unit, disc: 20, fields: vec![] },
            Vd { name: "V21", kind: Vk::Named, disc: 21, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V22", kind: Vk::Unit, disc: 22, fields: vec![] },
            Vd { name: "V23", kind: Vk::Unit, disc: 23, fields: vec![] },
            Vd { name: "V24", kind: Vk::Unit, disc: 24, fields: vec![] },
            Vd { name: "V25", kind: Vk::Unit, disc: 25, fields: vec![] },
            Vd { name: "V26", kind: Vk::Unit, disc: 26, fields: vec![] },
            Vd { name: "V27", kind: Vk::Named, disc: 27, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V28", kind: Vk::Unit, disc: 28, fields: vec![] },
            Vd { name: "V29", kind: Vk::Unit, disc: 29, fields: vec![] },
            Vd { name: "V30", kind: Vk::Unit, disc: 30, fields: vec![] },
            Vd { name: "V31", kind: Vk::Unit, disc: 31, fields: vec![] },
            Vd { name: "V32", kind: Vk::Unit, disc: 32, fields: vec![] },
            Vd { name: "V33", kind: Vk::Named, disc: 33, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V34", kind: Vk::Unit, disc: 34, fields: vec![] },
            Vd { name: "V35", kind: Vk::Unit, disc: 35, fields: vec![] },
            Vd { name: "V36", kind: Vk::Unit, disc: 36, fields: vec![] },
            Vd { name: "V37", kind: Vk::Unit, disc: 37, fields: vec![] },
            Vd { name: "V38", kind: Vk::Unit, disc: 38, fields: vec![] },
            Vd { name: "V39", kind: Vk::Named, disc: 39, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V40", kind: Vk::Unit, disc: 40, fields: vec![] },
            Vd { name: "V41", kind: Vk::Unit, disc: 41, fields: vec![] },
            Vd { name: "V42", kind: Vk::Unit, disc: 42, fields: vec![] },
            Vd { name: "V43", kind: Vk::Unit, disc: 43, fields: vec![] },
            Vd { name: "V44", kind: Vk::Unit, disc: 44, fields: vec![] },
            Vd { name: "V45", kind: Vk::Named, disc: 45, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V46", kind: Vk::Unit, disc: 46, fields: vec![] },
            Vd { name: "V47", kind: Vk::Unit, disc: 47, fields: vec![] },
            Vd { name: "V48", kind: Vk::Unit, disc: 48, fields: vec![] },
            Vd { name: "V49", kind: Vk::Unit, disc: 49, fields: vec![] },
            Vd { name: "V50", kind: Vk::Unit, disc: 50, fields: vec![] },
            Vd { name: "V51", kind: Vk::Named, disc: 51, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V52", kind: Vk::Unit, disc: 52, fields: vec![] },
            Vd { name: "V53", kind: Vk::Unit, disc: 53, fields: vec![] },
            Vd { name: "V54", kind: Vk::Unit, disc: 54, fields: vec![] },
            Vd { name: "V55", kind: Vk::Unit, disc: 55, fields: vec![] },
            Vd { name: "V56", kind: Vk::Unit, disc: 56, fields: vec![] },
            Vd { name: "V57", kind: Vk::Named, disc: 57, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V58", kind: Vk::Unit, disc: 58, fields: vec![] },
            Vd { name: "V59", kind: Vk::Unit, disc: 59, fields: vec![] },
            Vd { name: "V60", kind: Vk::Unit, disc: 60, fields: vec![] },
            Vd { name: "V61", kind: Vk::Unit, disc: 61, fields: vec![] },
            Vd { name: "V62", kind: Vk::Unit, disc: 62, fields: vec![] },
            Vd { name: "V63", kind: Vk::Named, disc: 63, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V64", kind: Vk::Unit, disc: 64, fields: vec![] },
            Vd { name: "V65", kind: Vk::Unit, disc: 65, fields: vec![] },
            Vd { name: "V66", kind: Vk::Unit, disc: 66, fields: vec![] },
            Vd { name: "V67", kind: Vk::Unit, disc: 67, fields: vec![] },
            Vd { name: "V68", kind: Vk::Unit, disc: 68, fields: vec![] },
            Vd { name: "V69", kind: Vk::Named, disc: 69, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V70", kind: Vk::Unit, disc: 70, fields: vec![] },
            Vd { name: "V71", kind: Vk::Unit, disc: 71, fields: vec![] },
            Vd { name: "V72", kind: Vk::Unit, disc: 72, fields: vec![] },
            Vd { name: "V73", kind: Vk::Unit, disc: 73, fields: vec![] },
            Vd { name: "V74", kind: Vk::Unit, disc: 74, fields: vec![] },
            Vd { name: "V75", kind: Vk::Named, disc: 75, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V76", kind: Vk::Unit, disc: 76, fields: vec![] },
            Vd { name: "V77", kind: Vk::Unit, disc: 77, fields: vec![] },
            Vd { name: "V78", kind: Vk::Unit, disc: 78, fields: vec![] },
            Vd { name: "V79", kind: Vk::Unit, disc: 79, fields: vec![] },
            Vd { name: "V80", kind: Vk::Unit, disc: 80, fields: vec![] },
            Vd { name: "V81", kind: Vk::Named, disc: 81, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V82", kind: Vk::Unit, disc: 82, fields: vec![] },
            Vd { name: "V83", kind: Vk::Unit, disc: 83, fields: vec![] },
            Vd { name: "V84", kind: Vk::Unit, disc: 84, fields: vec![] },
            Vd { name: "V85", kind: Vk::Unit, disc: 85, fields: vec![] },
            Vd { name: "V86", kind: Vk::Unit, disc: 86, fields: vec![] },
            Vd { name: "V87", kind: Vk::Named, disc: 87, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V88", kind: Vk::Unit, disc: 88, fields: vec![] },
            Vd { name: "V89", kind: Vk::Unit, disc: 89, fields: vec![] },
            Vd { name: "V90", kind: Vk::Unit, disc: 90, fields: vec![] },
            Vd { name: "V91", kind: Vk::Unit, disc: 91, fields: vec![] },
            Vd { name: "V92", kind: Vk::Unit, disc: 92, fields: vec![] },
            Vd { name: "V93", kind: Vk::Named, disc: 93, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V94", kind: Vk::Unit, disc: 94, fields: vec![] },
            Vd { name: "V95", kind: Vk::Unit, disc: 95, fields: vec![] },
            Vd { name: "V96", kind: Vk::Unit, disc: 96, fields: vec![] },
            Vd { name: "V97", kind: Vk::Unit, disc: 97, fields: vec![] },
            Vd { name: "V98", kind: Vk::Unit, disc: 98, fields: vec![] },
            Vd { name: "V99", kind: Vk::Named, disc: 99, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V100", kind: Vk::Unit, disc: 100, fields: vec![] },
            Vd { name: "V101", kind: Vk::Unit, disc: 101, fields: vec![] },
            Vd { name: "V102", kind: Vk::Unit, disc: 102, fields: vec![] },
            Vd { name: "V103", kind: Vk::Unit, disc: 103, fields: vec![] },
            Vd { name: "V104", kind: Vk::Unit, disc: 104, fields: vec![] },
            Vd { name: "V105", kind: Vk::Named, disc: 105, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V106", kind: Vk::Unit, disc: 106, fields: vec![] },
            Vd { name: "V107", kind: Vk::Unit, disc: 107, fields: vec![] },
            Vd { name: "V108", kind: Vk::Unit, disc: 108, fields: vec![] },
            Vd { name: "V109", kind: Vk::Unit, disc: 109, fields: vec![] },
            Vd { name: "V110", kind: Vk::Unit, disc: 110, fields: vec![] },
            Vd { name: "V111", kind: Vk::Named, disc: 111, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V112", kind: Vk::Unit, disc: 112, fields: vec![] },
            Vd { name: "V113", kind: Vk::Unit, disc: 113, fields: vec![] },
            Vd { name: "V114", kind: Vk::Unit, disc: 114, fields: vec![] },
            Vd { name: "V115", kind: Vk::Unit, disc: 115, fields: vec![] },
            Vd { name: "V116", kind: Vk::Unit, disc: 116, fields: vec![] },
            Vd { name: "V117", kind: Vk::Named, disc: 117, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V118", kind: Vk::Unit, disc: 118, fields: vec![] },
            Vd { name: "V119", kind: Vk::Unit, disc: 119, fields: vec![] },
            Vd { name: "V120", kind: Vk::Unit, disc: 120, fields: vec![] },
            Vd { name: "V121", kind: Vk::Unit, disc: 121, fields: vec![] },
            Vd { name: "V122", kind: Vk::Unit, disc: 122, fields: vec![] },
            Vd { name: "V123", kind: Vk::Named, disc: 123, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V124", kind: Vk::Unit, disc: 124, fields: vec![] },
            Vd { name: "V125", kind: Vk::Unit, disc: 125, fields: vec![] },
            Vd { name: "V126", kind: Vk::Unit, disc: 126, fields: vec![] },
            Vd { name: "V127", kind: Vk::Unit, disc: 127, fields: vec![] },
            Vd { name: "V128", kind: Vk::Unit, disc: 128, fields: vec![] },
            Vd { name: "V129", kind: Vk::Named, disc: 129, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V130", kind: Vk::Unit, disc: 130, fields: vec![] },
            Vd { name: "V131", kind: Vk::Unit, disc: 131, fields: vec![] },
            Vd { name: "V132", kind: Vk::Unit, disc: 132, fields: vec![] },
            Vd { name: "V133", kind: Vk::Unit, disc: 133, fields: vec![] },
            Vd { name: "V134", kind: Vk::Unit, disc: 134, fields: vec![] },
            Vd { name: "V135", kind: Vk::Named, disc: 135, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V136", kind: Vk::Unit, disc: 136, fields: vec![] },
            Vd { name: "V137", kind: Vk::Unit, disc: 137, fields: vec![] },
            Vd { name: "V138", kind: Vk::Unit, disc: 138, fields: vec![] },
            Vd { name: "V139", kind: Vk::Unit, disc: 139, fields: vec![] },
            Vd { name: "V140", kind: Vk::Unit, disc: 140, fields: vec![] },
            Vd { name: "V141", kind: Vk::Named, disc: 141, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V142", kind: Vk::Unit, disc: 142, fields: vec![] },
            Vd { name: "V143", kind: Vk::Unit, disc: 143, fields: vec![] },
            Vd { name: "V144", kind: Vk::Unit, disc: 144, fields: vec![] },
            Vd { name: "V145", kind: Vk::Unit, disc: 145, fields: vec![] },
            Vd { name: "V146", kind: Vk::Unit, disc: 146, fields: vec![] },
            Vd { name: "V147", kind: Vk::Named, disc: 147, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V148", kind: Vk::Unit, disc: 148, fields: vec![] },
            Vd { name: "V149", kind: Vk::Unit, disc: 149, fields: vec![] },
            Vd { name: "V150", kind: Vk::Unit, disc: 150, fields: vec![] },
            Vd { name: "V151", kind: Vk::Unit, disc: 151, fields: vec![] },
            Vd { name: "V152", kind: Vk::Unit, disc: 152, fields: vec![] },
            Vd { name: "V153", kind: Vk::Named, disc: 153, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V154", kind: Vk::Unit, disc: 154, fields: vec![] },
            Vd { name: "V155", kind: Vk::Unit, disc: 155, fields: vec![] },
            Vd { name: "V156", kind: Vk::Unit, disc: 156, fields: vec![] },
            Vd { name: "V157", kind: Vk::Unit, disc: 157, fields: vec![] },
            Vd { name: "V158", kind: Vk::Unit, disc: 158, fields: vec![] },
            Vd { name: "V159", kind: Vk::Named, disc: 159, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V160", kind: Vk::Unit, disc: 160, fields: vec![] },
            Vd { name: "V161", kind: Vk::Unit, disc: 161, fields: vec![] },
            Vd { name: "V162", kind: Vk::Unit, disc: 162, fields: vec![] },
            Vd { name: "V163", kind: Vk::Unit, disc: 163, fields: vec![] },
            Vd { name: "V164", kind: Vk::Unit, disc: 164, fields: vec![] },
            Vd { name: "V165", kind: Vk::Named, disc: 165, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V166", kind: Vk::Unit, disc: 166, fields: vec![] },
            Vd { name: "V167", kind: Vk::Unit, disc: 167, fields: vec![] },
            Vd { name: "V168", kind: Vk::Unit, disc: 168, fields: vec![] },
            Vd { name: "V169", kind: Vk::Unit, disc: 169, fields: vec![] },
            Vd { name: "V170", kind: Vk::Unit, disc: 170, fields: vec![] },
            Vd { name: "V171", kind: Vk::Named, disc: 171, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V172", kind: Vk::Unit, disc: 172, fields: vec![] },
            Vd { name: "V173", kind: Vk::Unit, disc: 173, fields: vec![] },
            Vd { name: "V174", kind: Vk::Unit, disc: 174, fields: vec![] },
            Vd { name: "V175", kind: Vk::Unit, disc: 175, fields: vec![] },
            Vd { name: "V176", kind: Vk::Unit, disc: 176, fields: vec![] },
            Vd { name: "V177", kind: Vk::Named, disc: 177, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V178", kind: Vk::Unit, disc: 178, fields: vec![] },
            Vd { name: "V179", kind: Vk::Unit, disc: 179, fields: vec![] },
            Vd { name: "V180", kind: Vk::Unit, disc: 180, fields: vec![] },
            Vd { name: "V181", kind: Vk::Unit, disc: 181, fields: vec![] },
            Vd { name: "V182", kind: Vk::Unit, disc: 182, fields: vec![] },
            Vd { name: "V183", kind: Vk::Named, disc: 183, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V184", kind: Vk::Unit, disc: 184, fields: vec![] },
            Vd { name: "V185", kind: Vk::Unit, disc: 185, fields: vec![] },
            Vd { name: "V186", kind: Vk::Unit, disc: 186, fields: vec![] },
            Vd { name: "V187", kind: Vk::Unit, disc: 187, fields: vec![] },
            Vd { name: "V188", kind: Vk::Unit, disc: 188, fields: vec![] },
            Vd { name: "V189", kind: Vk::Named, disc: 189, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V190", kind: Vk::Unit, disc: 190, fields: vec![] },
            Vd { name: "V191", kind: Vk::Unit, disc: 191, fields: vec![] },
            Vd { name: "V192", kind: Vk::Unit, disc: 192, fields: vec![] },
            Vd { name: "V193", kind: Vk::Unit, disc: 193, fields: vec![] },
            Vd { name: "V194", kind: Vk::Unit, disc: 194, fields: vec![] },
            Vd { name: "V195", kind: Vk::Named, disc: 195, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V196", kind: Vk::Unit, disc: 196, fields: vec![] },
            Vd { name: "V197", kind: Vk::Unit, disc: 197, fields: vec![] },
            Vd { name: "V198", kind: Vk::Unit, disc: 198, fields: vec![] },
            Vd { name: "V199", kind: Vk::Unit, disc: 199, fields: vec![] },
            Vd { name: "V200", kind: Vk::Unit, disc: 200, fields: vec![] },
            Vd { name: "V201", kind: Vk::Named, disc: 201, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V202", kind: Vk::Unit, disc: 202, fields: vec![] },
            Vd { name: "V203", kind: Vk::Unit, disc: 203, fields: vec![] },
            Vd { name: "V204", kind: Vk::Unit, disc: 204, fields: vec![] },
            Vd { name: "V205", kind: Vk::Unit, disc: 205, fields: vec![] },
            Vd { name: "V206", kind: Vk::Unit, disc: 206, fields: vec![] },
            Vd { name: "V207", kind: Vk::Named, disc: 207, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V208", kind: Vk::Unit, disc: 208, fields: vec![] },
            Vd { name: "V209", kind: Vk::Unit, disc: 209, fields: vec![] },
            Vd { name: "V210", kind: Vk::Unit, disc: 210, fields: vec![] },
            Vd { name: "V211", kind: Vk::Unit, disc: 211, fields: vec![] },
            Vd { name: "V212", kind: Vk::Unit, disc: 212, fields: vec![] },
            Vd { name: "V213", kind: Vk::Named, disc: 213, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V214", kind: Vk::Unit, disc: 214, fields: vec![] },
            Vd { name: "V215", kind: Vk::Unit, disc: 215, fields: vec![] },
            Vd { name: "V216", kind: Vk::Unit, disc: 216, fields: vec![] },
            Vd { name: "V217", kind: Vk::Unit, disc: 217, fields: vec![] },
            Vd { name: "V218", kind: Vk::Unit, disc: 218, fields: vec![] },
            Vd { name: "V219", kind: Vk::Named, disc: 219, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V220", kind: Vk::Unit, disc: 220, fields: vec![] },
            Vd { name: "V221", kind: Vk::Unit, disc: 221, fields: vec![] },
            Vd { name: "V222", kind: Vk::Unit, disc: 222, fields: vec![] },
            Vd { name: "V223", kind: Vk::Unit, disc: 223, fields: vec![] },
            Vd { name: "V224", kind: Vk::Unit, disc: 224, fields: vec![] },
            Vd { name: "V225", kind: Vk::Named, disc: 225, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V226", kind: Vk::Unit, disc: 226, fields: vec![] },
            Vd { name: "V227", kind: Vk::Unit, disc: 227, fields: vec![] },
            Vd { name: "V228", kind: Vk::Unit, disc: 228, fields: vec![] },
            Vd { name: "V229", kind: Vk::Unit, disc: 229, fields: vec![] },
            Vd { name: "V230", kind: Vk::Unit, disc: 230, fields: vec![] },
            Vd { name: "V231", kind: Vk::Named, disc: 231, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V232", kind: Vk::Unit, disc: 232, fields: vec![] },
            Vd { name: "V233", kind: Vk::Unit, disc: 233, fields: vec![] },
            Vd { name: "V234", kind: Vk::Unit, disc: 234, fields: vec![] },
            Vd { name: "V235", kind: Vk::Unit, disc: 235, fields: vec![] },
            Vd { name: "V236", kind: Vk::Unit, disc: 236, fields: vec![] },
            Vd { name: "V237", kind: Vk::Named, disc: 237, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V238", kind: Vk::Unit, disc: 238, fields: vec![] },
            Vd { name: "V239", kind: Vk::Unit, disc: 239, fields: vec![] },
            Vd { name: "V240", kind: Vk::Unit, disc: 240, fields: vec![] },
            Vd { name: "V241", kind: Vk::Unit, disc: 241, fields: vec![] },
            Vd { name: "V242", kind: Vk::Unit, disc: 242, fields: vec![] },
            Vd { name: "V243", kind: Vk::Named, disc: 243, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V244", kind: Vk::Unit, disc: 244, fields: vec![] },
            Vd { name: "V245", kind: Vk::Unit, disc: 245, fields: vec![] },
            Vd { name: "V246", kind: Vk::Unit, disc: 246, fields: vec![] },
            Vd { name: "V247", kind: Vk::Unit, disc: 247, fields: vec![] },
            Vd { name: "V248", kind: Vk::Unit, disc: 248, fields: vec![] },
            Vd { name: "V249", kind: Vk::Named, disc: 249, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V250", kind: Vk::Unit, disc: 250, fields: vec![] },
            Vd { name: "V251", kind: Vk::Unit, disc: 251, fields: vec![] },
            Vd { name: "V252", kind: Vk::Unit, disc: 252, fields: vec![] },
            Vd { name: "V253", kind: Vk::Tuple, disc: 253, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "V254", kind: Vk::Unit, disc: 254, fields: vec![] },
            Vd { name: "V255", kind: Vk::Named, disc: 255, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V256", kind: Vk::Tuple, disc: 256, fields: vec![Fd::new("_0", ty::<String>, usize::MAX), Fd::new("_1", ty::<u32>, usize::MAX)] },
            Vd { name: "V257", kind: Vk::Unit, disc: 257, fields: vec![] },
            Vd { name: "V258", kind: Vk::Unit, disc: 258, fields: vec![] },
            Vd { name: "V259", kind: Vk::Tuple, disc: 259, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "V260", kind: Vk::Unit, disc: 260, fields: vec![] },
            Vd { name: "V261", kind: Vk::Named, disc: 261, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V262", kind: Vk::Tuple, disc: 262, fields: vec![Fd::new("_0", ty::<String>, usize::MAX), Fd::new("_1", ty::<u32>, usize::MAX)] },
            Vd { name: "V263", kind: Vk::Unit, disc: 263, fields: vec![] },
            Vd { name: "V264", kind: Vk::Unit, disc: 264, fields: vec![] },
            Vd { name: "V265", kind: Vk::Tuple, disc: 265, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "V266", kind: Vk::Unit, disc: 266, fields: vec![] },
            Vd { name: "V267", kind: Vk::Named, disc: 267, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V268", kind: Vk::Tuple, disc: 268, fields: vec![Fd::new("_0", ty::<String>, usize::MAX), Fd::new("_1", ty::<u32>, usize::MAX)] },
            Vd { name: "V269", kind: Vk::Unit, disc: 269, fields: vec![] },
            Vd { name: "V270", kind: Vk::Unit, disc: 270, fields: vec![] },
            Vd { name: "V271", kind: Vk::Tuple, disc: 271, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "V272", kind: Vk::Unit, disc: 272, fields: vec![] },
            Vd { name: "V273", kind: Vk::Named, disc: 273, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V274", kind: Vk::Tuple, disc: 274, fields: vec![Fd::new("_0", ty::<String>, usize::MAX), Fd::new("_1", ty::<u32>, usize::MAX)] },
            Vd { name: "V275", kind: Vk::Unit, disc: 275, fields: vec![] },
            Vd { name: "V276", kind: Vk::Unit, disc: 276, fields: vec![] },
            Vd { name: "V277", kind: Vk::Tuple, disc: 277, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "V278", kind: Vk::Unit, disc: 278, fields: vec![] },
            Vd { name: "V279", kind: Vk::Named, disc: 279, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V280", kind: Vk::Tuple, disc: 280, fields: vec![Fd::new("_0", ty::<String>, usize::MAX), Fd::new("_1", ty::<u32>, usize::MAX)] },
            Vd { name: "V281", kind: Vk::Unit, disc: 281, fields: vec![] },
            Vd { name: "V282", kind: Vk::Unit, disc: 282, fields: vec![] },
            Vd { name: "V283", kind: Vk::Tuple, disc: 283, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "V284", kind: Vk::Unit, disc: 284, fields: vec![] },
            Vd { name: "V285", kind: Vk::Named, disc: 285, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V286", kind: Vk::Tuple, disc: 286, fields: vec![Fd::new("_0", ty::<String>, usize::MAX), Fd::new("_1", ty::<u32>, usize::MAX)] },
            Vd { name: "V287", kind: Vk::Unit, disc: 287, fields: vec![] },
            Vd { name: "V288", kind: Vk::Unit, disc: 288, fields: vec![] },
            Vd { name: "V289", kind: Vk::Tuple, disc: 289, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "V290", kind: Vk::Unit, disc: 290, fields: vec![] },
            Vd { name: "V291", kind: Vk::Named, disc: 291, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V292", kind: Vk::Tuple, disc: 292, fields: vec![Fd::new("_0", ty::<String>, usize::MAX), Fd::new("_1", ty::<u32>, usize::MAX)] },
            Vd { name: "V293", kind: Vk::Unit, disc: 293, fields: vec![] },
            Vd { name: "V294", kind: Vk::Unit, disc: 294, fields: vec![] },
            Vd { name: "V295", kind: Vk::Tuple, disc: 295, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "V296", kind: Vk::Unit, disc: 296, fields: vec![] },
            Vd { name: "V297", kind: Vk::Named, disc: 297, fields: vec![Fd::new("a", ty::<u16>, usize::MAX), Fd::new("b", ty::<String>, usize::MAX)] },
            Vd { name: "V298", kind: Vk::Tuple, disc: 298, fields: vec![Fd::new("_0", ty::<String>, usize::MAX), Fd::new("_1", ty::<u32>, usize::MAX)] },
            Vd { name: "V299", kind: Vk::Unit, disc: 299, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EMany::V0 => V::En(0, vec![]),
        EMany::V1 => V::En(1, vec![]),
        EMany::V2 => V::En(2, vec![]),
        EMany::V3 { a, b } => V::En(3, vec![a.to_v(), b.to_v()]),
        EMany::V4 => V::En(4, vec![]),
        EMany::V5 => V::En(5, vec![]),
        EMany::V6 => V::En(6, vec![]),
        EMany::V7 => V::En(7, vec![]),
        EMany::V8 => V::En(8, vec![]),
        EMany::V9 { a, b } => V::En(9, vec![a.to_v(), b.to_v()]),
        EMany::V10 => V::En(10, vec![]),
        EMany::V11 => V::En(11, vec![]),
        EMany::V12 => V::En(12, vec![]),
        EMany::V13 => V::En(13, vec![]),
        EMany::V14 => V::En(14, vec![]),
        EMany::V15 { a, b } => V::En(15, vec![a.to_v(), b.to_v()]),
        EMany::V16 => V::En(16, vec![]),
        EMany::V17 => V::En(17, vec![]),
        EMany::V18 => V::En(18, vec![]),
        EMany::V19 => V::En(19, vec![]),
        EMany::V20 => V::En(20, vec![]),
        EMany::V21 { a, b } => V::En(21, vec![a.to_v(), b.to_v()]),
        EMany::V22 => V::En(22, vec![]),
        EMany::V23 => V::En(23, vec![]),
        EMany::V24 => V::En(24, vec![]),
        EMany::V25 => V::En(25, vec![]),
        EMany::V26 => V::En(26, vec![]),
        EMany::V27 { a, b } => V::En(27, vec![a.to_v(), b.to_v()]),
        EMany::V28 => V::En(28, vec![]),
        EMany::V29 => V::En(29, vec![]),
        EMany::V30 => V::En(30, vec![]),
        EMany::V31 => V::En(31, vec![]),
        EMany::V32 => V::En(32, vec![]),
        EMany::V33 { a, b } => V::En(33, vec![a.to_v(), b.to_v()]),
        EMany::V34 => V::En(34, vec![]),
        EMany::V35 => V::En(35, vec![]),
        EMany::V36 => V::En(36, vec![]),
        EMany::V37 => V::En(37, vec![]),
        EMany::V38 => V::En(38, vec![]),
        EMany::V39 { a, b } => V::En(39, vec![a.to_v(), b.to_v()]),
        EMany::V40 => V::En(40, vec![]),
        EMany::V41 => V::En(41, vec![]),
        EMany::V42 => V::En(42, vec![]),
        EMany::V43 => V::En(43, vec![]),
        EMany::V44 => V::En(44, vec![]),
        EMany::V45 { a, b } => V::En(45, vec![a.to_v(), b.to_v()]),
        EMany::V46 => V::En(46, vec![]),
        EMany::V47 => V::En(47, vec![]),
        EMany::V48 => V::En(48, vec![]),
        EMany::V49 => V::En(49, vec![]),
        EMany::V50 => V::En(50, vec![]),
        EMany::V51 { a, b } => V::En(51, vec![a.to_v(), b.to_v()]),
        EMany::V52 => V::En(52, vec![]),
        EMany::V53 => V::En(53, vec![]),
        EMany::V54 => V::En(54, vec![]),
        EMany::V55 => V::En(55, vec![]),
        EMany::V56 => V::En(56, vec![]),
        EMany::V57 { a, b } => V::En(57, vec![a.to_v(), b.to_v()]),
        EMany::V58 => V::En(58, vec![]),
        EMany::V59 => V::En(59, vec![]),
        EMany::V60 => V::En(60, vec![]),
        EMany::V61 => V::En(61, vec![]),
        EMany::V62 => V::En(62, vec![]),
        EMany::V63 { a, b } => V::En(63, vec![a.to_v(), b.to_v()]),
        EMany::V64 => V::En(64, vec![]),
        EMany::V65 => V::En(65, vec![]),
        EMany::V66 => V::En(66, vec![]),
        EMany::V67 => V::En(67, vec![]),
        EMany::V68 => V::En(68, vec![]),
        EMany::V69 { a, b } => V::En(69, vec![a.to_v(), b.to_v()]),
        EMany::V70 => V::En(70, vec![]),
        EMany::V71 => V::En(71, vec![]),
        EMany::V72 => V::En(72, vec![]),
        EMany::V73 => V::En(73, vec![]),
        EMany::V74 => V::En(74, vec![]),
        EMany::V75 { a, b } => V::En(75, vec![a.to_v(), b.to_v()]),
        EMany::V76 => V::En(76, vec![]),
        EMany::V77 => V::En(77, vec![]),
        EMany::V78 => V::En(78, vec![]),
        EMany::V79 => V::En(79, vec![]),
        EMany::V80 => V::En(80, vec![]),
        EMany::V81 { a, b } => V::En(81, vec![a.to_v(), b.to_v()]),
        EMany::V82 => V::En(82, vec![]),
        EMany::V83 => V::En(83, vec![]),
        EMany::V84 => V::En(84, vec![]),
        EMany::V85 => V::En(85, vec![]),
        EMany::V86 => V::En(86, vec![]),
        EMany::V87 { a, b } => V::En(87, vec![a.to_v(), b.to_v()]),
        EMany::V88 => V::En(88, vec![]),
        EMany::V89 => V::En(89, vec![]),
        EMany::V90 => V::En(90, vec![]),
        EMany::V91 => V::En(91, vec![]),
        EMany::V92 => V::En(92, vec![]),
        EMany::V93 { a, b } => V::En(93, vec![a.to_v(), b.to_v()]),
        EMany::V94 => V::En(94, vec![]),
        EMany::V95 => V::En(95, vec![]),
        EMany::V96 => V::En(96, vec![]),
        EMany::V97 => V::En(97, vec![]),
        EMany::V98 => V::En(98, vec![]),
        EMany::V99 { a, b } => V::En(99, vec![a.to_v(), b.to_v()]),
        EMany::V100 => V::En(100, vec![]),
        EMany::V101 => V::En(101, vec![]),
        EMany::V102 => V::En(102, vec![]),
        EMany::V103 => V::En(103, vec![]),
        EMany::V104 => V::En(104, vec![]),
        EMany::V105 { a, b } => V::En(105, vec![a.to_v(), b.to_v()]),
        EMany::V106 => V::En(106, vec![]),
        EMany::V107 => V::En(107, vec![]),
        EMany::V108 => V::En(108, vec![]),
        EMany::V109 => V::En(109, vec![]),
        EMany::V110 => V::En(110, vec![]),
        EMany::V111 { a, b } => V::En(111, vec![a.to_v(), b.to_v()]),
        EMany::V112 => V::En(112, vec![]),
        EMany::V113 => V::En(113, vec![]),
        EMany::V114 => V::En(114, vec![]),
        EMany::V115 => V::En(115, vec![]),
        EMany::V116 => V::En(116, vec![]),
        EMany::V117 { a, b } => V::En(117, vec![a.to_v(), b.to_v()]),
        EMany::V118 => V::En(118, vec![]),
        EMany::V119 => V::En(119, vec![]),
        EMany::V120 => V::En(120, vec![]),
        EMany::V121 => V::En(121, vec![]),
        EMany::V122 => V::En(122, vec![]),
        EMany::V123 { a, b } => V::En(123, vec![a.to_v(), b.to_v()]),
        EMany::V124 => V::En(124, vec![]),
        EMany::V125 => V::En(125, vec![]),
        EMany::V126 => V::En(126, vec![]),
        EMany::V127 => V::En(127, vec![]),
        EMany::V128 => V::En(128, vec![]),
        EMany::V129 { a, b } => V::En(129, vec![a.to_v(), b.to_v()]),
        EMany::V130 => V::En(130, vec![]),
        EMany::V131 => V::En(131, vec![]),
        EMany::V132 => V::En(132, vec![]),
        EMany::V133 => V::En(133, vec![]),
        EMany::V134 => V::En(134, vec![]),
        EMany::V135 { a, b } => V::En(135, vec![a.to_v(), b.to_v()]),
        EMany::V136 => V::En(136, vec![]),
        EMany::V137 => V::En(137, vec![]),
        EMany::V138 => V::En(138, vec![]),
        EMany::V139 => V::En(139, vec![]),
        EMany::V140 => V::En(140, vec![]),
        EMany::V141 { a, b } => V::En(141, vec![a.to_v(), b.to_v()]),
        EMany::V142 => V::En(142, vec![]),
        EMany::V143 => V::En(143, vec![]),
        EMany::V144 => V::En(144, vec![]),
        EMany::V145 => V::En(145, vec![]),
        EMany::V146 => V::En(146, vec![]),
        EMany::V147 { a, b } => V::En(147, vec![a.to_v(), b.to_v()]),
        EMany::V148 => V::En(148, vec![]),
        EMany::V149 => V::En(149, vec![]),
        EMany::V150 => V::En(150, vec![]),
        EMany::V151 => V::En(151, vec![]),
        EMany::V152 => V::En(152, vec![]),
        EMany::V153 { a, b } => V::En(153, vec![a.to_v(), b.to_v()]),
        EMany::V154 => V::En(154, vec![]),
        EMany::V155 => V::En(155, vec![]),
        EMany::V156 => V::En(156, vec![]),
        EMany::V157 => V::En(157, vec![]),
        EMany::V158 => V::En(158, vec![]),
        EMany::V159 { a, b } => V::En(159, vec![a.to_v(), b.to_v()]),
        EMany::V160 => V::En(160, vec![]),
        EMany::V161 => V::En(161, vec![]),
        EMany::V162 => V::En(162, vec![]),
        EMany::V163 => V::En(163, vec![]),
        EMany::V164 => V::En(164, vec![]),
        EMany::V165 { a, b } => V::En(165, vec![a.to_v(), b.to_v()]),
        EMany::V166 => V::En(166, vec![]),
        EMany::V167 => V::En(167, vec![]),
        EMany::V168 => V::En(168, vec![]),
        EMany::V169 => V::En(169, vec![]),
        EMany::V170 => V::En(170, vec![]),
        EMany::V171 { a, b } => V::En(171, vec![a.to_v(), b.to_v()]),
        EMany::V172 => V::En(172, vec![]),
        EMany::V173 => V::En(173, vec![]),
        EMany::V174 => V::En(174, vec![]),
        EMany::V175 => V::En(175, vec![]),
        EMany::V176 => V::En(176, vec![]),
        EMany::V177 { a, b } => V::En(177, vec![a.to_v(), b.to_v()]),
        EMany::V178 => V::En(178, vec![]),
        EMany::V179 => V::En(179, vec![]),
        EMany::V180 => V::En(180, vec![]),
        EMany::V181 => V::En(181, vec![]),
        EMany::V182 => V::En(182, vec![]),
        EMany::V183 { a, b } => V::En(183, vec![a.to_v(), b.to_v()]),
        EMany::V184 => V::En(184, vec![]),
        EMany::V185 => V::En(185, vec![]),
        EMany::V186 => V::En(186, vec![]),
        EMany::V187 => V::En(187, vec![]),
        EMany::V188 => V::En(188, vec![]),
        EMany::V189 { a, b } => V::En(189, vec![a.to_v(), b.to_v()]),
        EMany::V190 => V::En(190, vec![]),
        EMany::V191 => V::En(191, vec![]),
        EMany::V192 => V::En(192, vec![]),
        EMany::V193 => V::En(193, vec![]),
        EMany::V194 => V::En(194, vec![]),
        EMany::V195 { a, b } => V::En(195, vec![a.to_v(), b.to_v()]),
        EMany::V196 => V::En(196, vec![]),
        EMany::V197 => V::En(197, vec![]),
        EMany::V198 => V::En(198, vec![]),
        EMany::V199 => V::En(199, vec![]),
        EMany::V200 => V::En(200, vec![]),
        EMany::V201 { a, b } => V::En(201, vec![a.to_v(), b.to_v()]),
        EMany::V202 => V::En(202, vec![]),
        EMany::V203 => V::En(203, vec![]),
        EMany::V204 => V::En(204, vec![]),
        EMany::V205 => V::En(205, vec![]),
        EMany::V206 => V::En(206, vec![]),
        EMany::V207 { a, b } => V::En(207, vec![a.to_v(), b.to_v()]),
        EMany::V208 => V::En(208, vec![]),
        EMany::V209 => V::En(209, vec![]),
        EMany::V210 => V::En(210, vec![]),
        EMany::V211 => V::En(211, vec![]),
        EMany::V212 => V::En(212, vec![]),
        EMany::V213 { a, b } => V::En(213, vec![a.to_v(), b.to_v()]),
        EMany::V214 => V::En(214, vec![]),
        EMany::V215 => V::En(215, vec![]),
        EMany::V216 => V::En(216, vec![]),
        EMany::V217 => V::En(217, vec![]),
        EMany::V218 => V::En(218, vec![]),
        EMany::V219 { a, b } => V::En(219, vec![a.to_v(), b.to_v()]),
        EMany::V220 => V::En(220, vec![]),
        EMany::V221 => V::En(221, vec![]),
        EMany::V222 => V::En(222, vec![]),
        EMany::V223 => V::En(223, vec![]),
        EMany::V224 => V::En(224, vec![]),
        EMany::V225 { a, b } => V::En(225, vec![a.to_v(), b.to_v()]),
        EMany::V226 => V::En(226, vec![]),
        EMany::V227 => V::En(227, vec![]),
        EMany::V228 => V::En(228, vec![]),
        EMany::V229 => V::En(229, vec![]),
        EMany::V230 => V::En(230, vec![]),
        EMany::V231 { a, b } => V::En(231, vec![a.to_v(), b.to_v()]),
        EMany::V232 => V::En(232, vec![]),
        EMany::V233 => V::En(233, vec![]),
        EMany::V234 => V::En(234, vec![]),
        EMany::V235 => V::En(235, vec![]),
        EMany::V236 => V::En(236, vec![]),
        EMany::V237 { a, b } => V::En(237, vec![a.to_v(), b.to_v()]),
        EMany::V238 => V::En(238, vec![]),
        EMany::V239 => V::En(239, vec![]),
        EMany::V240 => V::En(240, vec![]),
        EMany::V241 => V::En(241, vec![]),
        EMany::V242 => V::En(242, vec![]),
        EMany::V243 { a, b } => V::En(243, vec![a.to_v(), b.to_v()]),
        EMany::V244 => V::En(244, vec![]),
        EMany::V245 => V::En(245, vec![]),
        EMany::V246 => V::En(246, vec![]),
        EMany::V247 => V::En(247, vec![]),
        EMany::V248 => V::En(248, vec![]),
        EMany::V249 { a, b } => V::En(249, vec![a.to_v(), b.to_v()]),
        EMany::V250 => V::En(250, vec![]),
        EMany::V251 => V::En(251, vec![]),
        EMany::V252 => V::En(252, vec![]),
        EMany::V253(f0) => V::En(253, vec![f0.to_v()]),
        EMany::V254 => V::En(254, vec![]),
        EMany::V255 { a, b } => V::En(255, vec![a.to_v(), b.to_v()]),
        EMany::V256(f0, f1) => V::En(256, vec![f0.to_v(), f1.to_v()]),
        EMany::V257 => V::En(257, vec![]),
        EMany::V258 => V::En(258, vec![]),
        EMany::V259(f0) => V::En(259, vec![f0.to_v()]),
        EMany::V260 => V::En(260, vec![]),
        EMany::V261 { a, b } => V::En(261, vec![a.to_v(), b.to_v()]),
        EMany::V262(f0, f1) => V::En(262, vec![f0.to_v(), f1.to_v()]),
        EMany::V263 => V::En(263, vec![]),
        EMany::V264 => V::En(264, vec![]),
        EMany::V265(f0) => V::En(265, vec![f0.to_v()]),
        EMany::V266 => V::En(266, vec![]),
        EMany::V267 { a, b } => V::En(267, vec![a.to_v(), b.to_v()]),
        EMany::V268(f0, f1) => V::En(268, vec![f0.to_v(), f1.to_v()]),
        EMany::V269 => V::En(269, vec![]),
        EMany::V270 => V::En(270, vec![]),
        EMany::V271(f0) => V::En(271, vec![f0.to_v()]),
        EMany::V272 => V::En(272, vec![]),
        EMany::V273 { a, b } => V::En(273, vec![a.to_v(), b.to_v()]),
        EMany::V274(f0, f1) => V::En(274, vec![f0.to_v(), f1.to_v()]),
        EMany::V275 => V::En(275, vec![]),
        EMany::V276 => V::En(276, vec![]),
        EMany::V277(f0) => V::En(277, vec![f0.to_v()]),
        EMany::V278 => V::En(278, vec![]),
        EMany::V279 { a, b } => V::En(279, vec![a.to_v(), b.to_v()]),
        EMany::V280(f0, f1) => V::En(280, vec![f0.to_v(), f1.to_v()]),
        EMany::V281 => V::En(281, vec![]),
        EMany::V282 => V::En(282, vec![]),
        EMany::V283(f0) => V::En(283, vec![f0.to_v()]),
        EMany::V284 => V::En(284, vec![]),
        EMany::V285 { a, b } => V::En(285, vec![a.to_v(), b.to_v()]),
        EMany::V286(f0, f1) => V::En(286, vec![f0.to_v(), f1.to_v()]),
        EMany::V287 => V::En(287, vec![]),
        EMany::V288 => V::En(288, vec![]),
        EMany::V289(f0) => V::En(289, vec![f0.to_v()]),
        EMany::V290 => V::En(290, vec![]),
        EMany::V291 { a, b } => V::En(291, vec![a.to_v(), b.to_v()]),
        EMany::V292(f0, f1) => V::En(292, vec![f0.to_v(), f1.to_v()]),
        EMany::V293 => V::En(293, vec![]),
        EMany::V294 => V::En(294, vec![]),
        EMany::V295(f0) => V::En(295, vec![f0.to_v()]),
        EMany::V296 => V::En(296, vec![]),
        EMany::V297 { a, b } => V::En(297, vec![a.to_v(), b.to_v()]),
        EMany::V298(f0, f1) => V::En(298, vec![f0.to_v(), f1.to_v()]),
        EMany::V299 => V::En(299, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EMany::V0,
        1 => EMany::V1,
        2 => EMany::V2,
        3 => EMany::V3 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        4 => EMany::V4,
        5 => EMany::V5,
        6 => EMany::V6,
        7 => EMany::V7,
        8 => EMany::V8,
        9 => EMany::V9 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        10 => EMany::V10,
        11 => EMany::V11,
        12 => EMany::V12,
        13 => EMany::V13,
        14 => EMany::V14,
        15 => EMany::V15 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        16 => EMany::V16,
        17 => EMany::V17,
        18 => EMany::V18,
        19 => EMany::V19,
        20 => EMany::V20,
        21 => EMany::V21 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        22 => EMany::V22,
        23 => EMany::V23,
        24 => EMany::V24,
        25 => EMany::V25,
        26 => EMany::V26,
        27 => EMany::V27 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        28 => EMany::V28,
        29 => EMany::V29,
        30 => EMany::V30,
        31 => EMany::V31,
        32 => EMany::V32,
        33 => EMany::V33 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        34 => EMany::V34,
        35 => EMany::V35,
        36 => EMany::V36,
        37 => EMany::V37,
        38 => EMany::V38,
        39 => EMany::V39 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        40 => EMany::V40,
        41 => EMany::V41,
        42 => EMany::V42,
        43 => EMany::V43,
        44 => EMany::V44,
        45 => EMany::V45 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        46 => EMany::V46,
        47 => EMany::V47,
        48 => EMany::V48,
        49 => EMany::V49,
        50 => EMany::V50,
        51 => EMany::V51 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        52 => EMany::V52,
        53 => EMany::V53,
        54 => EMany::V54,
        55 => EMany::V55,
        56 => EMany::V56,
        57 => EMany::V57 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        58 => EMany::V58,
        59 => EMany::V59,
        60 => EMany::V60,
        61 => EMany::V61,
        62 => EMany::V62,
        63 => EMany::V63 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        64 => EMany::V64,
        65 => EMany::V65,
        66 => EMany::V66,
        67 => EMany::V67,
        68 => EMany::V68,
        69 => EMany::V69 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        70 => EMany::V70,
        71 => EMany::V71,
        72 => EMany::V72,
        73 => EMany::V73,
        74 => EMany::V74,
        75 => EMany::V75 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        76 => EMany::V76,
        77 => EMany::V77,
        78 => EMany::V78,
        79 => EMany::V79,
        80 => EMany::V80,
        81 => EMany::V81 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        82 => EMany::V82,
        83 => EMany::V83,
        84 => EMany::V84,
        85 => EMany::V85,
        86 => EMany::V86,
        87 => EMany::V87 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        88 => EMany::V88,
        89 => EMany::V89,
        90 => EMany::V90,
        91 => EMany::V91,
        92 => EMany::V92,
        93 => EMany::V93 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        94 => EMany::V94,
        95 => EMany::V95,
        96 => EMany::V96,
        97 => EMany::V97,
        98 => EMany::V98,
        99 => EMany::V99 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        100 => EMany::V100,
        101 => EMany::V101,
        102 => EMany::V102,
        103 => EMany::V103,
        104 => EMany::V104,
        105 => EMany::V105 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        106 => EMany::V106,
        107 => EMany::V107,
        108 => EMany::V108,
        109 => EMany::V109,
        110 => EMany::V110,
        111 => EMany::V111 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        112 => EMany::V112,
        113 => EMany::V113,
        114 => EMany::V114,
        115 => EMany::V115,
        116 => EMany::V116,
        117 => EMany::V117 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        118 => EMany::V118,
        119 => EMany::V119,
        120 => EMany::V120,
        121 => EMany::V121,
        122 => EMany::V122,
        123 => EMany::V123 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        124 => EMany::V124,
        125 => EMany::V125,
        126 => EMany::V126,
        127 => EMany::V127,
        128 => EMany::V128,
        129 => EMany::V129 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        130 => EMany::V130,
        131 => EMany::V131,
        132 => EMany::V132,
        133 => EMany::V133,
        134 => EMany::V134,
        135 => EMany::V135 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        136 => EMany::V136,
        137 => EMany::V137,
        138 => EMany::V138,
        139 => EMany::V139,
        140 => EMany::V140,
        141 => EMany::V141 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        142 => EMany::V142,
        143 => EMany::V143,
        144 => EMany::V144,
        145 => EMany::V145,
        146 => EMany::V146,
        147 => EMany::V147 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        148 => EMany::V148,
        149 => EMany::V149,
        150 => EMany::V150,
        151 => EMany::V151,
        152 => EMany::V152,
        153 => EMany::V153 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        154 => EMany::V154,
        155 => EMany::V155,
        156 => EMany::V156,
        157 => EMany::V157,
        158 => EMany::V158,
        159 => EMany::V159 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        160 => EMany::V160,
        161 => EMany::V161,
        162 => EMany::V162,
        163 => EMany::V163,
        164 => EMany::V164,
        165 => EMany::V165 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        166 => EMany::V166,
        167 => EMany::V167,
        168 => EMany::V168,
        169 => EMany::V169,
        170 => EMany::V170,
        171 => EMany::V171 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        172 => EMany::V172,
        173 => EMany::V173,
        174 => EMany::V174,
        175 => EMany::V175,
        176 => EMany::V176,
        177 => EMany::V177 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        178 => EMany::V178,
        179 => EMany::V179,
        180 => EMany::V180,
        181 => EMany::V181,
        182 => EMany::V182,
        183 => EMany::V183 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        184 => EMany::V184,
        185 => EMany::V185,
        186 => EMany::V186,
        187 => EMany::V187,
        188 => EMany::V188,
        189 => EMany::V189 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        190 => EMany::V190,
        191 => EMany::V191,
        192 => EMany::V192,
        193 => EMany::V193,
        194 => EMany::V194,
        195 => EMany::V195 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        196 => EMany::V196,
        197 => EMany::V197,
        198 => EMany::V198,
        199 => EMany::V199,
        200 => EMany::V200,
        201 => EMany::V201 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        202 => EMany::V202,
        203 => EMany::V203,
        204 => EMany::V204,
        205 => EMany::V205,
        206 => EMany::V206,
        207 => EMany::V207 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        208 => EMany::V208,
        209 => EMany::V209,
        210 => EMany::V210,
        211 => EMany::V211,
        212 => EMany::V212,
        213 => EMany::V213 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        214 => EMany::V214,
        215 => EMany::V215,
        216 => EMany::V216,
        217 => EMany::V217,
        218 => EMany::V218,
        219 => EMany::V219 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        220 => EMany::V220,
        221 => EMany::V221,
        222 => EMany::V222,
        223 => EMany::V223,
        224 => EMany::V224,
        225 => EMany::V225 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        226 => EMany::V226,
        227 => EMany::V227,
        228 => EMany::V228,
        229 => EMany::V229,
        230 => EMany::V230,
        231 => EMany::V231 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        232 => EMany::V232,
        233 => EMany::V233,
        234 => EMany::V234,
        235 => EMany::V235,
        236 => EMany::V236,
        237 => EMany::V237 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        238 => EMany::V238,
        239 => EMany::V239,
        240 => EMany::V240,
        241 => EMany::V241,
        242 => EMany::V242,
        243 => EMany::V243 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        244 => EMany::V244,
        245 => EMany::V245,
        246 => EMany::V246,
        247 => EMany::V247,
        248 => EMany::V248,
        249 => EMany::V249 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        250 => EMany::V250,
        251 => EMany::V251,
        252 => EMany::V252,
        253 => EMany::V253(Gt::from_v(&_f[0])),
        254 => EMany::V254,
        255 => EMany::V255 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        256 => EMany::V256(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        257 => EMany::V257,
        258 => EMany::V258,
        259 => EMany::V259(Gt::from_v(&_f[0])),
        260 => EMany::V260,
        261 => EMany::V261 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        262 => EMany::V262(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        263 => EMany::V263,
        264 => EMany::V264,
        265 => EMany::V265(Gt::from_v(&_f[0])),
        266 => EMany::V266,
        267 => EMany::V267 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        268 => EMany::V268(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        269 => EMany::V269,
        270 => EMany::V270,
        271 => EMany::V271(Gt::from_v(&_f[0])),
        272 => EMany::V272,
        273 => EMany::V273 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        274 => EMany::V274(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        275 => EMany::V275,
        276 => EMany::V276,
        277 => EMany::V277(Gt::from_v(&_f[0])),
        278 => EMany::V278,
        279 => EMany::V279 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        280 => EMany::V280(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        281 => EMany::V281,
        282 => EMany::V282,
        283 => EMany::V283(Gt::from_v(&_f[0])),
        284 => EMany::V284,
        285 => EMany::V285 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        286 => EMany::V286(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        287 => EMany::V287,
        288 => EMany::V288,
        289 => EMany::V289(Gt::from_v(&_f[0])),
        290 => EMany::V290,
        291 => EMany::V291 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        292 => EMany::V292(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        293 => EMany::V293,
        294 => EMany::V294,
        295 => EMany::V295(Gt::from_v(&_f[0])),
        296 => EMany::V296,
        297 => EMany::V297 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]) },
        298 => EMany::V298(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        299 => EMany::V299,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum EMany8 {
    W0,
    W1,
    W2,
    W3,
    W4,
    W5,
    W6,
    W7( u8),
    W8,
    W9,
    W10,
    W11,
    W12,
    W13,
    W14,
    W15,
    W16,
    W17,
    W18,
    W19,
    W20,
    W21,
    W22,
    W23,
    W24,
    W25,
    W26,
    W27,
    W28,
    W29,
    W30,
    W31,
    W32,
    W33,
    W34,
    W35,
    W36,
    W37,
    W38,
    W39,
    W40,
    W41,
    W42,
    W43,
    W44,
    W45,
    W46,
    W47,
    W48,
    W49,
    W50,
    W51,
    W52,
    W53,
    W54,
    W55,
    W56,
    W57,
    W58,
    W59,
    W60,
    W61,
    W62,
    W63,
    W64,
    W65,
    W66,
    W67,
    W68,
    W69,
    W70,
    W71,
    W72,
    W73,
    W74,
    W75,
    W76,
    W77,
    W78,
    W79,
    W80,
    W81,
    W82,
    W83,
    W84,
    W85,
    W86,
    W87,
    W88,
    W89,
    W90,
    W91,
    W92,
    W93,
    W94,
    W95,
    W96,
    W97,
    W98,
    W99,
    W100,
    W101,
    W102,
    W103,
    W104,
    W105,
    W106,
    W107,
    W108,
    W109,
    W110,
    W111,
    W112,
    W113,
    W114,
    W115,
    W116,
    W117,
    W118,
    W119,
    W120,
    W121,
    W122,
    W123,
    W124,
    W125,
    W126,
    W127,
    W128( u8),
    W129,
    W130,
    W131,
    W132,
    W133,
    W134,
    W135,
    W136,
    W137,
    W138,
    W139,
    W140,
    W141,
    W142,
    W143,
    W144,
    W145,
    W146,
    W147,
    W148,
    W149,
    W150,
    W151,
    W152,
    W153,
    W154,
    W155,
    W156,
    W157,
    W158,
    W159,
    W160,
    W161,
    W162,
    W163,
    W164,
    W165,
    W166,
    W167,
    W168,
    W169,
    W170,
    W171,
    W172,
    W173,
    W174,
    W175,
    W176,
    W177,
    W178,
    W179,
    W180,
    W181,
    W182,
    W183,
    W184,
    W185,
    W186,
    W187,
    W188,
    W189,
    W190,
    W191,
    W192,
    W193,
    W194,
    W195,
    W196,
    W197,
    W198,
    W199,
    W200,
    W201,
    W202,
    W203,
    W204,
    W205,
    W206,
    W207,
    W208,
    W209,
    W210,
    W211,
    W212,
    W213,
    W214,
    W215,
    W216,
    W217,
    W218,
    W219,
    W220,
    W221,
    W222,
    W223,
    W224,
    W225,
    W226,
    W227,
    W228,
    W229,
    W230,
    W231,
    W232,
    W233,
    W234,
    W235,
    W236,
    W237,
    W238,
    W239,
    W240,
    W241,
    W242,
    W243,
    W244,
    W245,
    W246,
    W247,
    W248,
    W249,
    W250,
    W251,
    W252,
    W253,
    W254,
    W255( u8),
}
impl Gt for EMany8 {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EMany8", "u8", vec![
            Vd { name: "W0", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "W1", kind: Vk::Unit, disc: 1, fields: vec![] },
            Vd { name: "W2", kind: Vk::Unit, disc: 2, fields: vec![] },
            Vd { name: "W3", kind: Vk::Unit, disc: 3, fields: vec![] },
            Vd { name: "W4", kind: Vk::Unit, disc: 4, fields: vec![] },
            Vd { name: "W5", kind: Vk::Unit, disc: 5, fields: vec![] },
            Vd { name: "W6", kind: Vk::Unit, disc: 6, fields: vec![] },
            Vd { name: "W7", kind: Vk::Tuple, disc: 7, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "W8", kind: Vk::Unit, disc: 8, fields: vec![] },
            Vd { name: "W9", kind: Vk::Unit, disc: 9, fields: vec![] },
            Vd { name: "W10", kind: Vk::Unit, disc: 10, fields: vec![] },
            Vd { name: "W11", kind: Vk::Unit, disc: 11, fields: vec![] },
            Vd { name: "W12", kind: Vk::Unit, disc: 12, fields: vec![] },
            Vd { name: "W13", kind: Vk::Unit, disc: 13, fields: vec![] },
            Vd { name: "W14", kind: Vk::Unit, disc: 14, fields: vec![] },
            Vd { name: "W15", kind: Vk::Unit, disc: 15, fields: vec![] },
            Vd { name: "W16", kind: Vk::Unit, disc: 16, fields: vec![] },
            Vd { name: "W17", kind: Vk::Unit, disc: 17, fields: vec![] },
            Vd { name: "W18", kind: Vk::Unit, disc: 18, fields: vec![] },
            Vd { name: "W19", kind: Vk::Unit, disc: 19, fields: vec![] },
            Vd { name: "W20", kind: Vk::Unit, disc: 20, fields: vec![] },
            Vd { name: "W21", kind: Vk::Unit, disc: 21, fields: vec![] },
            Vd { name: "W22", kind: Vk::Unit, disc: 22, fields: vec![] },
            Vd { name: "W23", kind: Vk::Unit, disc: 23, fields: vec![] },
            Vd { name: "W24", kind: Vk::Unit, disc: 24, fields: vec![] },
            Vd { name: "W25", kind: Vk::Unit, disc: 25, fields: vec![] },
            Vd { name: "W26", kind: Vk::Unit, disc: 26, fields: vec![] },
            Vd { name: "W27", kind: Vk::Unit, disc: 27, fields: vec![] },
            Vd { name: "W28", kind: Vk::Unit, disc: 28, fields: vec![] },
            Vd { name: "W29", kind: Vk::Unit, disc: 29, fields: vec![] },
            Vd { name: "W30", kind: Vk::Unit, disc: 30, fields: vec![] },
            Vd { name: "W31", kind: Vk::Unit, disc: 31, fields: vec![] },
            Vd { name: "W32", kind: Vk::Unit, disc: 32, fields: vec![] },
            Vd { name: "W33", kind: Vk::Unit, disc: 33, fields: vec![] },
            Vd { name: "W34", kind: Vk::Unit, disc: 34, fields: vec![] },
            Vd { name: "W35", kind: Vk::Unit, disc: 35, fields: vec![] },
            Vd { name: "W36", kind: Vk::Unit, disc: 36, fields: vec![] },
            Vd { name: "W37", kind: Vk::Unit, disc: 37, fields: vec![] },
            Vd { name: "W38", kind: Vk::Unit, disc: 38, fields: vec![] },
            Vd { name: "W39", kind: Vk::Unit, disc: 39, fields: vec![] },
            Vd { name: "W40", kind: Vk::Unit, disc: 40, fields: vec![] },
            Vd { name: "W41", kind: Vk::Unit, disc: 41, fields: vec![] },
            Vd { name: "W42", kind: Vk::Unit, disc: 42, fields: vec![] },
            Vd { name: "W43", kind: Vk::Unit, disc: 43, fields: vec![] },
            Vd { name: "W44", kind: Vk::Unit, disc: 44, fields: vec![] },
            Vd { name: "W45", kind: Vk::Unit, disc: 45, fields: vec![] },
            Vd { name: "W46", kind: Vk::Unit, disc: 46, fields: vec![] },
            Vd { name: "W47", kind: Vk::Unit, disc: 47, fields: vec![] },
            Vd { name: "W48", kind: Vk::Unit, disc: 48, fields: vec![] },
            Vd { name: "W49", kind: Vk::Unit, disc: 49, fields: vec![] },
            Vd { name: "W50", kind: Vk::Unit, disc: 50, fields: vec![] },
            Vd { name: "W51", kind: Vk::Unit, disc: 51, fields: vec![] },
            Vd { name: "W52", kind: Vk::Unit, disc: 52, fields: vec![] },
            Vd { name: "W53", kind: Vk::Unit, disc: 53, fields: vec![] },
            Vd { name: "W54", kind: Vk::Unit, disc: 54, fields: vec![] },
            Vd { name: "W55", kind: Vk::Unit, disc: 55, fields: vec![] },
            Vd { name: "W56", kind: Vk::Unit, disc: 56, fields: vec![] },
            Vd { name: "W57", kind: Vk::Unit, disc: 57, fields: vec![] },
            Vd { name: "W58", kind: Vk::Unit, disc: 58, fields: vec![] },
            Vd { name: "W59", kind: Vk::Unit, disc: 59, fields: vec![] },
            Vd { name: "W60", kind: Vk::Unit, disc: 60, fields: vec![] },
            Vd { name: "W61", kind: Vk::Unit, disc: 61, fields: vec![] },
            Vd { name: "W62", kind: Vk::Unit, disc: 62, fields: vec![] },
            Vd { name: "W63", kind: Vk::Unit, disc: 63, fields: vec![] },
            Vd { name: "W64", kind: Vk::Unit, disc: 64, fields: vec![] },
            Vd { name: "W65", kind: Vk::Unit, disc: 65, fields: vec![] },
            Vd { name: "W66", kind: Vk::Unit, disc: 66, fields: vec![] },
            Vd { name: "W67", kind: Vk::Unit, disc: 67, fields: vec![] },
            Vd { name: "W68", kind: Vk::Unit, disc: 68, fields: vec![] },
            Vd { name: "W69", kind: Vk::Unit, disc: 69, fields: vec![] },
            Vd { name: "W70", kind: Vk::Unit, disc: 70, fields: vec![] },
            Vd { name: "W71", kind: Vk::Unit, disc: 71, fields: vec![] },
            Vd { name: "W72", kind: Vk::Unit, disc: 72, fields: vec![] },
            Vd { name: "W73", kind: Vk::Unit, disc: 73, fields: vec![] },
            Vd { name: "W74", kind: Vk::Unit, disc: 74, fields: vec![] },
            Vd { name: "W75", kind: Vk::Unit, disc: 75, fields: vec![] },
            Vd { name: "W76", kind: Vk::Unit, disc: 76, fields: vec![] },
            Vd { name: "W77", kind: Vk::Unit, disc: 77, fields: vec![] },
            Vd { name: "W78", kind: Vk::Unit, disc: 78, fields: vec![] },
            Vd { name: "W79", kind: Vk::Unit, disc: 79, fields: vec![] },
            Vd { name: "W80", kind: Vk::Unit, disc: 80, fields: vec![] },
            Vd { name: "W81", kind: Vk::Unit, disc: 81, fields: vec![] },
            Vd { name: "W82", kind: Vk::Unit, disc: 82, fields: vec![] },
            Vd { name: "W83", kind: Vk::Unit, disc: 83, fields: vec![] },
            Vd { name: "W84", kind: Vk::Unit, disc: 84, fields: vec![] },
            Vd { name: "W85", kind: Vk::Unit, disc: 85, fields: vec![] },
            Vd { name: "W86", kind: Vk::Unit, disc: 86, fields: vec![] },
            Vd { name: "W87", kind: Vk::Unit, disc: 87, fields: vec![] },
            Vd { name: "W88", kind: Vk::Unit, disc: 88, fields: vec![] },
            Vd { name: "W89", kind: Vk::Unit, disc: 89, fields: vec![] },
            Vd { name: "W90", kind: Vk::Unit, disc: 90, fields: vec![] },
            Vd { name: "W91", kind: Vk::Unit, disc: 91, fields: vec![] },
            Vd { name: "W92", kind: Vk::Unit, disc: 92, fields: vec![] },
            Vd { name: "W93", kind: Vk::Unit, disc: 93, fields: vec![] },
            Vd { name: "W94", kind: Vk::Unit, disc: 94, fields: vec![] },
            Vd { name: "W95", kind: Vk::Unit, disc: 95, fields: vec![] },
            Vd { name: "W96", kind: Vk::Unit, disc: 96, fields: vec![] },
            Vd { name: "W97", kind: Vk::Unit, disc: 97, fields: vec![] },
            Vd { name: "W98", kind: Vk::Unit, disc: 98, fields: vec![] },
            Vd { name: "W99", kind: Vk::Unit, disc: 99, fields: vec![] },
            Vd { name: "W100", kind: Vk::Unit, disc: 100, fields: vec![] },
            Vd { name: "W101", kind: Vk::Unit, disc: 101, fields: vec![] },
            Vd { name: "W102", kind: Vk::Unit, disc: 102, fields: vec![] },
            Vd { name: "W103", kind: Vk::Unit, disc: 103, fields: vec![] },
            Vd { name: "W104", kind: Vk::Unit, disc: 104, fields: vec![] },
            Vd { name: "W105", kind: Vk::Unit, disc: 105, fields: vec![] },
            Vd { name: "W106", kind: Vk::Unit, disc: 106, fields: vec![] },
            Vd { name: "W107", kind: Vk::Unit, disc: 107, fields: vec![] },
            Vd { name: "W108", kind: Vk::Unit, disc: 108, fields: vec![] },
            Vd { name: "W109", kind: Vk::Unit, disc: 109, fields: vec![] },
            Vd { name: "W110", kind: Vk::Unit, disc: 110, fields: vec![] },
            Vd { name: "W111", kind: Vk::Unit, disc: 111, fields: vec![] },
            Vd { name: "W112", kind: Vk::Unit, disc: 112, fields: vec![] },
            Vd { name: "W113", kind: Vk::Unit, disc: 113, fields: vec![] },
            Vd { name: "W114", kind: Vk::Unit, disc: 114, fields: vec![] },
            Vd { name: "W115", kind: Vk::Unit, disc: 115, fields: vec![] },
            Vd { name: "W116", kind: Vk::Unit, disc: 116, fields: vec![] },
            Vd { name: "W117", kind: Vk::Unit, disc: 117, fields: vec![] },
            Vd { name: "W118", kind: Vk::Unit, disc: 118, fields: vec![] },
            Vd { name: "W119", kind: Vk::Unit, disc: 119, fields: vec![] },
            Vd { name: "W120", kind: Vk::Unit, disc: 120, fields: vec![] },
            Vd { name: "W121", kind: Vk::Unit, disc: 121, fields: vec![] },
            Vd { name: "W122", kind: Vk::Unit, disc: 122, fields: vec![] },
            Vd { name: "W123", kind: Vk::Unit, disc: 123, fields: vec![] },
            Vd { name: "W124", kind: Vk::Unit, disc: 124, fields: vec![] },
            Vd { name: "W125", kind: Vk::Unit, disc: 125, fields: vec![] },
            Vd { name: "W126", kind: Vk::Unit, disc: 126, fields: vec![] },
            Vd { name: "W127", kind: Vk::Unit, disc: 127, fields: vec![] },
            Vd { name: "W128", kind: Vk::Tuple, disc: 128, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "W129", kind: Vk::Unit, disc: 129, fields: vec![] },
            Vd { name: "W130", kind: Vk::Unit, disc: 130, fields: vec![] },
            Vd { name: "W131", kind: Vk::Unit, disc: 131, fields: vec![] },
            Vd { name: "W132", kind: Vk::Unit, disc: 132, fields: vec![] },
            Vd { name: "W133", kind: Vk::Unit, disc: 133, fields: vec![] },
            Vd { name: "W134", kind: Vk::Unit, disc: 134, fields: vec![] },
            Vd { name: "W135", kind: Vk::Unit, disc: 135, fields: vec![] },
            Vd { name: "W136", kind: Vk::Unit, disc: 136, fields: vec![] },
            Vd { name: "W137", kind: Vk::Unit, disc: 137, fields: vec![] },
            Vd { name: "W138", kind: Vk::Unit, disc: 138, fields: vec![] },
            Vd { name: "W139", kind: Vk::Unit, disc: 139, fields: vec![] },
            Vd { name: "W140", kind: Vk::Unit, disc: 140, fields: vec![] },
            Vd { name: "W141", kind: Vk::Unit, disc: 141, fields: vec![] },
            Vd { name: "W142", kind: Vk::Unit, disc: 142, fields: vec![] },
            Vd { name: "W143", kind: Vk::Unit, disc: 143, fields: vec![] },
            Vd { name: "W144", kind: Vk::Unit, disc: 144, fields: vec![] },
            Vd { name: "W145", kind: Vk::Unit, disc: 145, fields: vec![] },
            Vd { name: "W146", kind: Vk::Unit, disc: 146, fields: vec![] },
            Vd { name: "W147", kind: Vk::Unit, disc: 147, fields: vec![] },
            Vd { name: "W148", kind: Vk::Unit, disc: 148, fields: vec![] },
            Vd { name: "W149", kind: Vk::Unit, disc: 149, fields: vec![] },
            Vd { name: "W150", kind: Vk::Unit, disc: 150, fields: vec![] },
            Vd { name: "W151", kind: Vk::Unit, disc: 151, fields: vec![] },
            Vd { name: "W152", kind: Vk::Unit, disc: 152, fields: vec![] },
            Vd { name: "W153", kind: Vk::Unit, disc: 153, fields: vec![] },
            Vd { name: "W154", kind: Vk::Unit, disc: 154, fields: vec![] },
            Vd { name: "W155", kind: Vk::Unit, disc: 155, fields: vec![] },
            Vd { name: "W156", kind: Vk::Unit, disc: 156, fields: vec![] },
            Vd { name: "W157", kind: Vk::Unit, disc: 157, fields: vec![] },
            Vd { name: "W158", kind: Vk::Unit, disc: 158, fields: vec![] },
            Vd { name: "W159", kind: Vk::Unit, disc: 159, fields: vec![] },
            Vd { name: "W160", kind: Vk::Unit, disc: 160, fields: vec![] },
            Vd { name: "W161", kind: Vk::Unit, disc: 161, fields: vec![] },
            Vd { name: "W162", kind: Vk::Unit, disc: 162, fields: vec![] },
            Vd { name: "W163", kind: Vk::Unit, disc: 163, fields: vec![] },
            Vd { name: "W164", kind: Vk::Unit, disc: 164, fields: vec![] },
            Vd { name: "W165", kind: Vk::Unit, disc: 165, fields: vec![] },
            Vd { name: "W166", kind: Vk::Unit, disc: 166, fields: vec![] },
            Vd { name: "W167", kind: Vk::Unit, disc: 167, fields: vec![] },
            Vd { name: "W168", kind: Vk::Unit, disc: 168, fields: vec![] },
            Vd { name: "W169", kind: Vk::Unit, disc: 169, fields: vec![] },
            Vd { name: "W170", kind: Vk::Unit, disc: 170, fields: vec![] },
            Vd { name: "W171", kind: Vk::Unit, disc: 171, fields: vec![] },
            Vd { name: "W172", kind: Vk::Unit, disc: 172, fields: vec![] },
            Vd { name: "W173", kind: Vk::Unit, disc: 173, fields: vec![] },
            Vd { name: "W174", kind: Vk::Unit, disc: 174, fields: vec![] },
            Vd { name: "W175", kind: Vk::Unit, disc: 175, fields: vec![] },
            Vd { name: "W176", kind: Vk::Unit, disc: 176, fields: vec![] },
            Vd { name: "W177", kind: Vk::Unit, disc: 177, fields: vec![] },
            Vd { name: "W178", kind: Vk::Unit, disc: 178, fields: vec![] },
            Vd { name: "W179", kind: Vk::Unit, disc: 179, fields: vec![] },
            Vd { name: "W180", kind: Vk::Unit, disc: 180, fields: vec![] },
            Vd { name: "W181", kind: Vk::Unit, disc: 181, fields: vec![] },
            Vd { name: "W182", kind: Vk::Unit, disc: 182, fields: vec![] },
            Vd { name: "W183", kind: Vk::Unit, disc: 183, fields: vec![] },
            Vd { name: "W184", kind: Vk::Unit, disc: 184, fields: vec![] },
            Vd { name: "W185", kind: Vk::Unit, disc: 185, fields: vec![] },
            Vd { name: "W186", kind: Vk::Unit, disc: 186, fields: vec![] },
            Vd { name: "W187", kind: Vk::Unit, disc: 187, fields: vec![] },
            Vd { name: "W188", kind: Vk::Unit, disc: 188, fields: vec![] },
            Vd { name: "W189", kind: Vk::Unit, disc: 189, fields: vec![] },
            Vd { name: "W190", kind: Vk::Unit, disc: 190, fields: vec![] },
            Vd { name: "W191", kind: Vk::Unit, disc: 191, fields: vec![] },
            Vd { name: "W192", kind: Vk::Unit, disc: 192, fields: vec![] },
            Vd { name: "W193", kind: Vk::Unit, disc: 193, fields: vec![] },
            Vd { name: "W194", kind: Vk::Unit, disc: 194, fields: vec![] },
            Vd { name: "W195", kind: Vk::Unit, disc: 195, fields: vec![] },
            Vd { name: "W196", kind: Vk::Unit, disc: 196, fields: vec![] },
            Vd { name: "W197", kind: Vk::Unit, disc: 197, fields: vec![] },
            Vd { name: "W198", kind: Vk::Unit, disc: 198, fields: vec![] },
            Vd { name: "W199", kind: Vk::Unit, disc: 199, fields: vec![] },
            Vd { name: "W200", kind: Vk::Unit, disc: 200, fields: vec![] },
            Vd { name: "W201", kind: Vk::Unit, disc: 201, fields: vec![] },
            Vd { name: "W202", kind: Vk::Unit, disc: 202, fields: vec![] },
            Vd { name: "W203", kind: Vk::Unit, disc: 203, fields: vec![] },
            Vd { name: "W204", kind: Vk::Unit, disc: 204, fields: vec![] },
            Vd { name: "W205", kind: Vk::Unit, disc: 205, fields: vec![] },
            Vd { name: "W206", kind: Vk::Unit, disc: 206, fields: vec![] },
            Vd { name: "W207", kind: Vk::Unit, disc: 207, fields: vec![] },
            Vd { name: "W208", kind: Vk::Unit, disc: 208, fields: vec![] },
            Vd { name: "W209", kind: Vk::Unit, disc: 209, fields: vec![] },
            Vd { name: "W210", kind: Vk::Unit, disc: 210, fields: vec![] },
            Vd { name: "W211", kind: Vk::Unit, disc: 211, fields: vec![] },
            Vd { name: "W212", kind: Vk::Unit, disc: 212, fields: vec![] },
            Vd { name: "W213", kind: Vk::Unit, disc: 213, fields: vec![] },
            Vd { name: "W214", kind: Vk::Unit, disc: 214, fields: vec![] },
            Vd { name: "W215", kind: Vk::Unit, disc: 215, fields: vec![] },
            Vd { name: "W216", kind: Vk::Unit, disc: 216, fields: vec![] },
            Vd { name: "W217", kind: Vk::Unit, disc: 217, fields: vec![] },
            Vd { name: "W218", kind: Vk::Unit, disc: 218, fields: vec![] },
            Vd { name: "W219", kind: Vk::Unit, disc: 219, fields: vec![] },
            Vd { name: "W220", kind: Vk::Unit, disc: 220, fields: vec![] },
            Vd { name: "W221", kind: Vk::Unit, disc: 221, fields: vec![] },
            Vd { name: "W222", kind: Vk::Unit, disc: 222, fields: vec![] },
            Vd { name: "W223", kind: Vk::Unit, disc: 223, fields: vec![] },
            Vd { name: "W224", kind: Vk::Unit, disc: 224, fields: vec![] },
            Vd { name: "W225", kind: Vk::Unit, disc: 225, fields: vec![] },
            Vd { name: "W226", kind: Vk::Unit, disc: 226, fields: vec![] },
            Vd { name: "W227", kind: Vk::Unit, disc: 227, fields: vec![] },
            Vd { name: "W228", kind: Vk::Unit, disc: 228, fields: vec![] },
            Vd { name: "W229", kind: Vk::Unit, disc: 229, fields: vec![] },
            Vd { name: "W230", kind: Vk::Unit, disc: 230, fields: vec![] },
            Vd { name: "W231", kind: Vk::Unit, disc: 231, fields: vec![] },
            Vd { name: "W232", kind: Vk::Unit, disc: 232, fields: vec![] },
            Vd { name: "W233", kind: Vk::Unit, disc: 233, fields: vec![] },
            Vd { name: "W234", kind: Vk::Unit, disc: 234, fields: vec![] },
            Vd { name: "W235", kind: Vk::Unit, disc: 235, fields: vec![] },
            Vd { name: "W236", kind: Vk::Unit, disc: 236, fields: vec![] },
            Vd { name: "W237", kind: Vk::Unit, disc: 237, fields: vec![] },
            Vd { name: "W238", kind: Vk::Unit, disc: 238, fields: vec![] },
            Vd { name: "W239", kind: Vk::Unit, disc: 239, fields: vec![] },
            Vd { name: "W240", kind: Vk::Unit, disc: 240, fields: vec![] },
            Vd { name: "W241", kind: Vk::Unit, disc: 241, fields: vec![] },
            Vd { name: "W242", kind: Vk::Unit, disc: 242, fields: vec![] },
            Vd { name: "W243", kind: Vk::Unit, disc: 243, fields: vec![] },
            Vd { name: "W244", kind: Vk::Unit, disc: 244, fields: vec![] },
            Vd { name: "W245", kind: Vk::Unit, disc: 245, fields: vec![] },
            Vd { name: "W246", kind: Vk::Unit, disc: 246, fields: vec![] },
            Vd { name: "W247", kind: Vk::Unit, disc: 247, fields: vec![] },
            Vd { name: "W248", kind: Vk::Unit, disc: 248, fields: vec![] },
            Vd { name: "W249", kind: Vk::Unit, disc: 249, fields: vec![] },
            Vd { name: "W250", kind: Vk::Unit, disc: 250, fields: vec![] },
            Vd { name: "W251", kind: Vk::Unit, disc: 251, fields: vec![] },
            Vd { name: "W252", kind: Vk::Unit, disc: 252, fields: vec![] },
            Vd { name: "W253", kind: Vk::Unit, disc: 253, fields: vec![] },
            Vd { name: "W254", kind: Vk::Unit, disc: 254, fields: vec![] },
            Vd { name: "W255", kind: Vk::Tuple, disc: 255, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EMany8::W0 => V::En(0, vec![]),
        EMany8::W1 => V::En(1, vec![]),
        EMany8::W2 => V::En(2, vec![]),
        EMany8::W3 => V::En(3, vec![]),
        EMany8::W4 => V::En(4, vec![]),
        EMany8::W5 => V::En(5, vec![]),
        EMany8::W6 => V::En(6, vec![]),
        EMany8::W7(f0) => V::En(7, vec![f0.to_v()]),
        EMany8::W8 => V::En(8, vec![]),
        EMany8::W9 => V::En(9, vec![]),
        EMany8::W10 => V::En(10, vec![]),
        EMany8::W11 => V::En(11, vec![]),
        EMany8::W12 => V::En(12, vec![]),
        EMany8::W13 => V::En(13, vec![]),
        EMany8::W14 => V::En(14, vec![]),
        EMany8::W15 => V::En(15, vec![]),
        EMany8::W16 => V::En(16, vec![]),
        EMany8::W17 => V::En(17, vec![]),
        EMany8::W18 => V::En(18, vec![]),
        EMany8::W19 => V::En(19, vec![]),
        EMany8::W20 => V::En(20, vec![]),
        EMany8::W21 => V::En(21, vec![]),
        EMany8::W22 => V::En(22, vec![]),
        EMany8::W23 => V::En(23, vec![]),
        EMany8::W24 => V::En(24, vec![]),
        EMany8::W25 => V::En(25, vec![]),
        EMany8::W26 => V::En(26, vec![]),
        EMany8::W27 => V::En(27, vec![]),
        EMany8::W28 => V::En(28, vec![]),
        EMany8::W29 => V::En(29, vec![]),
        EMany8::W30 => V::En(30, vec![]),
        EMany8::W31 => V::En(31, vec![]),
        EMany8::W32 => V::En(32, vec![]),
        EMany8::W33 => V::En(33, vec![]),
        EMany8::W34 => V::En(34, vec![]),
        EMany8::W35 => V::En(35, vec![]),
        EMany8::W36 => V::En(36, vec![]),
        EMany8::W37 => V::En(37, vec![]),
        EMany8::W38 => V::En(38, vec![]),
        EMany8::W39 => V::En(39, vec![]),
        EMany8::W40 => V::En(40, vec![]),
        EMany8::W41 => V::En(41, vec![]),
        EMany8::W42 => V::En(42, vec![]),
        EMany8::W43 => V::En(43, vec![]),
        EMany8::W44 => V::En(44, vec![]),
        EMany8::W45 => V::En(45, vec![]),
        EMany8::W46 => V::En(46, vec![]),
        EMany8::W47 => V::En(47, vec![]),
        EMany8::W48 => V::En(48, vec![]),
        EMany8::W49 => V::En(49, vec![]),
        EMany8::W50 => V::En(50, vec![]),
        EMany8::W51 => V::En(51, vec![]),
        EMany8::W52 => V::En(52, vec![]),
        EMany8::W53 => V::En(53, vec![]),
        EMany8::W54 => V::En(54, vec![]),
        EMany8::W55 => V::En(55, vec![]),
        EMany8::W56 => V::En(56, vec![]),
        EMany8::W57 => V::En(57, vec![]),
        EMany8::W58 => V::En(58, vec![]),
        EMany8::W59 => V::En(59, vec![]),
        EMany8::W60 => V::En(60, vec![]),
        EMany8::W61 => V::En(61, vec![]),
        EMany8::W62 => V::En(62, vec![]),
        EMany8::W63 => V::En(63, vec![]),
        EMany8::W64 => V::En(64, vec![]),
        EMany8::W65 => V::En(65, vec![]),
        EMany8::W66 => V::En(66, vec![]),
        EMany8::W67 => V::En(67, vec![]),
        EMany8::W68 => V::En(68, vec![]),
        EMany8::W69 => V::En(69, vec![]),
        EMany8::W70 => V::En(70, vec![]),
        EMany8::W71 => V::En(71, vec![]),
        EMany8::W72 => V::En(72, vec![]),
        EMany8::W73 => V::En(73, vec![]),
        EMany8::W74 => V::En(74, vec![]),
        EMany8::W75 => V::En(75, vec![]),
        EMany8::W76 => V::En(76, vec![]),
        EMany8::W77 => V::En(77, vec![]),
        EMany8::W78 => V::En(78, vec![]),
        EMany8::W79 => V::En(79, vec![]),
        EMany8::W80 => V::En(80, vec![]),
        EMany8::W81 => V::En(81, vec![]),
        EMany8::W82 => V::En(82, vec![]),
        EMany8::W83 => V::En(83, vec![]),
        EMany8::W84 => V::En(84, vec![]),
        EMany8::W85 => V::En(85, vec![]),
        EMany8::W86 => V::En(86, vec![]),
        EMany8::W87 => V::En(87, vec![]),
        EMany8::W88 => V::En(88, vec![]),
        EMany8::W89 => V::En(89, vec![]),
        EMany8::W90 => V::En(90, vec![]),
        EMany8::W91 => V::En(91, vec![]),
        EMany8::W92 => V::En(92, vec![]),
        EMany8::W93 => V::En(93, vec![]),
        EMany8::W94 => V::En(94, vec![]),
        EMany8::W95 => V::En(95, vec![]),
        EMany8::W96 => V::En(96, vec![]),
        EMany8::W97 => V::En(97, vec![]),
        EMany8::W98 => V::En(98, vec![]),
        EMany8::W99 => V::En(99, vec![]),
        EMany8::W100 => V::En(100, vec![]),
        EMany8::W101 => V::En(101, vec![]),
        EMany8::W102 => V::En(102, vec![]),
        EMany8::W103 => V::En(103, vec![]),
        EMany8::W104 => V::En(104, vec![]),
        EMany8::W105 => V::En(105, vec![]),
        EMany8::W106 => V::En(106, vec![]),
        EMany8::W107 => V::En(107, vec![]),
        EMany8::W108 => V::En(108, vec![]),
        EMany8::W109 => V::En(109, vec![]),
        EMany8::W110 => V::En(110, vec![]),
        EMany8::W111 => V::En(111, vec![]),
        EMany8::W112 => V::En(112, vec![]),
        EMany8::W113 => V::En(113, vec![]),
        EMany8::W114 => V::En(114, vec![]),
        EMany8::W115 => V::En(115, vec![]),
        EMany8::W116 => V::En(116, vec![]),
        EMany8::W117 => V::En(117, vec![]),
        EMany8::W118 => V::En(118, vec![]),
        EMany8::W119 => V::En(119, vec![]),
        EMany8::W120 => V::En(120, vec![]),
        EMany8::W121 => V::En(121, vec![]),
        EMany8::W122 => V::En(122, vec![]),
        EMany8::W123 => V::En(123, vec![]),
        EMany8::W124 => V::En(124, vec![]),
        EMany8::W125 => V::En(125, vec![]),
        EMany8::W126 => V::En(126, vec![]),
        EMany8::W127 => V::En(127, vec![]),
        EMany8::W128(f0) => V::En(128, vec![f0.to_v()]),
        EMany8::W129 => V::En(129, vec![]),
        EMany8::W130 => V::En(130, vec![]),
        EMany8::W131 => V::En(131, vec![]),
        EMany8::W132 => V::En(132, vec![]),
        EMany8::W133 => V::En(133, vec![]),
        EMany8::W134 => V::En(134, vec![]),
        EMany8::W135 => V::En(135, vec![]),
        EMany8::W136 => V::En(136, vec![]),
        EMany8::W137 => V::En(137, vec![]),
        EMany8::W138 => V::En(138, vec![]),
        EMany8::W139 => V::En(139, vec![]),
        EMany8::W140 => V::En(140, vec![]),
        EMany8::W141 => V::En(141, vec![]),
        EMany8::W142 => V::En(142, vec![]),
        EMany8::W143 => V::En(143, vec![]),
        EMany8::W144 => V::En(144, vec![]),
        EMany8::W145 => V::En(145, vec![]),
        EMany8::W146 => V::En(146, vec![]),
        EMany8::W147 => V::En(147, vec![]),
        EMany8::W148 => V::En(148, vec![]),
        EMany8::W149 => V::En(149, vec![]),
        EMany8::W150 => V::En(150, vec![]),
        EMany8::W151 => V::En(151, vec![]),
        EMany8::W152 => V::En(152, vec![]),
        EMany8::W153 => V::En(153, vec![]),
        EMany8::W154 => V::En(154, vec![]),
        EMany8::W155 => V::En(155, vec![]),
        EMany8::W156 => V::En(156, vec![]),
        EMany8::W157 => V::En(157, vec![]),
        EMany8::W158 => V::En(158, vec![]),
        EMany8::W159 => V::En(159, vec![]),
        EMany8::W160 => V::En(160, vec![]),
        EMany8::W161 => V::En(161, vec![]),
        EMany8::W162 => V::En(162, vec![]),
        EMany8::W163 => V::En(163, vec![]),
        EMany8::W164 => V::En(164, vec![]),
        EMany8::W165 => V::En(165, vec![]),
        EMany8::W166 => V::En(166, vec![]),
        EMany8::W167 => V::En(167, vec![]),
        EMany8::W168 => V::En(168, vec![]),
        EMany8::W169 => V::En(169, vec![]),
        EMany8::W170 => V::En(170, vec![]),
        EMany8::W171 => V::En(171, vec![]),
        EMany8::W172 => V::En(172, vec![]),
        EMany8::W173 => V::En(173, vec![]),
        EMany8::W174 => V::En(174, vec![]),
        EMany8::W175 => V::En(175, vec![]),
        EMany8::W176 => V::En(176, vec![]),
        EMany8::W177 => V::En(177, vec![]),
        EMany8::W178 => V::En(178, vec![]),
        EMany8::W179 => V::En(179, vec![]),
        EMany8::W180 => V::En(180, vec![]),
        EMany8::W181 => V::En(181, vec![]),
        EMany8::W182 => V::En(182, vec![]),
        EMany8::W183 => V::En(183, vec![]),
        EMany8::W184 => V::En(184, vec![]),
        EMany8::W185 => V::En(185, vec![]),
        EMany8::W186 => V::En(186, vec![]),
        EMany8::W187 => V::En(187, vec![]),
        EMany8::W188 => V::En(188, vec![]),
        EMany8::W189 => V::En(189, vec![]),
        EMany8::W190 => V::En(190, vec![]),
        EMany8::W191 => V::En(191, vec![]),
        EMany8::W192 => V::En(192, vec![]),
        EMany8::W193 => V::En(193, vec![]),
        EMany8::W194 => V::En(194, vec![]),
        EMany8::W195 => V::En(195, vec![]),
        EMany8::W196 => V::En(196, vec![]),
        EMany8::W197 => V::En(197, vec![]),
        EMany8::W198 => V::En(198, vec![]),
        EMany8::W199 => V::En(199, vec![]),
        EMany8::W200 => V::En(200, vec![]),
        EMany8::W201 => V::En(201, vec![]),
        EMany8::W202 => V::En(202, vec![]),
        EMany8::W203 => V::En(203, vec![]),
        EMany8::W204 => V::En(204, vec![]),
        EMany8::W205 => V::En(205, vec![]),
        EMany8::W206 => V::En(206, vec![]),
        EMany8::W207 => V::En(207, vec![]),
        EMany8::W208 => V::En(208, vec![]),
        EMany8::W209 => V::En(209, vec![]),
        EMany8::W210 => V::En(210, vec![]),
        EMany8::W211 => V::En(211, vec![]),
        EMany8::W212 => V::En(212, vec![]),
        EMany8::W213 => V::En(213, vec![]),
        EMany8::W214 => V::En(214, vec![]),
        EMany8::W215 => V::En(215, vec![]),
        EMany8::W216 => V::En(216, vec![]),
        EMany8::W217 => V::En(217, vec![]),
        EMany8::W218 => V::En(218, vec![]),
        EMany8::W219 => V::En(219, vec![]),
        EMany8::W220 => V::En(220, vec![]),
        EMany8::W221 => V::En(221, vec![]),
        EMany8::W222 => V::En(222, vec![]),
        EMany8::W223 => V::En(223, vec![]),
        EMany8::W224 => V::En(224, vec![]),
        EMany8::W225 => V::En(225, vec![]),
        EMany8::W226 => V::En(226, vec![]),
        EMany8::W227 => V::En(227, vec![]),
        EMany8::W228 => V::En(228, vec![]),
        EMany8::W229 => V::En(229, vec![]),
        EMany8::W230 => V::En(230, vec![]),
        EMany8::W231 => V::En(231, vec![]),
        EMany8::W232 => V::En(232, vec![]),
        EMany8::W233 => V::En(233, vec![]),
        EMany8::W234 => V::En(234, vec![]),
        EMany8::W235 => V::En(235, vec![]),
        EMany8::W236 => V::En(236, vec![]),
        EMany8::W237 => V::En(237, vec![]),
        EMany8::W238 => V::En(238, vec![]),
        EMany8::W239 => V::En(239, vec![]),
        EMany8::W240 => V::En(240, vec![]),
        EMany8::W241 => V::En(241, vec![]),
        EMany8::W242 => V::En(242, vec![]),
        EMany8::W243 => V::En(243, vec![]),
        EMany8::W244 => V::En(244, vec![]),
        EMany8::W245 => V::En(245, vec![]),
        EMany8::W246 => V::En(246, vec![]),
        EMany8::W247 => V::En(247, vec![]),
        EMany8::W248 => V::En(248, vec![]),
        EMany8::W249 => V::En(249, vec![]),
        EMany8::W250 => V::En(250, vec![]),
        EMany8::W251 => V::En(251, vec![]),
        EMany8::W252 => V::En(252, vec![]),
        EMany8::W253 => V::En(253, vec![]),
        EMany8::W254 => V::En(254, vec![]),
        EMany8::W255(f0) => V::En(255, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EMany8::W0,
        1 => EMany8::W1,
        2 => EMany8::W2,
        3 => EMany8::W3,
        4 => EMany8::W4,
        5 => EMany8::W5,
        6 => EMany8::W6,
        7 => EMany8::W7(Gt::from_v(&_f[0])),
        8 => EMany8::W8,
        9 => EMany8::W9,
        10 => EMany8::W10,
        11 => EMany8::W11,
        12 => EMany8::W12,
        13 => EMany8::W13,
        14 => EMany8::W14,
        15 => EMany8::W15,
        16 => EMany8::W16,
        17 => EMany8::W17,
        18 => EMany8::W18,
        19 => EMany8::W19,
        20 => EMany8::W20,
        21 => EMany8::W21,
        22 => EMany8::W22,
        23 => EMany8::W23,
        24 => EMany8::W24,
        25 => EMany8::W25,
        26 => EMany8::W26,
        27 => EMany8::W27,
        28 => EMany8::W28,
        29 => EMany8::W29,
        30 => EMany8::W30,
        31 => EMany8::W31,
        32 => EMany8::W32,
        33 => EMany8::W33,
        34 => EMany8::W34,
        35 => EMany8::W35,
        36 => EMany8::W36,
        37 => EMany8::W37,
        38 => EMany8::W38,
        39 => EMany8::W39,
        40 => EMany8::W40,
        41 => EMany8::W41,
        42 => EMany8::W42,
        43 => EMany8::W43,
        44 => EMany8::W44,
        45 => EMany8::W45,
        46 => EMany8::W46,
        47 => EMany8::W47,
        48 => EMany8::W48,
        49 => EMany8::W49,
        50 => EMany8::W50,
        51 => EMany8::W51,
        52 => EMany8::W52,
        53 => EMany8::W53,
        54 => EMany8::W54,
        55 => EMany8::W55,
        56 => EMany8::W56,
        57 => EMany8::W57,
        58 => EMany8::W58,
        59 => EMany8::W59,
        60 => EMany8::W60,
        61 => EMany8::W61,
        62 => EMany8::W62,
        63 => EMany8::W63,
        64 => EMany8::W64,
        65 => EMany8::W65,
        66 => EMany8::W66,
        67 => EMany8::W67,
        68 => EMany8::W68,
        69 => EMany8::W69,
        70 => EMany8::W70,
        71 => EMany8::W71,
        72 => EMany8::W72,
        73 => EMany8::W73,
        74 => EMany8::W74,
        75 => EMany8::W75,
        76 => EMany8::W76,
        77 => EMany8::W77,
        78 => EMany8::W78,
        79 => EMany8::W79,
        80 => EMany8::W80,
        81 => EMany8::W81,
        82 => EMany8::W82,
        83 => EMany8::W83,
        84 => EMany8::W84,
        85 => EMany8::W85,
        86 => EMany8::W86,
        87 => EMany8::W87,
        88 => EMany8::W88,
        89 => EMany8::W89,
        90 => EMany8::W90,
        91 => EMany8::W91,
        92 => EMany8::W92,
        93 => EMany8::W93,
        94 => EMany8::W94,
        95 => EMany8::W95,
        96 => EMany8::W96,
        97 => EMany8::W97,
        98 => EMany8::W98,
        99 => EMany8::W99,
        100 => EMany8::W100,
        101 => EMany8::W101,
        102 => EMany8::W102,
        103 => EMany8::W103,
        104 => EMany8::W104,
        105 => EMany8::W105,
        106 => EMany8::W106,
        107 => EMany8::W107,
        108 => EMany8::W108,
        109 => EMany8::W109,
        110 => EMany8::W110,
        111 => EMany8::W111,
        112 => EMany8::W112,
        113 => EMany8::W113,
        114 => EMany8::W114,
        115 => EMany8::W115,
        116 => EMany8::W116,
        117 => EMany8::W117,
        118 => EMany8::W118,
        119 => EMany8::W119,
        120 => EMany8::W120,
        121 => EMany8::W121,
        122 => EMany8::W122,
        123 => EMany8::W123,
        124 => EMany8::W124,
        125 => EMany8::W125,
        126 => EMany8::W126,
        127 => EMany8::W127,
        128 => EMany8::W128(Gt::from_v(&_f[0])),
        129 => EMany8::W129,
        130 => EMany8::W130,
        131 => EMany8::W131,
        132 => EMany8::W132,
        133 => EMany8::W133,
        134 => EMany8::W134,
        135 => EMany8::W135,
        136 => EMany8::W136,
        137 => EMany8::W137,
        138 => EMany8::W138,
        139 => EMany8::W139,
        140 => EMany8::W140,
        141 => EMany8::W141,
        142 => EMany8::W142,
        143 => EMany8::W143,
        144 => EMany8::W144,
        145 => EMany8::W145,
        146 => EMany8::W146,
        147 => EMany8::W147,
        148 => EMany8::W148,
        149 => EMany8::W149,
        150 => EMany8::W150,
        151 => EMany8::W151,
        152 => EMany8::W152,
        153 => EMany8::W153,
        154 => EMany8::W154,
        155 => EMany8::W155,
        156 => EMany8::W156,
        157 => EMany8::W157,
        158 => EMany8::W158,
        159 => EMany8::W159,
        160 => EMany8::W160,
        161 => EMany8::W161,
        162 => EMany8::W162,
        163 => EMany8::W163,
        164 => EMany8::W164,
        165 => EMany8::W165,
        166 => EMany8::W166,
        167 => EMany8::W167,
        168 => EMany8::W168,
        169 => EMany8::W169,
        170 => EMany8::W170,
        171 => EMany8::W171,
        172 => EMany8::W172,
        173 => EMany8::W173,
        174 => EMany8::W174,
        175 => EMany8::W175,
        176 => EMany8::W176,
        177 => EMany8::W177,
        178 => EMany8::W178,
        179 => EMany8::W179,
        180 => EMany8::W180,
        181 => EMany8::W181,
        182 => EMany8::W182,
        183 => EMany8::W183,
        184 => EMany8::W184,
        185 => EMany8::W185,
        186 => EMany8::W186,
        187 => EMany8::W187,
        188 => EMany8::W188,
        189 => EMany8::W189,
        190 => EMany8::W190,
        191 => EMany8::W191,
        192 => EMany8::W192,
        193 => EMany8::W193,
        194 => EMany8::W194,
        195 => EMany8::W195,
        196 => EMany8::W196,
        197 => EMany8::W197,
        198 => EMany8::W198,
        199 => EMany8::W199,
        200 => EMany8::W200,
        201 => EMany8::W201,
        202 => EMany8::W202,
        203 => EMany8::W203,
        204 => EMany8::W204,
        205 => EMany8::W205,
        206 => EMany8::W206,
        207 => EMany8::W207,
        208 => EMany8::W208,
        209 => EMany8::W209,
        210 => EMany8::W210,
        211 => EMany8::W211,
        212 => EMany8::W212,
        213 => EMany8::W213,
        214 => EMany8::W214,
        215 => EMany8::W215,
        216 => EMany8::W216,
        217 => EMany8::W217,
        218 => EMany8::W218,
        219 => EMany8::W219,
        220 => EMany8::W220,
        221 => EMany8::W221,
        222 => EMany8::W222,
        223 => EMany8::W223,
        224 => EMany8::W224,
        225 => EMany8::W225,
        226 => EMany8::W226,
        227 => EMany8::W227,
        228 => EMany8::W228,
        229 => EMany8::W229,
        230 => EMany8::W230,
        231 => EMany8::W231,
        232 => EMany8::W232,
        233 => EMany8::W233,
        234 => EMany8::W234,
        235 => EMany8::W235,
        236 => EMany8::W236,
        237 => EMany8::W237,
        238 => EMany8::W238,
        239 => EMany8::W239,
        240 => EMany8::W240,
        241 => EMany8::W241,
        242 => EMany8::W242,
        243 => EMany8::W243,
        244 => EMany8::W244,
        245 => EMany8::W245,
        246 => EMany8::W246,
        247 => EMany8::W247,
        248 => EMany8::W248,
        249 => EMany8::W249,
        250 => EMany8::W250,
        251 => EMany8::W251,
        252 => EMany8::W252,
        253 => EMany8::W253,
        254 => EMany8::W254,
        255 => EMany8::W255(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(C)]
pub enum EManyC {
    X0,
    X1,
    X2,
    X3,
    X4,
    X5,
    X6,
    X7( u8),
    X8,
    X9,
    X10,
    X11,
    X12,
    X13,
    X14,
    X15,
    X16,
    X17,
    X18,
    X19,
    X20,
    X21,
    X22,
    X23,
    X24,
    X25,
    X26,
    X27,
    X28,
    X29,
    X30,
    X31,
    X32,
    X33,
    X34,
    X35,
    X36,
    X37,
    X38,
    X39,
    X40,
    X41,
    X42,
    X43,
    X44,
    X45,
    X46,
    X47,
    X48,
    X49,
    X50,
    X51,
    X52,
    X53,
    X54,
    X55,
    X56,
    X57,
    X58,
    X59,
    X60,
    X61,
    X62,
    X63,
    X64,
    X65,
    X66,
    X67,
    X68,
    X69,
    X70,
    X71,
    X72,
    X73,
    X74,
    X75,
    X76,
    X77,
    X78,
    X79,
    X80,
    X81,
    X82,
    X83,
    X84,
    X85,
    X86,
    X87,
    X88,
    X89,
    X90,
    X91,
    X92,
    X93,
    X94,
    X95,
    X96,
    X97,
    X98,
    X99,
    X100,
    X101,
    X102,
    X103,
    X104,
    X105,
    X106,
    X107,
    X108,
    X109,
    X110,
    X111,
    X112,
    X113,
    X114,
    X115,
    X116,
    X117,
    X118,
    X119,
    X120,
    X121,
    X122,
    X123,
    X124,
    X125,
    X126,
    X127,
    X128( u8),
    X129,
    X130,
    X131,
    X132,
    X133,
    X134,
    X135,
    X136,
    X137,
    X138,
    X139,
    X140,
    X141,
    X142,
    X143,
    X144,
    X145,
    X146,
    X147,
    X148,
    X149,
    X150,
    X151,
    X152,
    X153,
    X154,
    X155,
    X156,
    X157,
    X158,
    X159,
    X160,
    X161,
    X162,
    X163,
    X164,
    X165,
    X166,
    X167,
    X168,
    X169,
    X170,
    X171,
    X172,
    X173,
    X174,
    X175,
    X176,
    X177,
    X178,
    X179,
    X180,
    X181,
    X182,
    X183,
    X184,
    X185,
    X186,
    X187,
    X188,
    X189,
    X190,
    X191,
    X192,
    X193,
    X194,
    X195,
    X196,
    X197,
    X198,
    X199,
    X200,
    X201,
    X202,
    X203,
    X204,
    X205,
    X206,
    X207,
    X208,
    X209,
    X210,
    X211,
    X212,
    X213,
    X214,
    X215,
    X216,
    X217,
    X218,
    X219,
    X220,
    X221,
    X222,
    X223,
    X224,
    X225,
    X226,
    X227,
    X228,
    X229,
    X230,
    X231,
    X232,
    X233,
    X234,
    X235,
    X236,
    X237,
    X238,
    X239,
    X240,
    X241,
    X242,
    X243,
    X244,
    X245,
    X246,
    X247,
    X248,
    X249,
    X250,
    X251,
    X252,
    X253,
    X254,
    X255( u8),
    X256( u8),
    X257,
    X258,
    X259,
    X260,
    X261,
    X262,
    X263,
    X264,
    X265,
    X266,
    X267,
    X268,
    X269,
    X270( u8),
    X271,
    X272,
    X273,
    X274,
    X275,
    X276,
    X277,
    X278,
    X279,
}
impl Gt for EManyC {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("EManyC", "C", vec![
            Vd { name: "X0", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "X1", kind: Vk::Unit, disc: 1, fields: vec![] },
            Vd { name: "X2", kind: Vk::Unit, disc: 2, fields: vec![] },
            Vd { name: "X3", kind: Vk::Unit, disc: 3, fields: vec![] },
            Vd { name: "X4", kind: Vk::Unit, disc: 4, fields: vec![] },
            Vd { name: "X5", kind: Vk::Unit, disc: 5, fields: vec![] },
            Vd { name: "X6", kind: Vk::Unit, disc: 6, fields: vec![] },
            Vd { name: "X7", kind: Vk::Tuple, disc: 7, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "X8", kind: Vk::Unit, disc: 8, fields: vec![] },
            Vd { name: "X9", kind: Vk::Unit, disc: 9, fields: vec![] },
            Vd { name: "X10", kind: Vk::Unit, disc: 10, fields: vec![] },
            Vd { name: "X11", kind: Vk::Unit, disc: 11, fields: vec![] },
            Vd { name: "X12", kind: Vk::Unit, disc: 12, fields: vec![] },
            Vd { name: "X13", kind: Vk::Unit, disc: 13, fields: vec![] },
            Vd { name: "X14", kind: Vk::Unit, disc: 14, fields: vec![] },
            Vd { name: "X15", kind: Vk::Unit, disc: 15, fields: vec![] },
            Vd { name: "X16", kind: Vk::Unit, disc: 16, fields: vec![] },
            Vd { name: "X17", kind: Vk::Unit, disc: 17, fields: vec![] },
            Vd { name: "X18", kind: Vk::Unit, disc: 18, fields: vec![] },
            Vd { name: "X19", kind: Vk::Unit, disc: 19, fields: vec![] },
            Vd { name: "X20", kind: Vk::Unit, disc: 20, fields: vec![] },
            Vd { name: "X21", kind: Vk::Unit, disc: 21, fields: vec![] },
            Vd { name: "X22", kind: Vk::Unit, disc: 22, fields: vec![] },
            Vd { name: "X23", kind: Vk::Unit, disc: 23, fields: vec![] },
            Vd { name: "X24", kind: Vk::Unit, disc: 24, fields: vec![] },
            Vd { name: "X25", kind: Vk::Unit, disc: 25, fields: vec![] },
            Vd { name: "X26", kind: Vk::Unit, disc: 26, fields: vec![] },
            Vd { name: "X27", kind: Vk::Unit, disc: 27, fields: vec![] },
            Vd { name: "X28", kind: Vk::Unit, disc: 28, fields: vec![] },
            Vd { name: "X29", kind: Vk::Unit, disc: 29, fields: vec![] },
            Vd { name: "X30", kind: Vk::Unit, disc: 30, fields: vec![] },
            Vd { name: "X31", kind: Vk::Unit, disc: 31, fields: vec![] },
            Vd { name: "X32", kind: Vk::Unit, disc: 32, fields: vec![] },
            Vd { name: "X33", kind: Vk::Unit, disc: 33, fields: vec![] },
            Vd { name: "X34", kind: Vk::Unit, disc: 34, fields: vec![] },
            Vd { name: "X35", kind: Vk::Unit, disc: 35, fields: vec![] },
            Vd { name: "X36", kind: Vk::Unit, disc: 36, fields: vec![] },
            Vd { name: "X37", kind: Vk::Unit, disc: 37, fields: vec![] },
            Vd { name: "X38", kind: Vk::Unit, disc: 38, fields: vec![] },
            Vd { name: "X39", kind: Vk::Unit, disc: 39, fields: vec![] },
            Vd { name: "X40", kind: Vk::Unit, disc: 40, fields: vec![] },
            Vd { name: "X41", kind: Vk::Unit, disc: 41, fields: vec![] },
            Vd { name: "X42", kind: Vk::Unit, disc: 42, fields: vec![] },
            Vd { name: "X43", kind: Vk::Unit, disc: 43, fields: vec![] },
            Vd { name: "X44", kind: Vk::Unit, disc: 44, fields: vec![] },
            Vd { name: "X45", kind: Vk::Unit, disc: 45, fields: vec![] },
            Vd { name: "X46", kind: Vk::Unit, disc: 46, fields: vec![] },
            Vd { name: "X47", kind: Vk::Unit, disc: 47, fields: vec![] },
            Vd { name: "X48", kind: Vk::Unit, disc: 48, fields: vec![] },
            Vd { name: "X49", kind: Vk::Unit, disc: 49, fields: vec![] },
            Vd { name: "X50", kind: Vk::Unit, disc: 50, fields: vec![] },
            Vd { name: "X51", kind: Vk::Unit, disc: 51, fields: vec![] },
            Vd { name: "X52", kind: Vk::Unit, disc: 52, fields: vec![] },
            Vd { name: "X53", kind: Vk::Unit, disc: 53, fields: vec![] },
            Vd { name: "X54", kind: Vk::Unit, disc: 54, fields: vec![] },
            Vd { name: "X55", kind: Vk::Unit, disc: 55, fields: vec![] },
            Vd { name: "X56", kind: Vk::Unit, disc: 56, fields: vec![] },
            Vd { name: "X57", kind: Vk::Unit, disc: 57, fields: vec![] },
            Vd { name: "X58", kind: Vk::Unit, disc: 58, fields: vec![] },
            Vd { name: "X59", kind: Vk::Unit, disc: 59, fields: vec![] },
            Vd { name: "X60", kind: Vk::Unit, disc: 60, fields: vec![] },
            Vd { name: "X61", kind: Vk::Unit, disc: 61, fields: vec![] },
            Vd { name: "X62", kind: Vk::Unit, disc: 62, fields: vec![] },
            Vd { name: "X63", kind: Vk::Unit, disc: 63, fields: vec![] },
            Vd { name: "X64", kind: Vk::Unit, disc: 64, fields: vec![] },
            Vd { name: "X65", kind: Vk::Unit, disc: 65, fields: vec![] },
            Vd { name: "X66", kind: Vk::Unit, disc: 66, fields: vec![] },
            Vd { name: "X67", kind: Vk::Unit, disc: 67, fields: vec![] },
            Vd { name: "X68", kind: Vk::Unit, disc: 68, fields: vec![] },
            Vd { name: "X69", kind: Vk::Unit, disc: 69, fields: vec![] },
            Vd { name: "X70", kind: Vk::Unit, disc: 70, fields: vec![] },
            Vd { name: "X71", kind: Vk::Unit, disc: 71, fields: vec![] },
            Vd { name: "X72", kind: Vk::Unit, disc: 72, fields: vec![] },
            Vd { name: "X73", kind: Vk::Unit, disc: 73, fields: vec![] },
            Vd { name: "X74", kind: Vk::Unit, disc: 74, fields: vec![] },
            Vd { name: "X75", kind: Vk::Unit, disc: 75, fields: vec![] },
            Vd { name: "X76", kind: Vk::Unit, disc: 76, fields: vec![] },
            Vd { name: "X77", kind: Vk::Unit, disc: 77, fields: vec![] },
            Vd { name: "X78", kind: Vk::Unit, disc: 78, fields: vec![] },
            Vd { name: "X79", kind: Vk::Unit, disc: 79, fields: vec![] },
            Vd { name: "X80", kind: Vk::Unit, disc: 80, fields: vec![] },
            Vd { name: "X81", kind: Vk::Unit, disc: 81, fields: vec![] },
            Vd { name: "X82", kind: Vk::Unit, disc: 82, fields: vec![] },
            Vd { name: "X83", kind: Vk::Unit, disc: 83, fields: vec![] },
            Vd { name: "X84", kind: Vk::Unit, disc: 84, fields: vec![] },
            Vd { name: "X85", kind: Vk::Unit, disc: 85, fields: vec![] },
            Vd { name: "X86", kind: Vk::Unit, disc: 86, fields: vec![] },
            Vd { name: "X87", kind: Vk::Unit, disc: 87, fields: vec![] },
            Vd { name: "X88", kind: Vk::Unit, disc: 88, fields: vec![] },
            Vd { name: "X89", kind: Vk::Unit, disc: 89, fields: vec![] },
            Vd { name: "X90", kind: Vk::Unit, disc: 90, fields: vec![] },
            Vd { name: "X91", kind: Vk::Unit, disc: 91, fields: vec![] },
            Vd { name: "X92", kind: Vk::Unit, disc: 92, fields: vec![] },
            Vd { name: "X93", kind: Vk::Unit, disc: 93, fields: vec![] },
            Vd { name: "X94", kind: Vk::Unit, disc: 94, fields: vec![] },
            Vd { name: "X95", kind: Vk::Unit, disc: 95, fields: vec![] },
            Vd { name: "X96", kind: Vk::Unit, disc: 96, fields: vec![] },
            Vd { name: "X97", kind: Vk::Unit, disc: 97, fields: vec![] },
            Vd { name: "X98", kind: Vk::Unit, disc: 98, fields: vec![] },
            Vd { name: "X99", kind: Vk::Unit, disc: 99, fields: vec![] },
            Vd { name: "X100", kind: Vk::Unit, disc: 100, fields: vec![] },
            Vd { name: "X101", kind: Vk::Unit, disc: 101, fields: vec![] },
            Vd { name: "X102", kind: Vk::Unit, disc: 102, fields: vec![] },
            Vd { name: "X103", kind: Vk::Unit, disc: 103, fields: vec![] },
            Vd { name: "X104", kind: Vk::Unit, disc: 104, fields: vec![] },
            Vd { name: "X105", kind: Vk::Unit, disc: 105, fields: vec![] },
            Vd { name: "X106", kind: Vk::Unit, disc: 106, fields: vec![] },
            Vd { name: "X107", kind: Vk::Unit, disc: 107, fields: vec![] },
            Vd { name: "X108", kind: Vk::Unit, disc: 108, fields: vec![] },
            Vd { name: "X109", kind: Vk::Unit, disc: 109, fields: vec![] },
            Vd { name: "X110", kind: Vk::Unit, disc: 110, fields: vec![] },
            Vd { name: "X111", kind: Vk::Unit, disc: 111, fields: vec![] },
            Vd { name: "X112", kind: Vk::Unit, disc: 112, fields: vec![] },
            Vd { name: "X113", kind: Vk::Unit, disc: 113, fields: vec![] },
            Vd { name: "X114", kind: Vk::Unit, disc: 114, fields: vec![] },
            Vd { name: "X115", kind: Vk::Unit, disc: 115, fields: vec![] },
            Vd { name: "X116", kind: Vk::Unit, disc: 116, fields: vec![] },
            Vd { name: "X117", kind: Vk::Unit, disc: 117, fields: vec![] },
            Vd { name: "X118", kind: Vk::Unit, disc: 118, fields: vec![] },
            Vd { name: "X119", kind: Vk::Unit, disc: 119, fields: vec![] },
            Vd { name: "X120", kind: Vk::Unit, disc: 120, fields: vec![] },
            Vd { name: "X121", kind: Vk::Unit, disc: 121, fields: vec![] },
            Vd { name: "X122", kind: Vk::Unit, disc: 122, fields: vec![] },
            Vd { name: "X123", kind: Vk::Unit, disc: 123, fields: vec![] },
            Vd { name: "X124", kind: Vk::Unit, disc: 124, fields: vec![] },
            Vd { name: "X125", kind: Vk::Unit, disc: 125, fields: vec![] },
            Vd { name: "X126", kind: Vk::Unit, disc: 126, fields: vec![] },
            Vd { name: "X127", kind: Vk::Unit, disc: 127, fields: vec![] },
            Vd { name: "X128", kind: Vk::Tuple, disc: 128, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "X129", kind: Vk::Unit, disc: 129, fields: vec![] },
            Vd { name: "X130", kind: Vk::Unit, disc: 130, fields: vec![] },
            Vd { name: "X131", kind: Vk::Unit, disc: 131, fields: vec![] },
            Vd { name: "X132", kind: Vk::Unit, disc: 132, fields: vec![] },
            Vd { name: "X133", kind: Vk::Unit, disc: 133, fields: vec![] },
            Vd { name: "X134", kind: Vk::Unit, disc: 134, fields: vec![] },
            Vd { name: "X135", kind: Vk::Unit, disc: 135, fields: vec![] },
            Vd { name: "X136", kind: Vk::Unit, disc: 136, fields: vec![] },
            Vd { name: "X137", kind: Vk::Unit, disc: 137, fields: vec![] },
            Vd { name: "X138", kind: Vk::Unit, disc: 138, fields: vec![] },
            Vd { name: "X139", kind: Vk::Unit, disc: 139, fields: vec![] },
            Vd { name: "X140", kind: Vk::Unit, disc: 140, fields: vec![] },
            Vd { name: "X141", kind: Vk::Unit, disc: 141, fields: vec![] },
            Vd { name: "X142", kind: Vk::Unit, disc: 142, fields: vec![] },
            Vd { name: "X143", kind: Vk::Unit, disc: 143, fields: vec![] },
            Vd { name: "X144", kind: Vk::Unit, disc: 144, fields: vec![] },
            Vd { name: "X145", kind: Vk::Unit, disc: 145, fields: vec![] },
            Vd { name: "X146", kind: Vk::Unit, disc: 146, fields: vec![] },
            Vd { name: "X147", kind: Vk::Unit, disc: 147, fields: vec![] },
            Vd { name: "X148", kind: Vk::Unit, disc: 148, fields: vec![] },
            Vd { name: "X149", kind: Vk::Unit, disc: 149, fields: vec![] },
            Vd { name: "X150", kind: Vk::Unit, disc: 150, fields: vec![] },
            Vd { name: "X151", kind: Vk::Unit, disc: 151, fields: vec![] },
            Vd { name: "X152", kind: Vk::Unit, disc: 152, fields: vec![] },
            Vd { name: "X153", kind: Vk::Unit, disc: 153, fields: vec![] },
            Vd { name: "X154", kind: Vk::Unit, disc: 154, fields: vec![] },
            Vd { name: "X155", kind: Vk::Unit, disc: 155, fields: vec![] },
            Vd { name: "X156", kind: Vk::Unit, disc: 156, fields: vec![] },
            Vd { name: "X157", kind: Vk::Unit, disc: 157, fields: vec![] },
            Vd { name: "X158", kind: Vk::Unit, disc: 158, fields: vec![] },
            Vd { name: "X159", kind: Vk::Unit, disc: 159, fields: vec![] },
            Vd { name: "X160", kind: Vk::Unit, disc: 160, fields: vec![] },
            Vd { name: "X161", kind: Vk::Unit, disc: 161, fields: vec![] },
            Vd { name: "X162", kind: Vk::Unit, disc: 162, fields: vec![] },
            Vd { name: "X163", kind: Vk::Unit, disc: 163, fields: vec![] },
            Vd { name: "X164", kind: Vk::Unit, disc: 164, fields: vec![] },
            Vd { name: "X165", kind: Vk::Unit, disc: 165, fields: vec![] },
            Vd { name: "X166", kind: Vk::Unit, disc: 166, fields: vec![] },
            Vd { name: "X167", kind: Vk::Unit, disc: 167, fields: vec![] },
            Vd { name: "X168", kind: Vk::Unit, disc: 168, fields: vec![] },
            Vd { name: "X169", kind: Vk::Unit, disc: 169, fields: vec![] },
            Vd { name: "X170", kind: Vk::Unit, disc: 170, fields: vec![] },
            Vd { name: "X171", kind: Vk::Unit, disc: 171, fields: vec![] },
            Vd { name: "X172", kind: Vk::Unit, disc: 172, fields: vec![] },
            Vd { name: "X173", kind: Vk::Unit, disc: 173, fields: vec![] },
            Vd { name: "X174", kind: Vk::Unit, disc: 174, fields: vec![] },
            Vd { name: "X175", kind: Vk::Unit, disc: 175, fields: vec![] },
            Vd { name: "X176", kind: Vk::Unit, disc: 176, fields: vec![] },
            Vd { name: "X177", kind: Vk::Unit, disc: 177, fields: vec![] },
            Vd { name: "X178", kind: Vk::Unit, disc: 178, fields: vec![] },
            Vd { name: "X179", kind: Vk::Unit, disc: 179, fields: vec![] },
            Vd { name: "X180", kind: Vk::Unit, disc: 180, fields: vec![] },
            Vd { name: "X181", kind: Vk::Unit, disc: 181, fields: vec![] },
            Vd { name: "X182", kind: Vk::Unit, disc: 182, fields: vec![] },
            Vd { name: "X183", kind: Vk::Unit, disc: 183, fields: vec![] },
            Vd { name: "X184", kind: Vk::Unit, disc: 184, fields: vec![] },
            Vd { name: "X185", kind: Vk::Unit, disc: 185, fields: vec![] },
            Vd { name: "X186", kind: Vk::Unit, disc: 186, fields: vec![] },
            Vd { name: "X187", kind: Vk::Unit, disc: 187, fields: vec![] },
            Vd { name: "X188", kind: Vk::Unit, disc: 188, fields: vec![] },
            Vd { name: "X189", kind: Vk::Unit, disc: 189, fields: vec![] },
            Vd { name: "X190", kind: Vk::Unit, disc: 190, fields: vec![] },
            Vd { name: "X191", kind: Vk::Unit, disc: 191, fields: vec![] },
            Vd { name: "X192", kind: Vk::Unit, disc: 192, fields: vec![] },
            Vd { name: "X193", kind: Vk::Unit, disc: 193, fields: vec![] },
            Vd { name: "X194", kind: Vk::Unit, disc: 194, fields: vec![] },
            Vd { name: "X195", kind: Vk::Unit, disc: 195, fields: vec![] },
            Vd { name: "X196", kind: Vk::Unit, disc: 196, fields: vec![] },
            Vd { name: "X197", kind: Vk::Unit, disc: 197, fields: vec![] },
            Vd { name: "X198", kind: Vk::Unit, disc: 198, fields: vec![] },
            Vd { name: "X199", kind: Vk::Unit, disc: 199, fields: vec![] },
            Vd { name: "X200", kind: Vk::Unit, disc: 200, fields: vec![] },
            Vd { name: "X201", kind: Vk::Unit, disc: 201, fields: vec![] },
            Vd { name: "X202", kind: Vk::Unit, disc: 202, fields: vec![] },
            Vd { name: "X203", kind: Vk::Unit, disc: 203, fields: vec![] },
            Vd { name: "X204", kind: Vk::Unit, disc: 204, fields: vec![] },
            Vd { name: "X205", kind: Vk::Unit, disc: 205, fields: vec![] },
            Vd { name: "X206", kind: Vk::Unit, disc: 206, fields: vec![] },
            Vd { name: "X207", kind: Vk::Unit, disc: 207, fields: vec![] },
            Vd { name: "X208", kind: Vk::Unit, disc: 208, fields: vec![] },
            Vd { name: "X209", kind: Vk::Unit, disc: 209, fields: vec![] },
            Vd { name: "X210", kind: Vk::Unit, disc: 210, fields: vec![] },
            Vd { name: "X211", kind: Vk::Unit, disc: 211, fields: vec![] },
            Vd { name: "X212", kind: Vk::Unit, disc: 212, fields: vec![] },
            Vd { name: "X213", kind: Vk::Unit, disc: 213, fields: vec![] },
            Vd { name: "X214", kind: Vk::Unit, disc: 214, fields: vec![] },
            Vd { name: "X215", kind: Vk::Unit, disc: 215, fields: vec![] },
            Vd { name: "X216", kind: Vk::Unit, disc: 216, fields: vec![] },
            Vd { name: "X217", kind: Vk::Unit, disc: 217, fields: vec![] },
            Vd { name: "X218", kind: Vk::Unit, disc: 218, fields: vec![] },
            Vd { name: "X219", kind: Vk::Unit, disc: 219, fields: vec![] },
            Vd { name: "X220", kind: Vk::Unit, disc: 220, fields: vec![] },
            Vd { name: "X221", kind: Vk::Unit, disc: 221, fields: vec![] },
            Vd { name: "X222", kind: Vk::Unit, disc: 222, fields: vec![] },
            Vd { name: "X223", kind: Vk::Unit, disc: 223, fields: vec![] },
            Vd { name: "X224", kind: Vk::Unit, disc: 224, fields: vec![] },
            Vd { name: "X225", kind: Vk::Unit, disc: 225, fields: vec![] },
            Vd { name: "X226", kind: Vk::Unit, disc: 226, fields: vec![] },
            Vd { name: "X227", kind: Vk::Unit, disc: 227, fields: vec![] },
            Vd { name: "X228", kind: Vk::Unit, disc: 228, fields: vec![] },
            Vd { name: "X229", kind: Vk::Unit, disc: 229, fields: vec![] },
            Vd { name: "X230", kind: Vk::Unit, disc: 230, fields: vec![] },
            Vd { name: "X231", kind: Vk::Unit, disc: 231, fields: vec![] },
            Vd { name: "X232", kind: Vk::Unit, disc: 232, fields: vec![] },
            Vd { name: "X233", kind: Vk::Unit, disc: 233, fields: vec![] },
            Vd { name: "X234", kind: Vk::Unit, disc: 234, fields: vec![] },
            Vd { name: "X235", kind: Vk::Unit, disc: 235, fields: vec![] },
            Vd { name: "X236", kind: Vk::Unit, disc: 236, fields: vec![] },
            Vd { name: "X237", kind: Vk::Unit, disc: 237, fields: vec![] },
            Vd { name: "X238", kind: Vk::Unit, disc: 238, fields: vec![] },
            Vd { name: "X239", kind: Vk::Unit, disc: 239, fields: vec![] },
            Vd { name: "X240", kind: Vk::Unit, disc: 240, fields: vec![] },
            Vd { name: "X241", kind: Vk::Unit, disc: 241, fields: vec![] },
            Vd { name: "X242", kind: Vk::Unit, disc: 242, fields: vec![] },
            Vd { name: "X243", kind: Vk::Unit, disc: 243, fields: vec![] },
            Vd { name: "X244", kind: Vk::Unit, disc: 244, fields: vec![] },
            Vd { name: "X245", kind: Vk::Unit, disc: 245, fields: vec![] },
            Vd { name: "X246", kind: Vk::Unit, disc: 246, fields: vec![] },
            Vd { name: "X247", kind: Vk::Unit, disc: 247, fields: vec![] },
            Vd { name: "X248", kind: Vk::Unit, disc: 248, fields: vec![] },
            Vd { name: "X249", kind: Vk::Unit, disc: 249, fields: vec![] },
            Vd { name: "X250", kind: Vk::Unit, disc: 250, fields: vec![] },
            Vd { name: "X251", kind: Vk::Unit, disc: 251, fields: vec![] },
            Vd { name: "X252", kind: Vk::Unit, disc: 252, fields: vec![] },
            Vd { name: "X253", kind: Vk::Unit, disc: 253, fields: vec![] },
            Vd { name: "X254", kind: Vk::Unit, disc: 254, fields: vec![] },
            Vd { name: "X255", kind: Vk::Tuple, disc: 255, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "X256", kind: Vk::Tuple, disc: 256, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "X257", kind: Vk::Unit, disc: 257, fields: vec![] },
            Vd { name: "X258", kind: Vk::Unit, disc: 258, fields: vec![] },
            Vd { name: "X259", kind: Vk::Unit, disc: 259, fields: vec![] },
            Vd { name: "X260", kind: Vk::Unit, disc: 260, fields: vec![] },
            Vd { name: "X261", kind: Vk::Unit, disc: 261, fields: vec![] },
            Vd { name: "X262", kind: Vk::Unit, disc: 262, fields: vec![] },
            Vd { name: "X263", kind: Vk::Unit, disc: 263, fields: vec![] },
            Vd { name: "X264", kind: Vk::Unit, disc: 264, fields: vec![] },
            Vd { name: "X265", kind: Vk::Unit, disc: 265, fields: vec![] },
            Vd { name: "X266", kind: Vk::Unit, disc: 266, fields: vec![] },
            Vd { name: "X267", kind: Vk::Unit, disc: 267, fields: vec![] },
            Vd { name: "X268", kind: Vk::Unit, disc: 268, fields: vec![] },
            Vd { name: "X269", kind: Vk::Unit, disc: 269, fields: vec![] },
            Vd { name: "X270", kind: Vk::Tuple, disc: 270, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX)] },
            Vd { name: "X271", kind: Vk::Unit, disc: 271, fields: vec![] },
            Vd { name: "X272", kind: Vk::Unit, disc: 272, fields: vec![] },
            Vd { name: "X273", kind: Vk::Unit, disc: 273, fields: vec![] },
            Vd { name: "X274", kind: Vk::Unit, disc: 274, fields: vec![] },
            Vd { name: "X275", kind: Vk::Unit, disc: 275, fields: vec![] },
            Vd { name: "X276", kind: Vk::Unit, disc: 276, fields: vec![] },
            Vd { name: "X277", kind: Vk::Unit, disc: 277, fields: vec![] },
            Vd { name: "X278", kind: Vk::Unit, disc: 278, fields: vec![] },
            Vd { name: "X279", kind: Vk::Unit, disc: 279, fields: vec![] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        EManyC::X0 => V::En(0, vec![]),
        EManyC::X1 => V::En(1, vec![]),
        EManyC::X2 => V::En(2, vec![]),
        EManyC::X3 => V::En(3, vec![]),
        EManyC::X4 => V::En(4, vec![]),
        EManyC::X5 => V::En(5, vec![]),
        EManyC::X6 => V::En(6, vec![]),
        EManyC::X7(f0) => V::En(7, vec![f0.to_v()]),
        EManyC::X8 => V::En(8, vec![]),
        EManyC::X9 => V::En(9, vec![]),
        EManyC::X10 => V::En(10, vec![]),
        EManyC::X11 => V::En(11, vec![]),
        EManyC::X12 => V::En(12, vec![]),
        EManyC::X13 => V::En(13, vec![]),
        EManyC::X14 => V::En(14, vec![]),
        EManyC::X15 => V::En(15, vec![]),
        EManyC::X16 => V::En(16, vec![]),
        EManyC::X17 => V::En(17, vec![]),
        EManyC::X18 => V::En(18, vec![]),
        EManyC::X19 => V::En(19, vec![]),
        EManyC::X20 => V::En(20, vec![]),
        EManyC::X21 => V::En(21, vec![]),
        EManyC::X22 => V::En(22, vec![]),
        EManyC::X23 => V::En(23, vec![]),
        EManyC::X24 => V::En(24, vec![]),
        EManyC::X25 => V::En(25, vec![]),
        EManyC::X26 => V::En(26, vec![]),
        EManyC::X27 => V::En(27, vec![]),
        EManyC::X28 => V::En(28, vec![]),
        EManyC::X29 => V::En(29, vec![]),
        EManyC::X30 => V::En(30, vec![]),
        EManyC::X31 => V::En(31, vec![]),
        EManyC::X32 => V::En(32, vec![]),
        EManyC::X33 => V::En(33, vec![]),
        EManyC::X34 => V::En(34, vec![]),
        EManyC::X35 => V::En(35, vec![]),
        EManyC::X36 => V::En(36, vec![]),
        EManyC::X37 => V::En(37, vec![]),
        EManyC::X38 => V::En(38, vec![]),
        EManyC::X39 => V::En(39, vec![]),
        EManyC::X40 => V::En(40, vec![]),
        EManyC::X41 => V::En(41, vec![]),
        EManyC::X42 => V::En(42, vec![]),
        EManyC::X43 => V::En(43, vec![]),
        EManyC::X44 => V::En(44, vec![]),
        EManyC::X45 => V::En(45, vec![]),
        EManyC::X46 => V::En(46, vec![]),
        EManyC::X47 => V::En(47, vec![]),
        EManyC::X48 => V::En(48, vec![]),
        EManyC::X49 => V::En(49, vec![]),
        EManyC::X50 => V::En(50, vec![]),
        EManyC::X51 => V::En(51, vec![]),
        EManyC::X52 => V::En(52, vec![]),
        EManyC::X53 => V::En(53, vec![]),
        EManyC::X54 => V::En(54, vec![]),
        EManyC::X55 => V::En(55, vec![]),
        EManyC::X56 => V::En(56, vec![]),
        EManyC::X57 => V::En(57, vec![]),
        EManyC::X58 => V::En(58, vec![]),
        EManyC::X59 => V::En(59, vec![]),
        EManyC::X60 => V::En(60, vec![]),
        EManyC::X61 => V::En(61, vec![]),
        EManyC::X62 => V::En(62, vec![]),
        EManyC::X63 => V::En(63, vec![]),
        EManyC::X64 => V::En(64, vec![]),
        EManyC::X65 => V::En(65, vec![]),
        EManyC::X66 => V::En(66, vec![]),
        EManyC::X67 => V::En(67, vec![]),
        EManyC::X68 => V::En(68, vec![]),
        EManyC::X69 => V::En(69, vec![]),
        EManyC::X70 => V::En(70, vec![]),
        EManyC::X71 => V::En(71, vec![]),
        EManyC::X72 => V::En(72, vec![]),
        EManyC::X73 => V::En(73, vec![]),
        EManyC::X74 => V::En(74, vec![]),
        EManyC::X75 => V::En(75, vec![]),
        EManyC::X76 => V::En(76, vec![]),
        EManyC::X77 => V::En(77, vec![]),
        EManyC::X78 => V::En(78, vec![]),
        EManyC::X79 => V::En(79, vec![]),
        EManyC::X80 => V::En(80, vec![]),
        EManyC::X81 => V::En(81, vec![]),
        EManyC::X82 => V::En(82, vec![]),
        EManyC::X83 => V::En(83, vec![]),
        EManyC::X84 => V::En(84, vec![]),
        EManyC::X85 => V::En(85, vec![]),
        EManyC::X86 => V::En(86, vec![]),
        EManyC::X87 => V::En(87, vec![]),
        EManyC::X88 => V::En(88, vec![]),
        EManyC::X89 => V::En(89, vec![]),
        EManyC::X90 => V::En(90, vec![]),
        EManyC::X91 => V::En(91, vec![]),
        EManyC::X92 => V::En(92, vec![]),
        EManyC::X93 => V::En(93, vec![]),
        EManyC::X94 => V::En(94, vec![]),
        EManyC::X95 => V::En(95, vec![]),
        EManyC::X96 => V::En(96, vec![]),
        EManyC::X97 => V::En(97, vec![]),
        EManyC::X98 => V::En(98, vec![]),
        EManyC::X99 => V::En(99, vec![]),
        EManyC::X100 => V::En(100, vec![]),
        EManyC::X101 => V::En(101, vec![]),
        EManyC::X102 => V::En(102, vec![]),
        EManyC::X103 => V::En(103, vec![]),
        EManyC::X104 => V::En(104, vec![]),
        EManyC::X105 => V::En(105, vec![]),
        EManyC::X106 => V::En(106, vec![]),
        EManyC::X107 => V::En(107, vec![]),
        EManyC::X108 => V::En(108, vec![]),
        EManyC::X109 => V::En(109, vec![]),
        EManyC::X110 => V::En(110, vec![]),
        EManyC::X111 => V::En(111, vec![]),
        EManyC::X112 => V::En(112, vec![]),
        EManyC::X113 => V::En(113, vec![]),
        EManyC::X114 => V::En(114, vec![]),
        EManyC::X115 => V::En(115, vec![]),
        EManyC::X116 => V::En(116, vec![]),
        EManyC::X117 => V::En(117, vec![]),
        EManyC::X118 => V::En(118, vec![]),
        EManyC::X119 => V::En(119, vec![]),
        EManyC::X120 => V::En(120, vec![]),
        EManyC::X121 => V::En(121, vec![]),
        EManyC::X122 => V::En(122, vec![]),
        EManyC::X123 => V::En(123, vec![]),
        EManyC::X124 => V::En(124, vec![]),
        EManyC::X125 => V::En(125, vec![]),
        EManyC::X126 => V::En(126, vec![]),
        EManyC::X127 => V::En(127, vec![]),
        EManyC::X128(f0) => V::En(128, vec![f0.to_v()]),
        EManyC::X129 => V::En(129, vec![]),
        EManyC::X130 => V::En(130, vec![]),
        EManyC::X131 => V::En(131, vec![]),
        EManyC::X132 => V::En(132, vec![]),
        EManyC::X133 => V::En(133, vec![]),
        EManyC::X134 => V::En(134, vec![]),
        EManyC::X135 => V::En(135, vec![]),
        EManyC::X136 => V::En(136, vec![]),
        EManyC::X137 => V::En(137, vec![]),
        EManyC::X138 => V::En(138, vec![]),
        EManyC::X139 => V::En(139, vec![]),
        EManyC::X140 => V::En(140, vec![]),
        EManyC::X141 => V::En(141, vec![]),
        EManyC::X142 => V::En(142, vec![]),
        EManyC::X143 => V::En(143, vec![]),
        EManyC::X144 => V::En(144, vec![]),
        EManyC::X145 => V::En(145, vec![]),
        EManyC::X146 => V::En(146, vec![]),
        EManyC::X147 => V::En(147, vec![]),
        EManyC::X148 => V::En(148, vec![]),
        EManyC::X149 => V::En(149, vec![]),
        EManyC::X150 => V::En(150, vec![]),
        EManyC::X151 => V::En(151, vec![]),
        EManyC::X152 => V::En(152, vec![]),
        EManyC::X153 => V::En(153, vec![]),
        EManyC::X154 => V::En(154, vec![]),
        EManyC::X155 => V::En(155, vec![]),
        EManyC::X156 => V::En(156, vec![]),
        EManyC::X157 => V::En(157, vec![]),
        EManyC::X158 => V::En(158, vec![]),
        EManyC::X159 => V::En(159, vec![]),
        EManyC::X160 => V::En(160, vec![]),
        EManyC::X161 => V::En(161, vec![]),
        EManyC::X162 => V::En(162, vec![]),
        EManyC::X163 => V::En(163, vec![]),
        EManyC::X164 => V::En(164, vec![]),
        EManyC::X165 => V::En(165, vec![]),
        EManyC::X166 => V::En(166, vec![]),
        EManyC::X167 => V::En(167, vec![]),
        EManyC::X168 => V::En(168, vec![]),
        EManyC::X169 => V::En(169, vec![]),
        EManyC::X170 => V::En(170, vec![]),
        EManyC::X171 => V::En(171, vec![]),
        EManyC::X172 => V::En(172, vec![]),
        EManyC::X173 => V::En(173, vec![]),
        EManyC::X174 => V::En(174, vec![]),
        EManyC::X175 => V::En(175, vec![]),
        EManyC::X176 => V::En(176, vec![]),
        EManyC::X177 => V::En(177, vec![]),
        EManyC::X178 => V::En(178, vec![]),
        EManyC::X179 => V::En(179, vec![]),
        EManyC::X180 => V::En(180, vec![]),
        EManyC::X181 => V::En(181, vec![]),
        EManyC::X182 => V::En(182, vec![]),
        EManyC::X183 => V::En(183, vec![]),
        EManyC::X184 => V::En(184, vec![]),
        EManyC::X185 => V::En(185, vec![]),
        EManyC::X186 => V::En(186, vec![]),
        EManyC::X187 => V::En(187, vec![]),
        EManyC::X188 => V::En(188, vec![]),
        EManyC::X189 => V::En(189, vec![]),
        EManyC::X190 => V::En(190, vec![]),
        EManyC::X191 => V::En(191, vec![]),
        EManyC::X192 => V::En(192, vec![]),
        EManyC::X193 => V::En(193, vec![]),
        EManyC::X194 => V::En(194, vec![]),
        EManyC::X195 => V::En(195, vec![]),
        EManyC::X196 => V::En(196, vec![]),
        EManyC::X197 => V::En(197, vec![]),
        EManyC::X198 => V::En(198, vec![]),
        EManyC::X199 => V::En(199, vec![]),
        EManyC::X200 => V::En(200, vec![]),
        EManyC::X201 => V::En(201, vec![]),
        EManyC::X202 => V::En(202, vec![]),
        EManyC::X203 => V::En(203, vec![]),
        EManyC::X204 => V::En(204, vec![]),
        EManyC::X205 => V::En(205, vec![]),
        EManyC::X206 => V::En(206, vec![]),
        EManyC::X207 => V::En(207, vec![]),
        EManyC::X208 => V::En(208, vec![]),
        EManyC::X209 => V::En(209, vec![]),
        EManyC::X210 => V::En(210, vec![]),
        EManyC::X211 => V::En(211, vec![]),
        EManyC::X212 => V::En(212, vec![]),
        EManyC::X213 => V::En(213, vec![]),
        EManyC::X214 => V::En(214, vec![]),
        EManyC::X215 => V::En(215, vec![]),
        EManyC::X216 => V::En(216, vec![]),
        EManyC::X217 => V::En(217, vec![]),
        EManyC::X218 => V::En(218, vec![]),
        EManyC::X219 => V::En(219, vec![]),
        EManyC::X220 => V::En(220, vec![]),
        EManyC::X221 => V::En(221, vec![]),
        EManyC::X222 => V::En(222, vec![]),
        EManyC::X223 => V::En(223, vec![]),
        EManyC::X224 => V::En(224, vec![]),
        EManyC::X225 => V::En(225, vec![]),
        EManyC::X226 => V::En(226, vec![]),
        EManyC::X227 => V::En(227, vec![]),
        EManyC::X228 => V::En(228, vec![]),
        EManyC::X229 => V::En(229, vec![]),
        EManyC::X230 => V::En(230, vec![]),
        EManyC::X231 => V::En(231, vec![]),
        EManyC::X232 => V::En(232, vec![]),
        EManyC::X233 => V::En(233, vec![]),
        EManyC::X234 => V::En(234, vec![]),
        EManyC::X235 => V::En(235, vec![]),
        EManyC::X236 => V::En(236, vec![]),
        EManyC::X237 => V::En(237, vec![]),
        EManyC::X238 => V::En(238, vec![]),
        EManyC::X239 => V::En(239, vec![]),
        EManyC::X240 => V::En(240, vec![]),
        EManyC::X241 => V::En(241, vec![]),
        EManyC::X242 => V::En(242, vec![]),
        EManyC::X243 => V::En(243, vec![]),
        EManyC::X244 => V::En(244, vec![]),
        EManyC::X245 => V::En(245, vec![]),
        EManyC::X246 => V::En(246, vec![]),
        EManyC::X247 => V::En(247, vec![]),
        EManyC::X248 => V::En(248, vec![]),
        EManyC::X249 => V::En(249, vec![]),
        EManyC::X250 => V::En(250, vec![]),
        EManyC::X251 => V::En(251, vec![]),
        EManyC::X252 => V::En(252, vec![]),
        EManyC::X253 => V::En(253, vec![]),
        EManyC::X254 => V::En(254, vec![]),
        EManyC::X255(f0) => V::En(255, vec![f0.to_v()]),
        EManyC::X256(f0) => V::En(256, vec![f0.to_v()]),
        EManyC::X257 => V::En(257, vec![]),
        EManyC::X258 => V::En(258, vec![]),
        EManyC::X259 => V::En(259, vec![]),
        EManyC::X260 => V::En(260, vec![]),
        EManyC::X261 => V::En(261, vec![]),
        EManyC::X262 => V::En(262, vec![]),
        EManyC::X263 => V::En(263, vec![]),
        EManyC::X264 => V::En(264, vec![]),
        EManyC::X265 => V::En(265, vec![]),
        EManyC::X266 => V::En(266, vec![]),
        EManyC::X267 => V::En(267, vec![]),
        EManyC::X268 => V::En(268, vec![]),
        EManyC::X269 => V::En(269, vec![]),
        EManyC::X270(f0) => V::En(270, vec![f0.to_v()]),
        EManyC::X271 => V::En(271, vec![]),
        EManyC::X272 => V::En(272, vec![]),
        EManyC::X273 => V::En(273, vec![]),
        EManyC::X274 => V::En(274, vec![]),
        EManyC::X275 => V::En(275, vec![]),
        EManyC::X276 => V::En(276, vec![]),
        EManyC::X277 => V::En(277, vec![]),
        EManyC::X278 => V::En(278, vec![]),
        EManyC::X279 => V::En(279, vec![]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => EManyC::X0,
        1 => EManyC::X1,
        2 => EManyC::X2,
        3 => EManyC::X3,
        4 => EManyC::X4,
        5 => EManyC::X5,
        6 => EManyC::X6,
        7 => EManyC::X7(Gt::from_v(&_f[0])),
        8 => EManyC::X8,
        9 => EManyC::X9,
        10 => EManyC::X10,
        11 => EManyC::X11,
        12 => EManyC::X12,
        13 => EManyC::X13,
        14 => EManyC::X14,
        15 => EManyC::X15,
        16 => EManyC::X16,
        17 => EManyC::X17,
        18 => EManyC::X18,
        19 => EManyC::X19,
        20 => EManyC::X20,
        21 => EManyC::X21,
        22 => EManyC::X22,
        23 => EManyC::X23,
        24 => EManyC::X24,
        25 => EManyC::X25,
        26 => EManyC::X26,
        27 => EManyC::X27,
        28 => EManyC::X28,
        29 => EManyC::X29,
        30 => EManyC::X30,
        31 => EManyC::X31,
        32 => EManyC::X32,
        33 => EManyC::X33,
        34 => EManyC::X34,
        35 => EManyC::X35,
        36 => EManyC::X36,
        37 => EManyC::X37,
        38 => EManyC::X38,
        39 => EManyC::X39,
        40 => EManyC::X40,
        41 => EManyC::X41,
        42 => EManyC::X42,
        43 => EManyC::X43,
        44 => EManyC::X44,
        45 => EManyC::X45,
        46 => EManyC::X46,
        47 => EManyC::X47,
        48 => EManyC::X48,
        49 => EManyC::X49,
        50 => EManyC::X50,
        51 => EManyC::X51,
        52 => EManyC::X52,
        53 => EManyC::X53,
        54 => EManyC::X54,
        55 => EManyC::X55,
        56 => EManyC::X56,
        57 => EManyC::X57,
        58 => EManyC::X58,
        59 => EManyC::X59,
        60 => EManyC::X60,
        61 => EManyC::X61,
        62 => EManyC::X62,
        63 => EManyC::X63,
        64 => EManyC::X64,
        65 => EManyC::X65,
        66 => EManyC::X66,
        67 => EManyC::X67,
        68 => EManyC::X68,
        69 => EManyC::X69,
        70 => EManyC::X70,
        71 => EManyC::X71,
        72 => EManyC::X72,
        73 => EManyC::X73,
        74 => EManyC::X74,
        75 => EManyC::X75,
        76 => EManyC::X76,
        77 => EManyC::X77,
        78 => EManyC::X78,
        79 => EManyC::X79,
        80 => EManyC::X80,
        81 => EManyC::X81,
        82 => EManyC::X82,
        83 => EManyC::X83,
        84 => EManyC::X84,
        85 => EManyC::X85,
        86 => EManyC::X86,
        87 => EManyC::X87,
        88 => EManyC::X88,
        89 => EManyC::X89,
        90 => EManyC::X90,
        91 => EManyC::X91,
        92 => EManyC::X92,
        93 => EManyC::X93,
        94 => EManyC::X94,
        95 => EManyC::X95,
        96 => EManyC::X96,
        97 => EManyC::X97,
        98 => EManyC::X98,
        99 => EManyC::X99,
        100 => EManyC::X100,
        101 => EManyC::X101,
        102 => EManyC::X102,
        103 => EManyC::X103,
        104 => EManyC::X104,
        105 => EManyC::X105,
        106 => EManyC::X106,
        107 => EManyC::X107,
        108 => EManyC::X108,
        109 => EManyC::X109,
        110 => EManyC::X110,
        111 => EManyC::X111,
        112 => EManyC::X112,
        113 => EManyC::X113,
        114 => EManyC::X114,
        115 => EManyC::X115,
        116 => EManyC::X116,
        117 => EManyC::X117,
        118 => EManyC::X118,
        119 => EManyC::X119,
        120 => EManyC::X120,
        121 => EManyC::X121,
        122 => EManyC::X122,
        123 => EManyC::X123,
        124 => EManyC::X124,
        125 => EManyC::X125,
        126 => EManyC::X126,
        127 => EManyC::X127,
        128 => EManyC::X128(Gt::from_v(&_f[0])),
        129 => EManyC::X129,
        130 => EManyC::X130,
        131 => EManyC::X131,
        132 => EManyC::X132,
        133 => EManyC::X133,
        134 => EManyC::X134,
        135 => EManyC::X135,
        136 => EManyC::X136,
        137 => EManyC::X137,
        138 => EManyC::X138,
        139 => EManyC::X139,
        140 => EManyC::X140,
        141 => EManyC::X141,
        142 => EManyC::X142,
        143 => EManyC::X143,
        144 => EManyC::X144,
        145 => EManyC::X145,
        146 => EManyC::X146,
        147 => EManyC::X147,
        148 => EManyC::X148,
        149 => EManyC::X149,
        150 => EManyC::X150,
        151 => EManyC::X151,
        152 => EManyC::X152,
        153 => EManyC::X153,
        154 => EManyC::X154,
        155 => EManyC::X155,
        156 => EManyC::X156,
        157 => EManyC::X157,
        158 => EManyC::X158,
        159 => EManyC::X159,
        160 => EManyC::X160,
        161 => EManyC::X161,
        162 => EManyC::X162,
        163 => EManyC::X163,
        164 => EManyC::X164,
        165 => EManyC::X165,
        166 => EManyC::X166,
        167 => EManyC::X167,
        168 => EManyC::X168,
        169 => EManyC::X169,
        170 => EManyC::X170,
        171 => EManyC::X171,
        172 => EManyC::X172,
        173 => EManyC::X173,
        174 => EManyC::X174,
        175 => EManyC::X175,
        176 => EManyC::X176,
        177 => EManyC::X177,
        178 => EManyC::X178,
        179 => EManyC::X179,
        180 => EManyC::X180,
        181 => EManyC::X181,
        182 => EManyC::X182,
        183 => EManyC::X183,
        184 => EManyC::X184,
        185 => EManyC::X185,
        186 => EManyC::X186,
        187 => EManyC::X187,
        188 => EManyC::X188,
        189 => EManyC::X189,
        190 => EManyC::X190,
        191 => EManyC::X191,
        192 => EManyC::X192,
        193 => EManyC::X193,
        194 => EManyC::X194,
        195 => EManyC::X195,
        196 => EManyC::X196,
        197 => EManyC::X197,
        198 => EManyC::X198,
        199 => EManyC::X199,
        200 => EManyC::X200,
        201 => EManyC::X201,
        202 => EManyC::X202,
        203 => EManyC::X203,
        204 => EManyC::X204,
        205 => EManyC::X205,
        206 => EManyC::X206,
        207 => EManyC::X207,
        208 => EManyC::X208,
        209 => EManyC::X209,
        210 => EManyC::X210,
        211 => EManyC::X211,
        212 => EManyC::X212,
        213 => EManyC::X213,
        214 => EManyC::X214,
        215 => EManyC::X215,
        216 => EManyC::X216,
        217 => EManyC::X217,
        218 => EManyC::X218,
        219 => EManyC::X219,
        220 => EManyC::X220,
        221 => EManyC::X221,
        222 => EManyC::X222,
        223 => EManyC::X223,
        224 => EManyC::X224,
        225 => EManyC::X225,
        226 => EManyC::X226,
        227 => EManyC::X227,
        228 => EManyC::X228,
        229 => EManyC::X229,
        230 => EManyC::X230,
        231 => EManyC::X231,
        232 => EManyC::X232,
        233 => EManyC::X233,
        234 => EManyC::X234,
        235 => EManyC::X235,
        236 => EManyC::X236,
        237 => EManyC::X237,
        238 => EManyC::X238,
        239 => EManyC::X239,
        240 => EManyC::X240,
        241 => EManyC::X241,
        242 => EManyC::X242,
        243 => EManyC::X243,
        244 => EManyC::X244,
        245 => EManyC::X245,
        246 => EManyC::X246,
        247 => EManyC::X247,
        248 => EManyC::X248,
        249 => EManyC::X249,
        250 => EManyC::X250,
        251 => EManyC::X251,
        252 => EManyC::X252,
        253 => EManyC::X253,
        254 => EManyC::X254,
        255 => EManyC::X255(Gt::from_v(&_f[0])),
        256 => EManyC::X256(Gt::from_v(&_f[0])),
        257 => EManyC::X257,
        258 => EManyC::X258,
        259 => EManyC::X259,
        260 => EManyC::X260,
        261 => EManyC::X261,
        262 => EManyC::X262,
        263 => EManyC::X263,
        264 => EManyC::X264,
        265 => EManyC::X265,
        266 => EManyC::X266,
        267 => EManyC::X267,
        268 => EManyC::X268,
        269 => EManyC::X269,
        270 => EManyC::X270(Gt::from_v(&_f[0])),
        271 => EManyC::X271,
        272 => EManyC::X272,
        273 => EManyC::X273,
        274 => EManyC::X274,
        275 => EManyC::X275,
        276 => EManyC::X276,
        277 => EManyC::X277,
        278 => EManyC::X278,
        279 => EManyC::X279,
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Empties {
    pub a: EEmpty,
    pub v: Vec<EEmpty>,
    pub m: BTreeMap<u8, EEmpty>,
    pub o: Option<EEmpty>,
    pub d: EEmptyDoc,
    pub w: Vec<(EEmpty, EEmptyDoc)>,
    pub z: DocOdd,
}
impl Gt for Empties {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Empties", Stk::Named, vec![
            Fd::new("a", ty::<EEmpty>, std::mem::offset_of!(Self, a)),
            Fd::new("v", ty::<Vec<EEmpty>>, std::mem::offset_of!(Self, v)),
            Fd::new("m", ty::<BTreeMap<u8, EEmpty>>, std::mem::offset_of!(Self, m)),
            Fd::new("o", ty::<Option<EEmpty>>, std::mem::offset_of!(Self, o)),
            Fd::new("d", ty::<EEmptyDoc>, std::mem::offset_of!(Self, d)),
            Fd::new("w", ty::<Vec<(EEmpty, EEmptyDoc)>>, std::mem::offset_of!(Self, w)),
            Fd::new("z", ty::<DocOdd>, std::mem::offset_of!(Self, z)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.v.to_v(), self.m.to_v(), self.o.to_v(), self.d.to_v(), self.w.to_v(), self.z.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Empties { a: Gt::from_v(&_f[0]), v: Gt::from_v(&_f[1]), m: Gt::from_v(&_f[2]), o: Gt::from_v(&_f[3]), d: Gt::from_v(&_f[4]), w: Gt::from_v(&_f[5]), z: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct DocDeep {
    #[doc = " Deep d."]
    pub d: Doc1,
    pub e: DocE,
    pub v: Vec<Doc1>,
    #[doc = " Deep o."]
    pub o: Option<DocE>,
    pub m: BTreeMap<String, DocE>,
    pub w: Vec<Vec<DocE>>,
    pub t: (Doc1, u8),
}
impl Gt for DocDeep {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("DocDeep", Stk::Named, vec![
            Fd::new("d", ty::<Doc1>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<DocE>, std::mem::offset_of!(Self, e)),
            Fd::new("v", ty::<Vec<Doc1>>, std::mem::offset_of!(Self, v)),
            Fd::new("o", ty::<Option<DocE>>, std::mem::offset_of!(Self, o)),
            Fd::new("m", ty::<BTreeMap<String, DocE>>, std::mem::offset_of!(Self, m)),
            Fd::new("w", ty::<Vec<Vec<DocE>>>, std::mem::offset_of!(Self, w)),
            Fd::new("t", ty::<(Doc1, u8)>, std::mem::offset_of!(Self, t)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.d.to_v(), self.e.to_v(), self.v.to_v(), self.o.to_v(), self.m.to_v(), self.w.to_v(), self.t.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); DocDeep { d: Gt::from_v(&_f[0]), e: Gt::from_v(&_f[1]), v: Gt::from_v(&_f[2]), o: Gt::from_v(&_f[3]), m: Gt::from_v(&_f[4]), w: Gt::from_v(&_f[5]), t: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct ZstSame {
    pub a: UnitS,
    pub v: Vec<UnitS>,
    pub n: ZstIn,
    pub vv: Vec<Vec<UnitS>>,
    pub e: Vec<EmptyS>,
    pub z: Vec<ZstIn2>,
    pub b: UnitS,
}
impl Gt for ZstSame {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ZstSame", Stk::Named, vec![
            Fd::new("a", ty::<UnitS>, std::mem::offset_of!(Self, a)),
            Fd::new("v", ty::<Vec<UnitS>>, std::mem::offset_of!(Self, v)),
            Fd::new("n", ty::<ZstIn>, std::mem::offset_of!(Self, n)),
            Fd::new("vv", ty::<Vec<Vec<UnitS>>>, std::mem::offset_of!(Self, vv)),
            Fd::new("e", ty::<Vec<EmptyS>>, std::mem::offset_of!(Self, e)),
            Fd::new("z", ty::<Vec<ZstIn2>>, std::mem::offset_of!(Self, z)),
            Fd::new("b", ty::<UnitS>, std::mem::offset_of!(Self, b)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.v.to_v(), self.n.to_v(), self.vv.to_v(), self.e.to_v(), self.z.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ZstSame { a: Gt::from_v(&_f[0]), v: Gt::from_v(&_f[1]), n: Gt::from_v(&_f[2]), vv: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), z: Gt::from_v(&_f[5]), b: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct ZstIn {
    pub u: UnitS,
    pub w: Vec<Vec<UnitS>>,
    pub o: Option<UnitS>,
    pub i: ZstIn2,
}
impl Gt for ZstIn {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ZstIn", Stk::Named, vec![
            Fd::new("u", ty::<UnitS>, std::mem::offset_of!(Self, u)),
            Fd::new("w", ty::<Vec<Vec<UnitS>>>, std::mem::offset_of!(Self, w)),
            Fd::new("o", ty::<Option<UnitS>>, std::mem::offset_of!(Self, o)),
            Fd::new("i", ty::<ZstIn2>, std::mem::offset_of!(Self, i)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.u.to_v(), self.w.to_v(), self.o.to_v(), self.i.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ZstIn { u: Gt::from_v(&_f[0]), w: Gt::from_v(&_f[1]), o: Gt::from_v(&_f[2]), i: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct ZstIn2 {
    pub u: UnitS,
    pub e: EmptyS,
    pub p: (),
    pub q: ((), UnitS),
}
impl Gt for ZstIn2 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ZstIn2", Stk::Named, vec![
            Fd::new("u", ty::<UnitS>, std::mem::offset_of!(Self, u)),
            Fd::new("e", ty::<EmptyS>, std::mem::offset_of!(Self, e)),
            Fd::new("p", ty::<()>, std::mem::offset_of!(Self, p)),
            Fd::new("q", ty::<((), UnitS)>, std::mem::offset_of!(Self, q)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.u.to_v(), self.e.to_v(), self.p.to_v(), self.q.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ZstIn2 { u: Gt::from_v(&_f[0]), e: Gt::from_v(&_f[1]), p: Gt::from_v(&_f[2]), q: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct ByteS {
    pub a: Vec<u8>,
    pub b: Vec<Vec<u8>>,
    pub c: Option<Vec<u8>>,
    pub d: BTreeMap<String, Vec<u8>>,
    pub e: Vec<i8>,
    pub f: Vec<TupNest>,
}
impl Gt for ByteS {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ByteS", Stk::Named, vec![
            Fd::new("a", ty::<Vec<u8>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<Vec<Vec<u8>>>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Option<Vec<u8>>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<BTreeMap<String, Vec<u8>>>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<Vec<i8>>, std::mem::offset_of!(Self, e)),
            Fd::new("f", ty::<Vec<TupNest>>, std::mem::offset_of!(Self, f)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ByteS { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct InOpt {
    pub h: Option<HashMap<String, u8>>,
    pub b: Option<BTreeMap<u8, String>>,
    pub t: Option<(u8, String)>,
    pub v: Option<Vec<Option<u8>>>,
    pub p: Option<Arc<String>>,
    pub o: Option<Option<Vec<u8>>>,
    pub a: Option<[String; 2]>,
    pub e: Option<ETrk>,
}
impl Gt for InOpt {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InOpt", Stk::Named, vec![
            Fd::new("h", ty::<Option<HashMap<String, u8>>>, std::mem::offset_of!(Self, h)),
            Fd::new("b", ty::<Option<BTreeMap<u8, String>>>, std::mem::offset_of!(Self, b)),
            Fd::new("t", ty::<Option<(u8, String)>>, std::mem::offset_of!(Self, t)),
            Fd::new("v", ty::<Option<Vec<Option<u8>>>>, std::mem::offset_of!(Self, v)),
            Fd::new("p", ty::<Option<Arc<String>>>, std::mem::offset_of!(Self, p)),
            Fd::new("o", ty::<Option<Option<Vec<u8>>>>, std::mem::offset_of!(Self, o)),
            Fd::new("a", ty::<Option<[String; 2]>>, std::mem::offset_of!(Self, a)),
            Fd::new("e", ty::<Option<ETrk>>, std::mem::offset_of!(Self, e)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.h.to_v(), self.b.to_v(), self.t.to_v(), self.v.to_v(), self.p.to_v(), self.o.to_v(), self.a.to_v(), self.e.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InOpt { h: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), t: Gt::from_v(&_f[2]), v: Gt::from_v(&_f[3]), p: Gt::from_v(&_f[4]), o: Gt::from_v(&_f[5]), a: Gt::from_v(&_f[6]), e: Gt::from_v(&_f[7]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct InVec {
    pub b: Vec<BTreeMap<u8, String>>,
    pub t: Vec<(u8, String)>,
    pub p: Vec<Arc<String>>,
    pub a: Vec<[String; 2]>,
    pub o: Vec<Option<Vec<u8>>>,
    pub h: Vec<HashMap<u8, Trk>>,
    pub e: Vec<ETrk>,
}
impl Gt for InVec {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InVec", Stk::Named, vec![
            Fd::new("b", ty::<Vec<BTreeMap<u8, String>>>, std::mem::offset_of!(Self, b)),
            Fd::new("t", ty::<Vec<(u8, String)>>, std::mem::offset_of!(Self, t)),
            Fd::new("p", ty::<Vec<Arc<String>>>, std::mem::offset_of!(Self, p)),
            Fd::new("a", ty::<Vec<[String; 2]>>, std::mem::offset_of!(Self, a)),
            Fd::new("o", ty::<Vec<Option<Vec<u8>>>>, std::mem::offset_of!(Self, o)),
            Fd::new("h", ty::<Vec<HashMap<u8, Trk>>>, std::mem::offset_of!(Self, h)),
            Fd::new("e", ty::<Vec<ETrk>>, std::mem::offset_of!(Self, e)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.b.to_v(), self.t.to_v(), self.p.to_v(), self.a.to_v(), self.o.to_v(), self.h.to_v(), self.e.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InVec { b: Gt::from_v(&_f[0]), t: Gt::from_v(&_f[1]), p: Gt::from_v(&_f[2]), a: Gt::from_v(&_f[3]), o: Gt::from_v(&_f[4]), h: Gt::from_v(&_f[5]), e: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct InMap {
    pub hb: HashMap<String, BTreeMap<u8, u8>>,
    pub bh: BTreeMap<u8, HashMap<String, u8>>,
    pub bo: BTreeMap<u8, Option<u8>>,
    pub ho: HashMap<u8, Option<Trk>>,
    pub ht: HashMap<u8, (u8, String)>,
    pub bt: BTreeMap<u8, (u8, String)>,
    pub bv: BTreeMap<u8, Vec<u8>>,
    pub ba: BTreeMap<u8, [String; 2]>,
    pub hp: HashMap<u8, Arc<String>>,
    pub be: BTreeMap<u8, ETrk>,
    pub he: HashMap<u8, EU8>,
}
impl Gt for InMap {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InMap", Stk::Named, vec![
            Fd::new("hb", ty::<HashMap<String, BTreeMap<u8, u8>>>, std::mem::offset_of!(Self, hb)),
            Fd::new("bh", ty::<BTreeMap<u8, HashMap<String, u8>>>, std::mem::offset_of!(Self, bh)),
            Fd::new("bo", ty::<BTreeMap<u8, Option<u8>>>, std::mem::offset_of!(Self, bo)),
            Fd::new("ho", ty::<HashMap<u8, Option<Trk>>>, std::mem::offset_of!(Self, ho)),
            Fd::new("ht", ty::<HashMap<u8, (u8, String)>>, std::mem::offset_of!(Self, ht)),
            Fd::new("bt", ty::<BTreeMap<u8, (u8, String)>>, std::mem::offset_of!(Self, bt)),
            Fd::new("bv", ty::<BTreeMap<u8, Vec<u8>>>, std::mem::offset_of!(Self, bv)),
            Fd::new("ba", ty::<BTreeMap<u8, [String; 2]>>, std::mem::offset_of!(Self, ba)),
            Fd::new("hp", ty::<HashMap<u8, Arc<String>>>, std::mem::offset_of!(Self, hp)),
            Fd::new("be", ty::<BTreeMap<u8, ETrk>>, std::mem::offset_of!(Self, be)),
            Fd::new("he", ty::<HashMap<u8, EU8>>, std::mem::offset_of!(Self, he)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.hb.to_v(), self.bh.to_v(), self.bo.to_v(), self.ho.to_v(), self.ht.to_v(), self.bt.to_v(), self.bv.to_v(), self.ba.to_v(), self.hp.to_v(), self.be.to_v(), self.he.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InMap { hb: Gt::from_v(&_f[0]), bh: Gt::from_v(&_f[1]), bo: Gt::from_v(&_f[2]), ho: Gt::from_v(&_f[3]), ht: Gt::from_v(&_f[4]), bt: Gt::from_v(&_f[5]), bv: Gt::from_v(&_f[6]), ba: Gt::from_v(&_f[7]), hp: Gt::from_v(&_f[8]), be: Gt::from_v(&_f[9]), he: Gt::from_v(&_f[10]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct InTup {
    pub m: (HashMap<String, u8>, BTreeMap<u8, String>),
    pub v: (Vec<String>, Option<String>),
    pub p: (Arc<String>, [u8; 2]),
    pub t: ((u8, String), EU8),
}
impl Gt for InTup {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InTup", Stk::Named, vec![
            Fd::new("m", ty::<(HashMap<String, u8>, BTreeMap<u8, String>)>, std::mem::offset_of!(Self, m)),
            Fd::new("v", ty::<(Vec<String>, Option<String>)>, std::mem::offset_of!(Self, v)),
            Fd::new("p", ty::<(Arc<String>, [u8; 2])>, std::mem::offset_of!(Self, p)),
            Fd::new("t", ty::<((u8, String), EU8)>, std::mem::offset_of!(Self, t)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.m.to_v(), self.v.to_v(), self.p.to_v(), self.t.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InTup { m: Gt::from_v(&_f[0]), v: Gt::from_v(&_f[1]), p: Gt::from_v(&_f[2]), t: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct InArr {
    pub h: [HashMap<String, u8>; 2],
    pub b: [BTreeMap<u8, String>; 2],
    pub p: [Arc<String>; 2],
    pub e: [EU8; 3],
    pub o: [Option<Trk>; 2],
}
impl Gt for InArr {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InArr", Stk::Named, vec![
            Fd::new("h", ty::<[HashMap<String, u8>; 2]>, std::mem::offset_of!(Self, h)),
            Fd::new("b", ty::<[BTreeMap<u8, String>; 2]>, std::mem::offset_of!(Self, b)),
            Fd::new("p", ty::<[Arc<String>; 2]>, std::mem::offset_of!(Self, p)),
            Fd::new("e", ty::<[EU8; 3]>, std::mem::offset_of!(Self, e)),
            Fd::new("o", ty::<[Option<Trk>; 2]>, std::mem::offset_of!(Self, o)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.h.to_v(), self.b.to_v(), self.p.to_v(), self.e.to_v(), self.o.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InArr { h: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), p: Gt::from_v(&_f[2]), e: Gt::from_v(&_f[3]), o: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct InArc {
    pub h: Arc<HashMap<String, u8>>,
    pub b: Arc<BTreeMap<u8, String>>,
    pub t: Arc<(u8, String)>,
    pub e: Arc<EU8>,
    pub p: Arc<Arc<u8>>,
    pub o: Arc<Option<String>>,
    pub v: Arc<Vec<Trk>>,
}
impl Gt for InArc {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InArc", Stk::Named, vec![
            Fd::new("h", ty::<Arc<HashMap<String, u8>>>, std::mem::offset_of!(Self, h)),
            Fd::new("b", ty::<Arc<BTreeMap<u8, String>>>, std::mem::offset_of!(Self, b)),
            Fd::new("t", ty::<Arc<(u8, String)>>, std::mem::offset_of!(Self, t)),
            Fd::new("e", ty::<Arc<EU8>>, std::mem::offset_of!(Self, e)),
            Fd::new("p", ty::<Arc<Arc<u8>>>, std::mem::offset_of!(Self, p)),
            Fd::new("o", ty::<Arc<Option<String>>>, std::mem::offset_of!(Self, o)),
            Fd::new("v", ty::<Arc<Vec<Trk>>>, std::mem::offset_of!(Self, v)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.h.to_v(), self.b.to_v(), self.t.to_v(), self.e.to_v(), self.p.to_v(), self.o.to_v(), self.v.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InArc { h: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), t: Gt::from_v(&_f[2]), e: Gt::from_v(&_f[3]), p: Gt::from_v(&_f[4]), o: Gt::from_v(&_f[5]), v: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
pub enum InEnum {
    O( Option<Vec<u8>>),
    H( HashMap<String, u8>,  u8),
    B {  b: BTreeMap<u8, String>,  t: (u8, String) },
    A( [String; 2],  Arc<String>),
    E( EU8,  Option<EU8>),
    S {  s: Point,  o: Option<Trk> },
    V( Vec<Option<Trk>>),
}
impl Gt for InEnum {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("InEnum", "u8", vec![
            Vd { name: "O", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<Option<Vec<u8>>>, usize::MAX)] },
            Vd { name: "H", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<HashMap<String, u8>>, usize::MAX), Fd::new("_1", ty::<u8>, usize::MAX)] },
            Vd { name: "B", kind: Vk::Named, disc: 2, fields: vec![Fd::new("b", ty::<BTreeMap<u8, String>>, usize::MAX), Fd::new("t", ty::<(u8, String)>, usize::MAX)] },
            Vd { name: "A", kind: Vk::Tuple, disc: 3, fields: vec![Fd::new("_0", ty::<[String; 2]>, usize::MAX), Fd::new("_1", ty::<Arc<String>>, usize::MAX)] },
            Vd { name: "E", kind: Vk::Tuple, disc: 4, fields: vec![Fd::new("_0", ty::<EU8>, usize::MAX), Fd::new("_1", ty::<Option<EU8>>, usize::MAX)] },
            Vd { name: "S", kind: Vk::Named, disc: 5, fields: vec![Fd::new("s", ty::<Point>, usize::MAX), Fd::new("o", ty::<Option<Trk>>, usize::MAX)] },
            Vd { name: "V", kind: Vk::Tuple, disc: 6, fields: vec![Fd::new("_0", ty::<Vec<Option<Trk>>>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        InEnum::O(f0) => V::En(0, vec![f0.to_v()]),
        InEnum::H(f0, f1) => V::En(1, vec![f0.to_v(), f1.to_v()]),
        InEnum::B { b, t } => V::En(2, vec![b.to_v(), t.to_v()]),
        InEnum::A(f0, f1) => V::En(3, vec![f0.to_v(), f1.to_v()]),
        InEnum::E(f0, f1) => V::En(4, vec![f0.to_v(), f1.to_v()]),
        InEnum::S { s, o } => V::En(5, vec![s.to_v(), o.to_v()]),
        InEnum::V(f0) => V::En(6, vec![f0.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => InEnum::O(Gt::from_v(&_f[0])),
        1 => InEnum::H(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        2 => InEnum::B { b: Gt::from_v(&_f[0]), t: Gt::from_v(&_f[1]) },
        3 => InEnum::A(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        4 => InEnum::E(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        5 => InEnum::S { s: Gt::from_v(&_f[0]), o: Gt::from_v(&_f[1]) },
        6 => InEnum::V(Gt::from_v(&_f[0])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct InDeep {
    pub a: Vec<Option<HashMap<String, Vec<(u8, String)>>>>,
    pub b: HashMap<String, Option<Vec<BTreeMap<u8, EU8>>>>,
    pub c: Option<Vec<Option<InEnum>>>,
    pub d: BTreeMap<u8, Vec<HashMap<u8, Option<Trk>>>>,
}
impl Gt for InDeep {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("InDeep", Stk::Named, vec![
            Fd::new("a", ty::<Vec<Option<HashMap<String, Vec<(u8, String)>>>>>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<HashMap<String, Option<Vec<BTreeMap<u8, EU8>>>>>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Option<Vec<Option<InEnum>>>>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<BTreeMap<u8, Vec<HashMap<u8, Option<Trk>>>>>, std::mem::offset_of!(Self, d)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); InDeep { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct MpInts {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: i8,
    pub f: i16,
    pub g: i32,
    pub h: i64,
    pub s: String,
}
impl Gt for MpInts {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("MpInts", Stk::Named, vec![
            Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<u16>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<u32>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<u64>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<i8>, std::mem::offset_of!(Self, e)),
            Fd::new("f", ty::<i16>, std::mem::offset_of!(Self, f)),
            Fd::new("g", ty::<i32>, std::mem::offset_of!(Self, g)),
            Fd::new("h", ty::<i64>, std::mem::offset_of!(Self, h)),
            Fd::new("s", ty::<String>, std::mem::offset_of!(Self, s)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v(), self.g.to_v(), self.h.to_v(), self.s.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); MpInts { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]), g: Gt::from_v(&_f[6]), h: Gt::from_v(&_f[7]), s: Gt::from_v(&_f[8]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct MpNest {
    pub ints: MpInts,
    pub a_rather_long_field_name_of_32_by: String,
    pub flagless: UrlUser,
    pub pair: MpPair,
    pub e: MpOne,
}
impl Gt for MpNest {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("MpNest", Stk::Named, vec![
            Fd::new("ints", ty::<MpInts>, std::mem::offset_of!(Self, ints)),
            Fd::new("a_rather_long_field_name_of_32_by", ty::<String>, std::mem::offset_of!(Self, a_rather_long_field_name_of_32_by)),
            Fd::new("flagless", ty::<UrlUser>, std::mem::offset_of!(Self, flagless)),
            Fd::new("pair", ty::<MpPair>, std::mem::offset_of!(Self, pair)),
            Fd::new("e", ty::<MpOne>, std::mem::offset_of!(Self, e)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.ints.to_v(), self.a_rather_long_field_name_of_32_by.to_v(), self.flagless.to_v(), self.pair.to_v(), self.e.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); MpNest { ints: Gt::from_v(&_f[0]), a_rather_long_field_name_of_32_by: Gt::from_v(&_f[1]), flagless: Gt::from_v(&_f[2]), pair: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct MpPair( pub i64,  pub String);
impl Gt for MpPair {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("MpPair", Stk::TupleStruct, vec![
            Fd::new("0", ty::<i64>, std::mem::offset_of!(Self, 0)),
            Fd::new("1", ty::<String>, std::mem::offset_of!(Self, 1)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); MpPair(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct MpOne {
    pub only: i32,
}
impl Gt for MpOne {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("MpOne", Stk::Named, vec![
            Fd::new("only", ty::<i32>, std::mem::offset_of!(Self, only)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.only.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); MpOne { only: Gt::from_v(&_f[0]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct MpBools {
    pub x: bool,
    pub y: i16,
    pub z: MpOne,
    pub w: bool,
}
impl Gt for MpBools {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("MpBools", Stk::Named, vec![
            Fd::new("x", ty::<bool>, std::mem::offset_of!(Self, x)),
            Fd::new("y", ty::<i16>, std::mem::offset_of!(Self, y)),
            Fd::new("z", ty::<MpOne>, std::mem::offset_of!(Self, z)),
            Fd::new("w", ty::<bool>, std::mem::offset_of!(Self, w)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.x.to_v(), self.y.to_v(), self.z.to_v(), self.w.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); MpBools { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]), z: Gt::from_v(&_f[2]), w: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Mp15 {
    pub f0: u8,
    pub f1: i32,
    pub f2: String,
    pub f3: u8,
    pub f4: i32,
    pub f5: String,
    pub f6: u8,
    pub f7: i32,
    pub f8: String,
    pub f9: u8,
    pub f10: i32,
    pub f11: String,
    pub f12: u8,
    pub f13: i32,
    pub f14: String,
}
impl Gt for Mp15 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Mp15", Stk::Named, vec![
            Fd::new("f0", ty::<u8>, std::mem::offset_of!(Self, f0)),
            Fd::new("f1", ty::<i32>, std::mem::offset_of!(Self, f1)),
            Fd::new("f2", ty::<String>, std::mem::offset_of!(Self, f2)),
            Fd::new("f3", ty::<u8>, std::mem::offset_of!(Self, f3)),
            Fd::new("f4", ty::<i32>, std::mem::offset_of!(Self, f4)),
            Fd::new("f5", ty::<String>, std::mem::offset_of!(Self, f5)),
            Fd::new("f6", ty::<u8>, std::mem::offset_of!(Self, f6)),
            Fd::new("f7", ty::<i32>, std::mem::offset_of!(Self, f7)),
            Fd::new("f8", ty::<String>, std::mem::offset_of!(Self, f8)),
            Fd::new("f9", ty::<u8>, std::mem::offset_of!(Self, f9)),
            Fd::new("f10", ty::<i32>, std::mem::offset_of!(Self, f10)),
            Fd::new("f11", ty::<String>, std::mem::offset_of!(Self, f11)),
            Fd::new("f12", ty::<u8>, std::mem::offset_of!(Self, f12)),
            Fd::new("f13", ty::<i32>, std::mem::offset_of!(Self, f13)),
            Fd::new("f14", ty::<String>, std::mem::offset_of!(Self, f14)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.f0.to_v(), self.f1.to_v(), self.f2.to_v(), self.f3.to_v(), self.f4.to_v(), self.f5.to_v(), self.f6.to_v(), self.f7.to_v(), self.f8.to_v(), self.f9.to_v(), self.f10.to_v(), self.f11.to_v(), self.f12.to_v(), self.f13.to_v(), self.f14.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Mp15 { f0: Gt::from_v(&_f[0]), f1: Gt::from_v(&_f[1]), f2: Gt::from_v(&_f[2]), f3: Gt::from_v(&_f[3]), f4: Gt::from_v(&_f[4]), f5: Gt::from_v(&_f[5]), f6: Gt::from_v(&_f[6]), f7: Gt::from_v(&_f[7]), f8: Gt::from_v(&_f[8]), f9: Gt::from_v(&_f[9]), f10: Gt::from_v(&_f[10]), f11: Gt::from_v(&_f[11]), f12: Gt::from_v(&_f[12]), f13: Gt::from_v(&_f[13]), f14: Gt::from_v(&_f[14]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Mp16 {
    pub f0: u8,
    pub f1: i32,
    pub f2: String,
    pub f3: u8,
    pub f4: i32,
    pub f5: String,
    pub f6: u8,
    pub f7: i32,
    pub f8: String,
    pub f9: u8,
    pub f10: i32,
    pub f11: String,
    pub f12: u8,
    pub f13: i32,
    pub f14: String,
    pub f15: u8,
}
impl Gt for Mp16 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Mp16", Stk::Named, vec![
            Fd::new("f0", ty::<u8>, std::mem::offset_of!(Self, f0)),
            Fd::new("f1", ty::<i32>, std::mem::offset_of!(Self, f1)),
            Fd::new("f2", ty::<String>, std::mem::offset_of!(Self, f2)),
            Fd::new("f3", ty::<u8>, std::mem::offset_of!(Self, f3)),
            Fd::new("f4", ty::<i32>, std::mem::offset_of!(Self, f4)),
            Fd::new("f5", ty::<String>, std::mem::offset_of!(Self, f5)),
            Fd::new("f6", ty::<u8>, std::mem::offset_of!(Self, f6)),
            Fd::new("f7", ty::<i32>, std::mem::offset_of!(Self, f7)),
            Fd::new("f8", ty::<String>, std::mem::offset_of!(Self, f8)),
            Fd::new("f9", ty::<u8>, std::mem::offset_of!(Self, f9)),
            Fd::new("f10", ty::<i32>, std::mem::offset_of!(Self, f10)),
            Fd::new("f11", ty::<String>, std::mem::offset_of!(Self, f11)),
            Fd::new("f12", ty::<u8>, std::mem::offset_of!(Self, f12)),
            Fd::new("f13", ty::<i32>, std::mem::offset_of!(Self, f13)),
            Fd::new("f14", ty::<String>, std::mem::offset_of!(Self, f14)),
            Fd::new("f15", ty::<u8>, std::mem::offset_of!(Self, f15)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.f0.to_v(), self.f1.to_v(), self.f2.to_v(), self.f3.to_v(), self.f4.to_v(), self.f5.to_v(), self.f6.to_v(), self.f7.to_v(), self.f8.to_v(), self.f9.to_v(), self.f10.to_v(), self.f11.to_v(), self.f12.to_v(), self.f13.to_v(), self.f14.to_v(), self.f15.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Mp16 { f0: Gt::from_v(&_f[0]), f1: Gt::from_v(&_f[1]), f2: Gt::from_v(&_f[2]), f3: Gt::from_v(&_f[3]), f4: Gt::from_v(&_f[4]), f5: Gt::from_v(&_f[5]), f6: Gt::from_v(&_f[6]), f7: Gt::from_v(&_f[7]), f8: Gt::from_v(&_f[8]), f9: Gt::from_v(&_f[9]), f10: Gt::from_v(&_f[10]), f11: Gt::from_v(&_f[11]), f12: Gt::from_v(&_f[12]), f13: Gt::from_v(&_f[13]), f14: Gt::from_v(&_f[14]), f15: Gt::from_v(&_f[15]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Mp17 {
    pub f0: u8,
    pub f1: i32,
    pub f2: String,
    pub f3: u8,
    pub f4: i32,
    pub f5: String,
    pub f6: u8,
    pub f7: i32,
    pub f8: String,
    pub f9: u8,
    pub f10: i32,
    pub f11: String,
    pub f12: u8,
    pub f13: i32,
    pub f14: String,
    pub f15: u8,
    pub f16: i32,
}
impl Gt for Mp17 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Mp17", Stk::Named, vec![
            Fd::new("f0", ty::<u8>, std::mem::offset_of!(Self, f0)),
            Fd::new("f1", ty::<i32>, std::mem::offset_of!(Self, f1)),
            Fd::new("f2", ty::<String>, std::mem::offset_of!(Self, f2)),
            Fd::new("f3", ty::<u8>, std::mem::offset_of!(Self, f3)),
            Fd::new("f4", ty::<i32>, std::mem::offset_of!(Self, f4)),
            Fd::new("f5", ty::<String>, std::mem::offset_of!(Self, f5)),
            Fd::new("f6", ty::<u8>, std::mem::offset_of!(Self, f6)),
            Fd::new("f7", ty::<i32>, std::mem::offset_of!(Self, f7)),
            Fd::new("f8", ty::<String>, std::mem::offset_of!(Self, f8)),
            Fd::new("f9", ty::<u8>, std::mem::offset_of!(Self, f9)),
            Fd::new("f10", ty::<i32>, std::mem::offset_of!(Self, f10)),
            Fd::new("f11", ty::<String>, std::mem::offset_of!(Self, f11)),
            Fd::new("f12", ty::<u8>, std::mem::offset_of!(Self, f12)),
            Fd::new("f13", ty::<i32>, std::mem::offset_of!(Self, f13)),
            Fd::new("f14", ty::<String>, std::mem::offset_of!(Self, f14)),
            Fd::new("f15", ty::<u8>, std::mem::offset_of!(Self, f15)),
            Fd::new("f16", ty::<i32>, std::mem::offset_of!(Self, f16)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.f0.to_v(), self.f1.to_v(), self.f2.to_v(), self.f3.to_v(), self.f4.to_v(), self.f5.to_v(), self.f6.to_v(), self.f7.to_v(), self.f8.to_v(), self.f9.to_v(), self.f10.to_v(), self.f11.to_v(), self.f12.to_v(), self.f13.to_v(), self.f14.to_v(), self.f15.to_v(), self.f16.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); Mp17 { f0: Gt::from_v(&_f[0]), f1: Gt::from_v(&_f[1]), f2: Gt::from_v(&_f[2]), f3: Gt::from_v(&_f[3]), f4: Gt::from_v(&_f[4]), f5: Gt::from_v(&_f[5]), f6: Gt::from_v(&_f[6]), f7: Gt::from_v(&_f[7]), f8: Gt::from_v(&_f[8]), f9: Gt::from_v(&_f[9]), f10: Gt::from_v(&_f[10]), f11: Gt::from_v(&_f[11]), f12: Gt::from_v(&_f[12]), f13: Gt::from_v(&_f[13]), f14: Gt::from_v(&_f[14]), f15: Gt::from_v(&_f[15]), f16: Gt::from_v(&_f[16]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmScal {
    pub b: bool,
    pub u8: u8,
    pub u16: u16,
    pub u32: u32,
    pub u64: u64,
    pub us: usize,
    pub i8: i8,
    pub i16: i16,
    pub i32: i32,
    pub i64: i64,
    pub is: isize,
    pub f32: f32,
    pub f64: f64,
    pub s: String,
    pub c: Cow<'static, str>,
    pub ip: std::net::IpAddr,
    pub v4: std::net::Ipv4Addr,
    pub v6: std::net::Ipv6Addr,
    pub sa: std::net::SocketAddr,
}
impl Gt for TmScal {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmScal", Stk::Named, vec![
            Fd::new("b", ty::<bool>, std::mem::offset_of!(Self, b)),
            Fd::new("u8", ty::<u8>, std::mem::offset_of!(Self, u8)),
            Fd::new("u16", ty::<u16>, std::mem::offset_of!(Self, u16)),
            Fd::new("u32", ty::<u32>, std::mem::offset_of!(Self, u32)),
            Fd::new("u64", ty::<u64>, std::mem::offset_of!(Self, u64)),
            Fd::new("us", ty::<usize>, std::mem::offset_of!(Self, us)),
            Fd::new("i8", ty::<i8>, std::mem::offset_of!(Self, i8)),
            Fd::new("i16", ty::<i16>, std::mem::offset_of!(Self, i16)),
            Fd::new("i32", ty::<i32>, std::mem::offset_of!(Self, i32)),
            Fd::new("i64", ty::<i64>, std::mem::offset_of!(Self, i64)),
            Fd::new("is", ty::<isize>, std::mem::offset_of!(Self, is)),
            Fd::new("f32", ty::<f32>, std::mem::offset_of!(Self, f32)),
            Fd::new("f64", ty::<f64>, std::mem::offset_of!(Self, f64)),
            Fd::new("s", ty::<String>, std::mem::offset_of!(Self, s)),
            Fd::new("c", ty::<Cow<'static, str>>, std::mem::offset_of!(Self, c)),
            Fd::new("ip", ty::<std::net::IpAddr>, std::mem::offset_of!(Self, ip)),
            Fd::new("v4", ty::<std::net::Ipv4Addr>, std::mem::offset_of!(Self, v4)),
            Fd::new("v6", ty::<std::net::Ipv6Addr>, std::mem::offset_of!(Self, v6)),
            Fd::new("sa", ty::<std::net::SocketAddr>, std::mem::offset_of!(Self, sa)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.b.to_v(), self.u8.to_v(), self.u16.to_v(), self.u32.to_v(), self.u64.to_v(), self.us.to_v(), self.i8.to_v(), self.i16.to_v(), self.i32.to_v(), self.i64.to_v(), self.is.to_v(), self.f32.to_v(), self.f64.to_v(), self.s.to_v(), self.c.to_v(), self.ip.to_v(), self.v4.to_v(), self.v6.to_v(), self.sa.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmScal { b: Gt::from_v(&_f[0]), u8: Gt::from_v(&_f[1]), u16: Gt::from_v(&_f[2]), u32: Gt::from_v(&_f[3]), u64: Gt::from_v(&_f[4]), us: Gt::from_v(&_f[5]), i8: Gt::from_v(&_f[6]), i16: Gt::from_v(&_f[7]), i32: Gt::from_v(&_f[8]), i64: Gt::from_v(&_f[9]), is: Gt::from_v(&_f[10]), f32: Gt::from_v(&_f[11]), f64: Gt::from_v(&_f[12]), s: Gt::from_v(&_f[13]), c: Gt::from_v(&_f[14]), ip: Gt::from_v(&_f[15]), v4: Gt::from_v(&_f[16]), v6: Gt::from_v(&_f[17]), sa: Gt::from_v(&_f[18]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
pub enum TmEnum {
    Unit,
    One( String),
    Num( i64),
    Pair( u8,  String),
    OptNew( Option<u8>),
    Wrap( NtU32),
    Tab( Point),
    List( Vec<u8>),
    Named {  a: u8,  o: Option<String>,  p: Option<Point> },
    Solo {  only: f64 },
    Opts {  x: Option<u8>,  y: Option<bool> },
    TupOpt( u8,  Option<u16>),
}
impl Gt for TmEnum {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("TmEnum", "u8", vec![
            Vd { name: "Unit", kind: Vk::Unit, disc: 0, fields: vec![] },
            Vd { name: "One", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<String>, usize::MAX)] },
            Vd { name: "Num", kind: Vk::Tuple, disc: 2, fields: vec![Fd::new("_0", ty::<i64>, usize::MAX)] },
            Vd { name: "Pair", kind: Vk::Tuple, disc: 3, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<String>, usize::MAX)] },
            Vd { name: "OptNew", kind: Vk::Tuple, disc: 4, fields: vec![Fd::new("_0", ty::<Option<u8>>, usize::MAX)] },
            Vd { name: "Wrap", kind: Vk::Tuple, disc: 5, fields: vec![Fd::new("_0", ty::<NtU32>, usize::MAX)] },
            Vd { name: "Tab", kind: Vk::Tuple, disc: 6, fields: vec![Fd::new("_0", ty::<Point>, usize::MAX)] },
            Vd { name: "List", kind: Vk::Tuple, disc: 7, fields: vec![Fd::new("_0", ty::<Vec<u8>>, usize::MAX)] },
            Vd { name: "Named", kind: Vk::Named, disc: 8, fields: vec![Fd::new("a", ty::<u8>, usize::MAX), Fd::new("o", ty::<Option<String>>, usize::MAX), Fd::new("p", ty::<Option<Point>>, usize::MAX)] },
            Vd { name: "Solo", kind: Vk::Named, disc: 9, fields: vec![Fd::new("only", ty::<f64>, usize::MAX)] },
            Vd { name: "Opts", kind: Vk::Named, disc: 10, fields: vec![Fd::new("x", ty::<Option<u8>>, usize::MAX), Fd::new("y", ty::<Option<bool>>, usize::MAX)] },
            Vd { name: "TupOpt", kind: Vk::Tuple, disc: 11, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<Option<u16>>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        TmEnum::Unit => V::En(0, vec![]),
        TmEnum::One(f0) => V::En(1, vec![f0.to_v()]),
        TmEnum::Num(f0) => V::En(2, vec![f0.to_v()]),
        TmEnum::Pair(f0, f1) => V::En(3, vec![f0.to_v(), f1.to_v()]),
        TmEnum::OptNew(f0) => V::En(4, vec![f0.to_v()]),
        TmEnum::Wrap(f0) => V::En(5, vec![f0.to_v()]),
        TmEnum::Tab(f0) => V::En(6, vec![f0.to_v()]),
        TmEnum::List(f0) => V::En(7, vec![f0.to_v()]),
        TmEnum::Named { a, o, p } => V::En(8, vec![a.to_v(), o.to_v(), p.to_v()]),
        TmEnum::Solo { only } => V::En(9, vec![only.to_v()]),
        TmEnum::Opts { x, y } => V::En(10, vec![x.to_v(), y.to_v()]),
        TmEnum::TupOpt(f0, f1) => V::En(11, vec![f0.to_v(), f1.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => TmEnum::Unit,
        1 => TmEnum::One(Gt::from_v(&_f[0])),
        2 => TmEnum::Num(Gt::from_v(&_f[0])),
        3 => TmEnum::Pair(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        4 => TmEnum::OptNew(Gt::from_v(&_f[0])),
        5 => TmEnum::Wrap(Gt::from_v(&_f[0])),
        6 => TmEnum::Tab(Gt::from_v(&_f[0])),
        7 => TmEnum::List(Gt::from_v(&_f[0])),
        8 => TmEnum::Named { a: Gt::from_v(&_f[0]), o: Gt::from_v(&_f[1]), p: Gt::from_v(&_f[2]) },
        9 => TmEnum::Solo { only: Gt::from_v(&_f[0]) },
        10 => TmEnum::Opts { x: Gt::from_v(&_f[0]), y: Gt::from_v(&_f[1]) },
        11 => TmEnum::TupOpt(Gt::from_v(&_f[0]), Gt::from_v(&_f[1])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmEnums {
    pub a: TmEnum,
    pub l: Vec<TmEnum>,
    pub m: HashMap<String, TmEnum>,
    pub o: Option<TmEnum>,
    pub p: (TmEnum, u8),
}
impl Gt for TmEnums {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmEnums", Stk::Named, vec![
            Fd::new("a", ty::<TmEnum>, std::mem::offset_of!(Self, a)),
            Fd::new("l", ty::<Vec<TmEnum>>, std::mem::offset_of!(Self, l)),
            Fd::new("m", ty::<HashMap<String, TmEnum>>, std::mem::offset_of!(Self, m)),
            Fd::new("o", ty::<Option<TmEnum>>, std::mem::offset_of!(Self, o)),
            Fd::new("p", ty::<(TmEnum, u8)>, std::mem::offset_of!(Self, p)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.l.to_v(), self.m.to_v(), self.o.to_v(), self.p.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmEnums { a: Gt::from_v(&_f[0]), l: Gt::from_v(&_f[1]), m: Gt::from_v(&_f[2]), o: Gt::from_v(&_f[3]), p: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmMaps {
    pub cow: BTreeMap<Cow<'static, str>, i64>,
    pub m: HashMap<String, HashMap<String, Point>>,
    pub ml: BTreeMap<String, Vec<Point>>,
    pub e: HashMap<String, bool>,
    pub f: BTreeMap<String, f64>,
}
impl Gt for TmMaps {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmMaps", Stk::Named, vec![
            Fd::new("cow", ty::<BTreeMap<Cow<'static, str>, i64>>, std::mem::offset_of!(Self, cow)),
            Fd::new("m", ty::<HashMap<String, HashMap<String, Point>>>, std::mem::offset_of!(Self, m)),
            Fd::new("ml", ty::<BTreeMap<String, Vec<Point>>>, std::mem::offset_of!(Self, ml)),
            Fd::new("e", ty::<HashMap<String, bool>>, std::mem::offset_of!(Self, e)),
            Fd::new("f", ty::<BTreeMap<String, f64>>, std::mem::offset_of!(Self, f)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.cow.to_v(), self.m.to_v(), self.ml.to_v(), self.e.to_v(), self.f.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmMaps { cow: Gt::from_v(&_f[0]), m: Gt::from_v(&_f[1]), ml: Gt::from_v(&_f[2]), e: Gt::from_v(&_f[3]), f: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmNew {
    pub a: NtU32,
    pub b: NtStr,
    pub c: NtOpt,
    pub d: TmNt2,
    pub e: Vec<NtStr>,
    pub f: TmNtL,
    pub g: TmNtM,
    pub h: Option<NtU32>,
}
impl Gt for TmNew {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmNew", Stk::Named, vec![
            Fd::new("a", ty::<NtU32>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<NtStr>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<NtOpt>, std::mem::offset_of!(Self, c)),
            Fd::new("d", ty::<TmNt2>, std::mem::offset_of!(Self, d)),
            Fd::new("e", ty::<Vec<NtStr>>, std::mem::offset_of!(Self, e)),
            Fd::new("f", ty::<TmNtL>, std::mem::offset_of!(Self, f)),
            Fd::new("g", ty::<TmNtM>, std::mem::offset_of!(Self, g)),
            Fd::new("h", ty::<Option<NtU32>>, std::mem::offset_of!(Self, h)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v(), self.g.to_v(), self.h.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmNew { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]), g: Gt::from_v(&_f[6]), h: Gt::from_v(&_f[7]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmNt2( pub NtU32);
impl Gt for TmNt2 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmNt2", Stk::TupleStruct, vec![
            Fd::new("0", ty::<NtU32>, std::mem::offset_of!(Self, 0)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmNt2(Gt::from_v(&_f[0])) }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmNtL( pub Vec<Point>);
impl Gt for TmNtL {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmNtL", Stk::TupleStruct, vec![
            Fd::new("0", ty::<Vec<Point>>, std::mem::offset_of!(Self, 0)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmNtL(Gt::from_v(&_f[0])) }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmNtM( pub HashMap<String, u8>);
impl Gt for TmNtM {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmNtM", Stk::TupleStruct, vec![
            Fd::new("0", ty::<HashMap<String, u8>>, std::mem::offset_of!(Self, 0)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmNtM(Gt::from_v(&_f[0])) }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmTree {
    pub name: String,
    pub kids: Vec<TmTree>,
    pub by: HashMap<String, TmTree>,
    pub e: Option<TmEnum>,
}
impl Gt for TmTree {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmTree", Stk::Named, vec![
            Fd::new("name", ty::<String>, std::mem::offset_of!(Self, name)),
            Fd::new("kids", ty::<Vec<TmTree>>, std::mem::offset_of!(Self, kids)),
            Fd::new("by", ty::<HashMap<String, TmTree>>, std::mem::offset_of!(Self, by)),
            Fd::new("e", ty::<Option<TmEnum>>, std::mem::offset_of!(Self, e)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.name.to_v(), self.kids.to_v(), self.by.to_v(), self.e.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmTree { name: Gt::from_v(&_f[0]), kids: Gt::from_v(&_f[1]), by: Gt::from_v(&_f[2]), e: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmTabs {
    pub srv: Vec<TmSrv>,
    pub main: TmSrv,
    pub alt: Option<TmSrv>,
    pub title: String,
}
impl Gt for TmTabs {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmTabs", Stk::Named, vec![
            Fd::new("srv", ty::<Vec<TmSrv>>, std::mem::offset_of!(Self, srv)),
            Fd::new("main", ty::<TmSrv>, std::mem::offset_of!(Self, main)),
            Fd::new("alt", ty::<Option<TmSrv>>, std::mem::offset_of!(Self, alt)),
            Fd::new("title", ty::<String>, std::mem::offset_of!(Self, title)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.srv.to_v(), self.main.to_v(), self.alt.to_v(), self.title.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmTabs { srv: Gt::from_v(&_f[0]), main: Gt::from_v(&_f[1]), alt: Gt::from_v(&_f[2]), title: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TmSrv {
    pub host: String,
    pub port: u16,
    pub tags: Vec<String>,
    pub at: Point,
    pub roles: Vec<Point>,
    pub note: Option<String>,
    pub grid: Vec<Vec<i16>>,
}
impl Gt for TmSrv {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmSrv", Stk::Named, vec![
            Fd::new("host", ty::<String>, std::mem::offset_of!(Self, host)),
            Fd::new("port", ty::<u16>, std::mem::offset_of!(Self, port)),
            Fd::new("tags", ty::<Vec<String>>, std::mem::offset_of!(Self, tags)),
            Fd::new("at", ty::<Point>, std::mem::offset_of!(Self, at)),
            Fd::new("roles", ty::<Vec<Point>>, std::mem::offset_of!(Self, roles)),
            Fd::new("note", ty::<Option<String>>, std::mem::offset_of!(Self, note)),
            Fd::new("grid", ty::<Vec<Vec<i16>>>, std::mem::offset_of!(Self, grid)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.host.to_v(), self.port.to_v(), self.tags.to_v(), self.at.to_v(), self.roles.to_v(), self.note.to_v(), self.grid.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmSrv { host: Gt::from_v(&_f[0]), port: Gt::from_v(&_f[1]), tags: Gt::from_v(&_f[2]), at: Gt::from_v(&_f[3]), roles: Gt::from_v(&_f[4]), note: Gt::from_v(&_f[5]), grid: Gt::from_v(&_f[6]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct YmAll {
    pub n: u64,
    pub s: String,
    pub p: UrlAddr,
    pub q: YmMid,
    pub t: String,
}
impl Gt for YmAll {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("YmAll", Stk::Named, vec![
            Fd::new("n", ty::<u64>, std::mem::offset_of!(Self, n)),
            Fd::new("s", ty::<String>, std::mem::offset_of!(Self, s)),
            Fd::new("p", ty::<UrlAddr>, std::mem::offset_of!(Self, p)),
            Fd::new("q", ty::<YmMid>, std::mem::offset_of!(Self, q)),
            Fd::new("t", ty::<String>, std::mem::offset_of!(Self, t)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.n.to_v(), self.s.to_v(), self.p.to_v(), self.q.to_v(), self.t.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); YmAll { n: Gt::from_v(&_f[0]), s: Gt::from_v(&_f[1]), p: Gt::from_v(&_f[2]), q: Gt::from_v(&_f[3]), t: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct YmMid {
    pub u: u64,
    pub in_: YmLeaf,
    pub z: String,
}
impl Gt for YmMid {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("YmMid", Stk::Named, vec![
            Fd::new("u", ty::<u64>, std::mem::offset_of!(Self, u)),
            Fd::new("in_", ty::<YmLeaf>, std::mem::offset_of!(Self, in_)),
            Fd::new("z", ty::<String>, std::mem::offset_of!(Self, z)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.u.to_v(), self.in_.to_v(), self.z.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); YmMid { u: Gt::from_v(&_f[0]), in_: Gt::from_v(&_f[1]), z: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct YmLeaf {
    pub a: u64,
    pub b: u64,
    pub c: String,
}
impl Gt for YmLeaf {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("YmLeaf", Stk::Named, vec![
            Fd::new("a", ty::<u64>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<u64>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<String>, std::mem::offset_of!(Self, c)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); YmLeaf { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct UrlTup( pub String,  pub u64,  pub UrlAddr);
impl Gt for UrlTup {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("UrlTup", Stk::TupleStruct, vec![
            Fd::new("0", ty::<String>, std::mem::offset_of!(Self, 0)),
            Fd::new("1", ty::<u64>, std::mem::offset_of!(Self, 1)),
            Fd::new("2", ty::<UrlAddr>, std::mem::offset_of!(Self, 2)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v(), self.2.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); UrlTup(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2])) }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct UrlWide {
    pub k0: u64,
    pub k1: String,
    pub k2: u64,
    pub k3: String,
    pub k4: u64,
    pub k5: String,
    pub k6: u64,
    pub k7: String,
    pub k8: u64,
    pub k9: String,
    pub k10: u64,
    pub k11: String,
    pub k12: u64,
    pub k13: String,
    pub k14: u64,
    pub k15: String,
    pub k16: u64,
    pub k17: String,
    pub k18: u64,
    pub k19: String,
    pub in_: UrlOne,
}
impl Gt for UrlWide {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("UrlWide", Stk::Named, vec![
            Fd::new("k0", ty::<u64>, std::mem::offset_of!(Self, k0)),
            Fd::new("k1", ty::<String>, std::mem::offset_of!(Self, k1)),
            Fd::new("k2", ty::<u64>, std::mem::offset_of!(Self, k2)),
            Fd::new("k3", ty::<String>, std::mem::offset_of!(Self, k3)),
            Fd::new("k4", ty::<u64>, std::mem::offset_of!(Self, k4)),
            Fd::new("k5", ty::<String>, std::mem::offset_of!(Self, k5)),
            Fd::new("k6", ty::<u64>, std::mem::offset_of!(Self, k6)),
            Fd::new("k7", ty::<String>, std::mem::offset_of!(Self, k7)),
            Fd::new("k8", ty::<u64>, std::mem::offset_of!(Self, k8)),
            Fd::new("k9", ty::<String>, std::mem::offset_of!(Self, k9)),
            Fd::new("k10", ty::<u64>, std::mem::offset_of!(Self, k10)),
            Fd::new("k11", ty::<String>, std::mem::offset_of!(Self, k11)),
            Fd::new("k12", ty::<u64>, std::mem::offset_of!(Self, k12)),
            Fd::new("k13", ty::<String>, std::mem::offset_of!(Self, k13)),
            Fd::new("k14", ty::<u64>, std::mem::offset_of!(Self, k14)),
            Fd::new("k15", ty::<String>, std::mem::offset_of!(Self, k15)),
            Fd::new("k16", ty::<u64>, std::mem::offset_of!(Self, k16)),
            Fd::new("k17", ty::<String>, std::mem::offset_of!(Self, k17)),
            Fd::new("k18", ty::<u64>, std::mem::offset_of!(Self, k18)),
            Fd::new("k19", ty::<String>, std::mem::offset_of!(Self, k19)),
            Fd::new("in_", ty::<UrlOne>, std::mem::offset_of!(Self, in_)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.k0.to_v(), self.k1.to_v(), self.k2.to_v(), self.k3.to_v(), self.k4.to_v(), self.k5.to_v(), self.k6.to_v(), self.k7.to_v(), self.k8.to_v(), self.k9.to_v(), self.k10.to_v(), self.k11.to_v(), self.k12.to_v(), self.k13.to_v(), self.k14.to_v(), self.k15.to_v(), self.k16.to_v(), self.k17.to_v(), self.k18.to_v(), self.k19.to_v(), self.in_.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); UrlWide { k0: Gt::from_v(&_f[0]), k1: Gt::from_v(&_f[1]), k2: Gt::from_v(&_f[2]), k3: Gt::from_v(&_f[3]), k4: Gt::from_v(&_f[4]), k5: Gt::from_v(&_f[5]), k6: Gt::from_v(&_f[6]), k7: Gt::from_v(&_f[7]), k8: Gt::from_v(&_f[8]), k9: Gt::from_v(&_f[9]), k10: Gt::from_v(&_f[10]), k11: Gt::from_v(&_f[11]), k12: Gt::from_v(&_f[12]), k13: Gt::from_v(&_f[13]), k14: Gt::from_v(&_f[14]), k15: Gt::from_v(&_f[15]), k16: Gt::from_v(&_f[16]), k17: Gt::from_v(&_f[17]), k18: Gt::from_v(&_f[18]), k19: Gt::from_v(&_f[19]), in_: Gt::from_v(&_f[20]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct UrlD4 {
    pub a: UrlD3,
    pub b: UrlD3,
    pub x: String,
}
impl Gt for UrlD4 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("UrlD4", Stk::Named, vec![
            Fd::new("a", ty::<UrlD3>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<UrlD3>, std::mem::offset_of!(Self, b)),
            Fd::new("x", ty::<String>, std::mem::offset_of!(Self, x)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.x.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); UrlD4 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), x: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct UrlD3 {
    pub a: UrlDeep,
    pub b: UrlOne,
    pub x: u64,
}
impl Gt for UrlD3 {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("UrlD3", Stk::Named, vec![
            Fd::new("a", ty::<UrlDeep>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<UrlOne>, std::mem::offset_of!(Self, b)),
            Fd::new("x", ty::<u64>, std::mem::offset_of!(Self, x)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.x.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); UrlD3 { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), x: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct ArgsE {
    #[facet(named)]
    pub a: u8,
    #[facet(named)]
    pub b: i128,
    #[facet(named)]
    pub c: f32,
    #[facet(named)]
    pub d: std::net::IpAddr,
    #[facet(named)]
    pub e: std::net::SocketAddr,
    #[facet(named)]
    pub f: usize,
    #[facet(named)]
    pub g: bool,
    #[facet(positional)]
    pub h: bool,
    #[facet(named)]
    pub i: std::num::NonZero<u16>,
    #[facet(positional)]
    pub j: i8,
}
impl Gt for ArgsE {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArgsE", Stk::Named, vec![
            Fd { named: true, ..Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)) },
            Fd { named: true, ..Fd::new("b", ty::<i128>, std::mem::offset_of!(Self, b)) },
            Fd { named: true, ..Fd::new("c", ty::<f32>, std::mem::offset_of!(Self, c)) },
            Fd { named: true, ..Fd::new("d", ty::<std::net::IpAddr>, std::mem::offset_of!(Self, d)) },
            Fd { named: true, ..Fd::new("e", ty::<std::net::SocketAddr>, std::mem::offset_of!(Self, e)) },
            Fd { named: true, ..Fd::new("f", ty::<usize>, std::mem::offset_of!(Self, f)) },
            Fd { named: true, ..Fd::new("g", ty::<bool>, std::mem::offset_of!(Self, g)) },
            Fd { positional: true, ..Fd::new("h", ty::<bool>, std::mem::offset_of!(Self, h)) },
            Fd { named: true, ..Fd::new("i", ty::<std::num::NonZero<u16>>, std::mem::offset_of!(Self, i)) },
            Fd { positional: true, ..Fd::new("j", ty::<i8>, std::mem::offset_of!(Self, j)) },
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v(), self.g.to_v(), self.h.to_v(), self.i.to_v(), self.j.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArgsE { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]), g: Gt::from_v(&_f[6]), h: Gt::from_v(&_f[7]), i: Gt::from_v(&_f[8]), j: Gt::from_v(&_f[9]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct ArgsF {
    #[facet(positional)]
    pub only: String,
}
impl Gt for ArgsF {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArgsF", Stk::Named, vec![
            Fd { positional: true, ..Fd::new("only", ty::<String>, std::mem::offset_of!(Self, only)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.only.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArgsF { only: Gt::from_v(&_f[0]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct ArgsG {
    pub a: u32,
    pub b: String,
    pub flag: bool,
    #[facet(positional)]
    pub p: u64,
    #[facet(named)]
    pub a_b: String,
}
impl Gt for ArgsG {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArgsG", Stk::Named, vec![
            Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<String>, std::mem::offset_of!(Self, b)),
            Fd::new("flag", ty::<bool>, std::mem::offset_of!(Self, flag)),
            Fd { positional: true, ..Fd::new("p", ty::<u64>, std::mem::offset_of!(Self, p)) },
            Fd { named: true, ..Fd::new("a_b", ty::<String>, std::mem::offset_of!(Self, a_b)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.flag.to_v(), self.p.to_v(), self.a_b.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArgsG { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), flag: Gt::from_v(&_f[2]), p: Gt::from_v(&_f[3]), a_b: Gt::from_v(&_f[4]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct UrlAddr {
    pub street: String,
    pub num: u64,
}
impl Gt for UrlAddr {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("UrlAddr", Stk::Named, vec![
            Fd::new("street", ty::<String>, std::mem::offset_of!(Self, street)),
            Fd::new("num", ty::<u64>, std::mem::offset_of!(Self, num)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.street.to_v(), self.num.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); UrlAddr { street: Gt::from_v(&_f[0]), num: Gt::from_v(&_f[1]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct UrlUser {
    pub name: String,
    pub addr: UrlAddr,
    pub age: u64,
}
impl Gt for UrlUser {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("UrlUser", Stk::Named, vec![
            Fd::new("name", ty::<String>, std::mem::offset_of!(Self, name)),
            Fd::new("addr", ty::<UrlAddr>, std::mem::offset_of!(Self, addr)),
            Fd::new("age", ty::<u64>, std::mem::offset_of!(Self, age)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.name.to_v(), self.addr.to_v(), self.age.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); UrlUser { name: Gt::from_v(&_f[0]), addr: Gt::from_v(&_f[1]), age: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct UrlDeep {
    pub id: u64,
    pub user: UrlUser,
    pub tag: String,
    pub other: UrlAddr,
}
impl Gt for UrlDeep {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("UrlDeep", Stk::Named, vec![
            Fd::new("id", ty::<u64>, std::mem::offset_of!(Self, id)),
            Fd::new("user", ty::<UrlUser>, std::mem::offset_of!(Self, user)),
            Fd::new("tag", ty::<String>, std::mem::offset_of!(Self, tag)),
            Fd::new("other", ty::<UrlAddr>, std::mem::offset_of!(Self, other)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.id.to_v(), self.user.to_v(), self.tag.to_v(), self.other.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); UrlDeep { id: Gt::from_v(&_f[0]), user: Gt::from_v(&_f[1]), tag: Gt::from_v(&_f[2]), other: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct UrlOne {
    pub q: String,
}
impl Gt for UrlOne {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("UrlOne", Stk::Named, vec![
            Fd::new("q", ty::<String>, std::mem::offset_of!(Self, q)),
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.q.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); UrlOne { q: Gt::from_v(&_f[0]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct ArgsA {
    #[facet(named)]
    #[facet(short = "v")]
    pub verbose: bool,
    #[facet(positional)]
    pub path: String,
    #[facet(named)]
    #[facet(short = "n")]
    pub count: u32,
    #[facet(named)]
    pub name: String,
}
impl Gt for ArgsA {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArgsA", Stk::Named, vec![
            Fd { named: true, short: Some("v"), ..Fd::new("verbose", ty::<bool>, std::mem::offset_of!(Self, verbose)) },
            Fd { positional: true, ..Fd::new("path", ty::<String>, std::mem::offset_of!(Self, path)) },
            Fd { named: true, short: Some("n"), ..Fd::new("count", ty::<u32>, std::mem::offset_of!(Self, count)) },
            Fd { named: true, ..Fd::new("name", ty::<String>, std::mem::offset_of!(Self, name)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.verbose.to_v(), self.path.to_v(), self.count.to_v(), self.name.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArgsA { verbose: Gt::from_v(&_f[0]), path: Gt::from_v(&_f[1]), count: Gt::from_v(&_f[2]), name: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Default)]
pub struct ArgsB {
    #[facet(positional)]
    pub a: String,
    #[facet(positional)]
    pub b: i64,
    #[facet(named)]
    pub long_name: bool,
    #[facet(named)]
    #[facet(short = "r")]
    pub ratio: f64,
}
impl Gt for ArgsB {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArgsB", Stk::Named, vec![
            Fd { positional: true, ..Fd::new("a", ty::<String>, std::mem::offset_of!(Self, a)) },
            Fd { positional: true, ..Fd::new("b", ty::<i64>, std::mem::offset_of!(Self, b)) },
            Fd { named: true, ..Fd::new("long_name", ty::<bool>, std::mem::offset_of!(Self, long_name)) },
            Fd { named: true, short: Some("r"), ..Fd::new("ratio", ty::<f64>, std::mem::offset_of!(Self, ratio)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.long_name.to_v(), self.ratio.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArgsB { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), long_name: Gt::from_v(&_f[2]), ratio: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct ArgsC {
    #[facet(named)]
    #[facet(short = "x")]
    pub x: u8,
    #[facet(named)]
    #[facet(short = "f")]
    pub flag: bool,
    #[facet(named)]
    #[facet(short = "o")]
    pub other_flag: bool,
    #[facet(named)]
    pub c: char,
}
impl Gt for ArgsC {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArgsC", Stk::Named, vec![
            Fd { named: true, short: Some("x"), ..Fd::new("x", ty::<u8>, std::mem::offset_of!(Self, x)) },
            Fd { named: true, short: Some("f"), ..Fd::new("flag", ty::<bool>, std::mem::offset_of!(Self, flag)) },
            Fd { named: true, short: Some("o"), ..Fd::new("other_flag", ty::<bool>, std::mem::offset_of!(Self, other_flag)) },
            Fd { named: true, ..Fd::new("c", ty::<char>, std::mem::offset_of!(Self, c)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.x.to_v(), self.flag.to_v(), self.other_flag.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArgsC { x: Gt::from_v(&_f[0]), flag: Gt::from_v(&_f[1]), other_flag: Gt::from_v(&_f[2]), c: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct ArgsD {
    #[facet(positional)]
    pub p: String,
    #[facet(positional)]
    pub q: String,
    #[facet(positional)]
    pub r: u16,
    #[facet(named)]
    #[facet(short = "d")]
    pub d: bool,
}
impl Gt for ArgsD {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("ArgsD", Stk::Named, vec![
            Fd { positional: true, ..Fd::new("p", ty::<String>, std::mem::offset_of!(Self, p)) },
            Fd { positional: true, ..Fd::new("q", ty::<String>, std::mem::offset_of!(Self, q)) },
            Fd { positional: true, ..Fd::new("r", ty::<u16>, std::mem::offset_of!(Self, r)) },
            Fd { named: true, short: Some("d"), ..Fd::new("d", ty::<bool>, std::mem::offset_of!(Self, d)) },
        ]);
        t.default = Some(|| Self::default().to_v());
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.p.to_v(), self.q.to_v(), self.r.to_v(), self.d.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); ArgsD { p: Gt::from_v(&_f[0]), q: Gt::from_v(&_f[1]), r: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DfltWide {
    pub a: u8,
    #[facet(default)]
    pub b: u8,
    #[facet(default = "dflt_name")]
    pub c: String,
    pub d: u16,
    #[facet(default = "dflt_list")]
    pub e: Vec<u16>,
    pub f: Option<u8>,
    #[facet(default)]
    pub g: i64,
    #[facet(default)]
    pub h: bool,
    #[facet(default = "dflt_opt")]
    pub i: Option<String>,
    #[facet(default = "dflt_name")]
    pub j: String,
    #[facet(default = "dflt_point")]
    pub k: Point,
    #[facet(default)]
    pub l: u8,
    #[facet(default = "dflt_list")]
    pub m: Vec<u16>,
    pub n: u32,
    #[facet(default = "dflt_name")]
    pub o: String,
}
impl Gt for DfltWide {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("DfltWide", Stk::Named, vec![
            Fd::new("a", ty::<u8>, std::mem::offset_of!(Self, a)),
            Fd { default: Dflt::Trait, default_v: Some(|| <u8 as Default>::default().to_v()), ..Fd::new("b", ty::<u8>, std::mem::offset_of!(Self, b)) },
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_name().to_v()), ..Fd::new("c", ty::<String>, std::mem::offset_of!(Self, c)) },
            Fd::new("d", ty::<u16>, std::mem::offset_of!(Self, d)),
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_list().to_v()), ..Fd::new("e", ty::<Vec<u16>>, std::mem::offset_of!(Self, e)) },
            Fd::new("f", ty::<Option<u8>>, std::mem::offset_of!(Self, f)),
            Fd { default: Dflt::Trait, default_v: Some(|| <i64 as Default>::default().to_v()), ..Fd::new("g", ty::<i64>, std::mem::offset_of!(Self, g)) },
            Fd { default: Dflt::Trait, default_v: Some(|| <bool as Default>::default().to_v()), ..Fd::new("h", ty::<bool>, std::mem::offset_of!(Self, h)) },
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_opt().to_v()), ..Fd::new("i", ty::<Option<String>>, std::mem::offset_of!(Self, i)) },
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_name().to_v()), ..Fd::new("j", ty::<String>, std::mem::offset_of!(Self, j)) },
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_point().to_v()), ..Fd::new("k", ty::<Point>, std::mem::offset_of!(Self, k)) },
            Fd { default: Dflt::Trait, default_v: Some(|| <u8 as Default>::default().to_v()), ..Fd::new("l", ty::<u8>, std::mem::offset_of!(Self, l)) },
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_list().to_v()), ..Fd::new("m", ty::<Vec<u16>>, std::mem::offset_of!(Self, m)) },
            Fd::new("n", ty::<u32>, std::mem::offset_of!(Self, n)),
            Fd { default: Dflt::Fn, default_v: Some(|| dflt_name().to_v()), ..Fd::new("o", ty::<String>, std::mem::offset_of!(Self, o)) },
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v(), self.d.to_v(), self.e.to_v(), self.f.to_v(), self.g.to_v(), self.h.to_v(), self.i.to_v(), self.j.to_v(), self.k.to_v(), self.l.to_v(), self.m.to_v(), self.n.to_v(), self.o.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); DfltWide { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]), g: Gt::from_v(&_f[6]), h: Gt::from_v(&_f[7]), i: Gt::from_v(&_f[8]), j: Gt::from_v(&_f[9]), k: Gt::from_v(&_f[10]), l: Gt::from_v(&_f[11]), m: Gt::from_v(&_f[12]), n: Gt::from_v(&_f[13]), o: Gt::from_v(&_f[14]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum TmTup {
    Five( u8,  u8,  u8,  u8,  u8),
    Dozen( u8,  String,  u16,  bool,  i8,  Option<u8>,  u32,  Vec<u8>,  i64,  u8,  String,  u8),
    Ten {  a: u8,  b: u8,  c: u8,  d: u8,  e: u8,  f: u8,  g: u8,  h: u8,  i: u8,  j: u8 },
    No,
    Deep( Option<Point>,  Point,  Option<Point>,  Point,  Option<Point>,  Point),
}
impl Gt for TmTup {
    fn make_ty() -> Ty {
        let mut t = Ty::enom::<Self>("TmTup", "u8", vec![
            Vd { name: "Five", kind: Vk::Tuple, disc: 0, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<u8>, usize::MAX), Fd::new("_2", ty::<u8>, usize::MAX), Fd::new("_3", ty::<u8>, usize::MAX), Fd::new("_4", ty::<u8>, usize::MAX)] },
            Vd { name: "Dozen", kind: Vk::Tuple, disc: 1, fields: vec![Fd::new("_0", ty::<u8>, usize::MAX), Fd::new("_1", ty::<String>, usize::MAX), Fd::new("_2", ty::<u16>, usize::MAX), Fd::new("_3", ty::<bool>, usize::MAX), Fd::new("_4", ty::<i8>, usize::MAX), Fd::new("_5", ty::<Option<u8>>, usize::MAX), Fd::new("_6", ty::<u32>, usize::MAX), Fd::new("_7", ty::<Vec<u8>>, usize::MAX), Fd::new("_8", ty::<i64>, usize::MAX), Fd::new("_9", ty::<u8>, usize::MAX), Fd::new("_10", ty::<String>, usize::MAX), Fd::new("_11", ty::<u8>, usize::MAX)] },
            Vd { name: "Ten", kind: Vk::Named, disc: 2, fields: vec![Fd::new("a", ty::<u8>, usize::MAX), Fd::new("b", ty::<u8>, usize::MAX), Fd::new("c", ty::<u8>, usize::MAX), Fd::new("d", ty::<u8>, usize::MAX), Fd::new("e", ty::<u8>, usize::MAX), Fd::new("f", ty::<u8>, usize::MAX), Fd::new("g", ty::<u8>, usize::MAX), Fd::new("h", ty::<u8>, usize::MAX), Fd::new("i", ty::<u8>, usize::MAX), Fd::new("j", ty::<u8>, usize::MAX)] },
            Vd { name: "No", kind: Vk::Unit, disc: 3, fields: vec![] },
            Vd { name: "Deep", kind: Vk::Tuple, disc: 4, fields: vec![Fd::new("_0", ty::<Option<Point>>, usize::MAX), Fd::new("_1", ty::<Point>, usize::MAX), Fd::new("_2", ty::<Option<Point>>, usize::MAX), Fd::new("_3", ty::<Point>, usize::MAX), Fd::new("_4", ty::<Option<Point>>, usize::MAX), Fd::new("_5", ty::<Point>, usize::MAX)] },
        ]);
        t
    }
    fn to_v(&self) -> V { match self {
        TmTup::Five(f0, f1, f2, f3, f4) => V::En(0, vec![f0.to_v(), f1.to_v(), f2.to_v(), f3.to_v(), f4.to_v()]),
        TmTup::Dozen(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) => V::En(1, vec![f0.to_v(), f1.to_v(), f2.to_v(), f3.to_v(), f4.to_v(), f5.to_v(), f6.to_v(), f7.to_v(), f8.to_v(), f9.to_v(), f10.to_v(), f11.to_v()]),
        TmTup::Ten { a, b, c, d, e, f, g, h, i, j } => V::En(2, vec![a.to_v(), b.to_v(), c.to_v(), d.to_v(), e.to_v(), f.to_v(), g.to_v(), h.to_v(), i.to_v(), j.to_v()]),
        TmTup::No => V::En(3, vec![]),
        TmTup::Deep(f0, f1, f2, f3, f4, f5) => V::En(4, vec![f0.to_v(), f1.to_v(), f2.to_v(), f3.to_v(), f4.to_v(), f5.to_v()]),
    } }
    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!("harness: enum") }; match i {
        0 => TmTup::Five(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2]), Gt::from_v(&_f[3]), Gt::from_v(&_f[4])),
        1 => TmTup::Dozen(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2]), Gt::from_v(&_f[3]), Gt::from_v(&_f[4]), Gt::from_v(&_f[5]), Gt::from_v(&_f[6]), Gt::from_v(&_f[7]), Gt::from_v(&_f[8]), Gt::from_v(&_f[9]), Gt::from_v(&_f[10]), Gt::from_v(&_f[11])),
        2 => TmTup::Ten { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]), d: Gt::from_v(&_f[3]), e: Gt::from_v(&_f[4]), f: Gt::from_v(&_f[5]), g: Gt::from_v(&_f[6]), h: Gt::from_v(&_f[7]), i: Gt::from_v(&_f[8]), j: Gt::from_v(&_f[9]) },
        3 => TmTup::No,
        4 => TmTup::Deep(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2]), Gt::from_v(&_f[3]), Gt::from_v(&_f[4]), Gt::from_v(&_f[5])),
        _ => panic!("harness: variant"),
    } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TmTups {
    pub a: TmTup,
    pub b: Vec<TmTup>,
    pub c: Option<TmTup>,
}
impl Gt for TmTups {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TmTups", Stk::Named, vec![
            Fd::new("a", ty::<TmTup>, std::mem::offset_of!(Self, a)),
            Fd::new("b", ty::<Vec<TmTup>>, std::mem::offset_of!(Self, b)),
            Fd::new("c", ty::<Option<TmTup>>, std::mem::offset_of!(Self, c)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v(), self.c.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TmTups { a: Gt::from_v(&_f[0]), b: Gt::from_v(&_f[1]), c: Gt::from_v(&_f[2]) } }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TupWide( pub u8,  pub String,  pub u16,  pub bool,  pub i8,  pub Option<u8>,  pub u32,  pub Vec<u8>,  pub i64,  pub u8,  pub String,  pub u8);
impl Gt for TupWide {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("TupWide", Stk::TupleStruct, vec![
            Fd::new("0", ty::<u8>, std::mem::offset_of!(Self, 0)),
            Fd::new("1", ty::<String>, std::mem::offset_of!(Self, 1)),
            Fd::new("2", ty::<u16>, std::mem::offset_of!(Self, 2)),
            Fd::new("3", ty::<bool>, std::mem::offset_of!(Self, 3)),
            Fd::new("4", ty::<i8>, std::mem::offset_of!(Self, 4)),
            Fd::new("5", ty::<Option<u8>>, std::mem::offset_of!(Self, 5)),
            Fd::new("6", ty::<u32>, std::mem::offset_of!(Self, 6)),
            Fd::new("7", ty::<Vec<u8>>, std::mem::offset_of!(Self, 7)),
            Fd::new("8", ty::<i64>, std::mem::offset_of!(Self, 8)),
            Fd::new("9", ty::<u8>, std::mem::offset_of!(Self, 9)),
            Fd::new("10", ty::<String>, std::mem::offset_of!(Self, 10)),
            Fd::new("11", ty::<u8>, std::mem::offset_of!(Self, 11)),
        ]);
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.0.to_v(), self.1.to_v(), self.2.to_v(), self.3.to_v(), self.4.to_v(), self.5.to_v(), self.6.to_v(), self.7.to_v(), self.8.to_v(), self.9.to_v(), self.10.to_v(), self.11.to_v()]) }
    fn from_v(v: &V) -> Self { let _f = v.fields(); TupWide(Gt::from_v(&_f[0]), Gt::from_v(&_f[1]), Gt::from_v(&_f[2]), Gt::from_v(&_f[3]), Gt::from_v(&_f[4]), Gt::from_v(&_f[5]), Gt::from_v(&_f[6]), Gt::from_v(&_f[7]), Gt::from_v(&_f[8]), Gt::from_v(&_f[9]), Gt::from_v(&_f[10]), Gt::from_v(&_f[11])) }
}

/// Calls a macro with every root type.
#[macro_export]
macro_rules! with_roots {
    ($m:ident) => {
        $m! {
            [UnitS]
            [EmptyS]
            [EmptyT]
            [NtU32]
            [NtStr]
            [NtOpt]
            [Point]
            [Bare]
            [Mixed]
            [AllInts]
            [AllNz]
            [IntsS]
            [Floats]
            [Strs]
            [CowS]
            [RefS]
            [SliceS]
            [TupS]
            [TupNest]
            [Nested]
            [Deep]
            [Lists]
            [Opts]
            [Maps]
            [KeyMaps]
            [MapMap]
            [FixMap]
            [Tree]
            [Org]
            [Zsts]
            [Arrs]
            [Arcs]
            [TupF]
            [ReprC]
            [Align64]
            [Net]
            [Wide63]
            [Wide64]
            [GOne<u8>]
            [GOne<String>]
            [GTwo<u8, String>]
            [GTwo<Point, Vec<u8>>]
            [GTup<GOne<u16>>]
            [PartEq]
            [OnlyDebug]
            [Ratio]
            [TrkS]
            [TrkDeep]
            [TrkKey]
            [ETrk]
            [CLike]
            [CDisc]
            [CI16]
            [CU64]
            [EU8]
            [EU16]
            [EU32]
            [EU64]
            [EUsize]
            [EI8]
            [EI32]
            [EI64]
            [EIsize]
            [EC]
            [ECU]
            [ENest]
            [ERec]
            [EOneStruct]
            [EZst]
            [DU8]
            [DU16]
            [DU32]
            [DU64]
            [DUs]
            [DI8]
            [DI16]
            [DI32]
            [DI64]
            [DIs]
            [DC8]
            [DC16]
            [DC64]
            [Discs]
            [Names]
            [NamesE]
            [NamesDeep]
            [KeyS]
            [KeyE]
            [KeyM]
            [TrkKeyS]
            [TrkKeys]
            [WithEnums]
            [EnumMap]
            [Range]
            [Even]
            [Sorted]
            [InvDflt]
            [HasInv]
            [EInv]
            [ECInv]
            [NeverU]
            [NeverE]
            [NeverT]
            [AlwaysU]
            [InvVec]
            [InvOpt]
            [InvNest]
            [InvU]
            [InvUL]
            [InvUN]
            [InvUL2]
            [InvTup]
            [ArgsInv]
            [ArgsInvB]
            [Two]
            [Ren]
            [Dflts]
            [DfltAll]
            [Deny]
            [DenyRen]
            [RenHard]
            [RenE]
            [Policy]
            [DenyDflt]
            [DfltDeny]
            [DenyThenDflt]
            [AttrOrder]
            [AttrOrderE]
            [ArrBig]
            [ArrE]
            [Secret]
            [SecretT]
            [SecretDeep]
            [SecretE]
            [SecretOf]
            [SecretNum]
            [SecretTree]
            [SecretAll]
            [SecretArr]
            [SecretBusy]
            [SecretBusyT]
            [SecretBusyE]
            [Doc1]
            [DocE]
            [DocOdd]
            [EEmpty]
            [EEmptyDoc]
            [EMany]
            [EMany8]
            [EManyC]
            [Empties]
            [DocDeep]
            [ZstSame]
            [ZstIn]
            [ZstIn2]
            [ByteS]
            [InOpt]
            [InVec]
            [InMap]
            [InTup]
            [InArr]
            [InArc]
            [InEnum]
            [InDeep]
            [MpInts]
            [MpNest]
            [MpPair]
            [MpOne]
            [MpBools]
            [Mp15]
            [Mp16]
            [Mp17]
            [TmScal]
            [TmEnum]
            [TmEnums]
            [TmMaps]
            [TmNew]
            [TmNt2]
            [TmNtL]
            [TmNtM]
            [TmTree]
            [TmTabs]
            [TmSrv]
            [YmAll]
            [YmMid]
            [YmLeaf]
            [UrlTup]
            [UrlWide]
            [UrlD4]
            [UrlD3]
            [ArgsE]
            [ArgsF]
            [ArgsG]
            [UrlAddr]
            [UrlUser]
            [UrlDeep]
            [UrlOne]
            [ArgsA]
            [ArgsB]
            [ArgsC]
            [ArgsD]
            [()]
            [bool]
            [char]
            [u8]
            [u16]
            [u32]
            [u64]
            [u128]
            [usize]
            [i8]
            [i16]
            [i32]
            [i64]
            [i128]
            [isize]
            [f32]
            [f64]
            [String]
            [&'static str]
            [Cow<'static, str>]
            [std::net::IpAddr]
            [std::net::Ipv4Addr]
            [std::net::Ipv6Addr]
            [std::net::SocketAddr]
            [std::path::PathBuf]
            [&'static std::path::Path]
            [camino::Utf8PathBuf]
            [&'static camino::Utf8Path]
            [Trk]
            [std::marker::PhantomData<String>]
            [std::marker::PhantomData<u8>]
            [Option<u8>]
            [Option<String>]
            [Option<Point>]
            [Option<Option<u8>>]
            [Option<EU8>]
            [Option<Vec<String>>]
            [Option<Trk>]
            [Option<()>]
            [Option<f64>]
            [Vec<u8>]
            [Vec<u32>]
            [Vec<String>]
            [Vec<Point>]
            [Vec<Vec<String>>]
            [Vec<Option<u8>>]
            [Vec<EU8>]
            [Vec<()>]
            [Vec<Trk>]
            [Vec<f64>]
            [Vec<bool>]
            [Vec<Nested>]
            [Vec<HashMap<String, u8>>]
            [Vec<UnitS>]
            [Vec<Bare>]
            [Vec<TrkS>]
            [&'static [u8]]
            [&'static [String]]
            [&'static [f32]]
            [&'static [Point]]
            [[u8; 1]]
            [[String; 1]]
            [[Point; 1]]
            [[Trk; 1]]
            [[f64; 1]]
            [[Option<u8>; 1]]
            [[u8; 0]]
            [[Trk; 0]]
            [[Bare; 0]]
            [[u8; 3]]
            [[String; 2]]
            [[Trk; 3]]
            [[f64; 4]]
            [[Point; 2]]
            [[Vec<u8>; 2]]
            [[[u16; 2]; 3]]
            [[Bare; 2]]
            [[OnlyDebug; 2]]
            [[(u8, Trk); 2]]
            [[u8; 32]]
            [[u8; 33]]
            [[UnitS; 3]]
            [[char; 2]]
            [[bool; 5]]
            [[i64; 2]]
            [[Option<String>; 3]]
            [HashMap<String, u8>]
            [HashMap<String, String>]
            [HashMap<u8, Point>]
            [HashMap<String, Vec<u8>>]
            [HashMap<String, Nested>]
            [HashMap<String, Trk>]
            [HashMap<String, f64>]
            [HashMap<String, u16, FixedState>]
            [BTreeMap<String, u8>]
            [BTreeMap<u32, String>]
            [BTreeMap<String, EU8>]
            [BTreeMap<Trk, String>]
            [BTreeMap<String, f64>]
            [BTreeMap<char, ()>]
            [(u8,)]
            [(u8, String)]
            [(Trk, u8)]
            [(f64, u8)]
            [(String, u8, Point)]
            [(u8, u16, u32, u64)]
            [(u8, String, u8, String, bool)]
            [(u8, u16, u8, u32, u8, u64)]
            [(u8, u8, u8, u8, u8, u8, String)]
            [(u8, u16, u8, u16, u8, u16, u8, String)]
            [(u8, u8, u8, u8, u8, u8, u8, u8, String)]
            [(u8, u8, u8, u8, u8, u8, u8, u8, u16, String)]
            [(u8, u8, u8, u8, u8, u8, u8, u8, u16, u32, String)]
            [(u8, u8, u8, u8, u8, u8, u8, u8, u16, u32, u64, String)]
            [(Bare, u8)]
            [Arc<Point>]
            [Arc<String>]
            [Arc<Trk>]
            [Arc<Vec<u8>>]
            [Arc<Bare>]
            [Option<Bare>]
            [Option<OnlyDebug>]
            [Vec<OnlyDebug>]
            [HashMap<u8, Bare>]
            [BTreeMap<u8, OnlyDebug>]
            [&'static [Bare]]
            [&'static [OnlyDebug]]
            [Arc<[u8; 2]>]
            [Option<[String; 2]>]
            [Vec<[u8; 3]>]
            [([u8; 2], String)]
            [HashMap<String, [u8; 2]>]
            [(OnlyDebug, u8)]
            [Option<Arc<Trk>>]
            [Arc<Option<Trk>>]
            [Vec<Arc<String>>]
            [BTreeMap<String, Arc<u8>>]
            [Option<HashMap<String, u8>>]
            [Option<BTreeMap<u8, String>>]
            [Option<(u8, String)>]
            [Option<Option<Vec<Trk>>>]
            [Vec<BTreeMap<u8, String>>]
            [Vec<ETrk>]
            [Option<ETrk>]
            [HashMap<u8, BTreeMap<u8, Trk>>]
            [BTreeMap<u8, Option<Trk>>]
            [HashMap<u8, ETrk>]
            [BTreeMap<u8, HashMap<String, Trk>>]
            [(HashMap<u8, u8>, Trk)]
            [[HashMap<u8, u8>; 2]]
            [Arc<HashMap<u8, u8>>]
            [Arc<EU8>]
            [Vec<Option<Vec<Trk>>>]
            [Option<Vec<Option<Trk>>>]
            [InEnum]
            [GOne<Vec<String>>]
            [(OnlyDebug, u8, u8)]
            [(OnlyDebug, u8, u8, u8)]
            [(OnlyDebug, u8, u8, u8, u8)]
            [(OnlyDebug, u8, u8, u8, u8, u8)]
            [(OnlyDebug, u8, u8, u8, u8, u8, u8)]
            [(OnlyDebug, u8, u8, u8, u8, u8, u8, u8)]
            [(OnlyDebug, u8, u8, u8, u8, u8, u8, u8, u8)]
            [(OnlyDebug, u8, u8, u8, u8, u8, u8, u8, u8, u8)]
            [(OnlyDebug, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)]
            [(OnlyDebug, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)]
            [(u8, u8, Bare)]
            [(u8, u8, u8, Bare)]
            [(u8, u8, u8, u8, Bare)]
            [(u8, u8, u8, u8, u8, Bare)]
            [(u8, u8, u8, u8, u8, u8, Bare)]
            [(u8, u8, u8, u8, u8, u8, u8, Bare)]
            [(u8, u8, u8, u8, u8, u8, u8, u8, Bare)]
            [(u8, u8, u8, u8, u8, u8, u8, u8, u8, Bare)]
            [(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Bare)]
            [(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Bare)]
            [std::num::NonZero<u8>]
            [std::num::NonZero<i8>]
            [std::num::NonZero<u16>]
            [std::num::NonZero<i16>]
            [std::num::NonZero<u32>]
            [std::num::NonZero<i32>]
            [std::num::NonZero<u64>]
            [std::num::NonZero<i64>]
            [std::num::NonZero<u128>]
            [std::num::NonZero<i128>]
            [std::num::NonZero<usize>]
            [std::num::NonZero<isize>]
            [DfltWide]
            [TmTup]
            [TmTups]
            [TupWide]
            [EMany]
            [EMany8]
            [EManyC]
            [Vec<EMany>]
            [Option<EManyC>]
            [BTreeMap<u8, EMany8>]
            [(EMany, EMany8, EManyC)]
            [Arc<Tree>]
            [[Tree; 2]]
            [Arc<SecretTree>]
            [[SecretTree; 1]]
            [(Tree, u8)]
            [Vec<SecretBusyE>]
        }
    };
}
