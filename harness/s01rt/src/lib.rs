//! What the generated declarations are checked with (see ../s01.py).
#![allow(clippy::all)]
pub use facet;
pub use facet_reflect;

use facet::{
    ConstTypeId, Def, DefaultInPlaceFn, EnumRepr, Facet, Field, FieldAttribute, FieldFlags, Shape,
    ShapeAttribute, StructKind, TypeNameOpts,
};
use facet_reflect::{Peek, ReflectError, Wip};
use std::alloc::Layout;
use std::fmt::Debug;

// ---- types the generated fields refer to

#[derive(facet::Facet, Debug, Clone, PartialEq)]
pub struct Inner {
    pub a: u8,
    pub b: String,
}
#[derive(facet::Facet, Debug, Clone, PartialEq)]
pub struct Zst;
#[derive(facet::Facet, Debug, Clone, PartialEq)]
#[repr(align(32))]
pub struct Al32(pub u16);
#[derive(facet::Facet, Debug, Clone, PartialEq)]
#[repr(u16)]
pub enum InnerEnum {
    A,
    B(u8, u64),
    C { x: String },
}
#[derive(Debug, PartialEq)]
pub struct NotFacet(pub u32);
pub trait Same {
    type Out;
}
impl<T> Same for T {
    type Out = T;
}
pub const LEN: usize = 3;
pub mod deep {
    pub mod er {
        pub use super::super::Inner as Renamed;
    }
}

// ---- expectations

pub enum A {
    Sensitive,
    Rename(&'static str),
    Default(Option<fn(DefaultInPlaceFn) -> Result<(), String>>),
    Arbitrary(&'static str),
}

pub struct FE {
    pub name: &'static str,
    pub id: Option<ConstTypeId>,
    pub layout: Layout,
    pub docs: &'static [&'static str],
    pub attrs: Vec<A>,
    /// where the compiler put the field, in each of the instances looked at
    pub offset: usize,
    pub tuple: bool,
}

pub struct VE {
    pub name: &'static str,
    pub kind: StructKind,
    pub docs: &'static [&'static str],
    pub disc: i64,
    pub fields: Vec<FE>,
}

pub enum ReprE {
    Exact(EnumRepr),
    /// repr(C): any of the representations of this size
    Size(usize),
}

pub struct Report {
    pub decl: u32,
    pub checks: u64,
    pub fails: Vec<(u32, String, String)>,
}

fn repr_size(r: EnumRepr) -> usize {
    match r {
        EnumRepr::U8 | EnumRepr::I8 => 1,
        EnumRepr::U16 | EnumRepr::I16 => 2,
        EnumRepr::U32 | EnumRepr::I32 => 4,
        EnumRepr::U64 | EnumRepr::I64 => 8,
        EnumRepr::USize | EnumRepr::ISize => std::mem::size_of::<usize>(),
        _ => 0,
    }
}

pub fn off<T, F>(base: *const T, f: *const F) -> usize {
    (f as usize).wrapping_sub(base as usize)
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Runs a field's default function and compares what it writes
pub fn run_default<T: PartialEq + Debug>(f: DefaultInPlaceFn, want: T) -> Result<(), String> {
    let mut slot = std::mem::MaybeUninit::<T>::uninit();
    unsafe {
        f(facet::PtrUninit::new(slot.as_mut_ptr() as *mut u8));
        let got = slot.assume_init();
        if got == want {
            Ok(())
        } else {
            Err(format!("the default function gave {got:?}, not {want:?}"))
        }
    }
}

impl Report {
    pub fn new() -> Self {
        Report { decl: 0, checks: 0, fails: vec![] }
    }

    pub fn fail(&mut self, sig: &str, msg: String) {
        self.fails.push((self.decl, sig.to_string(), msg));
    }

    pub fn ok(&mut self, sig: &str, ok: bool, msg: impl FnOnce() -> String) {
        self.checks += 1;
        if !ok {
            let m = msg();
            self.fail(sig, m);
        }
    }

    pub fn eq<T: PartialEq + Debug>(&mut self, sig: &str, what: &str, got: T, want: T) {
        self.checks += 1;
        if got != want {
            self.fail(sig, format!("{what}: described as {got:?}, declared as {want:?}"));
        }
    }

    pub fn run(&mut self, decl: u32, f: fn(&mut Report)) {
        self.decl = decl;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
        if let Err(e) = r {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            self.fail("panic", m);
        }
    }

    pub fn finish(self) {
        for (d, s, m) in &self.fails {
            println!("FAIL\t{d}\t{s}\t{}", m.replace('\n', " ").replace('\t', " "));
        }
        println!("DONE\t{}", self.checks);
    }

    fn type_name(shape: &Shape) -> String {
        struct N<'a>(&'a Shape);
        impl std::fmt::Display for N<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                (self.0.vtable.type_name)(f, TypeNameOpts::default())
            }
        }
        N(shape).to_string()
    }

    pub fn shape<T: Facet + 'static>(
        &mut self,
        name: &str,
        generic: bool,
        docs: &[&str],
        deny: usize,
        default: usize,
        params: &[(&str, ConstTypeId)],
        invariants: bool,
    ) {
        let s = T::SHAPE;
        self.ok("shape.id", s.id == ConstTypeId::of::<T>(), || "the id is another type's".into());
        self.ok("shape.is_type", s.is_type::<T>(), || "is_type is false".into());
        self.eq("shape.size", "size", s.layout.size(), std::mem::size_of::<T>());
        self.eq("shape.align", "alignment", s.layout.align(), std::mem::align_of::<T>());
        let n = Self::type_name(s);
        let ok = n == name || (generic && n.starts_with(name) && n[name.len()..].starts_with('<'));
        self.ok("shape.name", ok, || format!("named {n:?}, declared as {name:?}"));
        let d = s.to_string();
        self.ok("shape.name", d == n, || format!("displayed as {d:?}, named {n:?}"));
        self.eq("shape.docs", "documentation", s.doc.to_vec(), docs.to_vec());
        let mut got = (0, 0);
        for a in s.attributes {
            match a {
                ShapeAttribute::DenyUnknownFields => got.0 += 1,
                ShapeAttribute::Default => got.1 += 1,
                ShapeAttribute::Arbitrary(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        self.eq("shape.attributes", "(deny_unknown_fields, default)", got, (deny, default));
        self.eq(
            "shape.type_params",
            "names of the type parameters",
            s.type_params.iter().map(|p| p.name).collect::<Vec<_>>(),
            params.iter().map(|p| p.0).collect::<Vec<_>>(),
        );
        for (p, w) in s.type_params.iter().zip(params) {
            self.ok("shape.type_params", p.shape().id == w.1, || {
                format!("type parameter {} has the shape of another type: {}", w.0, p.shape())
            });
        }
        self.eq("shape.invariants", "has invariants", s.vtable.invariants.is_some(), invariants);
    }

    pub fn fields(&mut self, ctx: &str, got: &[Field], want: &[FE]) {
        self.eq("field.count", ctx, got.len(), want.len());
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            let ctx = format!("{ctx} field {i} ({})", w.name);
            let ok = g.name == w.name || (w.tuple && g.name.strip_prefix('_') == Some(w.name));
            self.ok("field.name", ok, || format!("{ctx}: named {:?}", g.name));
            let gs = g.shape();
            if let Some(id) = &w.id {
                self.ok("field.type", gs.id == *id, || format!("{ctx}: has the shape of {gs}"));
            }
            self.eq("field.layout", &ctx, gs.layout, w.layout);
            self.eq("field.offset", &format!("{ctx} offset"), g.offset, w.offset);
            self.eq("field.docs", &format!("{ctx} documentation"), g.doc.to_vec(), w.docs.to_vec());
            let sens = w.attrs.iter().any(|a| matches!(a, A::Sensitive));
            let flags = if sens { FieldFlags::SENSITIVE } else { FieldFlags::EMPTY };
            self.eq("field.flags", &format!("{ctx} flags"), g.flags, flags);
            self.eq("field.attributes", &format!("{ctx} number of attributes"), g.attributes.len(), w.attrs.len());
            for (ga, wa) in g.attributes.iter().zip(&w.attrs) {
                let r = match (ga, wa) {
                    (FieldAttribute::Sensitive, A::Sensitive) => Ok(()),
                    (FieldAttribute::Rename(g), A::Rename(w)) if g == w => Ok(()),
                    (FieldAttribute::Rename(g), A::Rename(w)) => Err(format!("renamed to {g:?}, not {w:?}")),
                    (FieldAttribute::Default(None), A::Default(None)) => Ok(()),
                    (FieldAttribute::Default(Some(f)), A::Default(Some(w))) => w(*f),
                    (FieldAttribute::Arbitrary(g), A::Arbitrary(w)) if squeeze(g) == squeeze(w) => Ok(()),
                    (FieldAttribute::Arbitrary(g), A::Arbitrary(w)) => Err(format!("attribute {g:?}, declared as {w:?}")),
                    _ => Err(format!("attribute {ga:?} stands where {} was declared", wa.label())),
                };
                self.checks += 1;
                if let Err(m) = r {
                    self.fail("field.attributes", format!("{ctx}: {m}"));
                }
            }
        }
    }

    pub fn structure<T: Facet + 'static>(&mut self, v: &T, kind: StructKind, want: &[FE]) {
        let Def::Struct(s) = T::SHAPE.def else {
            self.fail("shape.def", format!("described as {:?}", T::SHAPE.def));
            return;
        };
        self.eq("shape.kind", "kind", s.kind, kind);
        self.fields("struct", s.fields, want);
        // through Peek: each field is found where the compiler put it
        match Peek::new(v).into_struct() {
            Ok(p) => {
                self.eq("peek.count", "fields", p.field_count(), want.len());
                let base = v as *const T as usize;
                let it: Vec<usize> = p.fields().map(|(_, f)| f.data().as_byte_ptr() as usize - base).collect();
                self.eq("peek.fields", "addresses of the fields", it, want.iter().map(|w| w.offset).collect());
                for (i, w) in want.iter().enumerate() {
                    let a = p.field(i).map(|f| f.data().as_byte_ptr() as usize - base).ok();
                    self.eq("peek.field", &format!("address of field {}", w.name), a, Some(w.offset));
                    let n = s.fields.get(i).map(|f| f.name).unwrap_or("");
                    let a = p.field_by_name(n).map(|f| f.data().as_byte_ptr() as usize - base).ok();
                    self.eq("peek.field_by_name", &format!("address of field {}", w.name), a, Some(w.offset));
                }
                self.ok("peek.field", p.field(want.len()).is_err(), || "a field past the last one was found".into());
            }
            Err(e) => self.fail("peek.into_struct", e.to_string()),
        }
    }

    pub fn enumeration<T: Facet + 'static>(&mut self, repr: ReprE, want: &[VE]) {
        let Def::Enum(e) = T::SHAPE.def else {
            self.fail("shape.def", format!("described as {:?}", T::SHAPE.def));
            return;
        };
        match repr {
            ReprE::Exact(r) => self.eq("enum.repr", "representation", e.repr, r),
            ReprE::Size(n) => self.eq("enum.repr", "size of the representation", repr_size(e.repr), n),
        }
        self.eq("variant.count", "variants", e.variants.len(), want.len());
        for (i, (g, w)) in e.variants.iter().zip(want).enumerate() {
            let ctx = format!("variant {i} ({})", w.name);
            self.eq("variant.name", &ctx, g.name, w.name);
            self.eq("variant.discriminant", &format!("{ctx} discriminant"), g.discriminant, w.disc);
            self.eq("variant.docs", &format!("{ctx} documentation"), g.doc.to_vec(), w.docs.to_vec());
            // tuple variants are described with either of the two tuple kinds
            let (a, b) = (g.data.kind, w.kind);
            let ok = a == b || (b == StructKind::TupleStruct && a == StructKind::Tuple);
            self.ok("variant.kind", ok, || format!("{ctx}: described as {a:?}, declared as {b:?}"));
            self.fields(&ctx, g.data.fields, &w.fields);
        }
    }

    /// an instance of variant `idx`; `tag`: the discriminant as read from memory
    pub fn instance<T: Facet + 'static>(&mut self, v: &T, idx: usize, tag: i64, offsets: &[usize]) {
        let Def::Enum(e) = T::SHAPE.def else { return };
        let Some(var) = e.variants.get(idx) else { return };
        self.eq("variant.discriminant", &format!("variant {idx}: discriminant, against memory"), var.discriminant, tag);
        match Peek::new(v).into_enum() {
            Ok(p) => {
                self.eq("peek.discriminant", &format!("variant {idx}"), p.discriminant(), tag);
                self.eq("peek.variant", &format!("variant {idx}"), p.variant_index(), idx);
                self.eq("peek.variant", &format!("variant {idx}"), p.variant_name_active(), var.name);
                self.eq("peek.variant", "number of variants", p.variant_count(), e.variants.len());
                let base = v as *const T as usize;
                let it: Vec<usize> = p.fields().map(|(_, f)| f.data().as_byte_ptr() as usize - base).collect();
                self.eq("peek.fields", &format!("variant {idx}: addresses of the fields"), it, offsets.to_vec());
                for (i, o) in offsets.iter().enumerate() {
                    let a = p.field(i).map(|f| f.data().as_byte_ptr() as usize - base);
                    self.eq("peek.field", &format!("variant {idx}: address of field {i}"), a, Some(*o));
                    let n = var.data.fields.get(i).map(|f| f.name).unwrap_or("");
                    let a = p.field_by_name(n).map(|f| f.data().as_byte_ptr() as usize - base);
                    self.eq("peek.field_by_name", &format!("variant {idx}: address of field {i}"), a, Some(*o));
                }
                self.ok("peek.field", p.field(offsets.len()).is_none(), || "a field past the last one was found".into());
            }
            Err(e) => self.fail("peek.into_enum", e.to_string()),
        }
    }

    /// Writes a value through the description, then looks at it with the compiler's eyes
    pub fn wip<T: Facet + 'static>(
        &mut self,
        what: &str,
        make: impl FnOnce(Wip<'static>) -> Result<Wip<'static>, ReflectError>,
        look: impl FnOnce(&T) -> Option<String>,
    ) {
        let r = make(Wip::alloc::<T>()).and_then(|w| w.build()).and_then(|h| h.materialize::<T>());
        self.checks += 1;
        match r {
            Ok(t) => {
                if let Some(m) = look(&t) {
                    self.fail("wip.value", format!("{what}: {m}"));
                }
            }
            Err(e) => self.fail("wip.error", format!("{what}: {e}")),
        }
    }
}

impl A {
    fn label(&self) -> String {
        match self {
            A::Sensitive => "sensitive".into(),
            A::Rename(n) => format!("rename = {n:?}"),
            A::Default(None) => "default".into(),
            A::Default(Some(_)) => "default = ..".into(),
            A::Arbitrary(t) => t.to_string(),
        }
    }
}
