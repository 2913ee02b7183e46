//! S03: reflective reads.
use crate::common::*;
use facet_reflect::ScalarType;

/// Looks at `p`, which should be the value `v` of type `t`, through every reading operation.
pub fn look(t: T, v: &V, p: Peek<'static>, s: &mut Src, path: &str) -> R {
    let what = |x: &str| format!("{x}:{}", crate::s02::kind(t));
    ensure!(p.shape() == t.sh() && p.shape().id == t.sh().id, what("shape"), "{path}: shape is {}, should be {}", p.shape(), t.sh());
    let here = p.data().as_byte_ptr() as usize;
    ensure!(here % t.align == 0, what("align"), "{path}: misaligned");
    // typed read
    let got = (t.read)(p);
    ensure!(got.as_ref().ok() == Some(v), what("get"), "{path}: {} reads as {got:?}, should be {v:?}", t.name);
    // wrong kinds are refused
    let views = [
        ("struct", p.into_struct().is_ok(), matches!(t.k, K::St(..))),
        ("enum", p.into_enum().is_ok(), matches!(t.k, K::En(..))),
        ("list", p.into_list().is_ok(), matches!(t.k, K::List(_))),
        ("map", p.into_map().is_ok(), matches!(t.k, K::Map(..))),
        ("option", p.into_option().is_ok(), matches!(t.k, K::Opt(_))),
        ("smart pointer", p.into_smart_pointer().is_ok(), matches!(t.k, K::Arc(_))),
    ];
    for (n, got, want) in views {
        // a unit type may be seen as a struct without fields
        ensure!(got == want, what("view"), "{path}: {} as {n}: {got}", t.name);
    }
    let child = |base: usize, c: &Peek<'static>, ct: T, off: usize, name: &str| -> R {
        let at = c.data().as_byte_ptr() as usize;
        if off != usize::MAX {
            ensure!(at == base + off, "field-address", "{path}.{name}: read at offset {}, really at {off}", at.wrapping_sub(base));
        }
        ensure!(at >= base && at + ct.size <= base + t.size, "field-outside", "{path}.{name}: read outside the value");
        Ok(())
    };
    let bad_name = |s: &mut Src, names: &[&str]| -> String {
        let n = match s.below(4) {
            0 => s.string(5),
            1 | 2 if !names.is_empty() => {
                let n = *s.pick(names);
                s.near_name(n)
            }
            _ => s.below(200).to_string(),
        };
        n
    };
    match (&t.k, v) {
        (K::Sc(sk), _) => {
            let want = match sk {
                Sk::Unit => Some(ScalarType::Unit),
                Sk::Bool => Some(ScalarType::Bool),
                Sk::F32 => Some(ScalarType::F32),
                Sk::F64 => Some(ScalarType::F64),
                _ => match t.name {
                    "u8" => Some(ScalarType::U8),
                    "u16" => Some(ScalarType::U16),
                    "u32" => Some(ScalarType::U32),
                    "u64" => Some(ScalarType::U64),
                    "usize" => Some(ScalarType::USize),
                    "i8" => Some(ScalarType::I8),
                    "i16" => Some(ScalarType::I16),
                    "i32" => Some(ScalarType::I32),
                    "i64" => Some(ScalarType::I64),
                    "isize" => Some(ScalarType::ISize),
                    "String" => Some(ScalarType::String),
                    "&str" => Some(ScalarType::Str),
                    "Cow<str>" => Some(ScalarType::CowStr),
                    "IpAddr" => Some(ScalarType::IpAddr),
                    "Ipv4Addr" => Some(ScalarType::Ipv4Addr),
                    "Ipv6Addr" => Some(ScalarType::Ipv6Addr),
                    "SocketAddr" => Some(ScalarType::SocketAddr),
                    _ => None,
                },
            };
            ensure!(p.scalar_type() == want, "scalar-type", "{path}: {} has scalar type {:?}, should be {want:?}", t.name, p.scalar_type());
        }
        (K::St(_, fs), V::St(vs)) => {
            ensure!(p.scalar_type().is_none(), "scalar-type", "{path}: {} has scalar type {:?}", t.name, p.scalar_type());
            let ps = p.into_struct().unwrap();
            ensure!(ps.field_count() == fs.len() && ps.def().fields.len() == fs.len(), "field-count", "{path}: {} fields, should be {}", ps.field_count(), fs.len());
            let listed: Vec<_> = ps.fields().collect();
            ensure!(listed.len() == fs.len(), "fields-len", "{path}: fields() lists {}, should be {}", listed.len(), fs.len());
            for (i, f) in fs.iter().enumerate() {
                let name = format!("{path}.{}", f.name);
                let c = match ps.field(i) {
                    Ok(c) => c,
                    Err(e) => return fail("field-missing", format!("{name}: field({i}) fails: {e:?}")),
                };
                child(here, &c, f.t(), f.offset, f.name)?;
                let same = |o: &Peek<'static>| o.data().as_byte_ptr() == c.data().as_byte_ptr() && o.shape() == c.shape() && o.id() == c.id() && o.ptr_eq(&c);
                match ps.field_by_name(f.name) {
                    Ok(o) if same(&o) => {}
                    o => return fail("field-by-name", format!("{name}: field_by_name gives something else ({})", o.is_ok())),
                }
                ensure!(listed[i].0.name == f.name && same(&listed[i].1), "fields-iter", "{name}: fields() gives {} instead", listed[i].0.name);
                look(f.t(), &vs[i], c, s, &name)?;
            }
            let i = fs.len() + s.below(70);
            ensure!(ps.field(i).is_err() && ps.field(usize::MAX).is_err(), "field-out-of-range", "{path}: field({i}) succeeds");
            let names: Vec<&str> = fs.iter().map(|f| f.name).collect();
            let bad = bad_name(s, &names);
            if !names.contains(&bad.as_str()) {
                ensure!(ps.field_by_name(&bad).is_err(), "unknown-field", "{path}: field_by_name({bad:?}) succeeds");
            }
        }
        (K::En(_, vds), V::En(k, vs)) => {
            let pe = p.into_enum().unwrap();
            let vd = &vds[*k];
            ensure!(facet_reflect::peek_enum(t.sh()).is_some_and(|d| d.variants.len() == vds.len()) && facet_reflect::peek_enum_variants(t.sh()).is_some_and(|v| v.len() == vds.len() && v.iter().zip(vds).all(|(a, b)| a.name == b.name)) && facet_reflect::peek_enum_repr(t.sh()) == Some(pe.repr()), "enum-queries", "{path}: what is said about the enum {}", t.name);
            ensure!(pe.variant_count() == vds.len() && pe.variants().len() == vds.len(), "variant-count", "{path}: {} variants, should be {}", pe.variant_count(), vds.len());
            ensure!(pe.variant_index() == *k, "variant-index", "{path}: variant index {}, should be {k} ({})", pe.variant_index(), vd.name);
            ensure!(pe.variant_name_active() == vd.name && pe.active_variant().name == vd.name, "variant-name", "{path}: variant {:?}, should be {:?}", pe.variant_name_active(), vd.name);
            ensure!(pe.discriminant() == vd.disc, "discriminant", "{path}: discriminant {} of {}, should be {}", pe.discriminant(), vd.name, vd.disc);
            for (i, x) in vds.iter().enumerate() {
                ensure!(pe.variant_name(i) == Some(x.name) && pe.variants()[i].discriminant == x.disc, "variant-list", "{path}: variant {i} is {:?}", pe.variant_name(i));
            }
            ensure!(pe.variant_name(vds.len() + s.below(5)).is_none(), "variant-out-of-range", "{path}: a name for a variant that does not exist");
            let listed: Vec<_> = pe.fields().collect();
            ensure!(listed.len() == vs.len(), "variant-fields-len", "{path}: fields() lists {}, should be {}", listed.len(), vs.len());
            for (i, f) in vd.fields.iter().enumerate() {
                let name = format!("{path}::{}.{}", vd.name, f.name);
                let Some(c) = pe.field(i) else { return fail("variant-field-missing", format!("{name}: field({i}) is nothing")) };
                child(here, &c, f.t(), usize::MAX, f.name)?;
                ensure!(pe.field_index(f.name) == Some(i), "variant-field-index", "{name}: field_index gives {:?}", pe.field_index(f.name));
                let Some(o) = pe.field_by_name(f.name) else { return fail("variant-field-by-name", format!("{name}: not found by name")) };
                ensure!(o.ptr_eq(&c) && o.shape() == c.shape(), "variant-field-by-name", "{name}: by name gives something else");
                ensure!(listed[i].0.name == f.name && listed[i].1.ptr_eq(&c), "variant-fields-iter", "{name}: fields() gives {} instead", listed[i].0.name);
                look(f.t(), &vs[i], c, s, &name)?;
            }
            let i = vs.len() + s.below(70);
            ensure!(pe.field(i).is_none() && pe.field(usize::MAX).is_none(), "variant-field-out-of-range", "{path}: field({i}) of {} exists", vd.name);
            let names: Vec<&str> = vds.iter().flat_map(|x| x.fields.iter().map(|f| f.name)).collect();
            let bad = if s.bool() && !names.is_empty() { s.pick(&names).to_string() } else { bad_name(s, &names) };
            if !vd.fields.iter().any(|f| f.name == bad) {
                ensure!(pe.field_by_name(&bad).is_none() && pe.field_index(&bad).is_none(), "unknown-variant-field", "{path}: {} has a field {bad:?}", vd.name);
            }
        }
        (K::List(e), V::L(vs)) => {
            let pl = p.into_list().unwrap();
            ensure!(pl.len() == vs.len() && pl.is_empty() == vs.is_empty(), "list-len", "{path}: length {}, should be {}", pl.len(), vs.len());
            let items: Vec<_> = pl.iter().take(vs.len() + 2).collect();
            ensure!(items.len() == vs.len(), "list-iter-len", "{path}: iteration gives {} elements, should be {}", items.len(), vs.len());
            let mut it = pl.iter();
            for i in 0..vs.len() {
                ensure!(it.len() == vs.len() - i && it.size_hint() == (vs.len() - i, Some(vs.len() - i)), "list-iter-hint", "{path}: {:?} elements said to be left after {i} of {}", it.size_hint(), vs.len());
                it.next();
            }
            ensure!(it.next().is_none() && it.next().is_none(), "list-iter-end", "{path}: iteration goes on after the end");
            let held: &'static facet_reflect::PeekList<'static> = unsafe { &*std::ptr::from_ref(&pl) };
            ensure!(held.into_iter().take(vs.len() + 2).map(|c| c.data().as_byte_ptr()).eq(items.iter().map(|c| c.data().as_byte_ptr())), "list-into-iter", "{path}: looping over the list gives other elements than iter()");
            ensure!(pl.def().t() == e().sh() && unsafe { (pl.def().vtable.len)(p.data()) } == vs.len(), "list-def", "{path}: the list's definition says element {}", pl.def().t());
            for (i, x) in vs.iter().enumerate() {
                let Some(c) = pl.get(i) else { return fail("list-get", format!("{path}[{i}]: missing")) };
                ensure!(c.ptr_eq(&items[i]) && c.shape() == items[i].shape(), "list-iter", "{path}[{i}]: iteration gives another element");
                look(e(), x, c, s, &format!("{path}[{i}]"))?;
            }
            ensure!(pl.get(vs.len() + s.below(9)).is_none() && pl.get(usize::MAX).is_none(), "list-out-of-range", "{path}: an element after the end");
        }
        (K::Map(mk, kt, vt), V::M(m)) => {
            let pm = p.into_map().unwrap();
            ensure!(pm.len() == m.len() && pm.is_empty() == m.is_empty(), "map-len", "{path}: {} entries, should be {}", pm.len(), m.len());
            let mut left: Vec<&(V, V)> = m.iter().collect();
            let mut n = 0;
            for (kp, vp) in pm.iter() {
                n += 1;
                ensure!(n <= m.len(), "map-iter", "{path}: more entries than the map has");
                let kv = match (kt().read)(kp) {
                    Ok(k) => k,
                    Err(e) => return fail("map-key", format!("{path}: key not readable: {e:?}")),
                };
                let Some(i) = left.iter().position(|(k, _)| *k == kv) else {
                    return fail("map-iter", format!("{path}: key {kv:?} repeated or not in the map"));
                };
                if matches!(mk, Mk::BTree) {
                    ensure!(i == 0, "map-order", "{path}: key {kv:?} comes before {:?}", left[0].0);
                }
                let (_, want) = left.remove(i);
                look(vt(), want, vp, s, &format!("{path}[{kv:?}]"))?;
                look(kt(), &kv, kp, s, &format!("{path}.key({kv:?})"))?;
            }
            ensure!(left.is_empty(), "map-iter", "{path}: entries never seen: {left:?}");
            let held: &'static facet_reflect::PeekMap<'static> = unsafe { &*std::ptr::from_ref(&pm) };
            ensure!(held.into_iter().take(m.len() + 2).map(|(k, v)| (k.data().as_byte_ptr(), v.data().as_byte_ptr())).eq(pm.iter().map(|(k, v)| (k.data().as_byte_ptr(), v.data().as_byte_ptr()))), "map-into-iter", "{path}: looping over the map gives other entries than iter()");
            ensure!(pm.def().k == kt().sh() && pm.def().v == vt().sh(), "map-def", "{path}: the map's definition says {} to {}", pm.def().k, pm.def().v);
            // typed lookups
            let mut probe: Vec<V> = m.iter().map(|(k, _)| k.clone()).collect();
            probe.push(gen_v(kt(), s, Opt::default()));
            for k in &probe {
                let want = m.iter().find(|(x, _)| x == k).map(|(_, v)| v);
                macro_rules! by {
                    ($($K:ty),*) => {{
                        $(
                            if kt().id == std::any::TypeId::of::<$K>() {
                                let key = <$K as Gt>::from_v(k);
                                ensure!(pm.contains_key(&key) == want.is_some(), "map-contains", "{path}: contains_key({k:?}) is {}", pm.contains_key(&key));
                                match (pm.get(&key), want) {
                                    (Some(c), Some(w)) => look(vt(), w, c, s, &format!("{path}.get({k:?})"))?,
                                    (None, None) => {}
                                    (g, _) => return fail("map-get", format!("{path}: get({k:?}) found: {}", g.is_some())),
                                }
                            } else if std::any::TypeId::of::<$K>() == std::any::TypeId::of::<u32>() {
                                // a key of another type is never there
                                ensure!(!pm.contains_key(&7u32) && pm.get(&7u32).is_none(), "map-foreign-key", "{path}: found under a key of another type");
                            }
                        )*
                    }};
                }
                by!(String, u8, i32, u32, bool, char, CLike, Trk);
            }
        }
        (K::Opt(e), V::O(o)) => {
            let po = p.into_option().unwrap();
            ensure!(po.def().t() == e().sh(), "option-def", "{path}: the option's definition says {}", po.def().t());
            ensure!(po.is_some() == o.is_some() && po.is_none() == o.is_none(), "option-presence", "{path}: is_some {} for {v:?}", po.is_some());
            match (po.value(), o) {
                (Some(c), Some(x)) => {
                    child(here, &c, e(), usize::MAX, "some")?;
                    look(e(), x, c, s, &format!("{path}.some"))?
                }
                (None, None) => {}
                (c, _) => return fail("option-value", format!("{path}: value() present: {}, option is {v:?}", c.is_some())),
            }
        }
        (K::Arc(e), V::P(x)) => {
            let ps = p.into_smart_pointer().unwrap();
            let d = ps.def();
            ensure!(d.pointee == Some(e().sh()), "pointee", "{path}: pointee is not {}", e().name);
            if let Some(b) = d.vtable.borrow_fn {
                let inner = unsafe { Peek::unchecked_new(b(p.data()), e().sh()) };
                look(e(), x, inner, s, &format!("*{path}"))?;
            }
        }
        (K::Slice(e), V::L(vs)) => {
            let Def::Slice(d) = p.shape().def else { return fail("slice-def", format!("{path}: {:?}", p.shape().def)) };
            let n = unsafe { (d.vtable.len)(p.data()) };
            ensure!(n == vs.len() && d.t() == e().sh(), "slice-len", "{path}: length {n}, should be {}", vs.len());
            for (i, x) in vs.iter().enumerate() {
                let c = unsafe { Peek::unchecked_new((d.vtable.get_item_ptr)(p.data(), i), e().sh()) };
                look(e(), x, c, s, &format!("{path}[{i}]"))?;
            }
        }
        (K::Array(e, n), V::L(vs)) => {
            let Def::Array(d) = p.shape().def else { return fail("array-def", format!("{path}: {:?}", p.shape().def)) };
            ensure!(d.n == *n && d.t() == e().sh(), "array-len", "{path}: length {}, should be {n}", d.n);
            for (i, x) in vs.iter().enumerate() {
                let c = unsafe { Peek::unchecked_new((d.vtable.get_item_ptr)(p.data(), i), e().sh()) };
                ensure!(c.data().as_byte_ptr() as usize == here + i * e().size, "array-address", "{path}[{i}]: wrong address");
                look(e(), x, c, s, &format!("{path}[{i}]"))?;
            }
        }
        _ => panic!("harness: {} with {v:?}", t.name),
    }
    Ok(())
}

fn reads(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_root(s);
    let t = (r.ty)();
    let v = gen_v(t, s, Opt { max_elems: 5, depth: 5, ..Opt::default() });
    cx.sample(|| format!("{} {v:?}", r.name));
    cx.label(crate::s02::kind(t));
    if v.size() > 1 {
        cx.nontrivial();
    }
    corpus::trk::reset();
    let mut res = Ok(());
    (t.with_peek)(&v, &mut |p| res = look(t, &v, p, s, "$"));
    res?;
    trk_check("reads")
}

pub const PROP: Prop = Prop {
    id: "S03",
    targets: &[Target { name: "odd", quick: 60_000, thorough: 600_000, rule: "a value of one of 23 types outside the corpus model (NonNull<T>, Weak<T> alive, dead or empty, an opaque Arc, ConstTypeId, RandomState): views, pointee, counterpart, target address, upgrade. Every case counts", f: crate::odd::reads }, Target { name: "huge", quick: 20_000, thorough: 400_000, rule: "values with fields, payloads and elements of more than 64 KiB (structs, tuples, enums, lists, maps, options of them): every part is where the compiler put it. Every case counts", f: crate::huge::reads }, Target { name: "reads", quick: 240_000, thorough: 6_000_000, rule: "a random root type and value, explored through every reading operation of Peek at every level and compared with the model value; addresses against the compiler's offsets; out-of-range and unknown names and indices; typed lookups. Non-trivial: the value has parts", f: reads }],
};
