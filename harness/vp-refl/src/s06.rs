//! S06: what a scalar's description says about its numbers and its kind.
use crate::common::*;
use facet_core::{NumberBits, ScalarAffinity, Signedness};

const O: Opt = Opt { finite: false, max_elems: 2, depth: 2, str_max: 6 };

fn kind_name(a: &ScalarAffinity) -> &'static str {
    match a {
        ScalarAffinity::Number(_) => "number",
        ScalarAffinity::ComplexNumber(_) => "complex",
        ScalarAffinity::String(_) => "string",
        ScalarAffinity::Boolean(_) => "boolean",
        ScalarAffinity::Empty(_) => "empty",
        ScalarAffinity::SocketAddr(_) => "socket",
        ScalarAffinity::IpAddr(_) => "ip",
        ScalarAffinity::UUID(_) => "uuid",
        ScalarAffinity::Time(_) => "time",
        ScalarAffinity::Opaque(_) => "opaque",
        ScalarAffinity::Other(_) => "other",
        ScalarAffinity::Char(_) => "char",
        ScalarAffinity::Path(_) => "path",
        _ => "?",
    }
}

fn kind_of(k: &Sk) -> Option<&'static str> {
    Some(match k {
        Sk::Unit => "empty",
        Sk::Bool => "boolean",
        Sk::UInt(..) | Sk::Int(..) | Sk::F32 | Sk::F64 => "number",
        Sk::Char => "char",
        Sk::Str => "string",
        Sk::Ip(1) => "socket",
        Sk::Ip(_) => "ip",
        Sk::Path => "path",
        Sk::Trk | Sk::Zst => return None,
    })
}

/// The number a bit pattern denotes, by the description's own account of the format.
enum Num {
    Int(bool, u128), // negative, magnitude
    /// (negative, significand, power of two)
    Float(bool, u128, i64),
    Inf(bool),
    Nan,
}

fn decode(bits: &NumberBits, raw: u128) -> Option<Num> {
    match *bits {
        NumberBits::Integer { bits, sign } => {
            let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
            let raw = raw & m;
            let neg = sign == Signedness::Signed && bits > 0 && raw >> (bits - 1) & 1 == 1;
            Some(Num::Int(neg, if neg { raw.wrapping_neg() & m } else { raw }))
        }
        NumberBits::Float { sign_bits, exponent_bits, mantissa_bits, has_explicit_first_mantissa_bit: false } if sign_bits <= 1 && exponent_bits < 32 && mantissa_bits < 64 => {
            let man = raw & ((1u128 << mantissa_bits) - 1);
            let exp = (raw >> mantissa_bits) & ((1u128 << exponent_bits) - 1);
            let neg = sign_bits == 1 && raw >> (mantissa_bits + exponent_bits) & 1 == 1;
            let bias = (1i64 << (exponent_bits - 1)) - 1;
            Some(if exp == (1u128 << exponent_bits) - 1 {
                if man == 0 { Num::Inf(neg) } else { Num::Nan }
            } else if exp == 0 {
                Num::Float(neg, man, 1 - bias - mantissa_bits as i64)
            } else {
                Num::Float(neg, man | 1u128 << mantissa_bits, exp as i64 - bias - mantissa_bits as i64)
            })
        }
        _ => None,
    }
}

fn f64_of(v: &V) -> Option<f64> {
    match v {
        V::F32(b) => Some(f32::from_bits(*b) as f64),
        V::F64(b) => Some(f64::from_bits(*b)),
        _ => None,
    }
}

/// significand * 2^power, exactly (both formats fit a double exactly)
fn float(neg: bool, m: u128, p: i64) -> f64 {
    let mut x = m as f64;
    let mut p = p;
    while p > 0 {
        let k = p.min(1000);
        x *= 2f64.powi(k as i32);
        p -= k;
    }
    while p < 0 {
        let k = (-p).min(1000);
        x /= 2f64.powi(k as i32);
        p += k;
    }
    if neg { -x } else { x }
}

fn same(n: &Num, v: &V) -> bool {
    match (n, v) {
        (Num::Int(neg, m), V::U(u)) => !neg && m == u,
        (Num::Int(neg, m), V::I(i)) => *neg == (*i < 0) && *m == i.unsigned_abs(),
        (Num::Float(neg, m, p), v) => f64_of(v).is_some_and(|x| x.to_bits() == float(*neg, *m, *p).to_bits()),
        (Num::Inf(neg), v) => f64_of(v) == Some(if *neg { f64::NEG_INFINITY } else { f64::INFINITY }),
        (Num::Nan, v) => f64_of(v).is_some_and(|x| x.is_nan()),
        _ => false,
    }
}

fn scalars(s: &mut Src, cx: &mut Ctx) -> R {
    thread_local! {
        static SC: Vec<T> = {
            let mut o: Vec<T> = vec![];
            for r in ROOTS {
                (r.ty)().any(&mut |t| {
                    if matches!(&t.k, K::Sc(_)) && !o.iter().any(|x| x.id == t.id) {
                        o.push(t);
                    }
                    false
                });
            }
            o
        };
        static NU: Vec<T> = SC.with(|l| l.iter().copied().filter(|t| matches!(&t.k, K::Sc(Sk::UInt(..) | Sk::Int(..) | Sk::F32 | Sk::F64))).collect());
    }
    let t = if s.chance(1, 6) { SC.with(|l| l[s.below(l.len())]) } else { NU.with(|l| l[s.below(l.len())]) };
    let K::Sc(k) = &t.k else { unreachable!() };
    let v = gen_v(t, s, O);
    corpus::trk::reset();
    cx.sample(|| format!("{} {v:?}", t.name));
    cx.key(&format!("{} {v:?}", t.name));
    let Def::Scalar(d) = t.sh().def else {
        ensure!(kind_of(k).is_none(), "def", "{}: not described as a scalar: {:?}", t.name, t.sh().def);
        return Ok(());
    };
    if let Some(want) = kind_of(k) {
        ensure!(kind_name(&d.affinity) == want, "kind", "{}: described as {}", t.name, kind_name(&d.affinity));
    }
    if let ScalarAffinity::String(a) = &d.affinity {
        if let Some(n) = a.max_inline_length {
            // nothing this long may be claimed to be stored in place
            ensure!(n <= t.size, "inline", "{}: {n} bytes inline, but the value has {}", t.name, t.size);
        }
    }
    let ScalarAffinity::Number(a) = &d.affinity else { return Ok(()) };
    cx.nontrivial();
    cx.label(t.name);
    let m = Mem::of(t, &v);
    let raw = (0..t.size).fold(0u128, |r, i| r | (unsafe { *m.p.add(i) } as u128) << (8 * i));
    unsafe { (t.dropp)(m.p) };
    let Some(n) = decode(&a.bits, raw) else { return fail("format", format!("{}: {:?}", t.name, a.bits)) };
    ensure!(same(&n, &v), "bits", "{}: the bytes {raw:#x} of {v:?} denote something else under {:?}", t.name, a.bits);
    let width = match a.bits {
        NumberBits::Integer { bits, .. } => bits,
        NumberBits::Float { sign_bits, exponent_bits, mantissa_bits, .. } => sign_bits + exponent_bits + mantissa_bits,
        _ => 0,
    };
    ensure!(width == 8 * t.size, "width", "{}: {width} bits described, {} bytes stored", t.name, t.size);
    let get = |p: PtrConst<'static>, what: &str| -> Result<V, Fail> {
        ensure!(p.as_byte_ptr() as usize % t.align == 0, "align", "{}: {what} is misaligned", t.name);
        Ok(unsafe { (t.readp)(p.as_byte_ptr()) })
    };
    let (lo, hi) = (get(a.min, "min")?, get(a.max, "max")?);
    let rest = [a.positive_infinity, a.negative_infinity, a.nan_sample, a.positive_zero, a.negative_zero, a.epsilon];
    match (k, &v) {
        (Sk::UInt(b, nz), V::U(x)) => {
            let top = if *b == 128 { u128::MAX } else { (1u128 << b) - 1 };
            ensure!(lo == V::U(*nz as u128) && hi == V::U(top), "limits", "{}: from {lo:?} to {hi:?}", t.name);
            ensure!(lo.u() <= *x && *x <= hi.u(), "within", "{}: {x} is not between {lo:?} and {hi:?}", t.name);
        }
        (Sk::Int(b, _), V::I(x)) => {
            let top = i128::MAX >> (128 - b);
            ensure!(lo == V::I(-top - 1) && hi == V::I(top), "limits", "{}: from {lo:?} to {hi:?}", t.name);
            ensure!(lo.i() <= *x && *x <= hi.i(), "within", "{}: {x} is not between {lo:?} and {hi:?}", t.name);
        }
        (Sk::F32 | Sk::F64, v) => {
            let x = f64_of(v).unwrap();
            let (l, h) = (f64_of(&lo).unwrap(), f64_of(&hi).unwrap());
            ensure!(l.is_finite() && h.is_finite() && (!x.is_finite() || l <= x && x <= h), "within", "{}: {x:?} is not between {lo:?} and {hi:?}", t.name);
            let wide = matches!(k, Sk::F64);
            let top = if wide { f64::MAX } else { f32::MAX as f64 };
            ensure!(l == -top && h == top, "limits", "{}: from {lo:?} to {hi:?}", t.name);
            let mut out = vec![];
            for p in rest {
                let Some(p) = p else { return fail("special", format!("{}: infinities, NaN, zeros or epsilon are missing: {a:?}", t.name)) };
                out.push(f64_of(&get(p, "special value")?).unwrap());
            }
            let eps = if wide { f64::EPSILON } else { f32::EPSILON as f64 };
            ensure!(
                out[0] == f64::INFINITY && out[1] == f64::NEG_INFINITY && out[2].is_nan() && out[3].to_bits() == 0 && out[4].to_bits() == 1 << 63 && out[5] == eps,
                "special",
                "{}: +inf, -inf, NaN, 0, -0, epsilon are described as {out:?}",
                t.name
            );
            return Ok(());
        }
        _ => {}
    }
    ensure!(rest[0].is_none() && rest[1].is_none() && rest[2].is_none(), "special", "{}: an integer with infinities or NaN", t.name);
    for p in rest[3..5].iter().flatten() {
        ensure!(matches!(get(*p, "zero")?, V::U(0) | V::I(0)), "special", "{}: zero is something else", t.name);
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "S06",
    targets: &[Target { name: "scalars", quick: 400_000, thorough: 10_000_000, rule: "a value of a scalar type (limits, powers of two, subnormals, bit patterns): its bytes are decoded by the described width, sign, exponent and mantissa and must denote the value; it must lie within the described limits; kind and special values against the type's own. Non-trivial: a number", f: scalars }],
};
