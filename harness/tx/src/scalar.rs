//! C21: built-in scalars against independent definitions of their lexical spaces.

use crate::norm::is_ws;
use engine::{ensure, fail, model, no_panic, Ctx, Model, Tier, R};
use static_xml::de::ParseText;
use static_xml::ser::ToText;
use static_xml_derive::{Deserialize, Serialize};

fn trim(s: &str) -> &str {
    s.trim_matches(is_ws)
}

/// Rust's integer syntax: an optional sign (only `+` if unsigned), then digits; value within range.
/// Returns (negative, magnitude).
fn int_syntax(s: &str, signed: bool) -> Option<(bool, Vec<u8>)> {
    let (neg, d) = match s.as_bytes().first()? {
        b'+' => (false, &s[1..]),
        b'-' if signed => (true, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let d: Vec<u8> = d.bytes().skip_while(|b| *b == b'0').collect();
    Some((neg && !d.is_empty(), d))
}

/// Decimal digits of 2^bits - 1, or 2^(bits-1) - 1 / 2^(bits-1) if signed: computed by doubling.
fn pow2(bits: u32) -> Vec<u8> {
    let mut d = vec![1u8]; // little endian
    for _ in 0..bits {
        let mut carry = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + carry;
            *x = v % 10;
            carry = v / 10;
        }
        if carry > 0 {
            d.push(carry);
        }
    }
    d.iter().rev().map(|x| x + b'0').collect()
}
fn le(a: &[u8], b: &[u8]) -> bool {
    (a.len(), a) <= (b.len(), b)
}
fn lt(a: &[u8], b: &[u8]) -> bool {
    (a.len(), a) < (b.len(), b)
}
fn in_range(neg: bool, d: &[u8], bits: u32, signed: bool) -> bool {
    match (signed, neg) {
        (false, _) => lt(d, &pow2(bits)),
        (true, false) => lt(d, &pow2(bits - 1)),
        (true, true) => le(d, &pow2(bits - 1)),
    }
}

trait Scalar: ParseText + ToText + Sized + std::fmt::Debug {
    const NAME: &'static str;
    /// The canonical text of the value denoted, or `None` if the text is not accepted.
    fn want(s: &str) -> Option<String>;
    /// The canonical text of a value, made without the library.
    fn canon(&self) -> String;
}

macro_rules! ints {
    ($($t:ident $bits:expr, $signed:expr;)*) => { $(
        impl Scalar for $t {
            const NAME: &'static str = stringify!($t);
            fn want(s: &str) -> Option<String> {
                let (neg, d) = int_syntax(trim(s), $signed)?;
                if !in_range(neg, &d, $bits, $signed) { return None; }
                if d.is_empty() { return Some("0".into()); }
                Some(format!("{}{}", if neg { "-" } else { "" }, String::from_utf8(d).unwrap()))
            }
            fn canon(&self) -> String { format!("{}", self) }
        }
    )* }
}
ints! {
    i8 8, true; u8 8, false; i16 16, true; u16 16, false; i32 32, true; u32 32, false;
    i64 64, true; u64 64, false; i128 128, true; u128 128, false;
}
impl Scalar for bool {
    const NAME: &'static str = "bool";
    fn want(s: &str) -> Option<String> {
        match trim(s) {
            "true" | "1" => Some("true".into()),
            "false" | "0" => Some("false".into()),
            _ => None,
        }
    }
    fn canon(&self) -> String {
        (if *self { "true" } else { "false" }).into()
    }
}
fn canon64(v: f64) -> String {
    if v.is_nan() { "NaN".into() } else { format!("{:016x}", v.to_bits()) }
}
fn canon32(v: f32) -> String {
    if v.is_nan() { "NaN".into() } else { format!("{:08x}", v.to_bits()) }
}
impl Scalar for f64 {
    const NAME: &'static str = "f64";
    fn want(s: &str) -> Option<String> {
        trim(s).parse::<f64>().ok().map(canon64)
    }
    fn canon(&self) -> String {
        canon64(*self)
    }
}
impl Scalar for f32 {
    const NAME: &'static str = "f32";
    fn want(s: &str) -> Option<String> {
        trim(s).parse::<f32>().ok().map(canon32)
    }
    fn canon(&self) -> String {
        canon32(*self)
    }
}
impl Scalar for String {
    const NAME: &'static str = "String";
    fn want(s: &str) -> Option<String> {
        Some(s.to_owned())
    }
    fn canon(&self) -> String {
        self.clone()
    }
}

fn parses<T: Scalar>(ctx: &mut Ctx, s: &str) -> R {
    let want = T::want(s);
    let got = match no_panic(|| T::parse(s.to_owned())) {
        Err(p) => fail!("{}::parse({s:?}) panics: {p}", T::NAME),
        Ok(g) => g,
    };
    ctx.compared += 1;
    match (&got, &want) {
        (Ok(v), Some(w)) => {
            ensure!(v.canon() == *w, "{}::parse({s:?}) = {v:?}", T::NAME);
            prints(ctx, v)
        }
        (Err(e), None) => {
            let _ = e.to_string();
            Ok(())
        }
        (Ok(v), None) => fail!("{}::parse({s:?}) accepted as {v:?}", T::NAME),
        (Err(e), Some(w)) => fail!("{}::parse({s:?}) refused ({e}), denotes {w}", T::NAME),
    }
}

fn prints<T: Scalar>(ctx: &mut Ctx, v: &T) -> R {
    let text = match no_panic(|| v.to_text()) {
        Err(p) => fail!("{}: to_text({v:?}) panics: {p}", T::NAME),
        Ok(Err(e)) => fail!("{}: to_text({v:?}) fails: {e}", T::NAME),
        Ok(Ok(t)) => t,
    };
    let back = T::parse(text.clone());
    ctx.compared += 1;
    match back {
        Ok(b) => ensure!(b.canon() == v.canon(), "{}: {v:?} prints as {text:?}, which reads as {b:?}", T::NAME),
        Err(e) => fail!("{}: {v:?} prints as {text:?}, which is refused: {e}", T::NAME),
    }
    Ok(())
}

macro_rules! all_types {
    ($f:ident ($($a:expr),*)) => {{
        $f::<bool>($($a),*)?; $f::<i8>($($a),*)?; $f::<u8>($($a),*)?; $f::<i16>($($a),*)?; $f::<u16>($($a),*)?;
        $f::<i32>($($a),*)?; $f::<u32>($($a),*)?; $f::<i64>($($a),*)?; $f::<u64>($($a),*)?; $f::<i128>($($a),*)?;
        $f::<u128>($($a),*)?; $f::<f32>($($a),*)?; $f::<f64>($($a),*)?; $f::<String>($($a),*)?;
    }};
}


/// A document type with a `$t` in every position a scalar can take.
trait DocOf: Sized {
    fn read(s: &str) -> Result<Self, String>;
    fn write(&self) -> Result<String, String>;
    fn canons(&self) -> Vec<String>;
}
macro_rules! doc {
    ($($m:ident $t:ty;)*) => { $(
        mod $m {
            use super::*;
            #[derive(Debug, Deserialize, Serialize)]
            pub struct Doc {
                #[static_xml(attribute)]
                a: $t,
                #[static_xml(attribute)]
                oa: Option<$t>,
                e: $t,
                oe: Option<$t>,
                v: Vec<$t>,
            }
            impl DocOf for Doc {
                fn read(s: &str) -> Result<Self, String> {
                    static_xml::de::from_str(s).map_err(|e| e.to_string())
                }
                fn write(&self) -> Result<String, String> {
                    static_xml::serialize(self).to_string().map_err(|e| e.0)
                }
                fn canons(&self) -> Vec<String> {
                    let mut o = vec![self.a.canon(), self.e.canon()];
                    o.extend(self.oa.iter().map(|x| x.canon()));
                    o.extend(self.oe.iter().map(|x| x.canon()));
                    o.extend(self.v.iter().map(|x| x.canon()));
                    o
                }
            }
        }
    )* }
}
doc! {
    d_bool bool; d_i8 i8; d_u8 u8; d_i16 i16; d_u16 u16; d_i32 i32; d_u32 u32; d_i64 i64; d_u64 u64;
    d_i128 i128; d_u128 u128; d_f32 f32; d_f64 f64; d_string String;
}

/// Reads `s` in every position of a document; one position at a time, the others hold `ok`.
fn in_document<T: Scalar, D: DocOf>(ctx: &mut Ctx, s: &str, ok: &str) -> R {
    let want = T::want(s);
    let okc = T::want(ok).expect("engine: ok text");
    for pos in 0..6 {
        let t = |i: usize| if i == pos || pos == 5 { s } else { ok };
        let xml = format!(
            "<r a=\"{}\" oa=\"{}\"><e>{}</e><oe>{}</oe><v>{}</v><v>{}</v></r>",
            engine::xmlt::esc_attr(t(0)),
            engine::xmlt::esc_attr(t(1)),
            engine::xmlt::esc_text(t(2)),
            engine::xmlt::esc_text(t(3)),
            engine::xmlt::esc_text(t(4)),
            engine::xmlt::esc_text(ok),
        );
        let c = |i: usize| if i == pos || pos == 5 { want.clone().unwrap() } else { okc.clone() };
        ctx.compared += 1;
        let got = match no_panic(|| D::read(&xml)) {
            Err(p) => fail!("reading {} in {xml} panics: {p}", T::NAME),
            Ok(g) => g,
        };
        match (got, &want) {
            (Err(_), None) => {}
            (Err(e), Some(_)) => fail!("{}: {xml} refused: {e}", T::NAME),
            (Ok(_), None) => fail!("{}: {xml} accepted", T::NAME),
            (Ok(d), Some(_)) => {
                let wants = vec![c(0), c(2), c(1), c(3), c(4), okc.clone()];
                ensure!(d.canons() == wants, "{}: {xml} read as {:?}, want {wants:?}", T::NAME, d.canons());
                let out = match no_panic(|| d.write()) {
                    Err(p) => fail!("{}: writing what was read from {xml} panics: {p}", T::NAME),
                    Ok(Err(e)) => fail!("{}: writing what was read from {xml} fails: {e}", T::NAME),
                    Ok(Ok(o)) => o,
                };
                match D::read(&out) {
                    Ok(d2) => ensure!(d2.canons() == wants, "{}: {out} read back as {:?}, want {wants:?}", T::NAME, d2.canons()),
                    Err(e) => fail!("{}: {out} does not read back: {e}", T::NAME),
                }
            }
        }
    }
    Ok(())
}

macro_rules! all_docs {
    ($ctx:expr, $s:expr) => {{
        in_document::<bool, d_bool::Doc>($ctx, $s, "true")?;
        in_document::<i8, d_i8::Doc>($ctx, $s, "-7")?;
        in_document::<u8, d_u8::Doc>($ctx, $s, "7")?;
        in_document::<i16, d_i16::Doc>($ctx, $s, "-7")?;
        in_document::<u16, d_u16::Doc>($ctx, $s, "7")?;
        in_document::<i32, d_i32::Doc>($ctx, $s, "-7")?;
        in_document::<u32, d_u32::Doc>($ctx, $s, "7")?;
        in_document::<i64, d_i64::Doc>($ctx, $s, "-7")?;
        in_document::<u64, d_u64::Doc>($ctx, $s, "7")?;
        in_document::<i128, d_i128::Doc>($ctx, $s, "-7")?;
        in_document::<u128, d_u128::Doc>($ctx, $s, "7")?;
        in_document::<f32, d_f32::Doc>($ctx, $s, "-7.5")?;
        in_document::<f64, d_f64::Doc>($ctx, $s, "-7.5")?;
        in_document::<String, d_string::Doc>($ctx, $s, " k ")?;
    }};
}

const BOOL_WORDS: [&str; 22] = [
    "true", "false", "1", "0", "True", "TRUE", "tru", "truee", "t", "FALSE", "fals", "yes", "no", "on", "2", "00",
    "01", "10", "-1", "+1", "truefalse", "",
];
const PADS: [&str; 12] = [
    "", " ", "\t", "\n", "\r", " \t\r\n ", "\u{a0}", "\u{3000}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}",
];
const INT_ALPHABET: [&str; 13] = ["0", "1", "9", "2", "+", "-", " ", "\n", "_", "x", ".", "\u{661}", "e"];
const FLOAT_ALPHABET: [&str; 16] = ["0", "1", "9", ".", "e", "E", "+", "-", "i", "n", "f", "a", "N", " ", "I", "_"];
const FLOAT_WORDS: [&str; 30] = [
    "inf", "-inf", "+inf", "infinity", "INF", "-INF", "NaN", "nan", "-NaN", "+nan", "Infinity", "infinit", "infx", "1e400",
    "-1e400", "1e-400", "1e39", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "1.7976931348623159e308",
    "4.9e-324", "2e-324", "1e-45", "1e-46", "0.1", "123456789012345678901234567890", "-0", "-0.0", "0x1p3",
];

/// Decimal text of 2^k + delta, possibly negated, with `zeros` leading zeros.
fn boundary(k: u32, delta: i32, neg: bool, plus: bool, zeros: usize) -> String {
    let mut d: Vec<i32> = pow2(k).iter().rev().map(|b| (*b - b'0') as i32).collect();
    d.push(0);
    d[0] += delta;
    for i in 0..d.len() - 1 {
        while d[i] < 0 {
            d[i] += 10;
            d[i + 1] -= 1;
        }
        while d[i] > 9 {
            d[i] -= 10;
            d[i + 1] += 1;
        }
    }
    while d.len() > 1 && *d.last().unwrap() == 0 {
        d.pop();
    }
    let mut s = String::new();
    if neg {
        s.push('-');
    } else if plus {
        s.push('+');
    }
    s.push_str(&"0".repeat(zeros));
    s.extend(d.iter().rev().map(|x| (*x as u8 + b'0') as char));
    s
}

/// Exact decimal text of m * 2^e, and how many digits stand after the point.
fn exact(m: u64, e: i32) -> (Vec<u8>, usize) {
    let mut d: Vec<u8> = m.to_string().bytes().rev().map(|b| b - b'0').collect();
    let by = if e >= 0 { 2 } else { 5 };
    for _ in 0..e.unsigned_abs() {
        let mut carry = 0;
        for x in d.iter_mut() {
            let v = *x * by + carry;
            *x = v % 10;
            carry = v / 10;
        }
        while carry > 0 {
            d.push(carry % 10);
            carry /= 10;
        }
    }
    let frac = if e < 0 { (-e) as usize } else { 0 };
    while d.len() <= frac {
        d.push(0);
    }
    d.reverse();
    (d, frac)
}
fn plain(d: &[u8], frac: usize, tail: &str) -> String {
    let mut s: String = d[..d.len() - frac].iter().map(|x| (x + b'0') as char).collect();
    if frac > 0 || !tail.is_empty() {
        s.push('.');
        s.extend(d[d.len() - frac..].iter().map(|x| (x + b'0') as char));
        s.push_str(tail);
    }
    s
}
/// The same number in scientific notation.
fn sci(d: &[u8], frac: usize, tail: &str) -> String {
    let z = d.iter().position(|x| *x != 0).unwrap_or(d.len() - 1);
    let exp = d.len() as i32 - frac as i32 - z as i32 - 1;
    let mut s = String::new();
    s.push((d[z] + b'0') as char);
    s.push('.');
    s.extend(d[z + 1..].iter().map(|x| (x + b'0') as char));
    s.push_str(tail);
    s.push_str(&format!("E{exp}"));
    s
}
/// Text exactly at, just below and just above the middle of the float with these bits and the next one:
/// each denotes the nearest float, the even one in a tie. `m`, `e`: the float is m * 2^e.
fn around_middle<T: Scalar>(ctx: &mut Ctx, m: u64, e: i32, low: &str, high: &str) -> R {
    let (d, frac) = exact(2 * m + 1, e - 1);
    let mut below = d.clone();
    for x in below.iter_mut().rev() {
        if *x > 0 {
            *x -= 1;
            break;
        }
        *x = 9;
    }
    let even = if m % 2 == 0 { low } else { high };
    for (neg, sign) in [(false, ""), (true, "-"), (false, "+")] {
        for (digits, tail, want) in [
            (&d, "", even),
            (&d, "000000", even),
            (&d, "000000000000000000000000000000000000000000000000000001", high),
            (&d, "1", high),
            (&below, "9", low),
            (&below, "999999999999999999999999999999999999999999999999999999999999", low),
        ] {
            for text in [plain(digits, frac, tail), sci(digits, frac, tail)] {
                let text = format!("{sign}{text}");
                ctx.compared += 1;
                let want = if neg { format!("{}{}", char::from_digit(8 + want[..1].parse::<u32>().unwrap(), 16).unwrap(), &want[1..]) } else { want.to_string() };
                match no_panic(|| T::parse(text.clone())) {
                    Err(p) => fail!("{}::parse({text:?}) panics: {p}", T::NAME),
                    Ok(Err(e)) => fail!("{}::parse({text:?}) refused: {e}", T::NAME),
                    Ok(Ok(v)) => ensure!(v.canon() == want, "{}::parse({text:?}) = {v:?} = {}, the nearest is {want}", T::NAME, v.canon()),
                }
            }
        }
    }
    Ok(())
}

macro_rules! from_bits_ints {
    ($ctx:expr, $($t:ident)*) => { $(
        for k in 0..<$t>::BITS {
            for d in 0..=40 {
                for base in [(1 as $t).wrapping_shl(k), <$t>::MAX, <$t>::MIN, <$t>::MAX >> k] {
                    let v = base.wrapping_add(d).wrapping_sub(20);
                    prints::<$t>($ctx, &v)?;
                    let s = format!("{v}");
                    ensure!(v.to_text().unwrap() == s, "{}: {v} prints as {:?}", stringify!($t), v.to_text());
                    parses::<$t>($ctx, &s)?;
                }
            }
        }
    )* };
}

pub fn models(prop: &str, tier: Tier, v: &mut Vec<Model>) {
    if prop != "C21" {
        return;
    }
    let t = tier == Tier::Thorough;
    let n = if t { 6 } else { 5 };
    v.push(model(
        "integer-strings",
        &format!("every string of up to {n} of {INT_ALPHABET:?}, as each of the 14 scalar types"),
        move |ctx: &mut Ctx| -> R {
            let len = ctx.range(0, n);
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(*ctx.pick(&INT_ALPHABET));
            }
            ctx.describe(|| format!("{s:?}"));
            ctx.state(s.as_str());
            all_types!(parses(ctx, &s));
            Ok(())
        },
    ));
    let n = if t { 6 } else { 5 };
    v.push(model(
        "float-strings",
        &format!("every string of up to {n} of {FLOAT_ALPHABET:?}, as f32 and f64"),
        move |ctx: &mut Ctx| -> R {
            let len = ctx.range(0, n);
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(*ctx.pick(&FLOAT_ALPHABET));
            }
            ctx.describe(|| format!("{s:?}"));
            ctx.state(s.as_str());
            parses::<f32>(ctx, &s)?;
            parses::<f64>(ctx, &s)
        },
    ));
    v.push(model(
        "words",
        "boolean and float words and near misses x padding before x padding after x all 14 types",
        |ctx: &mut Ctx| -> R {
            let i = ctx.choose(BOOL_WORDS.len() + FLOAT_WORDS.len());
            let w = if i < BOOL_WORDS.len() { BOOL_WORDS[i] } else { FLOAT_WORDS[i - BOOL_WORDS.len()] };
            let s = format!("{}{}{}{}", ctx.pick(&PADS), ctx.pick(&PADS), w, ctx.pick(&PADS));
            ctx.describe(|| format!("{s:?}"));
            ctx.state(s.as_str());
            all_types!(parses(ctx, &s));
            Ok(())
        },
    ));
    v.push(model(
        "boundaries",
        "2^k + delta for k <= 129, |delta| <= 2, both signs, explicit plus, 0..40 leading zeros, as every integer type",
        |ctx: &mut Ctx| -> R {
            let k = ctx.range(0, 129) as u32;
            let sign = ctx.choose(3);
            for delta in -2..=2 {
                if k < 2 && delta < 0 {
                    continue;
                }
                for zeros in [0, 1, 2, 3, 5, 10, 20, 39, 40] {
                    let s = boundary(k, delta, sign == 1, sign == 2, zeros);
                    ctx.state(s.as_str());
                    all_types!(parses(ctx, &s));
                    all_types!(parses(ctx, &format!(" \n{s}\t")));
                }
            }
            Ok(())
        },
    ));
    v.push(model(
        "sixteen-bits",
        "every integer from -70000 to 70000 as i8, u8, i16, u16, i32, u32",
        |ctx: &mut Ctx| -> R {
            let b = ctx.choose(141) as i64 - 70;
            ctx.state(&b);
            for i in b * 1000..b * 1000 + 1000 {
                let s = i.to_string();
                parses::<i8>(ctx, &s)?;
                parses::<u8>(ctx, &s)?;
                parses::<i16>(ctx, &s)?;
                parses::<u16>(ctx, &s)?;
                parses::<i32>(ctx, &s)?;
                parses::<u32>(ctx, &s)?;
            }
            Ok(())
        },
    ));
    v.push(model(
        "integer-values",
        "values of each width around every power of two, MIN and MAX: printed and read back",
        |ctx: &mut Ctx| -> R {
            match ctx.choose(5) {
                0 => { from_bits_ints!(ctx, i8 u8 i16 u16); }
                1 => { from_bits_ints!(ctx, i32 u32); }
                2 => { from_bits_ints!(ctx, i64 u64); }
                3 => { from_bits_ints!(ctx, i128); }
                _ => { from_bits_ints!(ctx, u128); }
            }
            Ok(())
        },
    ));
    let low: u32 = if t { 65536 } else { 12 };
    v.push(model(
        "f32-values",
        if t { "every f32 bit pattern: printed and read back" } else { "f32: every sign, exponent and high mantissa x 12 low halves" },
        move |ctx: &mut Ctx| -> R {
            let hi = ctx.choose(65536) as u32;
            for l in 0..low {
                let l = if low == 12 { [0, 1, 2, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, 0x5555, 0xaaaa, 0x1234, 0xedcb][l as usize] } else { l };
                prints::<f32>(ctx, &f32::from_bits(hi << 16 | l))?;
            }
            Ok(())
        },
    ));
    v.push(model(
        "f64-values",
        "f64: every sign, exponent and 5 high mantissa bits x 8 low parts",
        |ctx: &mut Ctx| -> R {
            let hi = ctx.choose(65536 * 2) as u64;
            for l in [0u64, 1, 0x7fff_ffff_ffff, 0x4000_0000_0000, 0x4000_0000_0001, 0x5555_5555_5555, 0x2aaa_aaaa_aaaa, 0x1234_5678_9abc] {
                prints::<f64>(ctx, &f64::from_bits(hi << 47 | l))?;
            }
            Ok(())
        },
    ));
    v.push(model(
        "f32-middles",
        "every f32 exponent x 14 mantissas: text at, just below and just above the middle to the next float, as decimal and scientific, signed",
        |ctx: &mut Ctx| -> R {
            let e = ctx.choose(255) as u32;
            let low = *ctx.pick(&[0u32, 1, 2, 3, 0x7fffff, 0x7ffffe, 0x400000, 0x3fffff, 0x555555, 0x2aaaaa, 0x123456, 0x654321, 0x7ffff0, 0x000100]);
            let b = e << 23 | low;
            ctx.state(&b);
            let (m, x) = if e == 0 { (low as u64, -149) } else { ((1 << 23 | low) as u64, e as i32 - 150) };
            around_middle::<f32>(ctx, m, x, &canon32(f32::from_bits(b)), &canon32(f32::from_bits(b + 1)))
        },
    ));
    let step = if t { 1 } else { 16 };
    v.push(model(
        "f64-middles",
        &format!("every {step}th f64 exponent and those within 8 of 0, the middle and the last x 7 mantissas: text at, just below and just above the middle to the next float"),
        move |ctx: &mut Ctx| -> R {
            let es: Vec<u64> = (0..2047).filter(|e| e % step == 0 || *e < 8 || *e > 2038 || (1015..1032).contains(e)).collect();
            let e = *ctx.pick(&es);
            let low = *ctx.pick(&[0u64, 1, 0xf_ffff_ffff_ffff, 0xf_ffff_ffff_fffe, 0x8_0000_0000_0000, 0x5_5555_5555_5555, 0x1_2345_6789_abcd]);
            let b = e << 52 | low;
            ctx.state(&b);
            let (m, x) = if e == 0 { (low, -1074) } else { (1 << 52 | low, e as i32 - 1075) };
            around_middle::<f64>(ctx, m, x, &canon64(f64::from_bits(b)), &canon64(f64::from_bits(b + 1)))
        },
    ));
    v.push(model(
        "documents",
        "36 words x padding, in each of 6 positions (attribute, optional attribute, element, optional, repeated, all) of a derived type for each of the 14 types; read, written and read back",
        |ctx: &mut Ctx| -> R {
            let words = [
                "true", "false", "1", "0", "2", "-1", "+1", "-0", "", "x", "127", "128", "-128", "-129", "255", "256", "32767",
                "32768", "65535", "65536", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616",
                "170141183460469231731687303715884105728", "340282366920938463463374607431768211455",
                "340282366920938463463374607431768211456", "1.5", "1e5", "inf", "NaN", "1 2", "<&>\"'", "]]>", "TRUE", ".5",
            ];
            let pads = ["", " ", "\t", "\n", "\r", " \n\t\r ", "\u{a0}", "\u{85}"];
            let w = *ctx.pick(&words);
            let s = format!("{}{}{}", ctx.pick(&pads), w, ctx.pick(&pads));
            ctx.describe(|| format!("{s:?}"));
            ctx.state(s.as_str());
            all_docs!(ctx, &s);
            Ok(())
        },
    ));
    let n = if t { 4 } else { 3 };
    v.push(model(
        "string-documents",
        &format!("every string of up to {n} characters over markup, quotes, white space and non-ASCII, as String in every position"),
        move |ctx: &mut Ctx| -> R {
            const A: [&str; 14] = ["a", " ", "\t", "\n", "\r", "<", "&", ">", "]", "\"", "'", "\u{e9}", "\u{3000}", "\u{1F600}"];
            let len = ctx.range(0, n);
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(*ctx.pick(&A));
            }
            ctx.describe(|| format!("{s:?}"));
            ctx.state(s.as_str());
            in_document::<String, d_string::Doc>(ctx, &s, " k ")
        },
    ));
}
