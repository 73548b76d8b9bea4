//! Dense probes of the pieces of the language that have many values: library functions, operators
//! and conversions at the limits of every type, and constant expressions. Each template prints the
//! results of many small probes and computes in Rust what C prescribes for them.
use crate::cprog::{castable, common, escape, BinOp, Ty, Ty::*};
use crate::interp::strto;
use crate::rng::Rng;
use crate::scale::{PRun, T};
use std::fmt::Write;

fn done(t: String, out: Vec<u8>) -> T {
    T { text: t, runs: vec![PRun { args: vec![], code: 0, out }] }
}
const HEAD: &str = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <ctype.h>\n";

/// functions of a few probes each, so that none of them is large, and a main that calls them all
struct Probes {
    top: String,
    body: Vec<String>,
    out: Vec<u8>,
}
impl Probes {
    fn text(&self, per: usize) -> String {
        let mut t = self.top.clone();
        let mut n = 0;
        for c in self.body.chunks(per) {
            write!(t, "void t{}() {{\n", n).unwrap();
            for l in c {
                t.push_str(l);
            }
            t.push_str("}\n");
            n += 1;
        }
        t.push_str("int main() {\n");
        for k in 0..n {
            writeln!(t, " t{}();", k).unwrap();
        }
        t.push_str(" return 0;\n}\n");
        t
    }
    fn say(&mut self, l: String, o: String) {
        self.body.push(l);
        self.out.extend(o.bytes());
    }
}

type CF = (&'static str, fn(u8) -> i32);
const CT: &[CF] = &[
    ("isalnum", |c| c.is_ascii_alphanumeric() as i32),
    ("isalpha", |c| c.is_ascii_alphabetic() as i32),
    ("iscntrl", |c| c.is_ascii_control() as i32),
    ("isdigit", |c| c.is_ascii_digit() as i32),
    ("isxdigit", |c| c.is_ascii_hexdigit() as i32),
    ("isgraph", |c| c.is_ascii_graphic() as i32),
    ("ispunct", |c| c.is_ascii_punctuation() as i32),
    ("isprint", |c| (c == b' ' || c.is_ascii_graphic()) as i32),
    ("islower", |c| c.is_ascii_lowercase() as i32),
    ("isupper", |c| c.is_ascii_uppercase() as i32),
    ("isspace", |c| (c == b' ' || (9..=13).contains(&c)) as i32),
    ("tolower", |c| c.to_ascii_lowercase() as i32),
    ("toupper", |c| c.to_ascii_uppercase() as i32),
];

fn number(r: &mut Rng) -> (Vec<u8>, u32) {
    let base = [0u32, 0, 10, 10, 16, 16, 8, 2, 36, 3, 7, 11, 35][r.idx(13)];
    let mut s: Vec<u8> = vec![];
    for _ in 0..[0, 0, 1, 2, 4][r.idx(5)] {
        s.push(b" \t\n\x0b\x0c\r"[r.idx(6)]);
    }
    if r.pct(40) {
        s.push(b"-+-"[r.idx(3)]);
    }
    if r.pct(6) {
        s.push(b"-+ "[r.idx(3)]);
    }
    let mut digits = if base == 0 { 10 } else { base };
    if r.pct(35) {
        s.extend_from_slice([&b"0x"[..], b"0X", b"0", b"00", b"x"][r.idx(5)]);
        if base == 0 {
            digits = [16, 16, 8, 8, 10][r.idx(5)];
        }
    }
    let style = r.idx(3);
    match r.idx(10) {
        // at and around the limits of long and unsigned long
        0..=3 => {
            let lim = [1u128 << 63, (1 << 63) - 1, 1 << 64, (1 << 64) - 1, 1 << 31, 1 << 32, (1 << 31) - 1, (1 << 32) - 1, 1 << 53, 0, 1 << 70][r.idx(11)];
            let mut v = match r.idx(3) {
                0 => lim,
                1 => lim + r.below(3) as u128,
                _ => lim.saturating_sub(1 + r.below(2) as u128),
            };
            let mut d = vec![];
            loop {
                let k = (v % digits as u128) as u32;
                d.push(std::char::from_digit(k, digits).unwrap() as u8);
                v /= digits as u128;
                if v == 0 {
                    break;
                }
            }
            d.reverse();
            if style == 1 {
                d.make_ascii_uppercase();
            }
            s.extend(d);
        }
        4 => {}
        _ => {
            for _ in 0..1 + r.idx(12) {
                // now and then the first digit that the base does not have
                let k = if r.pct(6) { digits } else { r.below(digits as u64) as u32 };
                let c = if k < 36 { std::char::from_digit(k, 36).unwrap() as u8 } else { b'_' };
                s.push(if style == 1 || style == 2 && r.pct(50) { c.to_ascii_uppercase() } else { c });
            }
        }
    }
    for _ in 0..[0, 0, 0, 1, 3][r.idx(5)] {
        s.push(b" zZ9.-+xg@[`{/:"[r.idx(15)]);
    }
    (s, base)
}

fn words(r: &mut Rng) -> Vec<u8> {
    let al: &[u8] = [&b"ab"[..], b"a", b"abc", b"Aa ", b"\x01\x7f\x80\xff", b"01"][r.idx(6)];
    let n = [0, 1, 2, 3, 5, 9, 17, 40][r.idx(8)];
    (0..n).map(|_| al[r.idx(al.len())]).collect()
}

const SPECIAL: &[i128] = &[0, 1, -1, 2, -2, 9, 10, 99, 100, 127, 128, 129, 255, 256, 257, -127, -128, -129, -255, -256, 32767, 32768, 32769, 65534, 65535, 65536, 65537, -32767, -32768, -32769, -65535, -65536, 2147483646, 2147483647, 2147483648, 2147483649, -2147483647, -2147483648, -2147483649, 4294967294, 4294967295, 4294967296, 4294967297, -4294967295, -4294967296, 1 << 40, 1 << 53, (1 << 53) + 1, 1 << 62, i64::MAX as i128 - 1, i64::MAX as i128, i64::MIN as i128, i64::MIN as i128 + 1];

fn lit(v: i128) -> String {
    if v == i64::MIN as i128 {
        "(-9223372036854775807 - 1)".into()
    } else if v < 0 {
        format!("(-{})", -v)
    } else {
        v.to_string()
    }
}

pub fn lib(r: &mut Rng, n: i64, m: i64) -> T {
    let mut p = Probes { top: HEAD.to_string(), body: vec![], out: vec![] };
    let q = |s: &[u8], r: &mut Rng| format!("\"{}\"", escape(s, r.next()));
    for k in 0..n {
        let what = if m < 6 { m as usize } else { r.idx(6) };
        match what {
            0 => {
                let (f, g) = CT[(k as usize + r.idx(CT.len())) % CT.len()];
                let (lo, hi) = [(0, 127), (32, 127), (60, 126), (0, 64)][r.idx(4)];
                let conv = f.starts_with("to");
                p.body.push(format!(
                    " {{ int i; for (i = {}; i <= {}; i++) printf(\"%d\", {}); printf(\"\\n\"); }}\n",
                    lo,
                    hi,
                    if conv { format!("(int){}((char)i)", f) } else { format!("{}((char)i) ? 1 : 0", f) }
                ));
                for c in lo..=hi {
                    p.out.extend(g(c as u8).to_string().bytes());
                }
                p.out.push(b'\n');
            }
            1 | 2 => {
                let (s, base) = number(r);
                let signed = what == 1;
                let (v, len) = strto(&s, base, signed);
                let f = if signed { "strtol" } else { "strtoul" };
                let c = if signed { "%ld" } else { "%lu" };
                let t = q(&s, r);
                if r.pct(60) {
                    p.say(
                        format!(" {{ char *s = {}; char *e; {}long v; v = {}(s, &e, {}); printf(\"{} %d\\n\", v, (int)(e - s)); }}\n", t, if signed { "" } else { "unsigned " }, f, base, c),
                        format!("{} {}\n", v, len),
                    );
                } else {
                    p.say(format!(" printf(\"{}\\n\", {}({}, NULL, {}));\n", c, f, t, base), format!("{}\n", v));
                }
            }
            3 => {
                let s = words(r);
                p.say(format!(" printf(\"%d\\n\", (int)strlen({}));\n", q(&s, r)), format!("{}\n", s.len()));
            }
            4 => {
                let h = words(r);
                let mut nd = words(r);
                if r.pct(70) && !h.is_empty() {
                    let a = r.idx(h.len() + 1);
                    let b = a + r.idx(h.len() + 1 - a);
                    nd = h[a..b].to_vec();
                    if r.pct(20) {
                        nd.push(b'a');
                    }
                }
                let at = (0..=h.len()).find(|i| h[*i..].starts_with(&nd)).map(|i| i as i64).unwrap_or(-1);
                p.say(
                    format!(" {{ char *h = {}; char *f = strstr(h, {}); printf(\"%d\\n\", f == NULL ? -1 : (int)(f - h)); }}\n", q(&h, r), q(&nd, r)),
                    format!("{}\n", at),
                );
            }
            _ => {
                // one printf with a few conversions, and what it returns
                let mut f: Vec<u8> = vec![];
                let mut o: Vec<u8> = vec![];
                let mut args = String::new();
                for _ in 0..1 + r.idx(5) {
                    match r.idx(11) {
                        0 => {
                            f.extend(b"%%");
                            o.push(b'%');
                        }
                        1 => {
                            let w: Vec<u8> = (0..r.idx(5)).map(|_| 1 + (r.below(255) as u8)).filter(|c| *c != b'%').collect();
                            f.extend(&w);
                            o.extend(&w);
                        }
                        2 => {
                            let w = words(r);
                            f.extend(b"%s");
                            args += &format!(", {}", q(&w, r));
                            o.extend(&w);
                        }
                        3 => {
                            let c = 1 + r.below(255) as i128;
                            f.extend(b"%c");
                            let t = [Int, Char, UChar][r.idx(3)].clone();
                            let v = t.wrap(c);
                            args += &format!(", ({}){}", name(&t), lit(v));
                            o.push(c as u8);
                        }
                        _ => {
                            let (c, t, shown): (&str, Ty, Ty) = [
                                ("%d", Int, Int),
                                ("%i", Int, Int),
                                ("%d", Short, Int),
                                ("%d", Char, Int),
                                ("%u", UInt, UInt),
                                ("%hd", Short, Short),
                                ("%hi", Short, Short),
                                ("%hu", UShort, UShort),
                                ("%hd", Int, Short),
                                ("%hu", Int, UShort),
                                ("%ld", Long, Long),
                                ("%li", Long, Long),
                                ("%lu", ULong, ULong),
                            ][r.idx(13)]
                            .clone();
                            let v = t.wrap(*r.pick(SPECIAL) + if r.pct(20) { r.range(-3, 3) as i128 } else { 0 });
                            f.extend(c.bytes());
                            args += &format!(", ({}){}", name(&t), lit(Long.wrap(v)));
                            o.extend(shown.wrap(v).to_string().bytes());
                        }
                    }
                }
                if f.len() >= 2 && f.ends_with(b"%") && !f.ends_with(b"%%") {
                    continue;
                }
                p.body.push(format!(" {{ int w; w = printf({}{}); printf(\"|%d\\n\", w); }}\n", q(&f, r), args));
                let w = o.len();
                p.out.extend(o);
                p.out.extend(format!("|{}\n", w).bytes());
            }
        }
    }
    let per = 1 + r.idx(8);
    let t = p.text(per);
    done(t, p.out)
}

pub fn name(t: &Ty) -> &'static str {
    match t {
        Char => "char",
        UChar => "unsigned char",
        Short => "short",
        UShort => "unsigned short",
        Int => "int",
        UInt => "unsigned int",
        Long => "long",
        ULong => "unsigned long",
        Double => "double",
        _ => "void",
    }
}

/// the value of `a op b` for integers of these types, none where C leaves it undefined
pub fn arith(op: BinOp, a: i128, ta: &Ty, b: i128, tb: &Ty) -> Option<(i128, Ty)> {
    use BinOp::*;
    if matches!(op, LAnd | LOr) {
        return Some(((if op == LAnd { a != 0 && b != 0 } else { a != 0 || b != 0 }) as i128, Int));
    }
    if matches!(op, Shl | Shr) {
        let t = ta.promote();
        if b < 0 || b >= t.bits() as i128 || op == Shl && t.signed() && (a < 0 || a << b > t.max()) {
            return None;
        }
        return Some((t.wrap(if op == Shl { a << b } else { a >> b }), t));
    }
    let t = common(ta, tb);
    let (x, y) = (t.wrap(a), t.wrap(b));
    let c = |b: bool| Some((b as i128, Int));
    let v = match op {
        Lt => return c(x < y),
        Gt => return c(x > y),
        Le => return c(x <= y),
        Ge => return c(x >= y),
        Eq => return c(x == y),
        Ne => return c(x != y),
        Add => x + y,
        Sub => x - y,
        Mul => x.wrapping_mul(y),
        Div | Mod if y == 0 || x / y > t.max() => return None,
        Div => x / y,
        Mod => x % y,
        And => x & y,
        Or => x | y,
        _ => x ^ y,
    };
    if t.signed() && (v < t.min() || v > t.max()) {
        return None;
    }
    Some((t.wrap(v), t))
}

const INTS: &[Ty] = &[Char, UChar, Short, UShort, Int, UInt, Long, ULong];
const OPS: &[BinOp] = &[BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::Div, BinOp::Mod, BinOp::Shl, BinOp::Shr, BinOp::And, BinOp::Or, BinOp::Xor, BinOp::Lt, BinOp::Gt, BinOp::Le, BinOp::Ge, BinOp::Eq, BinOp::Ne, BinOp::LAnd, BinOp::LOr];

/// operators and conversions at the limits of the integer types, and of double where it takes part
pub fn ops(r: &mut Rng, n: i64, m: i64) -> T {
    let mut p = Probes { top: HEAD.to_string(), body: vec![], out: vec![] };
    for k in 0..n {
        if m == 3 || m > 3 && r.pct(20) {
            doubles(r, &mut p, k);
            continue;
        }
        let (ta, tb) = (r.pick(INTS).clone(), r.pick(INTS).clone());
        let mut pairs: Vec<(i128, i128)> = vec![];
        let op = *r.pick(OPS);
        let form = r.idx(6);
        let unary = r.pct(18);
        let uop = r.idx(9);
        let tc = if r.pct(40) { Some(r.pick(INTS).clone()) } else { None };
        // (expression, result type, value)
        let eval = |a: i128, b: i128| -> Option<(i128, Ty)> {
            let x = if unary {
                let t = ta.promote();
                match uop {
                    0 | 1 => {
                        let v = -a;
                        if t.signed() && v > t.max() {
                            return None;
                        }
                        (t.wrap(v), t)
                    }
                    2 | 3 => (t.wrap(!a), t),
                    4 => ((a == 0) as i128, Int),
                    5 => (a, t),
                    // ++ and --
                    6 | 7 => {
                        let v = if uop == 6 { a + 1 } else { a - 1 };
                        if t.signed() && (v < t.min() || v > t.max()) {
                            return None;
                        }
                        (ta.wrap(v), ta.clone())
                    }
                    _ => (a, ta.clone()),
                }
            } else {
                let (v, t) = arith(op, a, &ta, b, &tb)?;
                // a compound assignment has the type of its left side
                if form == 1 && !op.is_cmp() && !op.is_logic() {
                    (ta.wrap(v), ta.clone())
                } else if form == 2 {
                    (if v != 0 { 7 } else { 3 }, Int)
                } else if form == 3 {
                    // the value goes through a condition and its negation
                    ((v == 0) as i128, Int)
                } else {
                    (v, t)
                }
            };
            Some(match &tc {
                Some(t) => (t.wrap(x.0), t.clone()),
                None => x,
            })
        };
        for _ in 0..60 {
            let v = |r: &mut Rng, t: &Ty| {
                let b = match r.idx(4) {
                    0 => t.max() - r.below(3) as i128,
                    1 => t.min() + r.below(3) as i128,
                    _ => *r.pick(SPECIAL) + if r.pct(20) { r.range(-2, 2) as i128 } else { 0 },
                };
                t.wrap(b)
            };
            let a = v(r, &ta);
            let b = if matches!(op, BinOp::Shl | BinOp::Shr) && r.pct(90) { r.range(0, ta.promote().bits() as i64 - 1) as i128 } else { v(r, &tb) };
            if eval(a, b).is_some() && !pairs.contains(&(a, b)) && pairs.len() < 12 {
                pairs.push((a, b));
            }
        }
        if pairs.is_empty() {
            continue;
        }
        let rt = eval(pairs[0].0, pairs[0].1).unwrap().1;
        let body = |a: &str, b: &str| -> String {
            if unary {
                match uop {
                    0 | 1 => format!("-{}", a),
                    2 | 3 => format!("~{}", a),
                    4 => format!("!{}", a),
                    5 => format!("+{}", a),
                    _ => a.to_string(),
                }
            } else {
                format!("{} {} {}", a, op.text(), b)
            }
        };
        let cast = |e: String| match &tc {
            Some(t) => format!("({})({})", name(t), e),
            None => e,
        };
        let (na, nb, nr) = (name(&ta), name(&tb), name(&rt));
        let inner = if unary && uop == 6 {
            format!("return {};", cast(["++a".to_string(), "a += 1".to_string()][r.idx(2)].clone()))
        } else if unary && uop == 7 {
            format!("return {};", cast(["--a".to_string(), "a -= 1".to_string()][r.idx(2)].clone()))
        } else if !unary && form == 1 && !op.is_cmp() && !op.is_logic() {
            format!("a {}= b; return {};", op.text(), cast("a".into()))
        } else if !unary && form == 2 {
            format!("if ({}) return {}; return {};", body("a", "b"), cast("7".into()), cast("3".into()))
        } else if !unary && form == 3 {
            format!("return {};", cast(format!("!({})", body("a", "b"))))
        } else {
            format!("return {};", cast(body("a", "b")))
        };
        writeln!(p.top, "{} f{}({} a, {} b) {{ {} }}", nr, k, na, nb, inner).unwrap();
        let join = |v: Vec<i128>| v.iter().map(|x| lit(Long.wrap(*x))).collect::<Vec<_>>().join(", ");
        let mut line = format!(
            " {{ long x[{n}] = {{{}}}; long y[{n}] = {{{}}}; int i; for (i = 0; i < {n}; i++) printf(\"%ld \", (long)f{}(({})x[i], ({})y[i]));",
            join(pairs.iter().map(|q| q.0).collect()),
            join(pairs.iter().map(|q| q.1).collect()),
            k,
            na,
            nb,
            n = pairs.len()
        );
        let mut o = String::new();
        for (a, b) in &pairs {
            write!(o, "{} ", Long.wrap(eval(*a, *b).unwrap().0)).unwrap();
        }
        // the same with constants in the place of one operand or both
        if !unary && form != 1 {
            for (a, b) in pairs.iter().take(3) {
                let (ca, cb) = (format!("(({}){})", na, lit(Long.wrap(*a))), format!("(({}){})", nb, lit(Long.wrap(*b))));
                let e = match form {
                    2 => format!("({}) ? {} : {}", body(&ca, &cb), cast("7".into()), cast("3".into())),
                    3 => cast(format!("!({})", body(&ca, &cb))),
                    _ => cast(body(&ca, &cb)),
                };
                write!(line, " printf(\"%ld \", (long)({}));", e).unwrap();
                write!(o, "{} ", Long.wrap(eval(*a, *b).unwrap().0)).unwrap();
            }
        }
        line.push_str(" printf(\"\\n\"); }\n");
        o.push('\n');
        p.say(line, o);
    }
    let per = 1 + r.idx(3);
    let t = p.text(per);
    done(t, p.out)
}

const DBL: &[f64] = &[0.0, 1.0, -1.0, 0.5, -0.25, 1.75, 3.0, -7.125, 100.0, 255.5, 256.0, 65535.75, -65536.5, 2147483647.0, -2147483648.0, 2147483648.0, 4294967295.0, 4294967296.5, 1099511627776.0, 9007199254740991.0, 0.0009765625];

fn dlit(v: f64) -> Option<String> {
    let t = format!("{:.12}", v.abs());
    let t = t.trim_end_matches('0');
    let t = if t.ends_with('.') { format!("{}0", t) } else { t.to_string() };
    if t.parse::<f64>().unwrap() != v.abs() {
        return None;
    }
    Some(if v < 0.0 { format!("(-{})", t) } else { t })
}

fn doubles(r: &mut Rng, p: &mut Probes, k: i64) {
    use BinOp::*;
    let op = [Add, Sub, Mul, Div, Lt, Gt, Le, Ge, Eq, Ne][r.idx(10)];
    // the other operand is a double or an integer that is converted
    let it = if r.pct(50) { Some(r.pick(INTS).clone()) } else { None };
    let left = r.pct(50);
    let form = r.idx(3);
    let mut line = " {".to_string();
    let mut o = String::new();
    let other = it.clone().map(|t| name(&t)).unwrap_or("double");
    let (na, nb) = if left { ("double", other) } else { (other, "double") };
    let rt = if op.is_cmp() { "int" } else { "double" };
    writeln!(
        p.top,
        "{} f{}({} a, {} b) {{ {} }}",
        if form == 1 { "int" } else { rt },
        k,
        na,
        nb,
        match form {
            1 => format!("if (a {} b) return 7; return 3;", op.text()),
            2 => format!("{} c = a {} b; return c;", rt, op.text()),
            _ => format!("return a {} b;", op.text()),
        }
    )
    .unwrap();
    for _ in 0..8 {
        let x = *r.pick(DBL);
        let (y, ty) = match &it {
            Some(t) => {
                let v = t.wrap(match r.idx(3) {
                    0 => t.max(),
                    1 => t.min(),
                    _ => *r.pick(SPECIAL),
                });
                (if t.signed() { v as i64 as f64 } else { v as u64 as f64 }, format!("({}){}", name(t), lit(Long.wrap(v))))
            }
            None => {
                let v = *r.pick(DBL);
                (v, dlit(v).unwrap())
            }
        };
        let tx = dlit(x).unwrap();
        let (a, b, ea, eb) = if left { (x, y, tx, ty) } else { (y, x, ty, tx) };
        let call = format!("f{}({}, {})", k, ea, eb);
        if op.is_cmp() {
            let c = match op {
                Lt => a < b,
                Gt => a > b,
                Le => a <= b,
                Ge => a >= b,
                Eq => a == b,
                _ => a != b,
            };
            write!(line, " printf(\"%d \", {});", call).unwrap();
            write!(o, "{} ", if form == 1 { if c { 7 } else { 3 } } else { c as i32 }).unwrap();
            continue;
        }
        let v = match op {
            Add => a + b,
            Sub => a - b,
            Mul => a * b,
            _ => a / b,
        };
        if op == Div && b == 0.0 {
            continue;
        }
        if form == 1 {
            write!(line, " printf(\"%d \", {});", call).unwrap();
            write!(o, "{} ", if v != 0.0 { 7 } else { 3 }).unwrap();
            continue;
        }
        if let Some(t) = dlit(v) {
            write!(line, " printf(\"%d%d%d \", {} == {}, {} < {}, {} > {});", call, t, call, t, call, t).unwrap();
            o.push_str("100 ");
        }
        if v.trunc() >= -2147483648.0 && v.trunc() <= 2147483647.0 && castable(&Double, &Int) {
            write!(line, " printf(\"%d \", (int){});", call).unwrap();
            write!(o, "{} ", v.trunc() as i64).unwrap();
        }
    }
    line.push_str(" printf(\"\\n\"); }\n");
    o.push('\n');
    p.say(line, o);
}

/// constant expressions of type int: enumeration values, array bounds, case labels, initialisers
pub fn cexpr(r: &mut Rng, n: i64, m: i64) -> T {
    let mut p = Probes { top: HEAD.to_string(), body: vec![], out: vec![] };
    for k in 0..n {
        let what = if m < 4 { m as usize } else { r.idx(4) };
        match what {
            0 => {
                let mut list = String::new();
                let mut next = 0i128;
                let mut vals = vec![];
                for j in 0..1 + r.idx(6) {
                    if r.pct(55) || next > Int.max() {
                        let (e, v) = konst(r, 3);
                        write!(list, "{}E{}_{} = {}", if j > 0 { ", " } else { "" }, k, j, e).unwrap();
                        next = v;
                    } else {
                        write!(list, "{}E{}_{}", if j > 0 { ", " } else { "" }, k, j).unwrap();
                    }
                    vals.push(next);
                    next += 1;
                }
                writeln!(p.top, "enum e{} {{ {} }};", k, list).unwrap();
                for (j, v) in vals.iter().enumerate() {
                    p.say(format!(" printf(\"%d %d\\n\", E{}_{}, E{}_{} < 5);\n", k, j, k, j), format!("{} {}\n", v, (*v < 5) as i32));
                }
            }
            1 => {
                let (e, v) = konst(r, 3);
                let (e, v) = if v > 0 && v < 300 { (e, v) } else { (format!("(({}) & 63) + 1", e), (v & 63) + 1) };
                let t = r.pick(INTS).clone();
                let global = r.pct(40);
                let d = format!("{} a{}[{}];", name(&t), k, e);
                let f = format!("a{}[{}] = ({})5; a{}[0] = ({})7;", k, v - 1, name(&t), k, name(&t));
                let pr = format!("printf(\"%d %d\\n\", (int)sizeof(a{}), (int)a{}[{}]);", k, k, v - 1);
                let o = format!("{} {}\n", v * (t.bits() as i128 / 8), if v == 1 { 7 } else { 5 });
                if global {
                    writeln!(p.top, "{}", d).unwrap();
                    p.say(format!(" {} {}\n", f, pr), o);
                } else {
                    p.say(format!(" {{ {} {} {} }}\n", d, f, pr), o);
                }
            }
            2 => {
                let mut labels: Vec<(String, i128)> = vec![];
                for _ in 0..2 + r.idx(5) {
                    let (e, v) = konst(r, 2);
                    if labels.iter().all(|l| l.1 != v) {
                        labels.push((e, v));
                    }
                }
                writeln!(p.top, "int s{}(int x) {{ switch (x) {{", k).unwrap();
                for (j, l) in labels.iter().enumerate() {
                    writeln!(p.top, " case {}: return {};", l.0, j + 1).unwrap();
                }
                p.top.push_str(" default: return 0; }\n return 0; }\n");
                for (j, l) in labels.iter().enumerate() {
                    p.say(format!(" printf(\"%d \", s{}({}));\n", k, lit(l.1)), format!("{} ", j + 1));
                    if l.1 < Int.max() {
                        let w = labels.iter().position(|q| q.1 == l.1 + 1).map(|i| i + 1).unwrap_or(0);
                        p.say(format!(" printf(\"%d\\n\", s{}({}));\n", k, lit(l.1 + 1)), format!("{}\n", w));
                    }
                }
            }
            _ => {
                let (e, v) = konst(r, 4);
                let t = r.pick(INTS).clone();
                let global = r.pct(60);
                let d = format!("{} g{} = {};", name(&t), k, e);
                let pr = format!("printf(\"%ld\\n\", (long)g{});", k);
                let o = format!("{}\n", Long.wrap(t.wrap(v)));
                if global {
                    writeln!(p.top, "{}", d).unwrap();
                    p.say(format!(" {}\n", pr), o);
                } else {
                    p.say(format!(" {{ {} {} }}\n", d, pr), o);
                }
            }
        }
    }
    let per = 1 + r.idx(6);
    let t = p.text(per);
    done(t, p.out)
}

/// a constant expression of type int and its value
fn konst(r: &mut Rng, d: u32) -> (String, i128) {
    if d == 0 || r.pct(15) {
        return match r.idx(6) {
            0 => {
                let c = *r.pick(b"aZ09 ~!");
                (format!("'{}'", c as char), c as i128)
            }
            1 => {
                let (t, v) = [("'\\n'", 10), ("'\\0'", 0), ("'\\x7f'", 127), ("'\\377'", -1), ("'\\\\'", 92), ("'\\''", 39)][r.idx(6)];
                (t.to_string(), v)
            }
            2 => {
                let v = r.below(70000) as i128;
                (format!("0{:o}", v), v)
            }
            3 => {
                let v = r.below(1 << 20) as i128;
                (if r.pct(50) { format!("0x{:x}", v) } else { format!("0X{:X}", v) }, v)
            }
            4 => {
                let v = [0, 1, 2147483647, 65536, 255][r.idx(5)];
                (v.to_string(), v)
            }
            _ => {
                let v = r.below(40) as i128;
                (v.to_string(), v)
            }
        };
    }
    for _ in 0..20 {
        match r.idx(10) {
            0 | 1 => {
                let (e, v) = konst(r, d - 1);
                let (t, w) = [("-", -v), ("~", !v), ("!", (v == 0) as i128), ("+", v), ("!", (v == 0) as i128)][r.idx(5)];
                if w <= Int.max() && w >= Int.min() {
                    return (format!("{}({})", t, e), w);
                }
            }
            2 => {
                let (c, x) = konst(r, d - 1);
                let (a, v) = konst(r, d - 1);
                let (b, w) = konst(r, d - 1);
                return (format!("({} ? {} : {})", par(&c), par(&a), par(&b)), if x != 0 { v } else { w });
            }
            _ => {
                let op = *r.pick(OPS);
                let (a, v) = konst(r, d - 1);
                let (b, mut w) = konst(r, d - 1);
                let mut b = b;
                if matches!(op, BinOp::Shl | BinOp::Shr) {
                    w = r.below(12) as i128;
                    b = w.to_string();
                }
                if let Some((x, _)) = arith(op, v, &Int, w, &Int) {
                    return (format!("({} {} {})", par(&a), op.text(), par(&b)), x);
                }
            }
        }
    }
    ("3".into(), 3)
}
fn par(e: &str) -> String {
    if e.chars().all(|c| c.is_ascii_alphanumeric()) || e.starts_with('(') && e.ends_with(')') && closed(e) {
        e.to_string()
    } else {
        format!("({})", e)
    }
}
fn closed(e: &str) -> bool {
    let mut d = 0;
    for (i, c) in e.char_indices() {
        match c {
            '(' => d += 1,
            ')' => {
                d -= 1;
                if d == 0 && i + 1 < e.len() {
                    return false;
                }
            }
            '\'' => return false,
            _ => {}
        }
    }
    true
}

/// small functions with many parameters and next to nothing else: the frame is the parameters
pub fn frames(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let mut out = String::new();
    let mut body = String::new();
    let tys = [Char, UChar, Short, UShort, Int, UInt, Long, ULong];
    for k in 0..1 + r.idx(4) {
        let np = 1 + r.below(n.max(1) as u64) as usize;
        let ps: Vec<Ty> = (0..np).map(|_| if m == 0 { Long } else if m == 1 { Char } else { r.pick(&tys).clone() }).collect();
        let vs: Vec<i128> = ps.iter().map(|t| t.wrap(r.range(-100, 100) as i128)).collect();
        let pl = ps.iter().enumerate().map(|(i, t)| format!("{} p{}", name(t), i)).collect::<Vec<_>>().join(", ");
        let al = ps.iter().zip(&vs).map(|(t, v)| format!("({}){}", name(t), lit(Long.wrap(*v)))).collect::<Vec<_>>().join(", ");
        let (i, j) = (r.idx(np), r.idx(np));
        let (b, v) = match r.idx(5) {
            0 => ("return 5;".to_string(), 5),
            1 => (format!("return (int)p{};", i), Int.wrap(vs[i])),
            2 => (format!("if (p{} == p{}) return 1; return 2;", i, j), if arith(BinOp::Eq, vs[i], &ps[i], vs[j], &ps[j]).unwrap().0 != 0 { 1 } else { 2 }),
            3 => (format!("p{} = ({})9; return (int)p{};", i, name(&ps[i]), j), if i == j { 9 } else { Int.wrap(vs[j]) }),
            _ => (format!("int x = (int)p{}; long y = (long)p{}; return x == (int)y;", i, j), (Int.wrap(vs[i]) == Int.wrap(vs[j])) as i128),
        };
        writeln!(t, "int f{}({}) {{ {} }}", k, pl, b).unwrap();
        writeln!(body, " printf(\"%d\\n\", f{}({}));", k, al).unwrap();
        writeln!(out, "{}", v).unwrap();
        // once more below a frame of its own, and with the result not used
        if r.pct(40) {
            writeln!(t, "int g{}() {{ return f{}({}) + 1; }}", k, k, al).unwrap();
            writeln!(body, " printf(\"%d\\n\", g{}()); f{}({});", k, k, al).unwrap();
            writeln!(out, "{}", v + 1).unwrap();
        }
    }
    write!(t, "int main() {{\n{} return 0;\n}}\n", body).unwrap();
    done(t, out.into_bytes())
}
