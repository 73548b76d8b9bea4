//! Programs whose size or shape is the point: each template grows one dimension of a program and
//! computes in Rust what the program must print.
use crate::rng::Rng;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct PRun {
    pub args: Vec<String>,
    pub code: i32,
    pub out: Vec<u8>,
}
pub struct T {
    pub text: String,
    pub runs: Vec<PRun>,
}
fn one(text: String, out: String) -> T {
    one_code(text, out, 0)
}
fn one_code(text: String, out: String, code: i32) -> T {
    T { text, runs: vec![PRun { args: vec![], code: code & 255, out: out.into_bytes() }] }
}

/// sizes at and around the places where encodings change
fn edge(r: &mut Rng, max: i64) -> i64 {
    let c = [1i64, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60, 62, 63, 64, 65, 66, 70, 100, 126, 127, 128, 129, 130, 150, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 40000, 50000];
    let v: Vec<i64> = c.iter().cloned().filter(|x| *x <= max).collect();
    if r.pct(75) {
        // the far end as often as the near
        let k = if r.pct(50) { r.idx(v.len()) } else { v.len() - 1 - r.idx(v.len().min(8)) };
        v[k]
    } else {
        r.range(1, max)
    }
}

pub const KINDS: &[(&str, i64, i64, i64)] = &[
    // name, largest n, largest n with optimised stack allocation (which is slow), largest m
    ("funcs", 300, 300, 3),
    ("params", 140, 80, 6),
    ("locals", 1100, 90, 4),
    ("globals", 600, 110, 4),
    ("strlit", 20000, 300, 3),
    ("strings", 400, 250, 3),
    ("switch", 200, 180, 6),
    ("nest", 80, 60, 5),
    ("consts", 64, 64, 4),
    ("body", 420, 300, 4),
    ("array", 50000, 50000, 6),
    ("expr", 300, 250, 4),
    ("calls", 140, 140, 3),
    ("recur", 900, 900, 4),
    ("structs", 300, 250, 3),
    ("seq", 66, 60, 6),
    ("sigs", 150, 150, 3),
    ("blocks", 120, 45, 4),
    ("chain", 100, 100, 3),
    ("cgraph", 24, 16, 7),
];

pub fn pick(r: &mut Rng, opt: bool) -> (String, i64, i64, u64) {
    let (k, n, o, m) = *r.pick(KINDS);
    let n = if opt { o } else { n };
    (k.to_string(), edge(r, n), r.range(0, m), r.next())
}

/// the compiler has no suffixed constants; no template depends on the suffix
fn bare(t: &str) -> String {
    let b = t.as_bytes();
    let mut o: Vec<u8> = Vec::with_capacity(b.len());
    let (mut k, mut quote) = (0, 0u8);
    while k < b.len() {
        let c = b[k];
        if quote != 0 {
            o.push(c);
            k += 1;
            if c == b'\\' && k < b.len() {
                o.push(b[k]);
                k += 1;
            } else if c == quote {
                quote = 0;
            }
        } else if c == b'"' || c == b'\'' {
            quote = c;
            o.push(c);
            k += 1;
        } else if c.is_ascii_alphanumeric() || c == b'_' {
            let s = k;
            while k < b.len() && (b[k].is_ascii_alphanumeric() || b[k] == b'_') {
                k += 1;
            }
            let mut e = k;
            if c.is_ascii_digit() {
                while e > s && matches!(b[e - 1], b'u' | b'U' | b'l' | b'L') {
                    e -= 1;
                }
            }
            o.extend_from_slice(&b[s..e]);
        } else {
            o.push(c);
            k += 1;
        }
    }
    String::from_utf8(o).unwrap()
}

pub fn build(kind: &str, n: i64, m: i64, seed: u64) -> T {
    let mut t = build0(kind, n, m, seed);
    t.text = bare(&t.text);
    t
}
fn build0(kind: &str, n: i64, m: i64, seed: u64) -> T {
    let mut r = Rng::new(seed);
    let n = n.max(1);
    match kind {
        "funcs" => funcs(&mut r, n, m),
        "params" => params(&mut r, n, m),
        "locals" => locals(&mut r, n, m),
        "globals" => globals(&mut r, n, m),
        "strlit" => strlit(&mut r, n, m),
        "strings" => strings(&mut r, n, m),
        "switch" => switch(&mut r, n, m),
        "nest" => nest(&mut r, n, m),
        "consts" => consts(&mut r, n, m),
        "body" => body(&mut r, n, m),
        "array" => array(&mut r, n, m),
        "expr" => expr(&mut r, n, m),
        "calls" => calls(&mut r, n, m),
        "recur" => recur(&mut r, n, m),
        "structs" => structs(&mut r, n, m),
        "seq" => seq(&mut r, n, m),
        "sigs" => sigs(&mut r, n, m),
        "blocks" => blocks(&mut r, n, m),
        "chain" => chain(&mut r, n, m),
        "vlaloop" => vlaloop(&mut r, n, m),
        "leak" => leak(&mut r, n, m),
        "tail" => tail(&mut r, n, m),
        "cgraph" => crate::cgraph::build(&mut r, n, m),
        "incl" => incl(&mut r, n, m),
        "corp" => crate::corp::corp(&mut r, n, m),
        "lib" => crate::libs::lib(&mut r, n, m),
        "ops" => crate::libs::ops(&mut r, n, m),
        "cexpr" => crate::libs::cexpr(&mut r, n, m),
        "frames" => crate::libs::frames(&mut r, n, m),
        k => panic!("no template {}", k),
    }
}

pub const HEAD: &str = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n";

fn funcs(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let mut cs = vec![];
    for i in 0..n {
        let (a, b) = (r.range(1, 1000) as u32, r.range(0, 100000) as u32);
        cs.push((a, b));
        if m == 1 && i > 0 {
            // each calls the one before
            writeln!(t, "unsigned int f{}(unsigned int x) {{ return f{}(x + {}) * {} + {}; }}", i, i - 1, b % 7, a, b).unwrap();
        } else {
            writeln!(t, "unsigned int f{}(unsigned int x) {{ return x * {} + {}; }}", i, a, b).unwrap();
        }
    }
    let mut out = String::new();
    let mut x: u32 = 7;
    t.push_str("int main() {\n unsigned int x = 7;\n");
    fn chain(cs: &[(u32, u32)], i: usize, x: u32) -> u32 {
        let (a, b) = cs[i];
        if i == 0 {
            x.wrapping_mul(a).wrapping_add(b)
        } else {
            chain(cs, i - 1, x.wrapping_add(b % 7)).wrapping_mul(a).wrapping_add(b)
        }
    }
    let mut done = 0;
    for i in 0..n as usize {
        if m == 2 && i % 2 == 1 || m == 1 && i + 8 < n as usize {
            continue; // some are never called
        }
        writeln!(t, " x = f{}(x);", i).unwrap();
        x = if m == 1 { chain(&cs, i, x) } else { x.wrapping_mul(cs[i].0).wrapping_add(cs[i].1) };
        done += 1;
        if done % 20 == 0 || i + 2 >= n as usize {
            t.push_str(" printf(\"%u\\n\", x);\n");
            writeln!(out, "{}", x).unwrap();
        }
    }
    t.push_str(" return 0;\n}\n");
    one(t, out)
}

fn params(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let mut out = String::new();
    let mut mainb = String::new();
    for (k, n) in [n, (n / 2).max(1), n % 7 + 1].into_iter().enumerate() {
        let tys: Vec<&str> = (0..n)
            .map(|i| if m == 0 { "unsigned int" } else { ["unsigned int", "unsigned long", "unsigned char", "int", "double"][(r.idx(5) + i as usize) % if m < 3 { 4 } else { 5 }] })
            .collect();
        write!(t, "unsigned long g{}(", k).unwrap();
        for i in 0..n as usize {
            write!(t, "{}{} p{}", if i > 0 { ", " } else { "" }, tys[i], i).unwrap();
        }
        t.push_str(") {\n unsigned long s = (unsigned long)17;\n");
        let vals: Vec<i64> = (0..n).map(|i| (i * 37 + 11) % 120).collect();
        let mut sum: u64 = 17;
        for i in 0..n as usize {
            if tys[i] == "double" {
                writeln!(t, " s = s * (unsigned long)3 + (unsigned long)(int)p{};", i).unwrap();
            } else {
                writeln!(t, " s = s * (unsigned long)3 + (unsigned long)p{};", i).unwrap();
            }
            sum = sum.wrapping_mul(3).wrapping_add(vals[i] as u64);
        }
        t.push_str(" return s;\n}\n");
        write!(mainb, " printf(\"%lu\\n\", g{}(", k).unwrap();
        for i in 0..n as usize {
            let v = match tys[i] {
                "double" => format!("{}.0", vals[i]),
                "unsigned int" => format!("{}u", vals[i]),
                "int" => format!("{}", vals[i]),
                o => format!("({}){}", o, vals[i]),
            };
            write!(mainb, "{}{}", if i > 0 { ", " } else { "" }, v).unwrap();
        }
        mainb.push_str("));\n");
        writeln!(out, "{}", sum).unwrap();
    }
    write!(t, "int main() {{\n{} return 3;\n}}\n", mainb).unwrap();
    one_code(t, out, 3)
}

fn locals(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    t.push_str("int main() {\n");
    let tys = ["unsigned int", "unsigned char", "unsigned long", "int"];
    let mut vs = vec![];
    for i in 0..n as usize {
        let ty = if m == 0 { tys[0] } else { tys[r.idx(if m == 1 { 2 } else { 4 })] };
        let v = r.range(0, 200);
        vs.push((ty, v));
        writeln!(t, " {} v{} = {};", ty, i, v).unwrap();
    }
    if m == 3 {
        // some have their address taken
        for i in (0..n as usize).step_by(7) {
            writeln!(t, " {}*q{} = &v{};", vs[i].0, i, i).unwrap();
        }
    }
    t.push_str(" unsigned long s = (unsigned long)1;\n");
    let mut s: u64 = 1;
    for i in (0..n as usize).rev() {
        if m == 3 && i % 7 == 0 {
            writeln!(t, " s = s * (unsigned long)5 + (unsigned long)*q{};", i).unwrap();
        } else {
            writeln!(t, " s = s * (unsigned long)5 + (unsigned long)v{};", i).unwrap();
        }
        s = s.wrapping_mul(5).wrapping_add(vs[i].1 as u64);
    }
    t.push_str(" printf(\"%lu\\n\", s);\n return 1;\n}\n");
    one_code(t, format!("{}\n", s), 1)
}

fn globals(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let tys = ["unsigned int", "unsigned char", "unsigned long", "int"];
    let mut vs = vec![];
    for i in 0..n as usize {
        let ty = tys[if m == 0 { 0 } else { r.idx(4) }];
        let v = if m == 2 && i % 3 == 0 { 0 } else { r.range(0, 250) };
        vs.push(v);
        if m == 2 && i % 3 == 0 {
            writeln!(t, "{} g{};", ty, i).unwrap();
        } else {
            writeln!(t, "{} g{} = {};", ty, i, v).unwrap();
        }
    }
    t.push_str("unsigned long sum() {\n unsigned long s = (unsigned long)1;\n");
    let sum = |vs: &[i64]| vs.iter().fold(1u64, |s, v| s.wrapping_mul(5).wrapping_add(*v as u64));
    for i in 0..n as usize {
        writeln!(t, " s = s * (unsigned long)5 + (unsigned long)g{};", i).unwrap();
    }
    t.push_str(" return s;\n}\nint main() {\n printf(\"%lu\\n\", sum());\n");
    let mut out = format!("{}\n", sum(&vs));
    for _ in 0..4 {
        let k = r.idx(n as usize);
        vs[k] = r.range(0, 99);
        writeln!(t, " g{} = {};\n printf(\"%lu\\n\", sum());", k, vs[k]).unwrap();
        writeln!(out, "{}", sum(&vs)).unwrap();
    }
    t.push_str(" return 0;\n}\n");
    one(t, out)
}

fn strlit(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let mk = |r: &mut Rng, n: i64| -> String { (0..n).map(|i| if i % 61 == 60 { ' ' } else { (b'a' + r.idx(26) as u8) as char }).collect() };
    let a = mk(r, n);
    let b = mk(r, r.clone().range(1, 40));
    let mut out = String::new();
    if m == 0 {
        writeln!(t, "char *g = \"{}\";\nint main() {{\n printf(\"%s\\n\", g);\n printf(\"%d %c\\n\", (int)strlen(g), g[{}]);\n", a, n - 1).unwrap();
    } else if m == 1 {
        writeln!(t, "int main() {{\n char s[] = \"{}\";\n printf(\"%s\\n\", s);\n printf(\"%d %c\\n\", (int)strlen(s), s[{}]);\n", a, n - 1).unwrap();
    } else {
        writeln!(t, "int main() {{\n char *s = \"{}\";\n printf(\"%s\\n\", s);\n printf(\"%d %c\\n\", (int)strlen(s), s[{}]);\n", a, n - 1).unwrap();
    }
    writeln!(out, "{}\n{} {}", a, n, &a[a.len() - 1..]).unwrap();
    writeln!(t, " printf(\"{}\\n\");\n printf(\"{}%d\\n\", 5);\n return 0;\n}}", b, a).unwrap();
    writeln!(out, "{}\n{}5", b, a).unwrap();
    one(t, out)
}

fn strings(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let mut out = String::new();
    t.push_str("int main() {\n char *p;\n int k = 0;\n");
    for i in 0..n {
        let len = r.range(0, if m == 0 { 3 } else { 30 });
        let s: String = (0..len).map(|_| (b'A' + r.idx(26) as u8) as char).collect();
        match (i + m) % 3 {
            0 => {
                writeln!(t, " printf(\"{}\\n\");", s).unwrap();
                writeln!(out, "{}", s).unwrap();
            }
            1 => {
                writeln!(t, " p = \"{}\";\n printf(\"%s %d\\n\", p, (int)strlen(p));", s).unwrap();
                writeln!(out, "{} {}", s, len).unwrap();
            }
            _ => {
                writeln!(t, " p = \"{}\";\n if (*p) k++;", s).unwrap();
            }
        }
    }
    t.push_str(" printf(\"end\\n\");\n return 0;\n}\n");
    out.push_str("end\n");
    one(t, out)
}

fn switch(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let mut out = String::new();
    // distinct case values
    let mut vals: Vec<i64> = vec![];
    for i in 0..n {
        let v = match m {
            0 => i,
            1 => i * 3 - n,
            2 => i * 1000 + (i * i) % 777,
            3 => -i,
            _ => r.range(-2_000_000_000, 2_000_000_000),
        };
        if !vals.contains(&v) {
            vals.push(v);
        }
    }
    let dflt = r.idx(vals.len() + 1);
    let arms: Vec<(u32, bool)> = vals.iter().map(|_| (r.range(1, 999) as u32, !r.pct(20))).collect();
    t.push_str("unsigned int f(int x) {\n unsigned int s = 1;\n switch (x) {\n");
    for (i, v) in vals.iter().enumerate() {
        if i == dflt {
            t.push_str("  default: s = s * 7 + 2;\n  break;\n");
        }
        write!(t, "  case {}: s = s * 3 + {};\n", v, arms[i].0).unwrap();
        if arms[i].1 {
            t.push_str("  break;\n");
        }
    }
    if dflt == vals.len() {
        t.push_str("  default: s = s * 7 + 2;\n");
    }
    t.push_str(" }\n return s;\n}\nint main() {\n");
    let f = |x: i64| -> u32 {
        let mut s: u32 = 1;
        match vals.iter().position(|v| *v == x) {
            None => s = 9,
            Some(mut k) => loop {
                s = s.wrapping_mul(3).wrapping_add(arms[k].0);
                if arms[k].1 {
                    break;
                }
                k += 1;
                if k == dflt {
                    s = s.wrapping_mul(7).wrapping_add(2);
                    break;
                }
                if k == vals.len() {
                    break;
                }
            },
        }
        s
    };
    let mut probe: Vec<i64> = (0..12).map(|_| vals[r.idx(vals.len())]).collect();
    probe.extend([vals[0], vals[vals.len() - 1], vals[vals.len() - 1] + 1, 2_000_000_001, -1, 0]);
    for p in probe {
        writeln!(t, " printf(\"%u\\n\", f({}));", p).unwrap();
        writeln!(out, "{}", f(p)).unwrap();
    }
    t.push_str(" return 0;\n}\n");
    one(t, out)
}

fn nest(r: &mut Rng, n: i64, m: i64) -> T {
    // a tower of constructs; each level does something before and after the level inside
    #[derive(Clone)]
    enum L {
        If(bool),
        For(u32),
        While(u32),
        Do(u32),
        Block,
        Switch(bool),
        Else,
    }
    let mut budget: u64 = 3000;
    let ls: Vec<(L, u32, u32, u8)> = (0..n)
        .map(|_| {
            let mut k = r.idx(if m == 0 { 1 } else { 7 });
            if matches!(k, 1 | 2 | 3) && budget < 4 {
                k = 0;
            }
            let it = if budget >= 40 { 2 } else { 1 };
            let l = match k {
                0 => L::If(true),
                1 => L::For(it),
                2 => L::While(it),
                3 => L::Do(it),
                4 => L::Block,
                5 => L::Switch(true),
                _ => L::Else,
            };
            if matches!(l, L::For(_) | L::While(_) | L::Do(_)) {
                budget /= it as u64;
            }
            (l, r.range(1, 50) as u32, r.range(1, 50) as u32, r.idx(10) as u8)
        })
        .collect();
    let mut t = HEAD.to_string();
    t.push_str("int main() {\n unsigned int s = 1;\n");
    for i in 0..n {
        writeln!(t, " int i{};", i).unwrap();
    }
    let mut tail = vec![];
    for (i, (l, a, b, q)) in ls.iter().enumerate() {
        // q: 0 = break after the inner level, 1 = continue after it (loops only)
        let post = match (l, q) {
            (L::For(_) | L::While(_) | L::Do(_), 0) => format!("s = s * 3 + {}; break; }}", b),
            (L::For(_), 1) => format!("s = s * 3 + {}; continue; }}", b),
            _ => format!("s = s * 3 + {}; }}", b),
        };
        match l {
            L::If(_) => {
                writeln!(t, "if (s != 0u || i{} == {}) {{ s = s * 5 + {};", 0, a, a).unwrap();
                tail.push(post);
            }
            L::Else => {
                writeln!(t, "if (s == s + 1u) s = 0; else {{ s = s * 5 + {};", a).unwrap();
                tail.push(post);
            }
            L::For(k) => {
                writeln!(t, "for (i{} = 0; i{} < {}; i{}++) {{ s = s * 5 + {};", i, i, k, i, a).unwrap();
                tail.push(post);
            }
            L::While(k) => {
                writeln!(t, "i{} = 0; while (i{} < {}) {{ i{}++; s = s * 5 + {};", i, i, k, i, a).unwrap();
                tail.push(post);
            }
            L::Do(k) => {
                writeln!(t, "i{} = 0; do {{ i{}++; s = s * 5 + {};", i, i, a).unwrap();
                tail.push(format!("{} while (i{} < {});", post, i, k));
            }
            L::Block => {
                writeln!(t, "{{ s = s * 5 + {};", a).unwrap();
                tail.push(post);
            }
            L::Switch(_) => {
                writeln!(t, "switch ({}) {{ case {}: s = 0; break; case {}: s = s * 5 + {};", a, a + 1, a, a).unwrap();
                tail.push(format!("s = s * 3 + {}; break; default: s = 99; }}", b));
            }
        }
    }
    t.push_str("s = s + 13;\n");
    for x in tail.iter().rev() {
        writeln!(t, "{}", x).unwrap();
    }
    t.push_str(" printf(\"%u\\n\", s);\n return 0;\n}\n");
    fn go(ls: &[(L, u32, u32, u8)], i: usize, s: &mut u32) {
        if i == ls.len() {
            *s = s.wrapping_add(13);
            return;
        }
        let (l, a, b, q) = &ls[i];
        let times = match l {
            L::For(k) | L::While(k) | L::Do(k) => *k,
            _ => 1,
        };
        for _ in 0..times {
            if let L::If(_) = l {
                // both disjuncts can be false
                if *s == 0 {
                    return;
                }
            }
            *s = s.wrapping_mul(5).wrapping_add(*a);
            go(ls, i + 1, s);
            *s = s.wrapping_mul(3).wrapping_add(*b);
            if *q == 0 && matches!(l, L::For(_) | L::While(_) | L::Do(_)) {
                break;
            }
        }
    }
    // i0 is read by the ifs: give it a value no test matches
    let t = t.replacen(" int i0;\n", " int i0 = -5;\n", 1);
    let mut s = 1;
    go(&ls, 0, &mut s);
    one(t, format!("{}\n", s))
}

fn consts(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let mut out = String::new();
    t.push_str("int main() {\n long v; int w; unsigned int u; double d;\n");
    let mut list: Vec<i64> = vec![];
    for k in 0..n.min(63) {
        for dl in [-1i64, 0, 1] {
            let v = (1i64 << k).wrapping_add(dl);
            list.push(v);
            list.push(v.wrapping_neg());
        }
    }
    for _ in 0..n {
        list.push((r.next() >> r.idx(63)) as i64);
    }
    list.retain(|v| *v != i64::MIN);
    for v in list {
        let fits = v >= -2147483647 && v <= 2147483647;
        // decimal constants between INT_MAX and UINT_MAX are the one range where this dialect's types differ
        if !fits && (v.unsigned_abs() < 1 << 32) {
            continue;
        }
        match m {
            0 | 1 => {
                writeln!(t, " v = {}; printf(\"%ld\\n\", v);", v).unwrap();
                writeln!(out, "{}", v).unwrap();
            }
            2 => {
                writeln!(t, " v = {}; v = v ^ (long)5; printf(\"%ld\\n\", v);", v).unwrap();
                writeln!(out, "{}", v ^ 5).unwrap();
            }
            _ if fits && v >= 0 => {
                writeln!(t, " u = {}u; printf(\"%u\\n\", u + 3u);", v).unwrap();
                writeln!(out, "{}", (v as u32).wrapping_add(3)).unwrap();
            }
            _ => {}
        }
        if fits {
            writeln!(t, " w = {}; printf(\"%d\\n\", w);", v).unwrap();
            writeln!(out, "{}", v).unwrap();
            if m == 3 {
                writeln!(t, " w = {}; printf(\"%d %d\\n\", w == {}, w > {});", v, v, v - if v > -2147483647 { 1 } else { 0 }).unwrap();
                writeln!(out, "1 {}", (v > -2147483647) as i32).unwrap();
            }
            if m == 4 {
                writeln!(t, " d = {}.0; printf(\"%d\\n\", (int)d);", v).unwrap();
                writeln!(out, "{}", v).unwrap();
            }
        }
    }
    t.push_str(" return 0;\n}\n");
    one(t, out)
}

fn body(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    t.push_str("unsigned int f(unsigned int x, unsigned int y) {\n");
    let (mut x, mut y): (u32, u32) = (3, 4);
    for i in 0..n {
        let (a, b) = (r.range(1, 5000) as u32, r.range(1, 5000) as u32);
        match if m == 0 { 0 } else { r.idx(4) } {
            0 => {
                writeln!(t, " x = x * {} + y;", a).unwrap();
                x = x.wrapping_mul(a).wrapping_add(y);
            }
            1 => {
                writeln!(t, " if (x > {}u) y = y + {}; else y = y ^ {};", a, b, i).unwrap();
                y = if x > a { y.wrapping_add(b) } else { y ^ i as u32 };
            }
            2 => {
                writeln!(t, " y += x / {};", a).unwrap();
                y = y.wrapping_add(x / a);
            }
            _ => {
                writeln!(t, " x = (x ^ {}u) - (y % {}u);", a, b).unwrap();
                x = (x ^ a).wrapping_sub(y % b);
            }
        }
    }
    t.push_str(" return x ^ y;\n}\nint main() { printf(\"%u\\n\", f(3u, 4u)); return 0; }\n");
    one(t, format!("{}\n", x ^ y))
}

fn array(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let (ty, sz) = [("char", 1), ("int", 4), ("long", 8), ("short", 2), ("unsigned char", 1)][r.idx(5)];
    let n = (n / sz).max(1);
    let modu = 100;
    let mut guard = String::new();
    let mut out = String::new();
    let (ga, gb) = (r.range(1, 99999), r.range(1, 99999));
    if m % 2 == 0 {
        writeln!(t, "int ga = {};\n{} a[{}];\nint gb = {};\nint main() {{\n int i; unsigned int s = 1;", ga, ty, n, gb).unwrap();
    } else {
        writeln!(t, "int main() {{\n int ga = {};\n {} a[{}];\n int gb = {};\n int i; unsigned int s = 1;", ga, ty, n, gb).unwrap();
    }
    guard.push_str(" printf(\"%d %d\\n\", ga, gb);\n");
    let step = if n > 5000 { n / 1200 + 1 } else { 1 };
    let mut s: u32 = 1;
    writeln!(t, " for (i = 0; i < {}; i += {}) a[i] = ({})(i % {});", n, step, ty, modu).unwrap();
    writeln!(t, " a[{}] = 77;", n - 1).unwrap();
    writeln!(t, " for (i = 0; i < {}; i += {}) s = s * 31 + (unsigned int)a[i];", n, step).unwrap();
    writeln!(t, " printf(\"%u %d\\n\", s, (int)a[{}]);", n - 1).unwrap();
    let mut i = 0;
    while i < n {
        let v = if i == n - 1 { 77 } else { i % modu };
        s = s.wrapping_mul(31).wrapping_add(v as u32);
        i += step;
    }
    writeln!(out, "{} 77", s).unwrap();
    t.push_str(&guard);
    writeln!(out, "{} {}", ga, gb).unwrap();
    t.push_str(" return 0;\n}\n");
    one(t, out)
}

fn expr(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let vars: [u32; 4] = [3, 70000, 11, 255];
    t.push_str("int main() {\n unsigned int a = 3, b = 70000, c = 11, d = 255;\n");
    let names = ["a", "b", "c", "d"];
    let mut e = "a".to_string();
    let mut v = vars[0];
    for i in 0..n {
        let k = r.idx(4);
        let left = m == 1 || m > 1 && i % 2 == 0;
        let (op, nv) = match r.idx(4) {
            0 => ("+", v.wrapping_add(vars[k])),
            1 => ("*", v.wrapping_mul(vars[k])),
            2 => ("^", v ^ vars[k]),
            _ => ("-", if left { vars[k].wrapping_sub(v) } else { v.wrapping_sub(vars[k]) }),
        };
        e = if left { format!("{} {} ({})", names[k], op, e) } else { format!("({}) {} {}", e, op, names[k]) };
        v = nv;
        if n > 40 && i % 30 == 29 {
            // parentheses as deep as people write them, any number of steps
            writeln!(t, " a = {};", e).unwrap();
            e = "a".into();
            return expr_rest(r, t, v, n - i - 1, m);
        }
    }
    writeln!(t, " printf(\"%u\\n\", {});\n return 0;\n}}", e).unwrap();
    one(t, format!("{}\n", v))
}
fn expr_rest(r: &mut Rng, mut t: String, mut v: u32, n: i64, _m: i64) -> T {
    // one flat sum of many terms
    let mut e = "a".to_string();
    for _ in 0..n {
        let k = r.range(1, 70000) as u32;
        write!(e, " + {}u", k).unwrap();
        v = v.wrapping_add(k);
    }
    writeln!(t, " printf(\"%u\\n\", {});\n return 0;\n}}", e).unwrap();
    one(t, format!("{}\n", v))
}

fn calls(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    t.push_str("unsigned int f(unsigned int x, unsigned int y) { return x * 3 + y; }\nunsigned int g(unsigned int x) { return x + 1; }\nint main() {\n");
    let mut e = "5u".to_string();
    let mut v: u32 = 5;
    for _ in 0..n.min(60) {
        let k = r.range(0, 99) as u32;
        if m == 0 || r.pct(50) {
            e = format!("g({})", e);
            v = v.wrapping_add(1);
        } else if r.pct(50) {
            e = format!("f({}, {}u)", e, k);
            v = v.wrapping_mul(3).wrapping_add(k);
        } else {
            e = format!("f({}u, {})", k, e);
            v = k.wrapping_mul(3).wrapping_add(v);
        }
    }
    let mut out = String::new();
    writeln!(t, " printf(\"%u\\n\", {});", e).unwrap();
    writeln!(out, "{}", v).unwrap();
    // and many calls in one expression
    let mut e = "0u".to_string();
    let mut v: u32 = 0;
    for i in 0..n {
        write!(e, " + f({}u, {}u)", i, i % 7).unwrap();
        v = v.wrapping_add((i as u32) * 3 + (i % 7) as u32);
    }
    writeln!(t, " printf(\"%u\\n\", {});\n return 0;\n}}", e).unwrap();
    writeln!(out, "{}", v).unwrap();
    one(t, out)
}

fn recur(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let k = r.range(1, 20) as u32;
    let big = r.range(1, 6);
    // temporaries and all, it has to fit in the runtime's memory
    let n = n.min(40000 / (90 + big * 4));
    match m {
        0 => writeln!(t, "unsigned int f(unsigned int n) {{ if (n == 0u) return {}; return f(n - 1u) * 3 + n; }}", k).unwrap(),
        1 => writeln!(t, "unsigned int f(unsigned int n) {{ unsigned int a[{}]; if (n == 0u) return {}; a[{}] = n; unsigned int q = f(n - 1u); return q * 3 + a[{}]; }}", big, k, big - 1, big - 1).unwrap(),
        2 => writeln!(t, "unsigned int g(unsigned int n);\nunsigned int f(unsigned int n) {{ if (n == 0u) return {}; return g(n - 1u) * 3 + n; }}\nunsigned int g(unsigned int n) {{ unsigned int q; if (n == 0u) return {}; q = n; return f(n - 1u) * 3 + q; }}", k, k).unwrap(),
        _ => writeln!(t, "unsigned int f(unsigned int n) {{ unsigned int s = n; while (n > 0u) {{ s = f(n - 1u) * 3 + s; break; }} if (n == 0u) s = {}; return s; }}", k).unwrap(),
    }
    let mut v = k;
    for i in 1..=n as u32 {
        v = v.wrapping_mul(3).wrapping_add(i);
    }
    writeln!(t, "int main() {{ printf(\"%u\\n\", f({}u)); return 0; }}", n).unwrap();
    one(t, format!("{}\n", v))
}

fn structs(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let tys = ["unsigned int", "unsigned char", "unsigned long", "int"];
    t.push_str("struct big {\n");
    let mut f = vec![];
    for i in 0..n {
        let ty = tys[if m == 0 { 0 } else { r.idx(4) }];
        writeln!(t, " {} m{};", ty, i).unwrap();
        f.push((ty, r.range(0, 250)));
    }
    t.push_str("};\n");
    if m == 2 {
        t.push_str("struct big s;\n");
    }
    t.push_str("unsigned long sum(struct big *p) {\n unsigned long s = (unsigned long)1;\n");
    for i in 0..n {
        writeln!(t, " s = s * (unsigned long)7 + (unsigned long)p->m{};", i).unwrap();
    }
    t.push_str(" return s;\n}\nint main() {\n");
    if m != 2 {
        t.push_str(" struct big s;\n");
    }
    let mut s: u64 = 1;
    for i in 0..n as usize {
        writeln!(t, " s.m{} = {};", i, f[i].1).unwrap();
        s = s.wrapping_mul(7).wrapping_add(f[i].1 as u64);
    }
    t.push_str(" printf(\"%lu\\n\", sum(&s));\n return 0;\n}\n");
    one(t, format!("{}\n", s))
}

fn seq(r: &mut Rng, n: i64, m: i64) -> T {
    // many constructs after each other in one function
    let mut t = HEAD.to_string();
    t.push_str("int main() {\n unsigned int s = 1; int i;\n");
    let mut s: u32 = 1;
    for _ in 0..n {
        let (a, b) = (r.range(1, 90) as u32, r.range(1, 4) as u32);
        match if m == 0 { 0 } else { r.idx(6) } {
            0 => {
                writeln!(t, " for (i = 0; i < {}; i++) s = s * 3 + {};", b, a).unwrap();
                for _ in 0..b {
                    s = s.wrapping_mul(3).wrapping_add(a);
                }
            }
            1 => {
                writeln!(t, " if (s % {} == 1u) s += {}; else s ^= {};", b + 1, a, a).unwrap();
                s = if s % (b + 1) == 1 { s.wrapping_add(a) } else { s ^ a };
            }
            2 => {
                writeln!(t, " i = 0; do {{ s = s + {}; i++; if (s % 2 == 0) continue; s = s * 3; }} while (i < {});", a, b).unwrap();
                for _ in 0..b {
                    s = s.wrapping_add(a);
                    if s % 2 != 0 {
                        s = s.wrapping_mul(3);
                    }
                }
            }
            3 => {
                writeln!(t, " switch (s % 3) {{ case 0: s += {}; break; case 1: s ^= {}; default: s = s * 5; }}", a, a).unwrap();
                match s % 3 {
                    0 => s = s.wrapping_add(a),
                    1 => s = (s ^ a).wrapping_mul(5),
                    _ => s = s.wrapping_mul(5),
                }
            }
            4 => {
                writeln!(t, " i = 0; while (1) {{ s = s * 3 + {}; if (i >= {}) break; i++; }}", a, b).unwrap();
                for _ in 0..=b {
                    s = s.wrapping_mul(3).wrapping_add(a);
                }
            }
            _ => {
                writeln!(t, " if (s > {}u && s % 2 == 0 || s % 7 == {}) s = s / 2;", a, b).unwrap();
                if s > a && s % 2 == 0 || s % 7 == b {
                    s /= 2;
                }
            }
        }
    }
    t.push_str(" printf(\"%u\\n\", s);\n return 0;\n}\n");
    one(t, format!("{}\n", s))
}

fn sigs(r: &mut Rng, n: i64, m: i64) -> T {
    let tys = ["int", "unsigned int", "long", "double", "char", "unsigned long", "unsigned char"];
    let mut t = HEAD.to_string();
    let mut mainb = String::new();
    let mut out = String::new();
    let mut acc = 0i64;
    for i in 0..n {
        let np = 1 + (i % 5) as usize + (m as usize);
        let ps: Vec<&str> = (0..np).map(|_| *r.pick(&tys)).collect();
        let void = r.pct(20);
        write!(t, "{} h{}(", if void { "void" } else { "int" }, i).unwrap();
        for (k, p) in ps.iter().enumerate() {
            write!(t, "{}{} p{}", if k > 0 { ", " } else { "" }, p, k).unwrap();
        }
        let q = r.idx(np);
        let v: Vec<i64> = (0..np).map(|_| r.range(0, 100)).collect();
        if void {
            writeln!(t, ") {{ if (p{} > ({}) {}) printf(\"{} big\\n\"); }}", q, ps[q], 50, i).unwrap();
        } else {
            writeln!(t, ") {{ return (int) p{} + {}; }}", q, i).unwrap();
        }
        let args: Vec<String> = ps.iter().zip(&v).map(|(p, v)| if *p == "double" { format!("{}.0", v) } else { format!("({}) {}", p, v) }).collect();
        if void {
            writeln!(mainb, " h{}({});", i, args.join(", ")).unwrap();
            if v[q] > 50 {
                writeln!(out, "{} big", i).unwrap();
            }
        } else {
            writeln!(mainb, " s += h{}({});", i, args.join(", ")).unwrap();
            acc += v[q] + i;
        }
    }
    writeln!(t, "int main() {{\n int s = 0;\n{} printf(\"%d\\n\", s);\n return 0;\n}}", mainb).unwrap();
    writeln!(out, "{}", acc).unwrap();
    one(t, out)
}

fn blocks(r: &mut Rng, n: i64, m: i64) -> T {
    // shadowing: each block has its own x
    let mut t = HEAD.to_string();
    t.push_str("int main() {\n unsigned int x = 1; unsigned int s = 0;\n");
    let mut s: u32 = 0;
    let mut xs: Vec<u32> = vec![1];
    let mut open = 0;
    for i in 0..n {
        let deep = if m == 0 { 1 } else { 30 };
        if open < deep && r.pct(60) {
            let v = r.range(0, 1000) as u32;
            if m == 2 {
                writeln!(t, " {{ unsigned int x = {}; unsigned int y{}[3]; y{}[1] = x;", v, i, i).unwrap();
            } else {
                writeln!(t, " {{ unsigned int x = {};", v).unwrap();
            }
            xs.push(v);
            open += 1;
        } else if open > 0 {
            t.push_str(" }\n");
            xs.pop();
            open -= 1;
        }
        let k = r.range(1, 9) as u32;
        writeln!(t, " s = s * 3 + x; x = x + {};", k).unwrap();
        s = s.wrapping_mul(3).wrapping_add(*xs.last().unwrap());
        let l = xs.len() - 1;
        xs[l] = xs[l].wrapping_add(k);
    }
    for _ in 0..open {
        t.push_str(" }\n");
    }
    t.push_str(" printf(\"%u %u\\n\", s, x);\n return 0;\n}\n");
    one(t, format!("{} {}\n", s, xs[0]))
}

fn chain(r: &mut Rng, n: i64, m: i64) -> T {
    // else-if chains, && and || chains, ternaries
    let mut t = HEAD.to_string();
    let mut out = String::new();
    let vals: Vec<u32> = (0..n).map(|i| (i * 7 + 3) as u32).collect();
    t.push_str("unsigned int f(unsigned int x) {\n");
    for (i, v) in vals.iter().enumerate() {
        writeln!(t, " {}if (x == {}u) return {};", if i > 0 { "else " } else { "" }, v, i).unwrap();
    }
    t.push_str(" else return 999;\n}\nint g(unsigned int x) {\n return ");
    for (i, v) in vals.iter().enumerate() {
        write!(t, "{}x {} {}u", if i > 0 { if m == 0 { " || " } else { " && " } } else { "" }, if m == 0 { "==" } else { "!=" }, v).unwrap();
        if i > 40 {
            break;
        }
    }
    t.push_str(";\n}\nint main() {\n");
    let seen = &vals[..vals.len().min(42)];
    for _ in 0..8 {
        let x = if r.pct(70) { vals[r.idx(vals.len())] } else { r.range(0, 2000) as u32 };
        writeln!(t, " printf(\"%u %d\\n\", f({}u), g({}u));", x, x).unwrap();
        let f = vals.iter().position(|v| *v == x).map_or(999, |p| p);
        let g = if m == 0 { seen.contains(&x) } else { !seen.contains(&x) };
        writeln!(out, "{} {}", f, g as i32).unwrap();
    }
    t.push_str(" return 0;\n}\n");
    one(t, out)
}

/// loops of completed calls: twice the same program, few and many rounds, told apart by argv only
/// an array whose length is not constant, declared where a loop comes round to it
fn vlaloop(r: &mut Rng, n: i64, m: i64) -> T {
    let mut t = HEAD.to_string();
    let a = r.range(2, 900) as u32;
    t.push_str("int main(int argc, char **argv) {\n unsigned int n = (unsigned int)strtoul(argv[1], NULL, 10); unsigned int i = 0; unsigned int s = 1;\n");
    let (head, tail) = [("for (i = 0; i < n; i++) {", "}"), ("while (i < n) {", "i++; }"), ("do {", "i++; } while (i < n);")][m as usize % 3];
    writeln!(t, " {}\n unsigned int b[i % 8 + 1]; b[i % 8] = s * {}; s = s + b[i % 8] + i;\n {}", head, a, tail).unwrap();
    t.push_str(" printf(\"%u\\n\", s);\n return (int)(s % 100u);\n}\n");
    let runs = [64u32, n.clamp(150, 4000) as u32]
        .iter()
        .map(|n| {
            let s = (0..*n).fold(1u32, |s, i| s.wrapping_add(s.wrapping_mul(a)).wrapping_add(i));
            PRun { args: vec![format!("{:05}", n)], code: (s % 100) as i32, out: format!("{}\n", s).into_bytes() }
        })
        .collect();
    T { text: t, runs }
}

fn leak(r: &mut Rng, n: i64, m: i64) -> T {
    // few is enough for every function to have met every residue of its argument
    let rounds = [64u32, n.clamp(150, 4000) as u32];
    let mut t = HEAD.to_string();
    #[derive(Clone)]
    enum F {
        Leaf(u32, u32),
        Arr(u32, usize, bool),
        Early(u32),
        Deep(u32),
        Loop(u32),
        Sw(u32),
        Vd(u32),
        Big(u32),
        Ptr(u32),
        Lib(u32),
        Goto(u32),
        Vla(u32),
        VlaRec(u32),
        VlaIn(u32),
    }
    let nf = 3 + (m as usize % 6);
    let fs: Vec<F> = (0..nf)
        .map(|_| {
            let a = r.range(1, 900) as u32;
            match r.idx(15) {
                11 => F::Vla(a),
                12 => F::VlaRec(a),
                13 => F::VlaIn(a),
                0 => F::Leaf(a, r.range(0, 9) as u32),
                1 => F::Arr(a, r.range(2, 60) as usize, r.pct(50)),
                2 => F::Early(a),
                3 => F::Deep(a),
                4 => F::Loop(a),
                5 => F::Sw(a),
                6 => F::Vd(a),
                7 => F::Big(a),
                8 => F::Ptr(a),
                9 => F::Lib(a),
                _ => F::Goto(a),
            }
        })
        .collect();
    t.push_str("unsigned int acc = 1;\n");
    for (i, f) in fs.iter().enumerate() {
        match f {
            F::Leaf(a, b) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ return x * {} + y + {}; }}", i, a, b),
            F::Arr(a, n, inner) => writeln!(
                t,
                "unsigned int k{}(unsigned int x, unsigned int y) {{ unsigned int i; unsigned int s = 0; {}for (i = 0; i < 4u; i++) {{ {} b[i % {}u] = x + i; s = s * {} + b[i % {}u]; }} return s + y; }}",
                i,
                if *inner { String::new() } else { format!("unsigned int b[{}]; ", n) },
                if *inner { format!("unsigned int b[{}];", n) } else { String::new() },
                n, a, n
            ),
            F::Early(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ unsigned int q[5]; q[2] = y; if (x % 3 == 0u) return q[2] + {}; if (x % 3 == 1u) {{ unsigned int z[9]; z[1] = x; return z[1]; }} while (1) {{ return x ^ {}u; }} }}", i, a, a),
            F::Deep(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ if (y % 8 == 0u) return x + {}; return k{}(x, (y % 8) - 1u) * 3 + 1; }}", i, a, i),
            F::Loop(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ int i; for (i = 0; i < 6; i++) {{ if (i == 2) continue; if (i == 5) break; x = x * {} + y; }} return x; }}", i, a),
            F::Sw(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ switch (x % 4) {{ case 0: return y; case 1: {{ unsigned int w[3]; w[0] = x; return w[0] * {}; }} case 2: x = x + 1; default: x = x ^ y; }} return x; }}", i, a),
            F::Vd(a) => writeln!(t, "void k{}_(unsigned int x) {{ if (x % 2 == 0u) return; acc = acc * 3 + {}; }}\nunsigned int k{}(unsigned int x, unsigned int y) {{ k{}_(x); k{}_(y); return acc; }}", i, a, i, i, i),
            F::Big(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ char big[1500]; long l = (long)x; big[1499] = (char)(y % 100); return (unsigned int)l * {} + (unsigned int)big[1499]; }}", i, a),
            F::Ptr(a) => writeln!(t, "void k{}_(unsigned int *p, unsigned int v) {{ *p = *p * {} + v; }}\nunsigned int k{}(unsigned int x, unsigned int y) {{ k{}_(&x, y); k{}_(&y, x); return x ^ y; }}", i, a, i, i, i),
            F::Lib(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ char s[8]; s[0] = (char)('0' + x % 10); s[1] = (char)('0' + y % 10); s[2] = (char)0; return (unsigned int)strtol(s, NULL, 10) * {} + (unsigned int)strlen(s); }}", i, a),
            F::Vla(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ unsigned int n = y % 8 + 3; unsigned int b[n]; char c[n + 1]; unsigned int i; for (i = 0; i < n; i++) {{ b[i] = x * {} + i; c[i] = (char)(i + 40); }} c[n] = (char)1; unsigned int s = 0; for (i = 0; i < n; i++) s = s * 3 + b[i] + (unsigned int)c[i]; return s + (unsigned int)c[n]; }}", i, a),
            F::VlaRec(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ unsigned int b[y % 8 + 1]; b[y % 8] = x; if (y % 8 == 0u) return x + {}; unsigned int q = k{}(x + 1, y % 8 - 1); return q * 3 + b[y % 8]; }}", i, a, i),
            F::VlaIn(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ unsigned int s = y; if (y % 8 < 4u) {{ unsigned int b[y % 8 + 2]; b[1] = x; b[0] = {}; s = s + b[1] * b[0]; }} else {{ unsigned int d[y % 8 + 5][2]; d[y % 8][1] = x; d[y % 8][0] = y; s = s ^ d[y % 8][1]; }} return s; }}", i, a),
            F::Goto(a) => writeln!(t, "unsigned int k{}(unsigned int x, unsigned int y) {{ unsigned int i = 0; again: x = x * {} + y; i++; if (i < 3u) goto again; return x; }}", i, a),
        }
        .unwrap();
    }
    // the loop itself
    let style = r.idx(4);
    t.push_str("int main(int argc, char **argv) {\n unsigned int n = (unsigned int)strtoul(argv[1], NULL, 10); unsigned int i = 0; unsigned int s = 1;\n");
    match style {
        0 => t.push_str(" for (i = 0; i < n; i++) {\n"),
        1 => t.push_str(" while (i < n) {\n"),
        2 => t.push_str(" do {\n"),
        _ => t.push_str(" again: {\n"),
    }
    t.push_str(" unsigned int loc[4]; loc[1] = i;\n");
    for i in 0..nf {
        writeln!(t, " if (i % {}u == {}u) s = k{}(s, loc[1]) + s;", nf, i, i).unwrap();
    }
    t.push_str(" if (i % 7u == 3u) { ");
    t.push_str(match style {
        0 => "continue; }\n s = s + 1; }\n",
        1 => "i++; continue; }\n s = s + 1; i++; }\n",
        2 => "s = s + 2; }\n s = s + 1; i++; } while (i < n);\n",
        _ => "s = s + 2; }\n s = s + 1; i++; }\n if (i < n) goto again;\n",
    });
    t.push_str(" printf(\"%u\\n\", s);\n return (int)(s % 100u);\n}\n");
    let k = |f: &F, x0: u32, y0: u32, acc: &mut u32| -> u32 {
        let (mut x, mut y) = (x0, y0);
        match f {
            F::Leaf(a, b) => x.wrapping_mul(*a).wrapping_add(y).wrapping_add(*b),
            F::Arr(a, _, _) => {
                let mut s: u32 = 0;
                for i in 0..4u32 {
                    s = s.wrapping_mul(*a).wrapping_add(x.wrapping_add(i));
                }
                s.wrapping_add(y)
            }
            F::Early(a) => match x % 3 {
                0 => y.wrapping_add(*a),
                1 => x,
                _ => x ^ a,
            },
            F::Deep(a) => {
                let d = y % 8;
                let mut v = x.wrapping_add(*a);
                for _ in 0..d {
                    v = v.wrapping_mul(3).wrapping_add(1);
                }
                v
            }
            F::Loop(a) => {
                for _ in 0..4 {
                    x = x.wrapping_mul(*a).wrapping_add(y);
                }
                x
            }
            F::Sw(a) => match x % 4 {
                0 => y,
                1 => x.wrapping_mul(*a),
                2 => x.wrapping_add(1) ^ y,
                _ => x ^ y,
            },
            F::Vd(a) => {
                for q in [x, y] {
                    if q % 2 != 0 {
                        *acc = acc.wrapping_mul(3).wrapping_add(*a);
                    }
                }
                *acc
            }
            F::Big(a) => x.wrapping_mul(*a).wrapping_add(y % 100),
            F::Ptr(a) => {
                x = x.wrapping_mul(*a).wrapping_add(y);
                y = y.wrapping_mul(*a).wrapping_add(x);
                x ^ y
            }
            F::Lib(a) => (x % 10 * 10 + y % 10).wrapping_mul(*a).wrapping_add(2),
            F::Vla(a) => {
                let n = y % 8 + 3;
                (0..n).fold(0u32, |s, i| s.wrapping_mul(3).wrapping_add(x.wrapping_mul(*a).wrapping_add(i)).wrapping_add(i + 40)).wrapping_add(1)
            }
            F::VlaRec(a) => {
                let d = y % 8;
                let mut v = x.wrapping_add(d).wrapping_add(*a);
                for i in (0..d).rev() {
                    v = v.wrapping_mul(3).wrapping_add(x.wrapping_add(i));
                }
                v
            }
            F::VlaIn(a) => {
                if y % 8 < 4 {
                    y.wrapping_add(x.wrapping_mul(*a))
                } else {
                    y ^ x
                }
            }
            F::Goto(a) => {
                for _ in 0..3 {
                    x = x.wrapping_mul(*a).wrapping_add(y);
                }
                x
            }
        }
    };
    let mut runs = vec![];
    for n in rounds {
        let mut acc = 1u32;
        let mut s = 1u32;
        for i in 0..n {
            let j = (i as usize) % nf;
            s = k(&fs[j], s, i, &mut acc).wrapping_add(s);
            if i % 7 == 3 {
                if style < 2 {
                    continue;
                }
                s = s.wrapping_add(2);
            }
            s = s.wrapping_add(1);
        }
        runs.push(PRun { args: vec![format!("{:05}", n)], code: (s % 100) as i32, out: format!("{}\n", s).into_bytes() });
    }
    T { text: t, runs }
}

/// self tail recursion at two depths
fn tail(r: &mut Rng, n: i64, m: i64) -> T {
    let depths = [12u32, n.clamp(13, 30000) as u32];
    let mut t = HEAD.to_string();
    let k = r.range(1, 3000) as u32;
    let extra = r.idx(6);
    let tys: Vec<&str> = (0..extra).map(|_| *r.pick(&["unsigned int", "unsigned long", "unsigned char", "double", "char *", "unsigned short"])).collect();
    let shape = m % 6;
    let mut ps = vec!["unsigned int n".to_string(), "unsigned int s".to_string()];
    // the counter need not come first
    let swap = r.pct(40);
    for (i, ty) in tys.iter().enumerate() {
        ps.push(format!("{} e{}", ty, i));
    }
    let names: Vec<String> = (0..extra).map(|i| format!("e{}", i)).collect();
    let rot = extra > 1 && r.pct(50) && tys.iter().all(|t| *t == tys[0]);
    let mut order: Vec<usize> = (0..ps.len()).collect();
    if swap {
        order.rotate_left(1);
    }
    let list = |v: Vec<String>| -> String { order.iter().map(|i| v[*i].clone()).collect::<Vec<_>>().join(", ") };
    let call = |n: &str, s: &str| -> String {
        let mut v = vec![n.to_string(), s.to_string()];
        for i in 0..extra {
            v.push(if rot { names[(i + 1) % extra].clone() } else { names[i].clone() });
        }
        format!("f({})", list(v))
    };
    writeln!(t, "unsigned int f({}) {{", list(ps)).unwrap();
    let upd = |s: u32, n: u32| -> u32 { s.wrapping_mul(k).wrapping_add(n) };
    let sx = format!("s * {}u + n", k);
    match shape {
        0 => writeln!(t, " if (n == 0u) return s;\n return {};", call("n - 1u", &sx)).unwrap(),
        1 => writeln!(t, " unsigned int q = {}; unsigned long w = (unsigned long)n;\n if (n > 0u) {{ return {}; }} else {{ return s; }}", sx, call("(unsigned int)w - 1u", "q")).unwrap(),
        2 => writeln!(t, " if (n == 0u) return s;\n if (n % 2 == 0u) return {};\n return {};", call("n - 1u", &sx), call("n - 1u", &sx)).unwrap(),
        3 => writeln!(t, " switch (n) {{ case 0: return s; default: return {}; }}", call("n - 1u", &sx)).unwrap(),
        4 => writeln!(t, " do {{ while (n > 0u) {{ return {}; }} }} while (n > 0u);\n return s;", call("n - 1u", &sx)).unwrap(),
        _ => writeln!(t, " unsigned int i; for (i = 0; i < 2u; i++) {{ if (i == 1u) s = {}; }}\n if (n != 0u) return {};\n return s;", "s + 1u", call("n - 1u", &sx)).unwrap(),
    }
    t.push_str("}\nint main(int argc, char **argv) {\n unsigned int n = (unsigned int)strtoul(argv[1], NULL, 10);\n");
    let mut v = vec!["n".to_string(), "5u".to_string()];
    for (i, ty) in tys.iter().enumerate() {
        v.push(match *ty {
            "double" => format!("{}.5", i),
            "char *" => "argv[1]".to_string(),
            o => format!("({}){}", o, i + 3),
        });
    }
    writeln!(t, " printf(\"%u\\n\", f({}));\n return 0;\n}}", list(v)).unwrap();
    let runs = depths
        .iter()
        .map(|d| {
            let mut s = 5u32;
            let mut n = *d;
            loop {
                let s1 = if shape == 5 { s.wrapping_add(1) } else { s };
                if n == 0 {
                    s = s1;
                    break;
                }
                s = upd(s1, n);
                n -= 1;
            }
            PRun { args: vec![format!("{:05}", d)], code: 0, out: format!("{}\n", s).into_bytes() }
        })
        .collect();
    T { text: t, runs }
}

/// where a header is included, and what is defined at every place of the source
fn incl(r: &mut Rng, n: i64, _m: i64) -> T {
    const H: &[(&str, &str, i64)] = &[("limits.h", "INT_MAX", 2147483647), ("stdbool.h", "true", 1), ("stdlib.h", "EXIT_SUCCESS", 0)];
    fn line(r: &mut Rng, h: &str) -> String {
        match r.idx(10) {
            9 => format!("#include <{}> /* it goes on\n#define A 7\n and on */", h),
            0 => format!("#include<{}>", h),
            1 => format!("#include \"{}\"", h),
            2 => format!("  #  include <{}>", h),
            3 => format!("#include <{}> // for \"x\" and <y>", h),
            4 => format!("#include\t<{}> /* \"all\" > */", h),
            5 => format!("#\tinclude\"{}\"", h),
            _ => format!("#include <{}>", h),
        }
    }
    let mut t = String::new();
    let mut out = String::new();
    let mut inc = [false; 3];
    let mut def: Vec<(String, Option<i64>)> = H.iter().map(|h| (h.1.to_string(), None)).collect();
    for k in 0..1 + r.idx(4) {
        def.push((["A", "B_1", "stdio", "INT_MIN_", "include"][k].to_string(), None));
    }
    let mut funcs = vec![];
    let mut stdio = false;
    let mut open = false;
    for k in 0..n.max(4) {
        let last = k + 1 == n.max(4);
        if !open {
            if !stdio && (r.pct(50) || last) {
                writeln!(t, "{}", line(r, "stdio.h")).unwrap();
                stdio = true;
            }
            if stdio && (r.pct(50) || last) {
                writeln!(t, "int f{}(int q) {{", funcs.len()).unwrap();
                funcs.push(String::new());
                open = true;
            }
        }
        let d = r.idx(def.len());
        match r.idx(10) {
            0 | 1 => {
                let h = r.idx(if open { 2 } else { 3 });
                writeln!(t, "{}", line(r, H[h].0)).unwrap();
                if !inc[h] {
                    inc[h] = true;
                    def[h].1 = Some(H[h].2);
                }
            }
            2 => {
                let h = r.idx(2);
                let l = line(r, H[h].0);
                if r.pct(50) || l.contains("/*") {
                    writeln!(t, "#if 0\n{}\n#endif", l).unwrap();
                } else {
                    writeln!(t, "/* not this one:\n{}\n*/", l).unwrap();
                }
            }
            3 if d >= 3 => {
                let v = r.range(0, 999);
                if def[d].1.is_some() {
                    writeln!(t, "#undef {}", def[d].0).unwrap();
                }
                writeln!(t, "#define {} {}", def[d].0, v).unwrap();
                def[d].1 = Some(v);
            }
            4 if r.pct(40) => {
                writeln!(t, "#undef {}", def[d].0).unwrap();
                def[d].1 = None;
            }
            5 => {
                // a header under a condition
                let h = r.idx(if open { 2 } else { 3 });
                let neg = r.pct(50);
                writeln!(t, "#if{} {}\n{}\n#endif", if neg { "ndef" } else { "def" }, def[d].0, line(r, H[h].0)).unwrap();
                if def[d].1.is_some() != neg && !inc[h] {
                    inc[h] = true;
                    def[h].1 = Some(H[h].2);
                }
            }
            _ if open => {
                let f = funcs.len() - 1;
                match def[d].1 {
                    Some(v) if r.pct(50) => {
                        writeln!(t, " printf(\"%d\\n\", {});", def[d].0).unwrap();
                        writeln!(funcs[f], "{}", v).unwrap();
                    }
                    v => {
                        writeln!(t, "#ifdef {}\n printf(\"{} %d\\n\", {} + q);\n#else\n printf(\"no {} %d\\n\", q);\n#endif", def[d].0, k, if v == Some(2147483647) { "0" } else { &def[d].0 }, k).unwrap();
                        match v {
                            Some(2147483647) => writeln!(funcs[f], "{} {}", k, f).unwrap(),
                            Some(v) => writeln!(funcs[f], "{} {}", k, v + f as i64).unwrap(),
                            None => writeln!(funcs[f], "no {} {}", k, f).unwrap(),
                        }
                    }
                }
            }
            _ => (),
        }
        if open && (r.pct(20) || last) {
            t.push_str(" return q;\n}\n");
            open = false;
        }
    }
    t.push_str("int main() {\n int s = 0;\n");
    let mut s = 0;
    for (f, o) in funcs.iter().enumerate() {
        writeln!(t, " s += f{}({});", f, f).unwrap();
        out.push_str(o);
        s += f as i32;
    }
    writeln!(t, " return s % 100;\n}}").unwrap();
    T { text: t, runs: vec![PRun { args: vec![], code: s % 100, out: out.into_bytes() }] }
}
