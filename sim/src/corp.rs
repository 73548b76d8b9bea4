//! Small C programs with the output C prescribes for each, put together into bigger ones.
use crate::rng::Rng;
use crate::scale::{PRun, T};
use std::fmt::Write;

struct Snip {
    once: bool, // it keeps state from one run to the next
    top: &'static str,
    body: &'static str,
    out: &'static str,
}

fn all() -> Vec<Snip> {
    let mut v = vec![];
    for s in include_str!("corpus.txt").split("@@@ ").skip(1) {
        let (head, rest) = s.split_once('\n').unwrap();
        let (top, rest) = rest.split_once("\n@@ body\n").unwrap();
        let (body, out) = rest.split_once("\n@@ out\n").unwrap();
        v.push(Snip { once: head.ends_with(" 1"), top, body, out });
    }
    v
}

const KEEP: &[&str] = &[
    "auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if", "int",
    "long", "register", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while",
    "printf", "strlen", "strcmp", "strcpy", "strcat", "strncmp", "strncpy", "strncat", "strchr", "strstr", "strrchr", "memset", "memcpy", "NULL",
    "size_t", "atoi", "atol", "strtol", "strtoul", "exit", "abs", "malloc", "free", "rand", "srand", "isalnum", "isalpha", "iscntrl", "isdigit",
    "isgraph", "islower", "isprint", "ispunct", "isspace", "isupper", "isxdigit", "toupper", "tolower", "main", "argc", "argv",
];

/// every name of the program's own with something after it
fn rename(s: &str, suf: &str) -> String {
    let b = s.as_bytes();
    let mut o = String::with_capacity(s.len() * 2);
    let mut k = 0;
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while k < b.len() {
        let start = k;
        let c = b[k];
        if c == b'"' || c == b'\'' {
            k += 1;
            while b[k] != c {
                k += if b[k] == b'\\' { 2 } else { 1 };
            }
            k += 1;
        } else if word(c) {
            while k < b.len() && (word(b[k]) || (c.is_ascii_digit() && b[k] == b'.')) {
                k += 1;
            }
        } else {
            k += 1;
        }
        let t = &s[start..k];
        o.push_str(t);
        if (c.is_ascii_alphabetic() || c == b'_') && !KEEP.contains(&t) {
            o.push_str(suf);
        }
    }
    o
}

pub fn corp(r: &mut Rng, n: i64, m: i64) -> T {
    let all = all();
    let mut pick: Vec<usize> = (0..all.len()).collect();
    for i in 0..pick.len() {
        let j = i + r.idx(pick.len() - i);
        pick.swap(i, j);
    }
    pick.truncate((n as usize).min(12));
    let mut text = String::new();
    for h in ["stdio", "string", "stdlib", "ctype", "stdint", "limits", "stdbool"] {
        let _ = writeln!(text, "#include <{}.h>", h);
    }
    let mut out = String::new();
    let mut main = String::new();
    let order: Vec<usize> = if m == 2 { (0..pick.len()).rev().collect() } else { (0..pick.len()).collect() };
    for &i in &order {
        let s = &all[pick[i]];
        let suf = format!("_{}", i);
        let (top, body) = (rename(s.top, &suf), rename(s.body, &suf));
        text.push_str(&top);
        text.push('\n');
        match m {
            // all in one function
            3 => {
                let _ = writeln!(main, "{{\n{}\n}}", body);
            }
            // one inside the other
            2 => {
                let next = if i + 1 < pick.len() { format!("run_{}();\n", i + 1) } else { String::new() };
                let _ = writeln!(text, "void run_{}() {{\n{}\n{}}}", i, body, next);
            }
            _ => {
                let _ = writeln!(text, "void run_{}() {{\n{}\n}}", i, body);
            }
        }
    }
    match m {
        1 => {
            let times = r.range(2, 40);
            let (mut lo, mut lt) = (String::new(), String::new());
            for (i, p) in pick.iter().enumerate() {
                if all[*p].once {
                    let _ = writeln!(main, "run_{}();", i);
                    out.push_str(all[*p].out);
                } else {
                    let _ = writeln!(lt, "run_{}();", i);
                    lo.push_str(all[*p].out);
                }
            }
            let _ = writeln!(main, "int k;\nfor (k = 0; k < {}; k++) {{\n{}}}", times, lt);
            for _ in 0..times {
                out.push_str(&lo);
            }
        }
        _ => {
            for p in &pick {
                out.push_str(all[*p].out);
            }
            if m == 2 {
                main.push_str("run_0();\n");
            } else if m != 3 {
                for i in 0..pick.len() {
                    let _ = writeln!(main, "run_{}();", i);
                }
            }
        }
    }
    let code = r.range(0, 255);
    let _ = writeln!(text, "int main() {{\n{}return {};\n}}", main, code);
    T { text, runs: vec![PRun { args: vec![], code: code as i32, out: out.into_bytes() }] }
}
