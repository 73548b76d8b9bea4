//! Programs whose call graph is the point: chains, cycles and unreached parts of small functions that
//! call each other in and out of tail position, with permuted, constant and pointer arguments.
use crate::rng::Rng;
use crate::scale::{PRun, T};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    Ptr,
}
impl Ty {
    fn c(self) -> &'static str {
        match self {
            Ty::U8 => "unsigned char",
            Ty::U16 => "unsigned short",
            Ty::U32 => "unsigned int",
            Ty::U64 => "unsigned long",
            Ty::I8 => "char",
            Ty::I16 => "short",
            Ty::I32 => "int",
            Ty::I64 => "long",
            Ty::Ptr => "unsigned int *",
        }
    }
    fn cut(self, v: u64) -> u64 {
        match self {
            Ty::U8 => v & 255,
            Ty::U16 => v & 65535,
            Ty::U64 | Ty::I64 => v,
            Ty::I8 => v as i8 as i64 as u64,
            Ty::I16 => v as i16 as i64 as u64,
            Ty::I32 => v as u32 as i32 as i64 as u64,
            _ => v & 0xffff_ffff,
        }
    }
}
#[derive(Clone, Debug)]
enum E {
    P(usize),
    K(u64),
    G,
    Deref(usize),
    Bin(char, Box<E>, Box<E>),
    /// the local whose address is taken
    Loc,
    AddrLoc,
}
#[derive(Clone, Debug)]
struct C(usize, u64, u64, bool);
#[derive(Clone, Debug)]
struct Call(usize, Vec<E>, bool);
#[derive(Clone, Debug)]
enum S {
    Print(usize),
    Upd(usize, E),
    Glob(E),
    Store(usize, E),
    SetLoc(E),
    CallUpd(usize, Call),
    Plain(Call),
    If(C, Vec<S>, Vec<S>),
    Sw(usize, Vec<Vec<S>>),
    Loop(C, Vec<S>),
    Ret(E),
    RetCall(Call),
    RetTern(C, Call, Call),
    RetMix(E, Call),
    RetVar(Call),
}
struct F {
    ret: Ty,
    ps: Vec<Ty>,
    kpos: usize,
    loc: bool,
    body: Vec<S>,
}
struct M<'a> {
    fs: &'a [F],
    g: u64,
    cells: Vec<u64>,
    out: String,
    steps: u64,
}
impl Ty {
    fn wide(self) -> bool {
        matches!(self, Ty::U64 | Ty::I64)
    }
}
impl M<'_> {
    /// value of a whole expression
    fn ev(&self, f: &F, a: &[u64], loc: usize, e: &E) -> (u64, bool) {
        match e {
            E::P(i) => (a[*i], f.ps[*i].wide()),
            _ => self.part(f, a, loc, e),
        }
    }
    /// value as an unsigned number and whether it is 64 bits wide
    fn part(&self, f: &F, a: &[u64], loc: usize, e: &E) -> (u64, bool) {
        match e {
            E::P(i) => (if f.ps[*i].wide() { a[*i] } else { a[*i] & 0xffff_ffff }, f.ps[*i].wide()),
            E::K(k) => (*k, false),
            E::G => (self.g, false),
            E::Deref(i) => (self.cells[a[*i] as usize], false),
            E::Loc => (self.cells[loc], false),
            E::AddrLoc => (loc as u64, false),
            E::Bin(o, x, y) => {
                let ((x, p), (y, q)) = (self.part(f, a, loc, x), self.part(f, a, loc, y));
                let w = p || q;
                let v = match o {
                    '+' => x.wrapping_add(y),
                    '-' => x.wrapping_sub(y),
                    '*' => x.wrapping_mul(y),
                    '^' => x ^ y,
                    _ => x & y,
                };
                (if w { v } else { v & 0xffff_ffff }, w)
            }
        }
    }
    fn cond(&self, f: &F, a: &[u64], c: &C) -> bool {
        (self.part(f, a, 0, &E::P(c.0)).0 % c.1 == c.2) != c.3
    }
    fn callv(&mut self, f: &F, a: &[u64], loc: usize, c: &Call) -> u64 {
        let g = &self.fs[c.0];
        let mut v: Vec<u64> = c.1.iter().zip(&g.ps).map(|(e, t)| t.cut(self.ev(f, a, loc, e).0)).collect();
        let k = a[f.kpos];
        v[g.kpos] = if c.2 { k / 2 } else { k - 1 };
        self.run(c.0, v)
    }
    fn run(&mut self, n: usize, mut a: Vec<u64>) -> u64 {
        self.steps += 1;
        if self.steps > 6000 {
            return 0;
        }
        let f = &self.fs[n];
        let loc = self.cells.len();
        self.cells.push(0);
        let r = self.block(f, &mut a, loc, &f.body);
        self.cells.truncate(loc);
        f.ret.cut(r.expect("function without a return"))
    }
    fn block(&mut self, f: &F, a: &mut Vec<u64>, loc: usize, b: &[S]) -> Option<u64> {
        for s in b {
            match s {
                S::Print(i) => {
                    let v = a[*i];
                    writeln!(self.out, "{}", v).unwrap()
                }
                S::Upd(i, e) => a[*i] = f.ps[*i].cut(self.ev(f, a, loc, e).0),
                S::Glob(e) => self.g = Ty::U32.cut(self.g.wrapping_mul(31).wrapping_add(Ty::U32.cut(self.ev(f, a, loc, e).0))),
                S::Store(i, e) => {
                    let v = Ty::U32.cut(self.ev(f, a, loc, e).0);
                    self.cells[a[*i] as usize] = v
                }
                S::SetLoc(e) => self.cells[loc] = Ty::U32.cut(self.ev(f, a, loc, e).0),
                S::CallUpd(i, c) => {
                    let v = self.callv(f, a, loc, c);
                    a[*i] = f.ps[*i].cut(a[*i].wrapping_add(v))
                }
                S::Plain(c) => {
                    self.callv(f, a, loc, c);
                }
                S::If(c, x, y) => {
                    let b = if self.cond(f, a, c) { x } else { y };
                    if let Some(v) = self.block(f, a, loc, b) {
                        return Some(v);
                    }
                }
                S::Sw(i, bs) => {
                    let k = (self.part(f, a, 0, &E::P(*i)).0 % bs.len() as u64) as usize;
                    if let Some(v) = self.block(f, a, loc, &bs[k]) {
                        return Some(v);
                    }
                }
                S::Loop(c, b) => {
                    // ends: the body returns or the counter runs out
                    for _ in 0..3 {
                        if self.cond(f, a, c) {
                            if let Some(v) = self.block(f, a, loc, b) {
                                return Some(v);
                            }
                        }
                    }
                }
                S::Ret(e) => return Some(self.ev(f, a, loc, e).0),
                S::RetCall(c) | S::RetVar(c) => return Some(self.callv(f, a, loc, c)),
                S::RetTern(c, x, y) => {
                    let c = if self.cond(f, a, c) { x } else { y };
                    return Some(self.callv(f, a, loc, c));
                }
                S::RetMix(e, c) => {
                    let (x, w) = self.part(f, a, loc, e);
                    let wide = self.fs[c.0].ret.wide();
                    let y = self.callv(f, a, loc, c);
                    let v = x.wrapping_add(if wide { y } else { y & 0xffff_ffff });
                    return Some(if w || wide { v } else { v & 0xffff_ffff });
                }
            }
        }
        None
    }
}
struct W<'a> {
    fs: &'a [F],
    f: &'a F,
    vars: usize,
}
impl W<'_> {
    fn e(&self, e: &E, top: bool) -> String {
        match e {
            E::P(i) => match self.f.ps[*i] {
                Ty::U8 | Ty::U16 | Ty::I8 | Ty::I16 | Ty::I32 if !top => format!("(unsigned int)p{}", i),
                Ty::I64 if !top => format!("(unsigned long)p{}", i),
                _ => format!("p{}", i),
            },
            // a constant without a cast is a signed one
            E::K(k) => {
                if top && *k < 0x8000_0000 {
                    format!("{}", k)
                } else {
                    format!("(unsigned int){}", k)
                }
            }
            E::G => "g".into(),
            E::Deref(i) => format!("*p{}", i),
            E::Loc => "loc".into(),
            E::AddrLoc => "&loc".into(),
            E::Bin(o, x, y) => format!("({} {} {})", self.e(x, false), o, self.e(y, false)),
        }
    }
    fn c(&self, c: &C) -> String {
        if c.1 == u32::MAX as u64 {
            return format!("p{} == 0", c.0);
        }
        let p = if self.f.ps[c.0].wide() { "(unsigned long)" } else { "(unsigned int)" };
        format!("{}p{} % (unsigned int){} {} (unsigned int){}", p, c.0, c.1, if c.3 { "!=" } else { "==" }, c.2)
    }
    fn call(&self, c: &Call) -> String {
        let g = &self.fs[c.0];
        let v: Vec<String> = c
            .1
            .iter()
            .enumerate()
            .map(|(i, e)| {
                if i == g.kpos {
                    if c.2 {
                        format!("p{} / 2", self.f.kpos)
                    } else {
                        format!("p{} - 1", self.f.kpos)
                    }
                } else {
                    self.e(e, true)
                }
            })
            .collect();
        format!("f{}({})", c.0, v.join(", "))
    }
    fn b(&mut self, t: &mut String, b: &[S], ind: usize) {
        let pad = " ".repeat(ind);
        for s in b {
            match s {
                S::Print(i) => writeln!(t, "{}printf(\"%lu\\n\", (unsigned long)p{});", pad, i).unwrap(),
                S::Upd(i, e) => writeln!(t, "{}p{} = {};", pad, i, self.e(e, true)).unwrap(),
                S::Glob(e) => writeln!(t, "{}g = g * (unsigned int)31 + (unsigned int)({});", pad, self.e(e, true)).unwrap(),
                S::Store(i, e) => writeln!(t, "{}*p{} = {};", pad, i, self.e(e, true)).unwrap(),
                S::SetLoc(e) => writeln!(t, "{}loc = {};", pad, self.e(e, true)).unwrap(),
                S::CallUpd(i, c) if matches!(self.f.ps[*i], Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64) => {
                    let p = format!("p{}", i);
                    writeln!(t, "{}{} = ({})((unsigned long){} + (unsigned long){});", pad, p, self.f.ps[*i].c(), p, self.call(c)).unwrap()
                }
                S::CallUpd(i, c) => writeln!(t, "{}p{} += {};", pad, i, self.call(c)).unwrap(),
                S::Plain(c) => writeln!(t, "{}{};", pad, self.call(c)).unwrap(),
                S::If(c, x, y) => {
                    writeln!(t, "{}if ({}) {{", pad, self.c(c)).unwrap();
                    self.b(t, x, ind + 1);
                    if !y.is_empty() {
                        writeln!(t, "{}}} else {{", pad).unwrap();
                        self.b(t, y, ind + 1);
                    }
                    writeln!(t, "{}}}", pad).unwrap();
                }
                S::Sw(i, bs) => {
                    let cast = if self.f.ps[*i].wide() { "(int)((unsigned long)" } else { "(int)((unsigned int)" };
                    writeln!(t, "{}switch ({}p{} % (unsigned int){})) {{", pad, cast, i, bs.len()).unwrap();
                    for (k, b) in bs.iter().enumerate() {
                        if k + 1 == bs.len() {
                            writeln!(t, "{}default: {{", pad).unwrap();
                        } else {
                            writeln!(t, "{}case {}: {{", pad, k).unwrap();
                        }
                        self.b(t, b, ind + 1);
                        if !ends(b) {
                            writeln!(t, "{} break;", pad).unwrap();
                        }
                        writeln!(t, "{}}}", pad).unwrap();
                    }
                    writeln!(t, "{}}}", pad).unwrap();
                }
                S::Loop(c, b) => {
                    let v = self.vars;
                    self.vars += 1;
                    writeln!(t, "{}for (int i{} = 0; i{} < 3; i{}++) {{\n{} if ({}) {{", pad, v, v, v, pad, self.c(c)).unwrap();
                    self.b(t, b, ind + 2);
                    writeln!(t, "{} }}\n{}}}", pad, pad).unwrap();
                }
                S::Ret(e) => writeln!(t, "{}return {};", pad, self.e(e, true)).unwrap(),
                S::RetCall(c) => writeln!(t, "{}return {};", pad, self.call(c)).unwrap(),
                S::RetVar(c) => {
                    let v = self.vars;
                    self.vars += 1;
                    writeln!(t, "{}{} r{} = {};\n{}return r{};", pad, self.fs[c.0].ret.c(), v, self.call(c), pad, v).unwrap()
                }
                S::RetTern(c, x, y) => writeln!(t, "{}return {} ? {} : {};", pad, self.c(c), self.call(x), self.call(y)).unwrap(),
                S::RetMix(e, c) => {
                    let r = if self.fs[c.0].ret.wide() { "(unsigned long)" } else { "(unsigned int)" };
                    writeln!(t, "{}return {} + {}{};", pad, self.e(e, false), r, self.call(c)).unwrap()
                }
            }
        }
    }
}
fn ends(b: &[S]) -> bool {
    match b.last() {
        Some(S::Ret(_)) | Some(S::RetCall(_)) | Some(S::RetVar(_)) | Some(S::RetTern(..)) | Some(S::RetMix(..)) => true,
        Some(S::If(_, x, y)) => ends(x) && ends(y),
        _ => false,
    }
}
struct G<'a> {
    r: &'a mut Rng,
    fs: Vec<F>,
    live: usize,
    shape: i64,
    me: usize,
}
impl G<'_> {
    fn scalars(&self) -> Vec<usize> {
        let f = &self.fs[self.me];
        (0..f.ps.len()).filter(|i| *i != f.kpos && f.ps[*i] != Ty::Ptr).collect()
    }
    fn ptrs(&self) -> Vec<usize> {
        let f = &self.fs[self.me];
        (0..f.ps.len()).filter(|i| f.ps[*i] == Ty::Ptr).collect()
    }
    fn expr(&mut self, depth: u32, state: bool) -> E {
        let (s, p) = (self.scalars(), self.ptrs());
        let k = self.r.idx(if depth == 0 { 60 } else { 100 });
        match k {
            0..=26 if !s.is_empty() => E::P(s[self.r.idx(s.len())]),
            27..=29 => E::P(self.fs[self.me].kpos),
            30..=33 if state => E::G,
            34..=44 if state && !p.is_empty() => E::Deref(p[self.r.idx(p.len())]),
            45..=50 if state && self.fs[self.me].loc => E::Loc,
            60..=99 => {
                let o = *self.r.pick(&['+', '-', '*', '^', '&']);
                let (x, y) = (self.expr(depth - 1, state), self.expr(depth - 1, state));
                E::Bin(o, Box::new(x), Box::new(y))
            }
            _ => E::K(*self.r.pick(&[0, 1, 2, 3, 7, 100, 127, 128, 255, 256, 1000, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff])),
        }
    }
    fn cond(&mut self) -> C {
        let s = self.scalars();
        let i = if s.is_empty() || self.r.pct(30) { self.fs[self.me].kpos } else { s[self.r.idx(s.len())] };
        let m = self.r.range(2, 4) as u64;
        C(i, m, self.r.below(m), self.r.pct(50))
    }
    /// the callee, by the shape of the graph
    fn callee(&mut self) -> usize {
        let (me, n) = (self.me, self.live);
        if me >= n {
            // an unreached function may call anything
            return self.r.idx(self.fs.len());
        }
        match self.shape {
            0 => (me + 1).min(n - 1),
            1 => (me + 1) % n,
            2 => {
                if me + 1 < n {
                    me + 1 + self.r.idx((n - me - 1).min(3))
                } else {
                    me
                }
            }
            3 => self.r.idx(n),
            4 | 6 | 7 => {
                if self.r.pct([40, 0, 70, 90][self.shape as usize - 4]) {
                    me
                } else {
                    (me + 1) % n
                }
            }
            _ => {
                if self.r.pct(25) {
                    me
                } else {
                    self.r.idx(n)
                }
            }
        }
    }
    fn call(&mut self, half: bool, want: Option<Ty>) -> Option<Call> {
        let mut c = self.callee();
        if let Some(t) = want {
            for _ in 0..4 {
                if self.fs[c].ret == t {
                    break;
                }
                c = self.callee();
            }
        }
        let ps = self.fs[c].ps.clone();
        let s = self.scalars();
        let p = self.ptrs();
        let mut v = vec![];
        for (i, t) in ps.iter().enumerate() {
            if *t == Ty::Ptr {
                let l = self.fs[self.me].loc;
                if l && (p.is_empty() || self.r.pct(50)) {
                    v.push(E::AddrLoc);
                } else if !p.is_empty() {
                    v.push(E::P(p[self.r.idx(p.len())]));
                } else {
                    return None;
                }
                continue;
            }
            // parameters passed on as they are, in another order
            v.push(match self.r.idx(10) {
                0..=4 if !s.is_empty() => E::P(s[self.r.idx(s.len())]),
                5 if i < s.len() => E::P(s[i]),
                6 | 7 => E::K(self.r.below(300)),
                _ => self.expr(2, true),
            });
        }
        Some(Call(c, v, half))
    }
    fn stmts(&mut self, depth: u32) -> Vec<S> {
        let mut b = vec![];
        for _ in 0..self.r.idx(3) {
            let (s, p) = (self.scalars(), self.ptrs());
            match self.r.idx(12) {
                0 if !s.is_empty() => b.push(S::Print(s[self.r.idx(s.len())])),
                1 | 2 if !s.is_empty() => {
                    let e = self.expr(2, true);
                    b.push(S::Upd(s[self.r.idx(s.len())], e))
                }
                3 | 4 => {
                    let e = self.expr(1, true);
                    b.push(S::Glob(e))
                }
                5 | 6 if !p.is_empty() => {
                    let e = self.expr(1, true);
                    b.push(S::Store(p[self.r.idx(p.len())], e))
                }
                7 if self.fs[self.me].loc => {
                    let e = self.expr(1, true);
                    b.push(S::SetLoc(e))
                }
                8 if !s.is_empty() && self.shape != 0 => {
                    if let Some(c) = self.call(true, None) {
                        b.push(S::CallUpd(s[self.r.idx(s.len())], c))
                    }
                }
                9 if self.shape != 0 => {
                    if let Some(c) = self.call(true, None) {
                        b.push(S::Plain(c))
                    }
                }
                10 if depth > 0 => {
                    let c = self.cond();
                    let x = if self.r.pct(60) { self.tail(depth - 1) } else { self.stmts(depth - 1) };
                    b.push(S::If(c, x, vec![]))
                }
                11 if depth > 0 => {
                    let c = self.cond();
                    let x = if self.r.pct(60) { self.tail(depth - 1) } else { self.stmts(depth - 1) };
                    b.push(S::Loop(c, x))
                }
                _ => (),
            }
        }
        b
    }
    /// statements that end in a return
    fn tail(&mut self, depth: u32) -> Vec<S> {
        let mut b = self.stmts(depth.min(1));
        let ret = self.fs[self.me].ret;
        let last = match self.r.idx(16) {
            0 | 1 if depth > 0 => {
                let c = self.cond();
                let (x, y) = (self.tail(depth - 1), self.tail(depth - 1));
                S::If(c, x, y)
            }
            2 if depth > 0 => {
                let i = self.cond().0;
                let n = 2 + self.r.idx(3);
                let bs: Vec<Vec<S>> = (0..n).map(|k| if k + 1 == n || self.r.pct(70) { self.tail(depth - 1) } else { self.stmts(depth - 1) }).collect();
                b.push(S::Sw(i, bs));
                match self.call(false, Some(ret)) {
                    Some(c) => S::RetCall(c),
                    None => S::Ret(self.expr(1, true)),
                }
            }
            3 => {
                let t = self.fs[self.me].ret;
                match (self.call(false, Some(t)), self.call(false, Some(t)), self.cond()) {
                    (Some(x), Some(y), c) if self.fs[x.0].ret == self.fs[y.0].ret => S::RetTern(c, x, y),
                    _ => S::Ret(self.expr(1, true)),
                }
            }
            4 => match self.call(true, None) {
                Some(c) => {
                    let e = self.expr(1, false);
                    S::RetMix(e, c)
                }
                None => S::Ret(self.expr(1, true)),
            },
            5 => match self.call(false, Some(ret)) {
                Some(c) => S::RetVar(c),
                None => S::Ret(self.expr(1, true)),
            },
            6 => S::Ret(self.expr(2, true)),
            _ => match self.call(false, Some(ret)) {
                Some(c) => S::RetCall(c),
                None => S::Ret(self.expr(1, true)),
            },
        };
        b.push(last);
        b
    }
}

pub fn build(r: &mut Rng, n: i64, m: i64) -> T {
    for _ in 0..20 {
        if let Some(t) = try_build(r, n, m) {
            return t;
        }
    }
    try_build(r, 1, 0).expect("a single function")
}
fn try_build(r: &mut Rng, n: i64, m: i64) -> Option<T> {
    let live = n.clamp(1, 40) as usize;
    let dead = if r.pct(60) { r.idx(4) } else { 0 };
    let shape = m % 8;
    // mostly one type of result, so that calls in tail position are tail calls
    let main_ty = *r.pick(&[Ty::U32, Ty::U32, Ty::I32, Ty::I32, Ty::I64, Ty::U64, Ty::U16, Ty::U8, Ty::I8, Ty::I16]);
    let same = r.pct(40);
    let np = 1 + r.idx(4);
    let sig: Vec<Ty> = (0..np).map(|_| *r.pick(&[Ty::I8, Ty::U8, Ty::I16, Ty::U16, Ty::U32, Ty::I32, Ty::I32, Ty::I64, Ty::U64, Ty::Ptr])).collect();
    let ptrs = r.pct(50);
    // all parameters of one type: arguments need no conversion
    let uni = if r.pct(45) { Some(*r.pick(&[Ty::I32, Ty::I32, Ty::I8, Ty::U8, Ty::U8, Ty::U8, Ty::U16, Ty::I16, Ty::U32, Ty::I64, Ty::U64])) } else { None };
    let mut fs = vec![];
    for _ in 0..live + dead {
        let mut ps = if same { sig.clone() } else { (0..r.idx(5)).map(|_| *r.pick(&[Ty::I8, Ty::U8, Ty::I16, Ty::U16, Ty::U32, Ty::I32, Ty::I32, Ty::I64, Ty::U64, Ty::Ptr])).collect() };
        if !ptrs {
            for p in ps.iter_mut() {
                if *p == Ty::Ptr {
                    *p = Ty::U32;
                }
            }
        }
        if ptrs && !ps.contains(&Ty::Ptr) && r.pct(60) {
            let at = r.idx(ps.len() + 1);
            ps.insert(at, Ty::Ptr);
        }
        if let Some(t) = uni {
            for p in ps.iter_mut() {
                if *p != Ty::Ptr {
                    *p = t;
                }
            }
        }
        let kpos = if r.pct(50) { 0 } else { r.idx(ps.len() + 1) };
        ps.insert(kpos, if r.pct(60) { Ty::I32 } else { Ty::U32 });
        let loc = ptrs && r.pct(60);
        fs.push(F { ret: if r.pct(80) { main_ty } else { *r.pick(&[Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::I32]) }, ps, kpos, loc, body: vec![] });
    }
    let mut g = G { r, fs, live, shape, me: 0 };
    for i in 0..g.fs.len() {
        g.me = i;
        let k = g.fs[i].kpos;
        let e = g.expr(2, true);
        // out of fuel: no more calls
        let mut b = vec![S::If(C(k, u32::MAX as u64, 0, false), vec![S::Ret(e)], vec![])];
        b.extend(g.tail(2));
        g.fs[i].body = b;
    }
    let G { r, fs, .. } = g;
    // how main calls the first function
    let mut t = crate::scale::HEAD.to_string();
    t.push_str("unsigned int g = 5;\n");
    let mut order: Vec<usize> = (0..fs.len()).collect();
    for i in (1..order.len()).rev() {
        let j = r.idx(i + 1);
        order.swap(i, j);
    }
    let head = |i: usize| -> String {
        let f = &fs[i];
        let ps: Vec<String> = f.ps.iter().enumerate().map(|(k, t)| format!("{} p{}", t.c(), k)).collect();
        format!("{} f{}({})", f.ret.c(), i, ps.join(", "))
    };
    for i in &order {
        writeln!(t, "{};", head(*i)).unwrap();
    }
    let mut mainf = String::new();
    let mut mm = M { fs: &fs, g: 5, cells: vec![], out: String::new(), steps: 0 };
    mainf.push_str("int main() {\n unsigned int c = 9;\n");
    mm.cells.push(9);
    let rounds = 1 + r.idx(3);
    let fin = r.pct(40);
    let mut code = 0;
    for q in 0..rounds {
        let f = &fs[0];
        let fuel = [0u64, 1, 2, 3, 5, 9, 17, 40][r.idx(8)];
        let mut v = vec![];
        let mut a = vec![];
        for (i, ty) in f.ps.iter().enumerate() {
            if *ty == Ty::Ptr {
                v.push("&c".to_string());
                a.push(0);
            } else {
                let k = if i == f.kpos { fuel } else { ty.cut(*r.pick(&[0, 1, 5, 77, 200, 255, 1000, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0001])) };
                v.push(format!("({}){}", ty.c(), k));
                a.push(ty.cut(k));
            }
        }
        mm.steps = 0;
        let res = mm.run(0, a);
        if mm.steps > 5000 {
            return None;
        }
        let call = format!("f0({})", v.join(", "));
        if r.pct(50) {
            writeln!(mainf, " printf(\"%lu\\n\", (unsigned long){});", call).unwrap();
        } else {
            writeln!(mainf, " {} r{} = {};\n printf(\"%lu\\n\", (unsigned long)r{});", f.ret.c(), q, call, q).unwrap();
        }
        writeln!(mm.out, "{}", res).unwrap();
        writeln!(mainf, " printf(\"%u %u\\n\", g, c);").unwrap();
        writeln!(mm.out, "{} {}", mm.g, mm.cells[0]).unwrap();
        code = (res & 127) as i32;
    }
    if fin {
        t.push_str("int fin(int k) {\n printf(\"end %d\\n\", k);\n return k;\n}\n");
        writeln!(mm.out, "end {}", code).unwrap();
        writeln!(mainf, " return fin({});\n}}", code).unwrap();
    } else {
        writeln!(mainf, " return {};\n}}", code).unwrap();
    }
    if mm.out.len() > 60000 {
        return None;
    }
    let out = mm.out;
    let at = r.idx(order.len() + 1);
    for (q, i) in order.iter().enumerate() {
        if q == at {
            t.push_str(&mainf);
        }
        let f = &fs[*i];
        let ps: Vec<String> = f.ps.iter().enumerate().map(|(k, t)| format!("{} p{}", t.c(), k)).collect();
        writeln!(t, "{} f{}({}) {{", f.ret.c(), i, ps.join(", ")).unwrap();
        if f.loc {
            t.push_str(" unsigned int loc = 0;\n");
        }
        let mut w = W { fs: &fs, f, vars: 0 };
        w.b(&mut t, &f.body, 1);
        t.push_str("}\n");
    }
    if at == order.len() {
        t.push_str(&mainf);
    }
    Some(T { text: t, runs: vec![PRun { args: vec![], code, out: out.into_bytes() }] })
}
