//! Seeded generator of mini-C programs. Programs are made without regard to undefined behaviour and
//! then repaired, node by node, until the model runs them to the end.
use crate::cprog::*;
use crate::interp::{self, Bad, Outcome};
use crate::rng::Rng;
use Ty::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub funcs: usize,
    pub stmts: usize,
    pub depth: u32,
    pub tys: Vec<Ty>,
    pub ptrs: bool,
    pub arrays: bool,
    pub structs: bool,
    pub strings: bool,
    pub switches: bool,
    pub gotos: bool,
    pub recursion: bool,
    pub globals: bool,
    pub libs: bool,
    pub doubles: bool,
    pub loops: bool,
    pub wild: bool, // extreme constants
    pub more: bool, // the wider subset: see gen_more
}

impl Cfg {
    pub fn swarm(r: &mut Rng) -> Cfg {
        let mut tys = vec![Int];
        for t in [Char, UChar, UInt, Long, ULong, Short, UShort] {
            if r.pct(if matches!(t, Short | UShort) { 25 } else { 55 }) {
                tys.push(t);
            }
        }
        Cfg {
            funcs: r.idx(5),
            stmts: [4, 8, 14, 25][r.idx(4)],
            depth: [1, 2, 3, 4][r.idx(4)],
            tys,
            ptrs: r.pct(55),
            arrays: r.pct(60),
            structs: r.pct(45),
            strings: r.pct(45),
            switches: r.pct(60),
            gotos: r.pct(25),
            recursion: r.pct(50),
            globals: r.pct(60),
            libs: r.pct(35),
            doubles: r.pct(30),
            loops: r.pct(85),
            wild: r.pct(50),
            more: r.pct(70),
        }
    }
    pub fn small(r: &mut Rng) -> Cfg {
        let mut c = Cfg::swarm(r);
        c.funcs = r.idx(3);
        c.stmts = 3 + r.idx(5);
        c.depth = 1 + r.idx(2) as u32;
        c
    }
}

#[derive(Clone, Debug)]
struct Sym {
    v: VarRef,
    ty: Ty,
    ro: bool,      // not to be assigned (loop counters)
    addr: bool,    // its address has been taken
    slen: usize,   // usable elements behind a pointer or in a string
    hid: bool,     // another variable has its name here
    nowr: bool,    // not to be written through
    term: bool,    // an array of characters that holds a terminated string
    strv: bool,    // points at a string (possibly a literal: never written through)
}

#[derive(Clone, Debug)]
struct FInfo {
    idx: usize,
    ret: Ty,
    params: Vec<Ty>,
    pure: bool,
    bounded: Option<usize>, // parameter that bounds its recursion
    plen: usize,            // elements it may touch behind pointer parameters
}

pub struct Gen<'r> {
    r: &'r mut Rng,
    p: Program,
    c: Cfg,
    syms: Vec<Sym>,
    fis: Vec<FInfo>,
    locals: Vec<Var>,
    budget: i64,
    loop_depth: u32,
    names: usize,
    impure: bool,
    ret: Ty,
    in_switch: bool,
    labels: usize,
    may_print: bool,
    may_write: bool,
    used: std::collections::HashSet<String>,
    nplain: usize,           // structs of arithmetic members
    block_mark: usize,       // first symbol of the innermost block
    outs: Vec<String>,       // labels that may be jumped to
    cols: usize,             // elements in the rows of arrays of arrays
    helpers: Vec<(usize, Ty, u8)>, // functions that return pointers
}

/// a step from an object to a part of it
#[derive(Clone, Debug, PartialEq)]
enum Step {
    D,               // *p
    E(usize),        // [i], i below that
    F(usize, usize), // member
}

#[path = "gen_more.rs"]
mod more;

const NAMES: &[&str] = &[
    "a", "b", "i", "j", "n", "x", "y", "tmp", "acc", "count", "iffy", "returned", "intx", "forward", "_v", "do_it", "charm", "longer", "whiles",
    "X", "sizeofx", "unsignedx", "structure", "enumerate", "voided", "gotcha", "elsewhere", "breaker", "casey", "switcher", "defaulted", "constant",
    "signedness", "doubled", "typedefs", "unionised", "externs", "floater", "shorter", "autos", "x1", "x_2", "T3",
];

impl<'r> Gen<'r> {
    fn e(&mut self, ty: Ty, k: EK) -> Expr {
        Expr { id: self.p.id(), ty, k }
    }
    fn s(&mut self, k: SK) -> Stmt {
        Stmt { id: self.p.id(), k }
    }
    fn int(&mut self, v: i128) -> Expr {
        let st = self.r.idx(5) as u8;
        let ty = if v > i32::MAX as i128 || v <= i32::MIN as i128 { Long } else { Int };
        self.e(ty, EK::Int(v, st))
    }
    fn name(&mut self) -> String {
        for _ in 0..20 {
            let n = self.r.pick(NAMES).to_string();
            if self.used.insert(n.clone()) {
                return n;
            }
        }
        self.names += 1;
        let n = format!("v{}", self.names);
        self.used.insert(n.clone());
        n
    }
    fn rnd_const(&mut self) -> i128 {
        let r = &mut self.r;
        let w = self.c.wild;
        match r.idx(if w { 8 } else { 5 }) {
            0 => r.range(0, 3) as i128,
            1 => r.range(-10, 20) as i128,
            2 => r.range(0, 127) as i128,
            3 => 1 << r.idx(12),
            4 => r.range(-1000, 1000) as i128,
            5 => *r.pick(&[127, 128, 255, 256, 32767, 32768, 65535, 65536, 63, 64, -64, -65, 8191, 8192, -8192, -8193, 1048575, 1048576, 2097151]) as i128,
            6 => r.range(-2147483647, 2147483647) as i128,
            _ => *r.pick(&[2147483647i128, -2147483647, 2147483646, 16777215, 16777216, 268435455, 268435456, -268435457, -134217728, 134217727]),
        }
    }
    fn long_const(&mut self) -> i128 {
        let r = &mut self.r;
        match r.idx(4) {
            0 => r.range(4294967297, 1 << 60) as i128,
            1 => -(r.range(4294967297, 1 << 60) as i128),
            2 => {
                let v = if r.pct(50) { r.range(2147483648, 4294967296) as i128 } else { *r.pick(&[2147483648i128, 4294967295, 4294967296, 3000000000]) };
                if r.pct(40) {
                    -v
                } else {
                    v
                }
            }
            _ => *r.pick(&[5000000000i128, -5000000000, 34359738368, 4398046511103, 4398046511104, 9007199254740993, 9223372036854775807]),
        }
    }
    fn cast(&mut self, e: Expr, ty: &Ty) -> Expr {
        if e.ty == *ty {
            return e;
        }
        self.e(ty.clone(), EK::Cast(Box::new(e)))
    }
    fn var(&mut self, s: &Sym) -> Expr {
        self.e(s.ty.clone(), EK::Var(s.v))
    }
    fn pick_sym(&mut self, f: impl Fn(&Sym) -> bool) -> Option<Sym> {
        let v: Vec<usize> = (0..self.syms.len()).filter(|i| !self.syms[*i].hid && f(&self.syms[*i])).collect();
        if v.is_empty() {
            return None;
        }
        Some(self.syms[v[self.r.idx(v.len())]].clone())
    }
    fn lit(&mut self, want: &Ty) -> Expr {
        match want {
            Double => {
                let v = match self.r.idx(8) {
                    // halfway between two printed values
                    0 => (self.r.range(0, 4000) * 2 + 1) as f64 / 128.0,
                    1 => self.r.range(0, 100000) as f64 / 1024.0,
                    _ => self.r.range(0, 400) as f64 / 4.0,
                };
                self.e(Double, EK::Dbl(v))
            }
            Int => {
                if !self.p.macros.is_empty() && self.r.pct(15) {
                    let (n, v) = self.p.macros[self.r.idx(self.p.macros.len())].clone();
                    return self.e(Int, EK::Named(n, v));
                }
                if !self.p.enums.is_empty() && self.r.pct(20) {
                    let k = self.r.idx(self.p.enums.len());
                    let j = self.r.idx(self.p.enums[k].1.len());
                    let (n, v, _) = self.p.enums[k].1[j].clone();
                    return self.e(Int, EK::Named(n, v));
                }
                if self.r.pct(4) {
                    let t = self.r.pick(&[Char, Short, Int, Long, Double, UInt]).clone();
                    let s = self.e(Int, EK::SizeofTy(t));
                    return self.e(Int, EK::Cast(Box::new(s)));
                }
                let v = self.rnd_const();
                self.int(v)
            }
            Long if self.r.pct(30) => {
                let v = self.long_const();
                self.int(v)
            }
            UInt | ULong if self.r.pct(25) => {
                let (lo, hi) = if *want == UInt { (2147483648, 4294967295) } else { (1u64 << 63, u64::MAX) };
                let v = if self.r.pct(50) { *self.r.pick(&[lo, lo + 1, hi, hi - 1, lo | lo >> 1]) } else { lo + self.r.next() % (hi - lo) };
                let st = self.r.idx(5) as u8;
                let e = self.e(want.clone(), EK::Int(v as i128, st));
                if *want == ULong {
                    // the compiler lets the negative of such a constant be signed
                    return self.e(ULong, EK::Cast(Box::new(e)));
                }
                e
            }
            t => {
                let v = self.rnd_const();
                let v = if t.signed() { t.wrap(v) } else { t.wrap(v.abs()).min(i32::MAX as i128) };
                let e = self.int(v);
                self.cast(e, &t.clone())
            }
        }
    }
    /// an index expression for n elements
    fn index(&mut self, n: usize, d: u32) -> Expr {
        if n.is_power_of_two() && n > 1 && d > 0 && self.r.pct(35) {
            let a = self.expr(&Int, d - 1);
            let m = self.int(n as i128 - 1);
            return self.e(Int, EK::Bin(BinOp::And, Box::new(a), Box::new(m)));
        }
        if self.r.pct(50) {
            if let Some(s) = self.pick_sym(|s| s.ro && s.ty == Int) {
                return self.var(&s);
            }
        }
        let k = self.r.idx(n) as i128;
        self.int(k)
    }
    /// an lvalue of arithmetic type (readable; `wr` = to be written)
    fn place(&mut self, want: Option<&Ty>, wr: bool, d: u32) -> Option<Expr> {
        let okty = |t: &Ty| match want {
            Some(w) => t == w,
            None => t.is_arith(),
        };
        let may_write = self.may_write;
        let mut opts: Vec<(usize, Vec<Step>)> = vec![];
        for (i, s) in self.syms.iter().enumerate() {
            if s.hid || (wr && s.v.global && !may_write) {
                continue;
            }
            match &s.ty {
                Ptr(_) if wr && (s.strv || s.nowr || !may_write) => {}
                Ptr(t) if t.is_arith() => {
                    if okty(t) && s.slen > 0 {
                        opts.push((i, vec![Step::D]));
                        opts.push((i, vec![if s.slen > 1 { Step::E(s.slen) } else { Step::D }]));
                    }
                }
                Ptr(t) => {
                    let mut subs = vec![];
                    let first = if s.slen > 1 || matches!(**t, Arr(..)) { Step::E(s.slen.max(1)) } else { Step::D };
                    self.subs(t, &mut vec![first], &mut subs);
                    opts.extend(subs.into_iter().filter(|x| okty(&x.1)).map(|x| (i, x.0)));
                }
                t if t.is_arith() => {
                    if okty(t) && !(wr && s.ro) {
                        opts.push((i, vec![]));
                        opts.push((i, vec![]));
                    }
                }
                Arr(..) if !self.c.arrays => {}
                t => {
                    let mut subs = vec![];
                    self.subs(t, &mut vec![], &mut subs);
                    opts.extend(subs.into_iter().filter(|x| okty(&x.1)).map(|x| (i, x.0)));
                }
            }
        }
        if opts.is_empty() {
            return None;
        }
        let (i, path) = opts[self.r.idx(opts.len())].clone();
        let s = self.syms[i].clone();
        let b = self.var(&s);
        Some(self.along(b, &path, d))
    }
    fn leaf(&mut self, want: &Ty) -> Expr {
        if self.r.pct(70) {
            if let Some(e) = self.place(Some(want), false, 0) {
                return e;
            }
            if self.r.pct(60) {
                for _ in 0..3 {
                    if let Some(e) = self.place(None, false, 0) {
                        if castable(&e.ty, want) {
                            return self.cast(e, want);
                        }
                    }
                }
            }
        }
        self.lit(want)
    }
    fn some_ty(&mut self) -> Ty {
        self.c.tys[self.r.idx(self.c.tys.len())].clone()
    }
    fn pure_call(&mut self, want: &Ty, d: u32) -> Option<Expr> {
        let v: Vec<FInfo> = self.fis.iter().filter(|f| f.pure && f.ret == *want).cloned().collect();
        if v.is_empty() {
            return None;
        }
        let f = v[self.r.idx(v.len())].clone();
        self.call(&f, d)
    }
    fn call(&mut self, f: &FInfo, d: u32) -> Option<Expr> {
        let mut args = vec![];
        for (i, t) in f.params.clone().iter().enumerate() {
            if f.bounded == Some(i) {
                let v = self.r.range(0, 8) as i128;
                let a = self.int(v);
                let a = if *t == Int { a } else { self.cast(a, t) };
                args.push(a);
                continue;
            }
            args.push(self.arg(t, d, f.plen, f.pure)?);
        }
        Some(self.e(f.ret.clone(), EK::Call(Callee::User(f.idx), args)))
    }
    fn arg(&mut self, t: &Ty, d: u32, plen: usize, pure: bool) -> Option<Expr> {
        match t {
            Ptr(el) => {
                if **el == Char && pure && self.r.pct(30) {
                    return Some(self.strlit(plen));
                }
                self.ptr_to(el, plen, !pure).map(|x| x.0)
            }
            t => {
                if self.r.pct(15) {
                    return Some(self.raw_const(t));
                }
                if self.r.pct(20) {
                    // converted to the parameter's type
                    let u = self.some_ty();
                    if castable(&u, t) {
                        return Some(self.expr(&u, d.saturating_sub(1)));
                    }
                }
                Some(self.expr(t, d.saturating_sub(1)))
            }
        }
    }
    fn strbytes(&mut self, min: usize) -> Vec<u8> {
        let n = min.max(1) + self.r.idx(10);
        let mut b = vec![];
        for _ in 0..n {
            b.push(match self.r.idx(12) {
                0 => b'\n',
                1 => b'\t',
                2 => b'%',
                3 => *self.r.pick(b"\"\\'?;{}/*"),
                4 if self.c.wild => 128 + self.r.idx(127) as u8,
                5 => b'0' + self.r.idx(10) as u8,
                _ => b'a' + self.r.idx(26) as u8,
            });
        }
        b
    }
    fn strlit(&mut self, min: usize) -> Expr {
        let b = self.strbytes(min);
        self.e(Char.ptr(), EK::Str(b))
    }
    pub fn expr(&mut self, want: &Ty, d: u32) -> Expr {
        if d == 0 || self.r.pct(12) {
            return self.leaf(want);
        }
        let d = d - 1;
        if self.r.pct(10) {
            if let Some(e) = self.pure_call(want, d) {
                return e;
            }
        }
        match want {
            Char | UChar | Short | UShort => {
                if self.r.pct(50) {
                    return self.leaf(want);
                }
                let e = self.expr(&Int, d);
                self.cast(e, want)
            }
            Int => match self.r.idx(20) {
                0..=6 => {
                    let op = *self.r.pick(&[
                        BinOp::Add, BinOp::Add, BinOp::Sub, BinOp::Sub, BinOp::Mul, BinOp::Div, BinOp::Mod, BinOp::And, BinOp::Or, BinOp::Xor,
                        BinOp::Shl, BinOp::Shr,
                    ]);
                    let (mut ta, mut tb) = (Int, Int);
                    if self.r.pct(25) {
                        ta = self.narrow();
                    }
                    if self.r.pct(25) {
                        tb = self.narrow();
                    }
                    self.bin(op, &ta, &tb, d)
                }
                7..=10 => {
                    let op = *self.r.pick(&[BinOp::Lt, BinOp::Gt, BinOp::Le, BinOp::Ge, BinOp::Eq, BinOp::Ne]);
                    let (ta, tb) = if self.c.doubles && self.r.pct(15) {
                        let o = if self.r.pct(40) { Double } else { self.some_ty() };
                        if self.r.pct(50) {
                            (o, Double)
                        } else {
                            (Double, o)
                        }
                    } else {
                        let a = self.some_ty();
                        (a.clone(), if self.r.pct(65) { a } else { self.some_ty() })
                    };
                    let a = self.expr(&ta, d);
                    let b = self.expr(&tb, d);
                    self.e(Int, EK::Bin(op, Box::new(a), Box::new(b)))
                }
                11 | 12 => {
                    let op = *self.r.pick(&[BinOp::LAnd, BinOp::LOr]);
                    let a = self.cond(d);
                    let b = self.cond(d);
                    self.e(Int, EK::Bin(op, Box::new(a), Box::new(b)))
                }
                13 => {
                    let t = self.some_ty();
                    let a = if self.r.pct(60) { self.cond(d) } else { self.expr(&t, d) };
                    let a = if matches!(a.k, EK::Int(..)) { self.leaf(&Int) } else { a };
                    if matches!(a.k, EK::Int(..) | EK::Named(..)) {
                        return a;
                    }
                    self.e(Int, EK::Un(UnOp::Not, Box::new(a)))
                }
                14 | 15 => self.unary(&Int, d),
                16 => self.ternary(&Int, d),
                17 => {
                    let t = self.some_ty();
                    let t = if self.c.doubles && self.r.pct(25) { Double } else { t };
                    if castable(&t, &Int) {
                        let a = self.expr(&t, d);
                        self.cast(a, &Int)
                    } else {
                        self.leaf(&Int)
                    }
                }
                18 => self.libcall(d).unwrap_or_else(|| self.leaf(&Int)),
                _ if self.c.more && self.r.pct(60) => self.more_int(d),
                _ => self.ptrcmp().unwrap_or_else(|| self.leaf(&Int)),
            },
            UInt | Long | ULong => match self.r.idx(12) {
                0..=5 => {
                    let op = *self.r.pick(&[
                        BinOp::Add, BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::Div, BinOp::Mod, BinOp::And, BinOp::Or, BinOp::Xor, BinOp::Shl, BinOp::Shr,
                    ]);
                    let other = match want {
                        UInt => self.r.pick(&[UInt, UInt, Int, Char]).clone(),
                        Long => self.r.pick(&[Long, Long, Int, UInt, Char]).clone(),
                        _ => self.r.pick(&[ULong, ULong, Int, UInt, Long]).clone(),
                    };
                    let e = if self.r.pct(50) || matches!(op, BinOp::Shl | BinOp::Shr) {
                        self.bin(op, &want.clone(), &other, d)
                    } else {
                        self.bin(op, &other, &want.clone(), d)
                    };
                    if e.ty == *want {
                        e
                    } else if castable(&e.ty, want) {
                        self.cast(e, want)
                    } else {
                        self.leaf(want)
                    }
                }
                6 => {
                    if *want == UInt || *want == ULong {
                        let a = self.expr(want, d);
                        let op = if self.r.pct(50) { UnOp::BitNot } else { UnOp::Neg };
                        return self.e(want.clone(), EK::Un(op, Box::new(a)));
                    }
                    self.unary(want, d)
                }
                7 => self.ternary(want, d),
                8 => {
                    let t = self.some_ty();
                    if castable(&t, want) {
                        let a = self.expr(&t, d);
                        self.cast(a, want)
                    } else {
                        self.leaf(want)
                    }
                }
                9 if self.c.libs && *want == Long => self.strtol(d),
                _ => self.leaf(want),
            },
            Double => match self.r.idx(5) {
                0..=2 => {
                    let op = *self.r.pick(&[BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::Div]);
                    let o = if self.r.pct(50) { Double } else { self.some_ty() };
                    let o2 = if op == BinOp::Div { self.e(Double, EK::Dbl([2.0, 4.0, 0.5, 8.0][self.p.next_id as usize % 4])) } else { self.expr(&o, d) };
                    let a = if o2.ty == Double && self.r.pct(30) {
                        let t = self.some_ty();
                        self.expr(&t, d)
                    } else {
                        self.expr(&Double, d)
                    };
                    if matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul) && self.r.pct(40) {
                        return self.e(Double, EK::Bin(op, Box::new(o2), Box::new(a)));
                    }
                    self.e(Double, EK::Bin(op, Box::new(a), Box::new(o2)))
                }
                3 if self.r.pct(30) => {
                    let a = self.expr(&Double, d);
                    self.e(Double, EK::Un(UnOp::Neg, Box::new(a)))
                }
                3 => {
                    let t = self.some_ty();
                    let a = self.expr(&t, d);
                    self.cast(a, &Double)
                }
                _ if self.r.pct(30) => self.ternary(want, d),
                _ => self.leaf(want),
            },
            _ => self.leaf(want),
        }
    }
    fn narrow(&mut self) -> Ty {
        let v: Vec<Ty> = self.c.tys.iter().filter(|t| t.bits() < 32).cloned().collect();
        if v.is_empty() {
            Int
        } else {
            v[self.r.idx(v.len())].clone()
        }
    }
    fn bin(&mut self, op: BinOp, ta: &Ty, tb: &Ty, d: u32) -> Expr {
        let a = self.expr(ta, d);
        let mut tb = tb.clone();
        if matches!(op, BinOp::Shl | BinOp::Shr) {
            tb = a.ty.promote();
        }
        let b = match op {
            BinOp::Shl | BinOp::Shr => {
                let k = self.r.range(0, (a.ty.promote().bits() - 1) as i64 / 2) as i128;
                self.int(k)
            }
            BinOp::Div | BinOp::Mod if self.r.pct(70) => {
                let k = self.r.range(1, 30) as i128;
                self.int(k)
            }
            _ => self.expr(&tb, d),
        };
        let ty = if matches!(op, BinOp::Shl | BinOp::Shr) { a.ty.promote() } else { common(&a.ty, &b.ty) };
        self.e(ty, EK::Bin(op, Box::new(a), Box::new(b)))
    }
    fn unary(&mut self, want: &Ty, d: u32) -> Expr {
        let op = *self.r.pick(&[UnOp::Neg, UnOp::BitNot]);
        let a = self.expr(want, d);
        self.e(want.clone(), EK::Un(op, Box::new(a)))
    }
    fn ternary(&mut self, want: &Ty, d: u32) -> Expr {
        let c = self.cond(d);
        // the type of the whole is that of neither arm alone
        let other = |g: &mut Self| {
            let t = if *want == Double || g.r.pct(20) { g.some_ty() } else { g.narrow() };
            if common(&t, want) == *want && want.is_arith() && g.r.pct(30) {
                t
            } else {
                want.clone()
            }
        };
        let (mut ta, mut tb) = (want.clone(), want.clone());
        if self.r.pct(50) {
            ta = other(self);
        } else {
            tb = other(self);
            if *want == Int {
                ta = other(self);
            }
        }
        let a = self.expr(&ta, d);
        let b = self.expr(&tb, d);
        self.e(want.clone(), EK::Cond(Box::new(c), Box::new(a), Box::new(b)))
    }
    fn cond(&mut self, d: u32) -> Expr {
        if self.c.more && self.r.pct(8) {
            if let Some(e) = self.odd_cond(d) {
                return e;
            }
        }
        if self.r.pct(75) {
            let op = *self.r.pick(&[BinOp::Lt, BinOp::Gt, BinOp::Le, BinOp::Ge, BinOp::Eq, BinOp::Ne]);
            let t = self.some_ty();
            let a = self.expr(&t, d.saturating_sub(1));
            let b = if self.r.pct(50) { self.lit(&t) } else { self.expr(&t, d.saturating_sub(1)) };
            return self.e(Int, EK::Bin(op, Box::new(a), Box::new(b)));
        }
        self.expr(&Int, d.min(1))
    }
    fn ptrcmp(&mut self) -> Option<Expr> {
        let s = self.pick_sym(|s| matches!(s.ty, Ptr(_)))?;
        let a = self.var(&s);
        let n = self.e(Void.ptr(), EK::Null);
        let op = if self.r.pct(50) { BinOp::Eq } else { BinOp::Ne };
        if !self.p.includes.iter().any(|i| i.contains("string")) {
            return None;
        }
        Some(self.e(Int, EK::Bin(op, Box::new(a), Box::new(n))))
    }
    fn string_arg(&mut self) -> Expr {
        if self.r.pct(60) {
            if let Some(s) = self.pick_sym(|s| s.strv || s.term) {
                return self.var(&s);
            }
        }
        self.strlit(0)
    }
    fn libcall(&mut self, d: u32) -> Option<Expr> {
        if !self.c.libs {
            return None;
        }
        match self.r.idx(4) {
            0 => {
                let a = self.string_arg();
                Some(self.e(Int, EK::Call(Callee::Lib("strlen"), vec![a])))
            }
            1 => {
                let l = self.strtol(d);
                let l = self.cast(l, &Int);
                Some(l)
            }
            _ => {
                let n = *self.r.pick(&["isalpha", "isdigit", "isalnum", "islower", "isupper", "isxdigit", "isspace", "ispunct", "iscntrl", "isgraph", "isprint", "toupper", "tolower"]);
                let c = if self.r.pct(60) {
                    let v = self.r.range(0, 127) as i128;
                    self.int(v)
                } else {
                    self.leaf(&Char)
                };
                if n.starts_with("to") {
                    let e = self.e(Char, EK::Call(Callee::Lib(n), vec![c]));
                    return Some(self.cast(e, &Int));
                }
                let e = self.e(Int, EK::Call(Callee::Lib(n), vec![c]));
                // the standard only says zero or non-zero
                let z = self.int(0);
                let op = if self.r.pct(70) { BinOp::Ne } else { BinOp::Eq };
                Some(self.e(Int, EK::Bin(op, Box::new(e), Box::new(z))))
            }
        }
    }
    fn strtol(&mut self, _d: u32) -> Expr {
        let base = *self.r.pick(&[10, 10, 10, 16, 8, 2, 36, 0]);
        let mut b: Vec<u8> = vec![];
        for _ in 0..self.r.idx(3) {
            b.push(b' ');
        }
        if self.r.pct(40) {
            b.push(if self.r.pct(60) { b'-' } else { b'+' });
        }
        if self.r.pct(25) {
            b.extend_from_slice(b"0x");
        }
        for _ in 0..self.r.idx(12) {
            let c = *self.r.pick(b"0123456789012345678901234567abfgzAF");
            b.push(c);
        }
        if self.r.pct(50) {
            b.push(*self.r.pick(b" zx.-"));
        }
        let s = self.e(Char.ptr(), EK::Str(b));
        let n = self.e(Char.ptr().ptr(), EK::Null);
        let ba = self.int(base);
        self.e(Long, EK::Call(Callee::Lib("strtol"), vec![s, n, ba]))
    }

    // ------------------------------------------------------------ statements

    fn new_local(&mut self, ty: Ty) -> usize {
        let name = self.name();
        self.locals.push(Var { name, ty, init: Init::None, stat: false });
        self.locals.len() - 1
    }
    fn add_sym(&mut self, v: usize, ty: &Ty, ro: bool, slen: usize, strv: bool) {
        self.syms.push(Sym { v: VarRef { global: false, idx: v }, ty: ty.clone(), ro, addr: false, slen, strv, hid: false, nowr: false, term: false });
    }
    fn decl(&mut self, out: &mut Vec<Stmt>) {
        let d = self.c.depth;
        let mut kinds = vec![0, 0, 0];
        if self.c.arrays {
            kinds.extend([1, 1]);
        }
        if self.c.structs && self.nplain > 0 {
            kinds.extend([2, 2]);
        }
        if self.c.ptrs {
            kinds.extend([3, 3]);
        }
        if self.c.strings {
            kinds.push(4);
        }
        if self.c.doubles {
            kinds.push(5);
        }
        if self.r.pct(4) {
            kinds.push(6);
        }
        if self.c.more {
            kinds.extend([7, 8]);
            if self.c.arrays {
                kinds.extend([9, 9]);
            }
        }
        let k = kinds[self.r.idx(kinds.len())];
        match k {
            7 => self.static_local(out),
            8 => self.shadow(out),
            9 => {
                let ty = if self.c.structs && self.nplain > 0 && self.r.pct(50) {
                    let t = Struct(self.r.idx(self.nplain));
                    let most = (24 / self.p.cells(&t)).max(1);
                    t.arr((1 + self.r.idx(4)).min(most))
                } else {
                    self.some_ty().arr(self.cols).arr(1 + self.r.idx(3))
                };
                self.aggregate(ty, out);
            }
            0 => {
                let ty = self.some_ty();
                let e = self.init_expr(&ty, d);
                let v = self.new_local(ty.clone());
                if self.r.pct(15) {
                    // declared first, assigned on the next line
                    let s = self.s(SK::Decl(v, Init::None));
                    out.push(s);
                    let l = self.e(ty.clone(), EK::Var(VarRef { global: false, idx: v }));
                    let s = self.s(SK::Assign(l, None, e));
                    out.push(s);
                } else {
                    let s = self.s(SK::Decl(v, Init::E(e)));
                    out.push(s);
                }
                self.add_sym(v, &ty, false, 0, false);
            }
            1 => {
                let ty = if self.c.doubles && self.r.pct(15) { Double } else { self.some_ty() };
                let n = *self.r.pick(&[1, 2, 3, 4, 4, 5, 8]);
                let at = ty.clone().arr(n);
                if self.r.pct(50) {
                    let mut v = vec![];
                    for _ in 0..n {
                        v.push(if self.r.pct(70) { self.raw_const(&ty) } else { self.expr(&ty, 1) });
                    }
                    let x = self.new_local(at.clone());
                    let s = self.s(SK::Decl(x, Init::List(v)));
                    out.push(s);
                    self.add_sym(x, &at, false, n, false);
                } else {
                    let x = self.new_local(at.clone());
                    let s = self.s(SK::Decl(x, Init::None));
                    out.push(s);
                    // fill it in a loop, or element by element
                    if self.r.pct(60) && self.c.loops {
                        let i = self.new_local(Int);
                        let vr = VarRef { global: false, idx: i };
                        self.add_sym(i, &Int, true, 0, false);
                        let e = self.expr(&ty, d.min(2));
                        let a = self.e(at.clone(), EK::Var(VarRef { global: false, idx: x }));
                        let ix = self.e(Int, EK::Var(vr));
                        let l = self.e(ty.clone(), EK::Index(Box::new(a), Box::new(ix)));
                        let body = vec![self.s(SK::Assign(l, None, e))];
                        let f = self.count_loop(i, n as i128, body);
                        out.extend(f);
                        self.syms.pop();
                    } else {
                        for j in 0..n {
                            let e = self.init_expr(&ty, 1);
                            let a = self.e(at.clone(), EK::Var(VarRef { global: false, idx: x }));
                            let ix = self.int(j as i128);
                            let l = self.e(ty.clone(), EK::Index(Box::new(a), Box::new(ix)));
                            let s = self.s(SK::Assign(l, None, e));
                            out.push(s);
                        }
                    }
                    self.add_sym(x, &at, false, n, false);
                }
            }
            2 => {
                let k = self.r.idx(self.nplain);
                self.aggregate(Struct(k), out);
            }
            3 => {
                // a pointer to something already visible
                let el = if self.c.structs && self.nplain > 0 && self.r.pct(25) { Struct(self.r.idx(self.nplain)) } else { self.some_ty() };
                let el = if self.c.doubles && self.r.pct(12) { Double } else { el };
                let wr = self.r.pct(80);
                let Some((mut e, mut slen)) = self.ptr_to(&el, 1, wr) else { return };
                let ty = el.clone().ptr();
                if self.c.more && self.r.pct(12) {
                    if let Some((e2, n2)) = self.ptr_to(&el, 1, wr) {
                        let c = self.cond(1);
                        slen = slen.min(n2);
                        e = self.e(ty.clone(), EK::Cond(Box::new(c), Box::new(e), Box::new(e2)));
                    }
                }
                let v = self.new_local(ty.clone());
                let st = self.s(SK::Decl(v, Init::E(e)));
                out.push(st);
                self.add_sym(v, &ty, true, slen, false);
                self.syms.last_mut().unwrap().nowr = !wr;
            }
            4 => {
                let b = self.strbytes(1);
                let n = b.len();
                if self.r.pct(50) {
                    let e = self.e(Char.ptr(), EK::Str(b));
                    let v = self.new_local(Char.ptr());
                    let s = self.s(SK::Decl(v, Init::E(e)));
                    out.push(s);
                    self.add_sym(v, &Char.ptr(), true, n, true);
                } else {
                    let at = Char.arr(n + 1);
                    let v = self.new_local(at.clone());
                    let s = self.s(SK::Decl(v, Init::Str(b)));
                    out.push(s);
                    // the terminator stays: indexes below n only
                    self.add_sym(v, &Char.arr(n), false, n, false);
                    self.syms.last_mut().unwrap().term = true;
                }
            }
            5 => {
                let e = if self.r.pct(50) { self.lit(&Double) } else { self.expr(&Double, d.min(2)) };
                let v = self.new_local(Double);
                let s = self.s(SK::Decl(v, Init::E(e)));
                out.push(s);
                self.add_sym(v, &Double, false, 0, false);
            }
            _ => {
                let k = self.r.range(0, 30000) as i128;
                let e = self.int(k);
                let v = self.new_local(Short);
                let s = self.s(SK::Decl(v, Init::E(e)));
                out.push(s);
                self.add_sym(v, &Short, true, 0, false);
            }
        }
    }
    /// plain constants, as initialisers use them
    fn raw_const(&mut self, ty: &Ty) -> Expr {
        match ty {
            Double => self.lit(&Double),
            Long if self.r.pct(30) => {
                let v = self.long_const();
                self.int(v)
            }
            ULong | UInt | UChar | UShort => {
                let v = self.rnd_const().abs();
                let v = ty.wrap(v);
                self.int(v)
            }
            t => {
                let v = self.rnd_const();
                let v = t.wrap(v);
                self.int(v)
            }
        }
    }
    /// an expression for an assignment or initialisation: sometimes of another type
    fn init_expr(&mut self, ty: &Ty, d: u32) -> Expr {
        if self.r.pct(20) {
            return self.raw_const(ty);
        }
        if self.r.pct(20) {
            let t = self.some_ty();
            if castable(&t, ty) {
                return self.expr(&t, d);
            }
        }
        self.expr(ty, d)
    }
    /// for/while/do loop counting local i from 0 to n
    fn count_loop(&mut self, i: usize, n: i128, mut body: Vec<Stmt>) -> Vec<Stmt> {
        let vr = VarRef { global: false, idx: i };
        let ty = self.locals[i].ty.clone();
        let zero = self.int(0);
        let iv = self.e(ty.clone(), EK::Var(vr));
        let nn = self.int(n);
        let down = self.r.pct(15);
        let has_cont = has_continue(&body);
        let kind = if has_cont { 0 } else { self.r.idx(5) };
        match kind {
            0..=2 => {
                let (init, cond, step);
                let iv2 = self.e(ty.clone(), EK::Var(vr));
                if down {
                    init = Init::E(self.int(n - 1));
                    cond = self.e(Int, EK::Bin(BinOp::Ge, Box::new(iv), Box::new(zero)));
                    step = self.s(SK::IncDec(iv2, false, self.p.next_id % 2 == 0));
                } else {
                    init = Init::E(zero);
                    let op = if self.r.pct(80) { BinOp::Lt } else { BinOp::Ne };
                    cond = self.e(Int, EK::Bin(op, Box::new(iv), Box::new(nn)));
                    step = if self.r.pct(70) {
                        let pre = self.r.pct(40);
                        self.s(SK::IncDec(iv2, true, pre))
                    } else {
                        let one = self.int(1);
                        self.s(SK::Assign(iv2, Some(BinOp::Add), one))
                    };
                }
                let inner = self.r.pct(50);
                let d = self.s(SK::Decl(i, if inner { init.clone() } else { Init::None }));
                if inner {
                    vec![self.s(SK::For(Some(Box::new(d)), Some(cond), Some(Box::new(step)), body))]
                } else {
                    let l = self.e(ty, EK::Var(vr));
                    let e = match init {
                        Init::E(e) => e,
                        _ => unreachable!(),
                    };
                    let a = self.s(SK::Assign(l, None, e));
                    let f = self.s(SK::For(Some(Box::new(a)), Some(cond), Some(Box::new(step)), body));
                    vec![d, f]
                }
            }
            3 => {
                let d = self.s(SK::Decl(i, Init::E(zero)));
                let cond = self.e(Int, EK::Bin(BinOp::Lt, Box::new(iv), Box::new(nn)));
                let iv2 = self.e(ty, EK::Var(vr));
                let st = self.s(SK::IncDec(iv2, true, false));
                body.push(st);
                let w = self.s(SK::While(cond, body));
                vec![d, w]
            }
            _ => {
                let d = self.s(SK::Decl(i, Init::E(zero)));
                let iv2 = self.e(ty.clone(), EK::Var(vr));
                let st = self.s(SK::IncDec(iv2, true, true));
                body.push(st);
                let iv3 = self.e(ty, EK::Var(vr));
                let cond = self.e(Int, EK::Bin(BinOp::Lt, Box::new(iv3), Box::new(nn)));
                if n == 0 {
                    return vec![d];
                }
                if self.c.gotos && self.r.pct(50) && !has_break(&body) && !has_decl(&body) {
                    self.labels += 1;
                    let l = format!("again_{}", self.labels);
                    return vec![d, self.s(SK::GotoLoop(l, body, cond))];
                }
                let w = self.s(SK::DoWhile(body, cond));
                vec![d, w]
            }
        }
    }
    fn block(&mut self, n: usize) -> Vec<Stmt> {
        let mark = self.syms.len();
        let hid: Vec<bool> = self.syms.iter().map(|s| s.hid).collect();
        let bm = std::mem::replace(&mut self.block_mark, mark);
        let mut out = vec![];
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            self.stmt(&mut out);
        }
        self.block_mark = bm;
        self.syms.truncate(mark);
        for (s, h) in self.syms.iter_mut().zip(hid) {
            s.hid = h;
        }
        out
    }
    fn sub_block(&mut self) -> Vec<Stmt> {
        let n = 1 + self.r.idx(4);
        let mut b = self.block(n);
        if b.is_empty() {
            b.push(self.s(SK::Empty));
        }
        b
    }
    fn print(&mut self) -> Stmt {
        let mut parts = vec![];
        let n = 1 + self.r.idx(3);
        for _ in 0..n {
            if self.r.pct(60) {
                let mut b: Vec<u8> = vec![];
                for _ in 0..1 + self.r.idx(4) {
                    b.push(*self.r.pick(b"abcxyz =:,-_% \t\\\"01"));
                }
                parts.push(PPart::Lit(b));
            }
            let d = self.c.depth.min(2);
            let spec = match self.r.idx(10) {
                0 if self.c.strings || self.c.libs => {
                    let a = self.string_arg();
                    PPart::Spec("%s", a)
                }
                1 => {
                    let c = if self.r.pct(50) {
                        let v = self.r.range(33, 126) as i128;
                        self.int(v)
                    } else {
                        self.leaf(&Char)
                    };
                    PPart::Spec("%c", c)
                }
                _ => {
                    let t = if self.c.doubles && self.r.pct(20) { Double } else { self.some_ty() };
                    self.spec(&t, d)
                }
            };
            parts.push(spec);
        }
        parts.push(PPart::Lit(b"\n".to_vec()));
        self.s(SK::Print(parts))
    }
    fn spec(&mut self, t: &Ty, d: u32) -> PPart {
        match t {
            UInt => {
                let e = self.expr(&UInt, d);
                PPart::Spec("%u", e)
            }
            Long => {
                let e = self.expr(&Long, d);
                PPart::Spec("%ld", e)
            }
            ULong => {
                let e = self.expr(&ULong, d);
                PPart::Spec("%lu", e)
            }
            Double => {
                let e = self.expr(&Double, d);
                PPart::Spec("%f", e)
            }
            Short | UShort if self.r.pct(60) => {
                let e = self.expr(&t.clone(), d);
                PPart::Spec(if self.r.pct(50) { "%hd" } else { "%hu" }, e)
            }
            Char | UChar | Short | UShort => {
                let e = self.expr(&t.clone(), d);
                let e = if self.r.pct(50) { self.cast(e, &Int) } else { e };
                PPart::Spec(if self.r.pct(80) { "%d" } else { "%i" }, e)
            }
            _ => {
                let e = self.expr(&Int, d);
                PPart::Spec(if self.r.pct(80) { "%d" } else { "%i" }, e)
            }
        }
    }
    fn impure_call(&mut self, want: Option<&Ty>) -> Option<Expr> {
        let may_print = self.may_print && self.may_write;
        let v: Vec<FInfo> = self
            .fis
            .iter()
            .filter(|f| (f.pure || may_print) && want.map_or(true, |w| f.ret == *w))
            .cloned()
            .collect();
        if v.is_empty() {
            return None;
        }
        let f = v[self.r.idx(v.len())].clone();
        let d = self.c.depth.min(2);
        let e = self.call(&f, d)?;
        if !f.pure {
            self.impure = true;
        }
        Some(e)
    }
    fn stmt(&mut self, out: &mut Vec<Stmt>) {
        self.budget -= 1;
        let d = self.c.depth;
        let deep = self.loop_depth >= 3;
        let w = [
            20,                                                 // 0 declaration
            25,                                                 // 1 assignment
            if self.may_print { 10 } else { 0 },                // 2 print
            14,                                                 // 3 if
            if self.c.loops && !deep { 12 } else { 0 },         // 4 loop
            if self.c.switches { 6 } else { 0 },                // 5 switch
            12,                                                 // 6 compound assignment
            6,                                                  // 7 ++/--
            if self.fis.is_empty() { 0 } else { 12 },           // 8 call
            2,                                                  // 9 nested block
            if self.loop_depth > 0 { 4 } else { 0 },            // 10 break/continue
            2,                                                  // 11 early return
            3,                                                  // 12 chained assignment, assignment in a condition
            3,                                                  // 13 value of ++/--
            if self.c.loops && !deep { 3 } else { 0 },          // 14 while (n-- > 0), while (*s)
            1,                                                  // 15 empty
            if self.c.libs { 3 } else { 0 },                    // 16 strstr, strtol with an end pointer
            if self.c.more { 14 } else { 0 },                   // 17 the wider subset
            if self.outs.is_empty() { 0 } else { 6 },           // 18 goto out
        ];
        match self.r.weighted(&w) {
            17 => self.more(out),
            18 => self.leave(out),
            0 => self.decl(out),
            1 => {
                if let Some(l) = self.place(None, true, d) {
                    let t = l.ty.clone();
                    let e = self.init_expr(&t, d);
                    let s = self.s(SK::Assign(l, None, e));
                    self.note_write(&s);
                    out.push(s);
                }
            }
            2 => {
                let s = self.print();
                self.impure = true;
                out.push(s);
            }
            3 => {
                let c = if self.r.pct(12) {
                    match self.impure_call(Some(&Int)) {
                        Some(e) => {
                            if self.r.pct(50) {
                                let k = self.cond(1);
                                let op = if self.r.pct(50) { BinOp::LAnd } else { BinOp::LOr };
                                self.e(Int, EK::Bin(op, Box::new(k), Box::new(e)))
                            } else {
                                e
                            }
                        }
                        None => self.cond(d),
                    }
                } else {
                    self.cond(d)
                };
                let a = self.sub_block();
                let b = if self.r.pct(50) { Some(self.sub_block()) } else { None };
                let s = self.s(SK::If(c, a, b));
                out.push(s);
            }
            4 => {
                let ty = if self.r.pct(85) || !self.c.tys.contains(&Long) { Int } else { Long };
                let i = self.new_local(ty.clone());
                let mark = self.syms.len();
                self.add_sym(i, &ty, true, 0, false);
                self.loop_depth += 1;
                let sw = std::mem::replace(&mut self.in_switch, false);
                let body = self.sub_block();
                self.in_switch = sw;
                self.loop_depth -= 1;
                self.syms.truncate(mark);
                let n = self.r.range(0, if self.loop_depth == 0 { 9 } else { 4 }) as i128;
                let v = self.count_loop(i, n, body);
                // the counter may stay visible after the loop: keep it in a block of its own
                if v.len() > 1 {
                    if v.iter().any(|s| matches!(s.k, SK::GotoLoop(..))) && self.r.pct(50) {
                        out.extend(v);
                    } else {
                        let b = self.s(SK::Block(v));
                        out.push(b);
                    }
                } else {
                    out.extend(v);
                }
            }
            5 => {
                let t = if self.r.pct(80) { Int } else { self.some_ty() };
                let e = if self.r.pct(50) {
                    let a = self.expr(&t, d.min(2));
                    if t == Int {
                        let m = self.int(7);
                        self.e(Int, EK::Bin(BinOp::And, Box::new(a), Box::new(m)))
                    } else {
                        a
                    }
                } else {
                    self.leaf(&t)
                };
                let mut cases = vec![];
                let n = 1 + self.r.idx(5);
                let mut vals: Vec<i128> = (0..8).collect();
                for _ in 0..3 {
                    let v = self.r.range(if t.signed() { -5 } else { 8 }, 100) as i128;
                    if !vals.contains(&v) {
                        vals.push(v);
                    }
                }
                let dflt = if self.r.pct(70) { Some(self.r.idx(n)) } else { None };
                let save = std::mem::replace(&mut self.in_switch, true);
                for k in 0..n {
                    let mut ls = vec![];
                    for _ in 0..1 + (self.r.pct(20) as usize) {
                        if vals.is_empty() {
                            vals.push(1000 + k as i128);
                        }
                        let j = self.r.idx(vals.len());
                        ls.push(Some(vals.remove(j)));
                    }
                    if dflt == Some(k) {
                        let at = self.r.idx(ls.len() + 1);
                        ls.insert(at, None);
                    }
                    let mark = self.syms.len();
                    let nb = 1 + self.r.idx(2);
                    let inner = self.block(nb);
                    self.syms.truncate(mark);
                    let mut body = if inner.iter().any(|s| matches!(s.k, SK::Decl(..))) {
                        vec![self.s(SK::Block(inner))]
                    } else {
                        inner
                    };
                    if self.r.pct(75) && !ends_jump(&body) {
                        body.push(self.s(SK::Break));
                    }
                    cases.push((ls, body));
                }
                self.in_switch = save;
                let s = self.s(SK::Switch(e, cases));
                out.push(s);
            }
            6 => {
                if let Some(l) = self.place(None, true, 0) {
                    let op = *self.r.pick(&[
                        BinOp::Add, BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::Div, BinOp::Mod, BinOp::And, BinOp::Or, BinOp::Xor, BinOp::Shl, BinOp::Shr,
                    ]);
                    let t = l.ty.clone();
                    if t == Double && !matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul) {
                        return;
                    }
                    let rt = if t == Double || self.r.pct(70) { t.clone() } else { self.some_ty() };
                    if t != Double && !castable(&common(&t, &rt), &t) {
                        return;
                    }
                    let e = match op {
                        BinOp::Shl | BinOp::Shr => {
                            let k = self.r.range(0, (t.bits() / 2) as i64) as i128;
                            self.int(k)
                        }
                        BinOp::Div | BinOp::Mod => {
                            let k = self.r.range(1, 20) as i128;
                            self.int(k)
                        }
                        _ => self.expr(&rt, d.min(2)),
                    };
                    let s = self.s(SK::Assign(l, Some(op), e));
                    self.note_write(&s);
                    out.push(s);
                }
            }
            7 => {
                let t = self.r.pick(&[Int, Int, Long, UInt]).clone();
                let any = self.c.more && self.r.pct(60);
                if t != Int && !self.c.tys.contains(&t) && !any {
                    return;
                }
                if let Some(l) = self.place(if any { None } else { Some(&t) }, true, if any { d.min(1) } else { 0 }) {
                    let (a, b) = (self.r.pct(60), self.r.pct(40));
                    let s = self.s(SK::IncDec(l, a, b));
                    self.note_write(&s);
                    out.push(s);
                }
            }
            8 => {
                if self.r.pct(35) {
                    if let Some(e) = self.impure_call(None) {
                        let s = self.s(SK::Expr(e));
                        out.push(s);
                    }
                    return;
                }
                if let Some(s) = self.pick_sym(|s| s.ty.is_arith() && !s.ro && !s.addr && !s.v.global) {
                    if let Some(e) = self.impure_call(Some(&s.ty)) {
                        let l = self.var(&s);
                        let op = if self.r.pct(25) { Some(BinOp::Add) } else { None };
                        let st = self.s(SK::Assign(l, op, e));
                        out.push(st);
                    }
                }
            }
            9 => {
                let b = self.sub_block();
                let s = self.s(SK::Block(b));
                out.push(s);
            }
            10 => {
                let c = self.cond(1);
                let j = if self.r.pct(50) || self.in_switch { SK::Break } else { SK::Continue };
                let j = self.s(j);
                let s = self.s(SK::If(c, vec![j], None));
                out.push(s);
            }
            11 => {
                let c = self.cond(1);
                let r = self.ret_stmt();
                let s = self.s(SK::If(c, vec![r], None));
                out.push(s);
            }
            12 => {
                let a = self.pick_sym(|s| s.ty == Int && !s.ro && !s.v.global);
                let b = self.pick_sym(|s| s.ty == Int && !s.ro && !s.v.global);
                if let (Some(a), Some(b)) = (a, b) {
                    if self.r.pct(50) && a.v != b.v {
                        let e = self.expr(&Int, d.min(2));
                        let la = self.var(&a);
                        let lb = self.var(&b);
                        let asg = self.e(Int, EK::Assign(Box::new(lb), Box::new(e)));
                        let s = self.s(SK::Assign(la, None, asg));
                        out.push(s);
                    } else {
                        let e = self.expr(&Int, d.min(2));
                        let la = self.var(&a);
                        let asg = self.e(Int, EK::Assign(Box::new(la), Box::new(e)));
                        let k = self.lit(&Int);
                        let c = self.e(Int, EK::Bin(BinOp::Gt, Box::new(asg), Box::new(k)));
                        let body = self.sub_block();
                        let s = self.s(SK::If(c, body, None));
                        out.push(s);
                    }
                }
            }
            13 => {
                let t = if self.c.tys.contains(&Long) && self.r.pct(30) { Long } else { Int };
                let a = self.pick_sym(|s| s.ty == t && !s.ro && !s.v.global);
                let b = self.pick_sym(|s| s.ty == t && !s.ro && !s.v.global);
                if let (Some(a), Some(b)) = (a, b) {
                    if a.v != b.v {
                        let (x, y) = (self.r.pct(60), self.r.pct(50));
                        let lb = self.var(&b);
                        let mut e = self.e(t.clone(), EK::IncDec(Box::new(lb), x, y));
                        if self.r.pct(40) {
                            let k = self.int(3);
                            e = self.e(t.clone(), EK::Bin(BinOp::Add, Box::new(e), Box::new(k)));
                        }
                        let la = self.var(&a);
                        let s = self.s(SK::Assign(la, None, e));
                        out.push(s);
                    }
                }
            }
            14 => {
                let i = self.new_local(Int);
                let k = self.r.range(0, 5) as i128;
                let e = self.int(k);
                let dcl = self.s(SK::Decl(i, Init::E(e)));
                let mark = self.syms.len();
                self.add_sym(i, &Int, true, 0, false);
                self.loop_depth += 1;
                let sw = std::mem::replace(&mut self.in_switch, false);
                let body = self.sub_block();
                self.in_switch = sw;
                self.loop_depth -= 1;
                self.syms.truncate(mark);
                let iv = self.e(Int, EK::Var(VarRef { global: false, idx: i }));
                let pre = self.r.pct(30);
                let dec = self.e(Int, EK::IncDec(Box::new(iv), false, pre));
                let z = self.int(0);
                let c = if pre || self.r.pct(50) { self.e(Int, EK::Bin(BinOp::Gt, Box::new(dec), Box::new(z))) } else { dec };
                let w = self.s(SK::While(c, body));
                let b = self.s(SK::Block(vec![dcl, w]));
                out.push(b);
            }
            16 => {
                if self.r.pct(50) {
                    let hay = self.string_arg();
                    let needle = {
                        let n = 1 + self.r.idx(2);
                        let mut b = vec![];
                        for _ in 0..n {
                            b.push(b'a' + self.r.idx(6) as u8);
                        }
                        if let (EK::Str(h), true) = (&hay.k, self.r.pct(60)) {
                            let i = self.r.idx(h.len());
                            b = h[i..(i + 2).min(h.len())].to_vec();
                        }
                        self.e(Char.ptr(), EK::Str(b))
                    };
                    let call = self.e(Char.ptr(), EK::Call(Callee::Lib("strstr"), vec![hay, needle]));
                    let v = self.new_local(Char.ptr());
                    let dcl = self.s(SK::Decl(v, Init::E(call)));
                    let vr = self.e(Char.ptr(), EK::Var(VarRef { global: false, idx: v }));
                    let nul = self.e(Void.ptr(), EK::Null);
                    let c = self.e(Int, EK::Bin(BinOp::Ne, Box::new(vr.clone()), Box::new(nul)));
                    if self.may_print {
                        self.impure = true;
                        let vr2 = self.e(Char.ptr(), vr.k.clone());
                        let pr = self.s(SK::Print(vec![PPart::Lit(b"found ".to_vec()), PPart::Spec("%s", vr2), PPart::Lit(b"\n".to_vec())]));
                        let no = self.s(SK::Print(vec![PPart::Lit(b"not found\n".to_vec())]));
                        let i = self.s(SK::If(c, vec![pr], Some(vec![no])));
                        let b = self.s(SK::Block(vec![dcl, i]));
                        out.push(b);
                    }
                } else if self.may_print {
                    self.impure = true;
                    let mut call = self.strtol(0);
                    let v = self.new_local(Char.ptr());
                    let dcl = self.s(SK::Decl(v, Init::None));
                    let vr = self.e(Char.ptr(), EK::Var(VarRef { global: false, idx: v }));
                    let un = self.r.pct(30);
                    if let EK::Call(c, a) = &mut call.k {
                        if un {
                            *c = Callee::Lib("strtoul");
                        }
                        a[1] = Expr { id: vr.id + 1000000, ty: Char.ptr().ptr(), k: EK::Addr(Box::new(vr.clone())) };
                    }
                    let t = if un { ULong } else { Long };
                    call.ty = t.clone();
                    let x = self.new_local(t.clone());
                    let d2 = self.s(SK::Decl(x, Init::E(call)));
                    let xr = self.e(t, EK::Var(VarRef { global: false, idx: x }));
                    let vr2 = self.e(Char.ptr(), vr.k.clone());
                    let pr = self.s(SK::Print(vec![
                        PPart::Spec(if un { "%lu" } else { "%ld" }, xr),
                        PPart::Lit(b" rest ".to_vec()),
                        PPart::Spec("%s", vr2),
                        PPart::Lit(b"\n".to_vec()),
                    ]));
                    let b = self.s(SK::Block(vec![dcl, d2, pr]));
                    out.push(b);
                }
            }
            _ => {
                let s = self.s(SK::Empty);
                out.push(s);
            }
        }
    }
    fn note_write(&mut self, s: &Stmt) {
        if let SK::Assign(l, ..) | SK::IncDec(l, ..) = &s.k {
            if !is_local_place(l) {
                self.impure = true;
            }
        }
    }
    fn ret_stmt(&mut self) -> Stmt {
        let t = self.ret.clone();
        if t == Void {
            return self.s(SK::Return(None));
        }
        let d = self.c.depth.min(2);
        let e = self.init_expr(&t, d);
        self.s(SK::Return(Some(e)))
    }
    fn start_fun(&mut self) {
        self.syms.retain(|s| s.v.global);
        self.syms.iter_mut().for_each(|s| s.hid = false);
        self.block_mark = self.syms.len();
        self.outs.clear();
        self.locals.clear();
        let g: Vec<String> = self.p.globals.iter().map(|v| v.name.clone()).collect();
        let f: Vec<String> = self.p.funcs.iter().map(|v| v.name.clone()).collect();
        self.used.clear();
        // locals may shadow functions' names only if they are never called: keep them apart
        self.used.extend(g);
        self.used.extend(f);
        self.impure = false;
        self.loop_depth = 0;
        self.in_switch = false;
    }
    fn param_ty(&mut self) -> Ty {
        match self.r.idx(10) {
            0 if self.c.ptrs => {
                self.some_ty().ptr()
            }
            1 if self.c.structs && self.nplain > 0 => Struct(self.r.idx(self.nplain)).ptr(),
            3 if self.c.more && self.c.arrays && self.c.ptrs => self.some_ty().arr(self.cols).ptr(),
            2 if self.c.doubles => Double,
            _ => self.some_ty(),
        }
    }
    fn function(&mut self, k: usize) {
        self.start_fun();
        let mut ret = if self.r.pct(15) { Void } else { self.some_ty() };
        if self.c.doubles && self.r.pct(10) {
            ret = Double;
        }
        let name = format!("{}{}", self.r.pick(&["f", "fun_", "calc", "helper", "_g", "do_"]), k);
        self.may_print = self.r.pct(40);
        self.may_write = self.r.pct(50);
        self.ret = ret.clone();
        let rec = self.c.recursion && self.r.pct(50);
        let mut params = vec![];
        let np = self.r.idx(5);
        let plen = 1 + self.r.idx(3);
        let mut bounded = None;
        if rec {
            bounded = Some(0);
            params.push(if self.c.tys.contains(&Long) && self.r.pct(20) { Long } else { Int });
        }
        for _ in 0..np {
            params.push(self.param_ty());
        }
        for (i, t) in params.iter().enumerate() {
            let v = self.new_local(t.clone());
            let slen = match t {
                Ptr(_) => plen,
                _ => 0,
            };
            let strv = matches!(t, Ptr(_)) && !self.may_write;
            self.add_sym(v, t, bounded == Some(i) || matches!(t, Ptr(_)), slen, strv);
            if strv {
                // readable through, but not necessarily a terminated string
                self.syms.last_mut().unwrap().strv = false;
            }
        }
        // a Ptr(Char) parameter is not known to be a terminated string
        let idx = self.p.funcs.len();
        let n = 1 + self.r.idx(self.c.stmts);
        let mut body = vec![];
        let fi = FInfo { idx, ret: ret.clone(), params: params.clone(), pure: false, bounded, plen };
        if rec {
            // base case
            let nv = self.syms.iter().find(|s| !s.v.global && s.v.idx == 0).unwrap().clone();
            let nx = self.var(&nv);
            let z = self.int(0);
            let op = if self.r.pct(60) { BinOp::Le } else { BinOp::Lt };
            let c = self.e(Int, EK::Bin(op, Box::new(nx), Box::new(z)));
            let r = self.ret_stmt();
            let s = self.s(SK::If(c, vec![r], None));
            body.push(s);
            let b = self.block_open(n / 2);
            body.extend(b);
            self.recurse(&fi, &mut body);
        } else {
            let b = self.block_open(n);
            body.extend(b);
            if ret != Void || self.r.pct(20) {
                let r = self.ret_stmt();
                body.push(r);
            }
        }
        let proto = self.r.pct(40);
        let f = Func { name, ret, nparams: params.len(), locals: std::mem::take(&mut self.locals), body, proto };
        self.p.funcs.push(f);
        let mut fi = fi;
        fi.pure = !self.impure && !self.may_write && fi.ret != Void;
        self.fis.push(fi);
    }
    fn block_open(&mut self, n: usize) -> Vec<Stmt> {
        let mut out = vec![];
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            self.stmt(&mut out);
        }
        out
    }
    fn self_call(&mut self, fi: &FInfo, perm: bool) -> Option<Expr> {
        let mut args = vec![];
        let params = fi.params.clone();
        for (i, t) in params.iter().enumerate() {
            let own = |g: &mut Self, i: usize| {
                let ty = g.locals[i].ty.clone();
                g.e(ty, EK::Var(VarRef { global: false, idx: i }))
            };
            if i == 0 {
                let n = own(self, 0);
                let one = self.int(1);
                args.push(self.e(t.clone(), EK::Bin(BinOp::Sub, Box::new(n), Box::new(one))));
            } else if matches!(t, Ptr(_)) {
                args.push(own(self, i));
            } else if perm {
                // another parameter of the same type: arguments that permute parameters
                let same: Vec<usize> = (1..params.len()).filter(|j| params[*j] == *t).collect();
                let j = same[self.r.idx(same.len())];
                args.push(own(self, j));
            } else {
                args.push(self.arg(t, 2, fi.plen, true)?);
            }
        }
        Some(self.e(fi.ret.clone(), EK::Call(Callee::User(fi.idx), args)))
    }
    fn recurse(&mut self, fi: &FInfo, body: &mut Vec<Stmt>) {
        let perm = self.r.pct(40);
        let c1 = match self.self_call(fi, perm) {
            Some(c) => c,
            None => return,
        };
        let ret = fi.ret.clone();
        let tail = self.r.pct(65);
        if ret == Void {
            let s = self.s(SK::Expr(c1));
            if self.r.pct(50) {
                let c = self.cond(1);
                let st = self.s(SK::If(c, vec![s], None));
                body.push(st);
            } else {
                body.push(s);
            }
            if !tail {
                let b = self.block_open(1);
                body.extend(b);
            }
            return;
        }
        if tail {
            if self.r.pct(50) {
                let p2 = self.r.pct(40);
                if let Some(c2) = self.self_call(fi, p2) {
                    let c = self.cond(1);
                    let r1 = self.s(SK::Return(Some(c2)));
                    let s = self.s(SK::If(c, vec![r1], None));
                    body.push(s);
                }
                if self.r.pct(30) {
                    let c = self.cond(1);
                    let r = self.ret_stmt();
                    let s = self.s(SK::If(c, vec![r], None));
                    body.push(s);
                }
            }
            let r = self.s(SK::Return(Some(c1)));
            body.push(r);
        } else {
            let v = self.new_local(ret.clone());
            let s = self.s(SK::Decl(v, Init::E(c1)));
            body.push(s);
            self.add_sym(v, &ret, false, 0, false);
            let b = self.block_open(1);
            body.extend(b);
            let r = self.ret_stmt();
            body.push(r);
        }
    }
    fn final_prints(&mut self, out: &mut Vec<Stmt>) {
        let syms = self.syms.clone();
        for s in syms.iter().filter(|s| !s.hid) {
            let mut parts = vec![];
            let v = self.var(s);
            match &s.ty {
                t if t.is_int() => {
                    parts.push(self.spec_of(v));
                }
                Double if self.r.pct(50) => parts.push(PPart::Spec("%f", v)),
                Double => {
                    let k = self.e(Double, EK::Dbl(8.0));
                    let m = self.e(Double, EK::Bin(BinOp::Mul, Box::new(v), Box::new(k)));
                    let c = self.cast(m, &Int);
                    parts.push(PPart::Spec("%d", c));
                }
                Arr(..) | Struct(_) => {
                    let mut ls = vec![];
                    self.leaves(v, &mut ls);
                    for e in ls.into_iter().take(24) {
                        if e.ty.is_arith() {
                            parts.push(self.spec_of(e));
                            parts.push(PPart::Lit(b" ".to_vec()));
                        }
                    }
                }
                Ptr(t) if **t == Char && s.strv => parts.push(PPart::Spec("%s", v)),
                _ => {}
            }
            if parts.is_empty() {
                continue;
            }
            parts.push(PPart::Lit(b"\n".to_vec()));
            let p = self.s(SK::Print(parts));
            out.push(p);
        }
    }
    fn spec_of(&mut self, e: Expr) -> PPart {
        match e.ty {
            UInt => PPart::Spec("%u", e),
            Long => PPart::Spec("%ld", e),
            ULong => PPart::Spec("%lu", e),
            Int => PPart::Spec("%d", e),
            Double => PPart::Spec("%f", e),
            _ if self.r.pct(40) => PPart::Spec("%d", e),
            _ => {
                let e = self.cast(e, &Int);
                PPart::Spec("%d", e)
            }
        }
    }
    fn program(mut self) -> Program {
        self.p.style = self.r.next();
        self.cols = 2 + self.r.idx(2);
        self.p.includes.push("<stdio.h>".into());
        if self.c.libs || self.r.pct(30) {
            self.p.includes.push("<string.h>".into());
        }
        if self.c.libs {
            self.p.includes.push("<stdlib.h>".into());
            self.p.includes.push("<ctype.h>".into());
        }
        if self.r.pct(15) {
            self.p.includes.push("<limits.h>".into());
            if self.r.pct(30) {
                self.p.includes.push("<stddef.h>".into());
            }
        }
        if self.r.pct(30) {
            let v = self.r.range(-20, 300) as i128;
            self.p.macros.push(("SIZE".into(), v));
            if self.r.pct(40) {
                let v = self.r.range(0, 30) as i128;
                self.p.macros.push(("LIMIT_2".into(), v));
            }
        }
        if self.r.pct(25) {
            let mut v = vec![];
            let mut cur = 0i128;
            for i in 0..1 + self.r.idx(5) {
                let x = self.r.pct(35);
                if x {
                    cur = self.r.range(-3, 200) as i128;
                }
                v.push((format!("E{}", i), cur, x && cur >= 0));
                if x && cur < 0 {
                    // negative values only implicitly: keep the list simple
                    let k = v.len() - 1;
                    let prev = if k == 0 { 0 } else { v[k - 1].1 + 1 };
                    v[k].1 = prev;
                    cur = prev;
                }
                cur += 1;
            }
            self.p.enums.push(("Kind".into(), v));
        }
        if self.r.pct(25) {
            let t = self.some_ty();
            let n = *self.r.pick(&["num_t", "num_t", "Q", "z", "_", "U8", "intt"]);
            self.p.typedefs.push((n.into(), t));
        }
        if self.c.structs {
            for i in 0..1 + self.r.idx(if self.c.more { 3 } else { 2 }) {
                let mut fields = vec![];
                for j in 0..1 + self.r.idx(5) {
                    let mut t = if self.c.doubles && self.r.pct(15) { Double } else { self.some_ty() };
                    if self.r.pct(15) && self.c.arrays && t != Double {
                        t = t.arr(2 + self.r.idx(3));
                    } else if self.c.more && i > 0 && self.r.pct(30) {
                        t = Struct(self.r.idx(i));
                        if self.p.cells(&t) > 6 {
                            t = self.some_ty();
                        } else if self.r.pct(30) && self.p.cells(&t) < 4 {
                            t = t.arr(2);
                        }
                    } else if self.c.more && self.c.arrays && self.r.pct(6) {
                        t = t.arr(self.cols).arr(2);
                    }
                    fields.push((format!("{}{}", self.r.pick(&["m", "f_", "val"]), j), t));
                }
                let typedef = self.r.pct(30);
                self.p.structs.push(StructDef { name: format!("S{}", i), fields, typedef });
            }
        }
        self.nplain = self.p.structs.len();
        if self.c.globals {
            for _ in 0..1 + self.r.idx(4) {
                let name = self.name();
                let t = self.some_ty();
                let (ty, init) = match self.r.idx(6) {
                    0 | 1 if self.c.more && self.r.pct(60) => {
                        let ty = self.some_aggregate();
                        let init = if self.r.pct(70) { self.init_of(&ty, true) } else { Init::None };
                        (ty, init)
                    }
                    0 if self.c.arrays => {
                        let n = 1 + self.r.idx(6);
                        let mut v = vec![];
                        for _ in 0..n {
                            v.push(self.raw_const(&t));
                        }
                        (t.clone().arr(n), Init::List(v))
                    }
                    1 => (t, Init::None),
                    _ => {
                        let e = self.raw_const(&t);
                        (t, Init::E(e))
                    }
                };
                let slen = match &ty {
                    Arr(_, n) => *n,
                    _ => 0,
                };
                self.p.globals.push(Var { name, ty: ty.clone(), init, stat: false });
                let idx = self.p.globals.len() - 1;
                self.syms.push(Sym { v: VarRef { global: true, idx }, ty, ro: false, addr: true, slen, strv: false, hid: false, nowr: false, term: false });
            }
        }
        if self.c.more {
            self.global_pointers();
            self.pointer_helpers();
        }
        let share = self.budget / (self.c.funcs as i64 + 1);
        let total = self.budget;
        for k in 0..self.c.funcs {
            self.budget = share.max(3);
            self.function(k);
        }
        // main
        self.start_fun();
        self.budget = (total - share * self.c.funcs as i64).max(5);
        self.ret = Int;
        self.may_print = true;
        self.may_write = true;
        let n = self.c.stmts;
        let mut body = self.block_open(n);
        // every function is called at least once
        for f in self.fis.clone() {
            if self.r.pct(70) {
                if let Some(e) = self.call(&f, 1) {
                    if f.ret.is_int() {
                        let sp = match f.ret {
                            _ => self.spec_of(e),
                        };
                        let p = self.s(SK::Print(vec![PPart::Lit(b"r=".to_vec()), sp, PPart::Lit(b"\n".to_vec())]));
                        body.push(p);
                    } else {
                        let s = self.s(SK::Expr(e));
                        body.push(s);
                    }
                }
            }
        }
        self.final_prints(&mut body);
        let code = self.r.range(0, 40) as i128;
        let e = if self.r.pct(50) {
            self.int(code)
        } else {
            let a = self.expr(&Int, 1);
            let m = self.int(63);
            self.e(Int, EK::Bin(BinOp::And, Box::new(a), Box::new(m)))
        };
        if !self.r.pct(5) {
            let r = self.s(SK::Return(Some(e)));
            body.push(r);
        }
        let f = Func { name: "main".into(), ret: Int, nparams: 0, locals: std::mem::take(&mut self.locals), body, proto: false };
        self.p.funcs.push(f);
        self.p
    }
}

pub fn is_local_place(e: &Expr) -> bool {
    match &e.k {
        EK::Var(v) => !v.global,
        EK::Index(a, _) => matches!(a.ty, Arr(..)) && is_local_place(a),
        EK::Field(a, ..) => is_local_place(a),
        _ => false,
    }
}
fn any_stmt(b: &[Stmt], into_loops: bool, f: &dyn Fn(&Stmt) -> bool) -> bool {
    b.iter().any(|s| {
        f(s) || match &s.k {
            SK::If(_, a, b) => any_stmt(a, into_loops, f) || b.as_ref().map_or(false, |b| any_stmt(b, into_loops, f)),
            SK::Block(b) | SK::GotoLoop(_, b, _) | SK::Labeled(_, b) => any_stmt(b, into_loops, f),
            SK::Switch(_, c) => c.iter().any(|c| any_stmt(&c.1, into_loops, f)),
            SK::While(_, b) | SK::DoWhile(b, _) | SK::For(_, _, _, b) => into_loops && any_stmt(b, into_loops, f),
            _ => false,
        }
    })
}
fn has_continue(b: &[Stmt]) -> bool {
    any_stmt(b, false, &|s| matches!(s.k, SK::Continue))
}
fn has_break(b: &[Stmt]) -> bool {
    any_stmt(b, false, &|s| matches!(s.k, SK::Break | SK::Continue))
}
fn has_decl(b: &[Stmt]) -> bool {
    b.iter().any(|s| matches!(s.k, SK::Decl(..)))
}
fn ends_jump(b: &[Stmt]) -> bool {
    matches!(b.last().map(|s| &s.k), Some(SK::Break | SK::Continue | SK::Return(_)))
}

// ---------------------------------------------------------------- repair

pub fn each_expr(b: &mut [Stmt], f: &mut dyn FnMut(&mut Expr)) {
    for s in b {
        each_expr_stmt(s, f);
    }
}
pub fn init_exprs(i: &mut Init, f: &mut dyn FnMut(&mut Expr)) {
    match i {
        Init::E(e) => walk(e, f),
        Init::List(v) => v.iter_mut().for_each(|e| walk(e, f)),
        Init::Nest(v) => v.iter_mut().for_each(|i| init_exprs(i, f)),
        _ => {}
    }
}
pub fn each_expr_stmt(s: &mut Stmt, f: &mut dyn FnMut(&mut Expr)) {
    match &mut s.k {
        SK::Decl(_, i) => init_exprs(i, f),
        SK::Expr(e) => walk(e, f),
        SK::Assign(l, _, e) => {
            walk(l, f);
            walk(e, f)
        }
        SK::IncDec(l, ..) => walk(l, f),
        SK::If(c, a, b) => {
            walk(c, f);
            each_expr(a, f);
            if let Some(b) = b {
                each_expr(b, f)
            }
        }
        SK::While(c, b) => {
            walk(c, f);
            each_expr(b, f)
        }
        SK::DoWhile(b, c) | SK::GotoLoop(_, b, c) => {
            each_expr(b, f);
            walk(c, f)
        }
        SK::For(i, c, n, b) => {
            if let Some(i) = i {
                each_expr_stmt(i, f)
            }
            if let Some(c) = c {
                walk(c, f)
            }
            if let Some(n) = n {
                each_expr_stmt(n, f)
            }
            each_expr(b, f)
        }
        SK::Switch(e, c) => {
            walk(e, f);
            for x in c {
                each_expr(&mut x.1, f)
            }
        }
        SK::Return(Some(e)) => walk(e, f),
        SK::Block(b) | SK::Labeled(_, b) => each_expr(b, f),
        SK::Print(p) => {
            for x in p {
                if let PPart::Spec(_, e) = x {
                    walk(e, f)
                }
            }
        }
        _ => {}
    }
}
pub fn walk(e: &mut Expr, f: &mut dyn FnMut(&mut Expr)) {
    f(e);
    match &mut e.k {
        EK::Un(_, a) | EK::Cast(a) | EK::Field(a, ..) | EK::Arrow(a, ..) | EK::Deref(a) | EK::Addr(a) | EK::IncDec(a, ..) | EK::SizeofE(a) => walk(a, f),
        EK::Bin(_, a, b) | EK::Index(a, b) | EK::Assign(a, b) | EK::OpAssign(_, a, b) => {
            walk(a, f);
            walk(b, f)
        }
        EK::Cond(a, b, c) => {
            walk(a, f);
            walk(b, f);
            walk(c, f)
        }
        EK::Call(_, v) => v.iter_mut().for_each(|a| walk(a, f)),
        _ => {}
    }
}
pub fn each_stmt(b: &mut [Stmt], f: &mut dyn FnMut(&mut Stmt)) {
    for s in b {
        f(s);
        match &mut s.k {
            SK::If(_, a, b) => {
                each_stmt(a, f);
                if let Some(b) = b {
                    each_stmt(b, f)
                }
            }
            SK::While(_, b) | SK::DoWhile(b, _) | SK::GotoLoop(_, b, _) | SK::Labeled(_, b) | SK::Block(b) => each_stmt(b, f),
            SK::For(i, _, n, b) => {
                if let Some(i) = i {
                    f(i)
                }
                if let Some(n) = n {
                    f(n)
                }
                each_stmt(b, f)
            }
            SK::Switch(_, c) => {
                for x in c {
                    each_stmt(&mut x.1, f)
                }
            }
            _ => {}
        }
    }
}

/// changes the node that has undefined behaviour into one that has not; false if it cannot
pub fn repair(p: &mut Program, node: u32, kind: &str) -> bool {
    let mut done = false;
    let one = |ty: &Ty, id: u32| -> Option<Expr> {
        Some(match ty {
            Double => Expr { id, ty: Double, k: EK::Dbl(1.5) },
            Int => Expr { id, ty: Int, k: EK::Int(1, 0) },
            t if t.is_int() => Expr { id, ty: t.clone(), k: EK::Cast(Box::new(Expr { id: id + 5_000_000, ty: Int, k: EK::Int(1, 0) })) },
            _ => return None,
        })
    };
    let mut fix = |e: &mut Expr| {
        if e.id != node || done {
            return;
        }
        let keep = matches!(e.k, EK::Int(0, _) | EK::Deref(_) | EK::Index(..) | EK::Arrow(..));
        match (&mut e.k, kind) {
            (EK::Bin(op, _, _), "overflow") if !matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) => {
                *op = match node % 3 {
                    0 => BinOp::And,
                    1 => BinOp::Or,
                    _ => BinOp::Xor,
                };
                if let EK::Bin(op, a, b) = &e.k {
                    let _ = op;
                    let t = common(&a.ty, &b.ty);
                    if t != e.ty {
                        return;
                    }
                }
                done = true;
            }
            (EK::Un(op, _), "overflow") => {
                *op = UnOp::BitNot;
                done = true;
            }
            (_, "div0") | (_, "shift") => {
                if e.ty == Double {
                    e.k = EK::Dbl(2.0);
                    done = true;
                } else if let Some(x) = one(&e.ty, e.id) {
                    *e = x;
                    done = true;
                }
            }
            (_, "oob") if e.ty.is_int() && !keep => {
                e.k = EK::Int(0, 0);
                e.ty = Int;
                done = true;
            }
            (_, "uninit") | (_, "oob") | (_, "null") | (_, "noreturn") | (_, "inexact") | (_, "dconv") | (_, "double") | (_, "overflow") | (_, "str")
            | (_, "lib") => {
                if let Some(x) = one(&e.ty, e.id) {
                    *e = x;
                    done = true;
                }
            }
            _ => {}
        }
    };
    for f in &mut p.funcs {
        each_expr(&mut f.body, &mut fix);
    }
    if done {
        return true;
    }
    // compound assignments and ++/-- report their statement
    let funcs = &mut p.funcs;
    for f in funcs {
        let locals = f.locals.clone();
        each_stmt(&mut f.body, &mut |s| {
            if s.id != node || done {
                return;
            }
            match &mut s.k {
                SK::Assign(l, op, e) if op.is_some() => {
                    if l.ty.is_int() && e.ty.is_int() {
                        *op = if *op == Some(BinOp::Xor) { None } else { Some(BinOp::Xor) };
                        if op.is_none() {
                            *e = one(&l.ty, e.id).unwrap();
                        }
                        done = true;
                    } else if l.ty == Double {
                        *op = None;
                        *e = one(&Double, e.id).unwrap();
                        done = true;
                    }
                }
                SK::IncDec(l, ..) if l.ty.is_int() => {
                    let x = one(&l.ty, s.id + 6_000_000).unwrap();
                    let l = l.clone();
                    s.k = SK::Assign(l, None, x);
                    done = true;
                }
                SK::Decl(..) => {
                    let _ = &locals;
                }
                _ => {}
            }
        });
    }
    done
}

pub fn finish(mut p: Program, limit: u64) -> Option<(Program, Outcome)> {
    for _ in 0..80 {
        match interp::run(&p, limit) {
            Ok(o) => return if crate::shrink::well_formed(&p) { Some((p, o)) } else { None },
            Err(Bad::Ub(n, k)) => {
                if !repair(&mut p, n, k) {
                    return None;
                }
            }
            Err(_) => return None,
        }
    }
    None
}

pub fn program(r: &mut Rng, c: Cfg) -> Program {
    let budget = (c.stmts * 3) as i64;
    Gen {
        r,
        p: Program::default(),
        c,
        syms: vec![],
        fis: vec![],
        locals: vec![],
        budget,
        loop_depth: 0,
        names: 0,
        impure: false,
        ret: Void,
        in_switch: false,
        labels: 0,
        may_print: true,
        may_write: true,
        used: Default::default(),
        nplain: 0,
        block_mark: 0,
        outs: vec![],
        cols: 2,
        helpers: vec![],
    }
    .program()
}

/// a well-defined program and what it does
pub fn valid(r: &mut Rng, cfg: &dyn Fn(&mut Rng) -> Cfg, limit: u64) -> (Program, Outcome) {
    loop {
        let c = cfg(r);
        let p = program(r, c);
        if let Some(x) = finish(p, limit) {
            return x;
        }
    }
}
