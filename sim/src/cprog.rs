//! A mini-C abstract syntax: what the generator makes, the model executes and the compiler compiles.
use crate::rng::mix;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Char,
    UChar,
    Short,
    UShort,
    Int,
    UInt,
    Long,
    ULong,
    Double,
    Ptr(Box<Ty>),
    Arr(Box<Ty>, usize),
    Struct(usize),
}
use Ty::*;

impl Ty {
    pub fn ptr(self) -> Ty {
        Ptr(Box::new(self))
    }
    pub fn arr(self, n: usize) -> Ty {
        Arr(Box::new(self), n)
    }
    pub fn is_int(&self) -> bool {
        matches!(self, Char | UChar | Short | UShort | Int | UInt | Long | ULong)
    }
    pub fn is_arith(&self) -> bool {
        self.is_int() || *self == Double
    }
    pub fn bits(&self) -> u32 {
        match self {
            Char | UChar => 8,
            Short | UShort => 16,
            Int | UInt => 32,
            _ => 64,
        }
    }
    pub fn signed(&self) -> bool {
        matches!(self, Char | Short | Int | Long)
    }
    pub fn min(&self) -> i128 {
        if self.signed() {
            -(1i128 << (self.bits() - 1))
        } else {
            0
        }
    }
    pub fn max(&self) -> i128 {
        if self.signed() {
            (1i128 << (self.bits() - 1)) - 1
        } else {
            (1i128 << self.bits()) - 1
        }
    }
    pub fn wrap(&self, v: i128) -> i128 {
        let m = 1i128 << self.bits();
        let r = v.rem_euclid(m);
        if self.signed() && r >= m / 2 {
            r - m
        } else {
            r
        }
    }
    pub fn promote(&self) -> Ty {
        match self {
            Char | UChar | Short | UShort => Int,
            t => t.clone(),
        }
    }
    pub fn byte_size(&self, p: &Program) -> usize {
        match self {
            Void => 0,
            Char | UChar => 1,
            Short | UShort => 2,
            Int | UInt | Ptr(_) => 4,
            Long | ULong | Double => 8,
            Arr(t, n) => t.byte_size(p) * n,
            Struct(i) => p.structs[*i].fields.iter().map(|f| f.1.byte_size(p)).sum(),
        }
    }
}

/// the usual arithmetic conversions
pub fn common(a: &Ty, b: &Ty) -> Ty {
    let (a, b) = (a.promote(), b.promote());
    for t in [Double, ULong, Long, UInt] {
        if a == t || b == t {
            return t;
        }
    }
    Int
}

/// conversions this compiler implements (explicit casts, initialisation and assignment)
pub fn castable(from: &Ty, to: &Ty) -> bool {
    if from == to {
        return true;
    }
    match from {
        Char | UChar | Short | UShort | Int | UInt | Long | ULong => to.is_arith(),
        Double => matches!(to, Int),
        _ => false,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Shl,
    Shr,
    And,
    Or,
    Xor,
    Lt,
    Gt,
    Le,
    Ge,
    Eq,
    Ne,
    LAnd,
    LOr,
}
use BinOp::*;
impl BinOp {
    pub fn text(self) -> &'static str {
        match self {
            Add => "+",
            Sub => "-",
            Mul => "*",
            Div => "/",
            Mod => "%",
            Shl => "<<",
            Shr => ">>",
            And => "&",
            Or => "|",
            Xor => "^",
            Lt => "<",
            Gt => ">",
            Le => "<=",
            Ge => ">=",
            Eq => "==",
            Ne => "!=",
            LAnd => "&&",
            LOr => "||",
        }
    }
    pub fn prec(self) -> u8 {
        match self {
            Mul | Div | Mod => 12,
            Add | Sub => 11,
            Shl | Shr => 10,
            Lt | Gt | Le | Ge => 9,
            Eq | Ne => 8,
            And => 7,
            Xor => 6,
            Or => 5,
            LAnd => 4,
            LOr => 3,
        }
    }
    pub fn is_cmp(self) -> bool {
        matches!(self, Lt | Gt | Le | Ge | Eq | Ne)
    }
    pub fn is_logic(self) -> bool {
        matches!(self, LAnd | LOr)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum UnOp {
    Neg,
    BitNot,
    Not,
    Plus,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct VarRef {
    pub global: bool,
    pub idx: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Callee {
    User(usize),
    Lib(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub enum EK {
    Int(i128, u8),        // value, spelling
    Named(String, i128),  // enum constant or macro
    Dbl(f64),
    Str(Vec<u8>),
    Null,
    Var(VarRef),
    Un(UnOp, Box<Expr>),
    Bin(BinOp, Box<Expr>, Box<Expr>),
    Cond(Box<Expr>, Box<Expr>, Box<Expr>),
    Cast(Box<Expr>),
    Call(Callee, Vec<Expr>),
    Index(Box<Expr>, Box<Expr>),
    Field(Box<Expr>, usize, usize), // struct lvalue, struct id, field
    Arrow(Box<Expr>, usize, usize),
    Deref(Box<Expr>),
    Addr(Box<Expr>),
    SizeofTy(Ty),
    SizeofE(Box<Expr>), // its operand is not evaluated
    Assign(Box<Expr>, Box<Expr>),
    OpAssign(BinOp, Box<Expr>, Box<Expr>),
    IncDec(Box<Expr>, bool, bool), // lvalue, inc, prefix
}

#[derive(Clone, Debug, PartialEq)]
pub struct Expr {
    pub id: u32,
    pub ty: Ty,
    pub k: EK,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Init {
    None,
    E(Expr),
    List(Vec<Expr>),
    Nest(Vec<Init>),
    Str(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum PPart {
    Lit(Vec<u8>),
    Spec(&'static str, Expr),
}

#[derive(Clone, Debug, PartialEq)]
pub enum SK {
    Decl(usize, Init),
    Expr(Expr),
    Assign(Expr, Option<BinOp>, Expr),
    IncDec(Expr, bool, bool),
    If(Expr, Vec<Stmt>, Option<Vec<Stmt>>),
    While(Expr, Vec<Stmt>),
    DoWhile(Vec<Stmt>, Expr),
    For(Option<Box<Stmt>>, Option<Expr>, Option<Box<Stmt>>, Vec<Stmt>),
    Switch(Expr, Vec<(Vec<Option<i128>>, Vec<Stmt>)>),
    Break,
    Continue,
    Return(Option<Expr>),
    Block(Vec<Stmt>),
    Print(Vec<PPart>),
    GotoLoop(String, Vec<Stmt>, Expr),
    Labeled(String, Vec<Stmt>), // { body } label: ;
    Goto(String),
    Empty,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Stmt {
    pub id: u32,
    pub k: SK,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub ty: Ty,
    pub init: Init, // globals only
    pub stat: bool,  // static local
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub nparams: usize,
    pub locals: Vec<Var>, // parameters first
    pub body: Vec<Stmt>,
    pub proto: bool,
}

#[derive(Clone, Debug)]
pub struct StructDef {
    pub name: String,
    pub fields: Vec<(String, Ty)>,
    pub typedef: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Program {
    pub includes: Vec<String>,
    pub macros: Vec<(String, i128)>,
    pub enums: Vec<(String, Vec<(String, i128, bool)>)>,
    pub structs: Vec<StructDef>,
    pub typedefs: Vec<(String, Ty)>,
    pub globals: Vec<Var>,
    pub funcs: Vec<Func>, // last one is main
    pub style: u64,
    pub next_id: u32,
}

impl Program {
    pub fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }
    pub fn cells(&self, t: &Ty) -> usize {
        match t {
            Arr(e, n) => self.cells(e) * n,
            Struct(i) => self.structs[*i].fields.iter().map(|f| self.cells(&f.1)).sum(),
            _ => 1,
        }
    }
    pub fn field_off(&self, s: usize, f: usize) -> usize {
        self.structs[s].fields[..f].iter().map(|x| self.cells(&x.1)).sum()
    }
    pub fn size(&self) -> usize {
        let mut n = self.globals.len();
        for f in &self.funcs {
            n += 1 + count_stmts(&f.body);
        }
        n
    }
}

pub fn count_stmts(b: &[Stmt]) -> usize {
    b.iter()
        .map(|s| {
            1 + match &s.k {
                SK::If(_, a, b) => count_stmts(a) + b.as_ref().map_or(0, |b| count_stmts(b)),
                SK::While(_, b) | SK::DoWhile(b, _) | SK::Block(b) | SK::GotoLoop(_, b, _) | SK::Labeled(_, b) => count_stmts(b),
                SK::For(_, _, _, b) => count_stmts(b),
                SK::Switch(_, c) => c.iter().map(|c| 1 + count_stmts(&c.1)).sum(),
                _ => 0,
            }
        })
        .sum()
}

// ---------------------------------------------------------------- text

pub fn escape(b: &[u8], style: u64) -> String {
    let mut o = String::new();
    let mut prev_hex = false;
    for (i, c) in b.iter().enumerate() {
        let h = mix(style ^ (i as u64) << 8 ^ *c as u64);
        let plain = *c >= 32 && *c < 127 && *c != b'"' && *c != b'\\' && *c != b'?';
        let digit = (*c as char).is_ascii_hexdigit();
        if plain && !(prev_hex && digit) {
            o.push(*c as char);
            prev_hex = false;
            continue;
        }
        prev_hex = false;
        match *c {
            b'\n' => o.push_str("\\n"),
            b'\t' => o.push_str("\\t"),
            b'\r' => o.push_str("\\r"),
            b'"' => o.push_str("\\\""),
            b'\\' => o.push_str("\\\\"),
            b'?' => o.push('?'),
            c => {
                if h % 2 == 0 {
                    let _ = write!(o, "\\{:03o}", c);
                } else {
                    let _ = write!(o, "\\x{:02x}", c);
                    prev_hex = true;
                }
            }
        }
    }
    o
}

pub struct Emit<'a> {
    p: &'a Program,
    f: Option<&'a Func>,
    o: String,
    ind: usize,
}

impl<'a> Emit<'a> {
    fn bit(&self, id: u32, pct: u64) -> bool {
        mix(self.p.style.wrapping_add(id as u64 * 7919)) % 100 < pct
    }
    fn base(&self, t: &Ty) -> String {
        match t {
            Void => "void".into(),
            Char => "char".into(),
            UChar => "unsigned char".into(),
            Short => "short".into(),
            UShort => "unsigned short".into(),
            Int => "int".into(),
            UInt => "unsigned int".into(),
            Long => "long".into(),
            ULong => "unsigned long".into(),
            Double => "double".into(),
            Struct(i) => {
                let s = &self.p.structs[*i];
                if s.typedef {
                    format!("{}_t", s.name)
                } else {
                    format!("struct {}", s.name)
                }
            }
            Ptr(t) => format!("{}*", self.base(t)),
            Arr(t, _) => self.base(t),
        }
    }
    fn tyname(&self, t: &Ty, id: u32) -> String {
        for (n, d) in &self.p.typedefs {
            if d == t && self.bit(id, 30) {
                return n.clone();
            }
        }
        self.base(t)
    }
    pub fn decl(&self, t: &Ty, name: &str, id: u32) -> String {
        match t {
            Arr(e, n) if matches!(**e, Arr(..)) => self.decl(e, &format!("{}[{}]", name, n), id),
            Arr(e, n) => {
                // name may already carry the outer dimensions
                format!("{} {}[{}]", self.tyname(e, id), name, n)
            }
            Ptr(e) if matches!(**e, Arr(..)) => self.decl(e, &format!("{}[]", name), id), // a parameter
            Ptr(e) if self.bit(id, 50) => format!("{} *{}", self.base(e), name),
            _ => format!("{} {}", self.tyname(t, id), name),
        }
    }
    fn var(&self, v: &VarRef) -> &str {
        if v.global {
            &self.p.globals[v.idx].name
        } else {
            &self.f.unwrap().locals[v.idx].name
        }
    }
    fn int(&self, v: i128, ty: &Ty, style: u8) -> (String, u8) {
        let hex = |v: i128, s: u8| if s == 2 { format!("0{:o}", v) } else { format!("0x{:X}", v) };
        let body = |v: i128| match style {
            1 if v >= 0 && v <= 0x7fffffff => format!("0x{:x}", v),
            2 if v > 0 && v <= 0x7fffffff => format!("0{:o}", v),
            3 if v >= 32 && v < 127 && v != 39 && v != 92 => format!("'{}'", v as u8 as char),
            4 if v == 10 => "'\\n'".into(),
            4 if v == 0 => "'\\0'".into(),
            // a decimal spelling is never unsigned; any other is, if that is what it takes to fit
            s if !ty.signed() => hex(v, s),
            s @ 1..=2 if *ty == Ty::Long && v > u32::MAX as i128 && v <= i64::MAX as i128 => hex(v, s),
            _ => format!("{}", v),
        };
        if v < 0 {
            (format!("-{}", body(-v)), 14)
        } else {
            (body(v), 20)
        }
    }
    /// text with its precedence (20 = primary, 15 = postfix, 14 = unary, 2 = conditional, 1 = assignment)
    fn ex(&self, e: &Expr) -> (String, u8) {
        match &e.k {
            EK::Int(v, s) => self.int(*v, &e.ty, *s),
            EK::Named(n, _) => (n.clone(), 20),
            EK::Dbl(d) => {
                let t = format!("{:?}", d.abs());
                if *d < 0.0 {
                    (format!("(0.0 - {})", t), 20)
                } else {
                    (t, 20)
                }
            }
            EK::Str(b) => (format!("\"{}\"", escape(b, self.p.style)), 20),
            EK::Null => ("NULL".into(), 20),
            EK::Var(v) => (self.var(v).to_string(), 20),
            EK::Un(op, a) => {
                let o = match op {
                    UnOp::Neg => "-",
                    UnOp::BitNot => "~",
                    UnOp::Not => "!",
                    UnOp::Plus => "+",
                };
                let t = self.at(a, 14);
                let sp = if t.starts_with('-') || t.starts_with('+') { " " } else { "" };
                (format!("{}{}{}", o, sp, t), 14)
            }
            EK::Bin(op, a, b) => {
                let p = op.prec();
                (format!("{} {} {}", self.at(a, p), op.text(), self.at(b, p + 1)), p)
            }
            EK::Cond(c, a, b) => (format!("{} ? {} : {}", self.at(c, 3), self.at(a, 2), self.at(b, 2)), 2),
            EK::Cast(a) => (format!("({}){}", self.tyname(&e.ty, e.id), self.at(a, 14)), 14),
            EK::Call(c, args) => {
                let n = match c {
                    Callee::User(i) => self.p.funcs[*i].name.as_str(),
                    Callee::Lib(n) => n,
                };
                let a: Vec<String> = args.iter().map(|a| self.at(a, 1)).collect();
                (format!("{}({})", n, a.join(", ")), 15)
            }
            EK::Index(a, i) => (format!("{}[{}]", self.at(a, 15), self.at(i, 0)), 15),
            EK::Field(a, s, f) => (format!("{}.{}", self.at(a, 15), self.p.structs[*s].fields[*f].0), 15),
            EK::Arrow(a, s, f) => (format!("{}->{}", self.at(a, 15), self.p.structs[*s].fields[*f].0), 15),
            EK::Deref(a) => (format!("*{}", self.at(a, 14)), 14),
            EK::Addr(a) => (format!("&{}", self.at(a, 14)), 14),
            EK::SizeofTy(t) => (format!("sizeof({})", self.base(t)), 20),
            EK::SizeofE(a) => {
                if matches!(a.k, EK::Var(_) | EK::Index(..)) && self.bit(e.id, 40) {
                    (format!("sizeof {}", self.at(a, 15)), 14)
                } else {
                    (format!("sizeof({})", self.at(a, 0)), 20)
                }
            }
            EK::Assign(l, r) => (format!("{} = {}", self.at(l, 14), self.at(r, 1)), 1),
            EK::OpAssign(o, l, r) => (format!("{} {}= {}", self.at(l, 14), o.text(), self.at(r, 1)), 1),
            EK::IncDec(l, inc, pre) => {
                let o = if *inc { "++" } else { "--" };
                if *pre {
                    (format!("{}{}", o, self.at(l, 14)), 14)
                } else {
                    (format!("{}{}", self.at(l, 15), o), 15)
                }
            }
        }
    }
    fn at(&self, e: &Expr, min: u8) -> String {
        let (t, p) = self.ex(e);
        if p < min || (p < 14 && p > 1 && min > 1 && self.bit(e.id, 35)) {
            format!("({})", t)
        } else {
            t
        }
    }
    fn line(&mut self, t: &str) {
        for _ in 0..self.ind {
            self.o.push_str("    ");
        }
        self.o.push_str(t);
        self.o.push('\n');
    }
    fn init(&self, i: &Init) -> String {
        match i {
            Init::None => String::new(),
            Init::E(e) => format!(" = {}", self.at(e, 1)),
            Init::List(v) => format!(" = {{{}}}", v.iter().map(|e| self.at(e, 1)).collect::<Vec<_>>().join(", ")),
            Init::Str(b) => format!(" = \"{}\"", escape(b, self.p.style)),
            Init::Nest(_) => format!(" = {}", self.nest(i)),
        }
    }
    fn nest(&self, i: &Init) -> String {
        match i {
            Init::Nest(v) => format!("{{{}}}", v.iter().map(|x| self.nest(x)).collect::<Vec<_>>().join(", ")),
            Init::List(v) => format!("{{{}}}", v.iter().map(|e| self.at(e, 1)).collect::<Vec<_>>().join(", ")),
            Init::E(e) => self.at(e, 1),
            _ => String::new(),
        }
    }
    fn block(&mut self, head: &str, b: &[Stmt], id: u32, tail: &str) {
        // a single statement sometimes goes without braces
        let one = b.len() == 1
            && tail.is_empty()
            && !matches!(b[0].k, SK::Decl(..) | SK::If(..) | SK::GotoLoop(..) | SK::Labeled(..))
            && self.bit(id, 25);
        if one {
            self.line(head);
            self.ind += 1;
            self.stmt(&b[0]);
            self.ind -= 1;
        } else {
            self.line(&format!("{} {{", head));
            self.ind += 1;
            self.list(b);
            self.ind -= 1;
            self.line(&format!("}}{}", tail));
        }
    }
    fn simple(&self, s: &Stmt) -> String {
        match &s.k {
            SK::Decl(v, i) => {
                let x = &self.f.unwrap().locals[*v];
                format!("{}{}{}", if x.stat { "static " } else { "" }, self.decl(&x.ty, &x.name, s.id), self.init(i))
            }
            SK::Expr(e) => self.at(e, 0),
            SK::Assign(l, op, e) => format!("{} {}= {}", self.at(l, 14), op.map_or("", |o| o.text()), self.at(e, 1)),
            SK::IncDec(l, inc, pre) => {
                let o = if *inc { "++" } else { "--" };
                if *pre {
                    format!("{}{}", o, self.at(l, 14))
                } else {
                    format!("{}{}", self.at(l, 15), o)
                }
            }
            _ => String::new(),
        }
    }
    /// a statement list; neighbouring declarations of one type are sometimes one declaration
    fn list(&mut self, b: &[Stmt]) {
        let mut i = 0;
        while i < b.len() {
            let mut j = i + 1;
            if let Some(t) = self.root(&b[i]) {
                while j < b.len() && self.root(&b[j]).as_ref() == Some(&t) && self.bit(b[j].id, 25) {
                    j += 1;
                }
                if j > i + 1 {
                    let mut o = String::new();
                    for (k, s) in b[i..j].iter().enumerate() {
                        if let SK::Decl(v, init) = &s.k {
                            let x = &self.f.unwrap().locals[*v];
                            o += if k == 0 { "" } else { ", " };
                            o += &Self::declarator(&x.ty, &x.name);
                            o += &self.init(init);
                        }
                    }
                    let l = format!("{} {};", self.base(&t), o);
                    self.line(&l);
                    i = j;
                    continue;
                }
            }
            self.stmt(&b[i]);
            i += 1;
        }
    }
    /// the type a declaration begins with
    fn root(&self, s: &Stmt) -> Option<Ty> {
        let SK::Decl(v, _) = &s.k else { return None };
        let x = &self.f.unwrap().locals[*v];
        if x.stat {
            return None;
        }
        let mut t = &x.ty;
        while let Ptr(e) | Arr(e, _) = t {
            t = e;
        }
        Some(t.clone())
    }
    fn declarator(t: &Ty, name: &str) -> String {
        match t {
            Ptr(e) => Self::declarator(e, &format!("*{}", name)),
            Arr(e, n) => Self::declarator(e, &format!("{}[{}]", name, n)),
            _ => name.to_string(),
        }
    }
    fn stmt(&mut self, s: &Stmt) {
        match &s.k {
            SK::Decl(..) | SK::Expr(_) | SK::Assign(..) | SK::IncDec(..) => {
                let mut t = self.simple(s) + ";";
                if self.bit(s.id, 3) {
                    t += " /* note; \"quoted\" */";
                } else if self.bit(s.id + 1, 3) {
                    t += " // trailing";
                }
                self.line(&t)
            }
            SK::If(c, a, b) => {
                let h = format!("if ({})", self.at(c, 0));
                match b {
                    None => self.block(&h, a, s.id, ""),
                    Some(b) => {
                        self.block(&h, a, s.id, "");
                        if b.len() == 1 && matches!(b[0].k, SK::If(..)) && self.bit(s.id, 60) {
                            self.line("else");
                            self.stmt(&b[0]);
                        } else {
                            self.block("else", b, s.id + 1, "")
                        }
                    }
                }
            }
            SK::While(c, b) => {
                let h = format!("while ({})", self.at(c, 0));
                self.block(&h, b, s.id, "")
            }
            SK::DoWhile(b, c) => {
                let t = format!(" while ({});", self.at(c, 0));
                self.block("do", b, s.id, &t)
            }
            SK::For(i, c, n, b) => {
                let h = format!(
                    "for ({}; {}; {})",
                    i.as_ref().map_or(String::new(), |s| self.simple(s)),
                    c.as_ref().map_or(String::new(), |c| self.at(c, 0)),
                    n.as_ref().map_or(String::new(), |s| self.simple(s))
                );
                self.block(&h, b, s.id, "")
            }
            SK::Switch(e, cases) => {
                let h = format!("switch ({}) {{", self.at(e, 0));
                self.line(&h);
                self.ind += 1;
                for (labels, body) in cases {
                    for l in labels {
                        match l {
                            Some(v) => {
                                let t = self.int(*v, &Int, if self.bit(s.id ^ (*v as u32), 30) { 3 } else { 0 }).0;
                                self.line(&format!("case {}:", t))
                            }
                            None => self.line("default:"),
                        }
                    }
                    self.ind += 1;
                    if body.is_empty() {
                        self.line(";");
                    }
                    for s in body {
                        self.stmt(s);
                    }
                    self.ind -= 1;
                }
                self.ind -= 1;
                self.line("}");
            }
            SK::Break => self.line("break;"),
            SK::Continue => self.line("continue;"),
            SK::Return(None) => self.line("return;"),
            SK::Return(Some(e)) => {
                let t = format!("return {};", self.at(e, 0));
                self.line(&t)
            }
            SK::Block(b) => {
                self.line("{");
                self.ind += 1;
                self.list(b);
                self.ind -= 1;
                self.line("}");
            }
            SK::Print(parts) => {
                let mut fmt = vec![];
                let mut args = String::new();
                for p in parts {
                    match p {
                        PPart::Lit(b) => {
                            for c in b {
                                fmt.push(*c);
                                if *c == b'%' {
                                    fmt.push(b'%');
                                }
                            }
                        }
                        PPart::Spec(s, e) => {
                            fmt.extend_from_slice(s.as_bytes());
                            args += ", ";
                            args += &self.at(e, 1);
                        }
                    }
                }
                let t = format!("printf(\"{}\"{});", escape(&fmt, self.p.style), args);
                self.line(&t)
            }
            SK::GotoLoop(l, b, c) => {
                self.line(&format!("{}: ;", l));
                for s in b {
                    self.stmt(s);
                }
                let t = format!("if ({}) goto {};", self.at(c, 0), l);
                self.line(&t);
            }
            SK::Labeled(l, b) => {
                self.line("{");
                self.ind += 1;
                self.list(b);
                self.ind -= 1;
                self.line("}");
                self.line(&format!("{}: ;", l));
            }
            SK::Goto(l) => self.line(&format!("goto {};", l)),
            SK::Empty => self.line(";"),
        }
    }
    fn sig(&self, f: &Func, names: bool) -> String {
        // a prototype must spell its parameters as the definition does
        let bracket = |i: usize, v: &Var| matches!(&v.ty, Ptr(t) if t.is_arith()) && self.bit(i as u32 * 31 + 5, 25);
        let names = names || f.locals[..f.nparams].iter().any(|v| matches!(&v.ty, Ptr(t) if matches!(**t, Arr(..)))) || f.locals[..f.nparams].iter().enumerate().any(|(i, v)| bracket(i, v));
        let ps: Vec<String> = f.locals[..f.nparams]
            .iter()
            .enumerate()
            .map(|(i, v)| {
                if names {
                    match &v.ty {
                        Ptr(t) if bracket(i, v) => format!("{} {}[]", self.base(t), v.name),
                        _ => self.decl(&v.ty, &v.name, i as u32 * 17 + 3),
                    }
                } else {
                    self.base(&v.ty)
                }
            })
            .collect();
        format!("{} {}({})", self.base(&f.ret), f.name, ps.join(", "))
    }
}

pub fn text(p: &Program) -> String {
    let mut e = Emit { p, f: None, o: String::new(), ind: 0 };
    let mut macros = p.macros.clone();
    for (k, i) in p.includes.iter().enumerate() {
        let h = mix(p.style.wrapping_add(k as u64 * 104_729 + 17));
        if h >> 20 & 7 == 0 && !macros.is_empty() {
            let (n, v) = macros.remove(0);
            e.line(&format!("#define {} {}", n, if v < 0 { format!("({})", v) } else { v.to_string() }));
        }
        let name = i.trim_matches(|c| c == '<' || c == '>');
        let d = match h % 24 {
            0 => format!("#include{}", i),
            1 => format!("#include \"{}\"", name),
            2 => format!(" # include {}", i),
            3 => format!("#include {} // for \"%d\" and <this>", i),
            4 => format!("#include\t{} /* \"all\" of it > */", i),
            5 => format!("#include \"{}\" // -> \"x\"", name),
            _ => format!("#include {}", i),
        };
        e.line(&d);
    }
    for (n, v) in &macros {
        e.line(&format!("#define {} {}", n, if *v < 0 { format!("({})", v) } else { v.to_string() }));
    }
    for (n, t) in &p.typedefs {
        let d = format!("typedef {} {};", e.base(t), n);
        e.line(&d);
    }
    for (n, items) in &p.enums {
        let t: Vec<String> = items.iter().map(|(n, v, x)| if *x { format!("{} = {}", n, v) } else { n.clone() }).collect();
        e.line(&format!("enum {} {{ {} }};", n, t.join(", ")));
    }
    for s in &p.structs {
        let t: Vec<String> = s.fields.iter().enumerate().map(|(i, (n, t))| format!("{};", e.decl(t, n, i as u32 * 13))).collect();
        let d = if s.typedef {
            format!("typedef struct {} {{ {} }} {}_t;", s.name, t.join(" "), s.name)
        } else {
            format!("struct {} {{ {} }};", s.name, t.join(" "))
        };
        e.line(&d);
    }
    for (i, v) in p.globals.iter().enumerate() {
        let d = format!("{}{};", e.decl(&v.ty, &v.name, i as u32 * 11 + 1), e.init(&v.init));
        e.line(&d);
    }
    for f in &p.funcs {
        if f.proto {
            e.f = Some(f);
            let d = format!("{};", e.sig(f, mix(p.style ^ 99) % 2 == 0));
            e.line(&d);
        }
    }
    let mut order: Vec<usize> = (0..p.funcs.len()).collect();
    if mix(p.style ^ 7) % 3 == 0 && p.funcs[..p.funcs.len() - 1].iter().all(|f| f.proto) {
        order.reverse();
    }
    for i in order {
        let f = &p.funcs[i];
        e.f = Some(f);
        let h = format!("{} {{", e.sig(f, true));
        e.line(&h);
        e.ind = 1;
        e.list(&f.body);
        e.ind = 0;
        e.line("}");
    }
    e.o
}
