//! The reference model: executes a mini-C program as the C abstract machine does, and refuses
//! (naming the node) as soon as the program does something C leaves undefined.
use crate::cprog::*;
use Ty::*;

/// object, cell, bounds
type At = (u32, u32, u32, u32);
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    U,
    I(i128),
    D(f64),
    /// object, cell, and the cells of the array (or single object) it may move and be used within
    P(u32, u32, u32, u32),
    Nul,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Ub(u32, &'static str), // node
    Limit,
    Depth,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub out: Vec<u8>,
    pub code: i32,
    pub steps: u64,
    pub max_depth: usize,
    pub calls: u64,
    pub prints: u64,
    /// (first byte of the output, call site, call path) of every print
    pub events: Vec<(usize, u32, u64)>,
}

struct Obj {
    cells: Vec<Val>,
    alive: bool,
    perm: bool,
}

enum Flow {
    Next,
    Break,
    Cont,
    Ret(Val),
    Goto(String),
}

struct Frame {
    vars: Vec<u32>, // object of each local; u32::MAX = none yet
}

pub struct Interp<'a> {
    p: &'a Program,
    objs: Vec<Obj>,
    globals: Vec<u32>,
    frames: Vec<Frame>,
    cur: usize, // current function
    out: Vec<u8>,
    steps: u64,
    limit: u64,
    max_depth: usize,
    depth_limit: usize,
    calls: u64,
    prints: u64,
    events: Vec<(usize, u32, u64)>,
    path: Vec<u64>,
    strs: std::collections::HashMap<u32, u32>,
    args: Vec<Vec<u8>>,
    statics: std::collections::HashMap<(usize, usize), u32>,
    fx: std::collections::HashMap<u32, bool>, // expressions with side effects
    ffx: Vec<bool>,                           // functions with side effects
    log: Option<Vec<(u32, u32, bool)>>,       // accesses of the operand being evaluated
}

type R<T> = Result<T, Bad>;
fn ub<T>(id: u32, k: &'static str) -> R<T> {
    Err(Bad::Ub(id, k))
}

fn zero(t: &Ty) -> Val {
    match t {
        Double => Val::D(0.0),
        Ptr(_) => Val::Nul,
        _ => Val::I(0),
    }
}

pub fn run(p: &Program, limit: u64) -> R<Outcome> {
    run_args(p, limit, 200, &[])
}

pub fn run_args(p: &Program, limit: u64, depth_limit: usize, args: &[Vec<u8>]) -> R<Outcome> {
    let mut m = Interp {
        p,
        objs: vec![],
        globals: vec![],
        frames: vec![],
        cur: 0,
        out: vec![],
        steps: 0,
        limit,
        max_depth: 0,
        depth_limit,
        calls: 0,
        prints: 0,
        events: vec![],
        path: vec![],
        strs: Default::default(),
        args: args.to_vec(),
        statics: Default::default(),
        fx: Default::default(),
        ffx: effects(p),
        log: None,
    };
    for v in &p.globals {
        let n = p.cells(&v.ty);
        let mut cells = vec![];
        m.zero_cells(&v.ty, &mut cells, &zero);
        debug_assert_eq!(cells.len(), n);
        m.objs.push(Obj { cells, alive: true, perm: true });
        m.globals.push((m.objs.len() - 1) as u32);
    }
    for (i, v) in p.globals.iter().enumerate() {
        m.frames.push(Frame { vars: vec![] });
        m.init(m.globals[i], 0, &v.ty, &v.init, 0)?;
        m.frames.pop();
    }
    let main = p.funcs.len() - 1;
    let mut argv = vec![];
    if p.funcs[main].nparams == 2 {
        let mut ptrs = vec![];
        for a in m.args.clone() {
            let mut c: Vec<Val> = a.iter().map(|b| Val::I(*b as i8 as i128)).collect();
            c.push(Val::I(0));
            m.objs.push(Obj { cells: c, alive: true, perm: true });
            {
                let o = (m.objs.len() - 1) as u32;
                ptrs.push(m.whole(o));
            }
        }
        argv.push(Val::I(ptrs.len() as i128));
        m.objs.push(Obj { cells: ptrs, alive: true, perm: true });
        {
            let o = (m.objs.len() - 1) as u32;
            argv.push(m.whole(o));
        }
    }
    let r = m.call(main, argv)?;
    let code = match r {
        Val::I(v) => v as i64 as i32,
        _ => 0,
    };
    Ok(Outcome { out: m.out, code: code & 255, steps: m.steps, max_depth: m.max_depth, calls: m.calls, prints: m.prints, events: m.events })
}

impl<'a> Interp<'a> {
    fn zero_cells(&self, t: &Ty, o: &mut Vec<Val>, z: &dyn Fn(&Ty) -> Val) {
        match t {
            Arr(e, n) => {
                for _ in 0..*n {
                    self.zero_cells(e, o, z)
                }
            }
            Struct(i) => {
                for f in &self.p.structs[*i].fields {
                    self.zero_cells(&f.1, o, z)
                }
            }
            t => o.push(z(t)),
        }
    }
    fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(Bad::Limit);
        }
        Ok(())
    }
    fn init(&mut self, obj: u32, at: usize, ty: &Ty, i: &Init, id: u32) -> R<()> {
        match i {
            Init::None => {}
            Init::E(e) => {
                let v = self.rv(e)?;
                let v = self.conv(v, &e.ty, ty, e.id)?;
                self.objs[obj as usize].cells[at] = v;
            }
            Init::Nest(v) => {
                let tys = self.parts(ty);
                if tys.len() != v.len() {
                    return ub(id, "init-len");
                }
                let mut at = at;
                for (t, i) in tys.iter().zip(v) {
                    self.init(obj, at, t, i, id)?;
                    at += self.p.cells(t);
                }
            }
            Init::List(v) => {
                let tys = self.parts(ty);
                if tys.len() != v.len() || tys.iter().any(|t| self.p.cells(t) != 1) {
                    return ub(id, "init-len");
                }
                for (k, e) in v.iter().enumerate() {
                    let x = self.rv(e)?;
                    let x = self.conv(x, &e.ty, &tys[k], e.id)?;
                    self.objs[obj as usize].cells[at + k] = x;
                }
            }
            Init::Str(b) => {
                let o = &mut self.objs[obj as usize];
                if b.len() + 1 != o.cells.len() {
                    return ub(id, "init-str");
                }
                for (k, c) in b.iter().enumerate() {
                    o.cells[k] = Val::I(*c as i8 as i128);
                }
                o.cells[b.len()] = Val::I(0);
            }
        }
        Ok(())
    }
    fn parts(&self, ty: &Ty) -> Vec<Ty> {
        match ty {
            Arr(t, n) => vec![(**t).clone(); *n],
            Struct(s) => self.p.structs[*s].fields.iter().map(|f| f.1.clone()).collect(),
            _ => vec![],
        }
    }
    pub fn conv(&self, v: Val, from: &Ty, to: &Ty, id: u32) -> R<Val> {
        if from == to {
            return Ok(v);
        }
        Ok(match (v, to) {
            (Val::U, _) => return ub(id, "uninit"),
            (Val::I(x), t) if t.is_int() => Val::I(t.wrap(x)),
            (Val::I(x), Double) => {
                let d = x as f64;
                if d as i128 != x {
                    return ub(id, "inexact");
                }
                Val::D(d)
            }
            (Val::D(d), t) if t.is_int() => {
                if !d.is_finite() || d.trunc() < t.min() as f64 || d.trunc() > t.max() as f64 {
                    return ub(id, "dconv");
                }
                Val::I(d.trunc() as i128)
            }
            (v, _) => v,
        })
    }
    fn call(&mut self, f: usize, args: Vec<Val>) -> R<Val> {
        self.calls += 1;
        let fun = &self.p.funcs[f];
        if self.frames.len() >= self.depth_limit {
            return Err(Bad::Depth);
        }
        let first = self.objs.len();
        let mut fr = Frame { vars: vec![u32::MAX; fun.locals.len()] };
        for (i, a) in args.into_iter().enumerate() {
            self.objs.push(Obj { cells: vec![a], alive: true, perm: false });
            fr.vars[i] = (self.objs.len() - 1) as u32;
        }
        self.frames.push(fr);
        self.max_depth = self.max_depth.max(self.frames.len());
        let save = self.cur;
        self.cur = f;
        let r = self.block(&fun.body)?;
        self.cur = save;
        self.frames.pop();
        for o in &mut self.objs[first..] {
            if !o.perm {
                o.alive = false;
                o.cells = vec![];
            }
        }
        match r {
            Flow::Ret(v) => Ok(v),
            _ if fun.ret == Void => Ok(Val::U),
            _ if f + 1 == self.p.funcs.len() => Ok(Val::I(0)), // main
            _ => Ok(Val::U),
        }
    }
    fn block(&mut self, b: &[Stmt]) -> R<Flow> {
        for s in b {
            match self.stmt(s)? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }
    fn truth(&mut self, e: &Expr) -> R<bool> {
        let v = self.rv(e)?;
        match v {
            Val::I(x) => Ok(x != 0),
            Val::D(d) => Ok(d != 0.0),
            Val::P(..) => Ok(true),
            Val::Nul => Ok(false),
            Val::U => ub(e.id, "uninit"),
        }
    }
    fn stmt(&mut self, s: &Stmt) -> R<Flow> {
        self.step()?;
        match &s.k {
            SK::Decl(v, i) => {
                let ty = &self.p.funcs[self.cur].locals[*v].ty;
                if self.p.funcs[self.cur].locals[*v].stat {
                    let o = match self.statics.get(&(self.cur, *v)) {
                        Some(o) => *o,
                        None => {
                            let mut cells = vec![];
                            self.zero_cells(ty, &mut cells, &zero);
                            self.objs.push(Obj { cells, alive: true, perm: true });
                            let o = (self.objs.len() - 1) as u32;
                            self.init(o, 0, ty, i, s.id)?;
                            self.statics.insert((self.cur, *v), o);
                            o
                        }
                    };
                    self.frames.last_mut().unwrap().vars[*v] = o;
                    return Ok(Flow::Next);
                }
                let n = self.p.cells(ty);
                self.objs.push(Obj { cells: vec![Val::U; n], alive: true, perm: false });
                let o = (self.objs.len() - 1) as u32;
                // the initialiser may not refer to the new variable (the generator never does)
                self.init(o, 0, ty, i, s.id)?;
                self.frames.last_mut().unwrap().vars[*v] = o;
            }
            SK::Expr(e) => {
                self.rv(e)?;
            }
            SK::Assign(l, op, e) => {
                self.assign(l, *op, e, s.id)?;
            }
            SK::IncDec(l, inc, pre) => {
                self.incdec(l, *inc, *pre, s.id)?;
            }
            SK::If(c, a, b) => {
                return if self.truth(c)? {
                    self.block(a)
                } else if let Some(b) = b {
                    self.block(b)
                } else {
                    Ok(Flow::Next)
                }
            }
            SK::While(c, b) => {
                while self.truth(c)? {
                    self.step()?;
                    match self.block(b)? {
                        Flow::Break => break,
                        f @ (Flow::Ret(_) | Flow::Goto(_)) => return Ok(f),
                        _ => {}
                    }
                }
            }
            SK::DoWhile(b, c) => loop {
                self.step()?;
                match self.block(b)? {
                    Flow::Break => break,
                    f @ (Flow::Ret(_) | Flow::Goto(_)) => return Ok(f),
                    _ => {}
                }
                if !self.truth(c)? {
                    break;
                }
            },
            SK::For(i, c, n, b) => {
                if let Some(i) = i {
                    self.stmt(i)?;
                }
                loop {
                    self.step()?;
                    if let Some(c) = c {
                        if !self.truth(c)? {
                            break;
                        }
                    }
                    match self.block(b)? {
                        Flow::Break => break,
                        f @ (Flow::Ret(_) | Flow::Goto(_)) => return Ok(f),
                        _ => {}
                    }
                    if let Some(n) = n {
                        self.stmt(n)?;
                    }
                }
            }
            SK::Switch(e, cases) => {
                let v = match self.rv(e)? {
                    Val::I(v) => v,
                    _ => return ub(e.id, "uninit"),
                };
                let at = cases
                    .iter()
                    .position(|c| c.0.contains(&Some(v)))
                    .or_else(|| cases.iter().position(|c| c.0.contains(&None)));
                if let Some(at) = at {
                    for c in &cases[at..] {
                        match self.block(&c.1)? {
                            Flow::Next => {}
                            Flow::Break => return Ok(Flow::Next),
                            f => return Ok(f),
                        }
                    }
                }
            }
            SK::Break => return Ok(Flow::Break),
            SK::Continue => return Ok(Flow::Cont),
            SK::Return(e) => {
                let v = match e {
                    None => Val::U,
                    Some(e) => {
                        let v = self.rv(e)?;
                        let t = &self.p.funcs[self.cur].ret;
                        self.conv(v, &e.ty, t, e.id)?
                    }
                };
                return Ok(Flow::Ret(v));
            }
            SK::Block(b) => return self.block(b),
            SK::Print(parts) => {
                // arguments first, then the text
                let es: Vec<&Expr> = parts.iter().filter_map(|p| if let PPart::Spec(_, e) = p { Some(e) } else { None }).collect();
                let vals: Vec<(Val, u32)> = self.several(&es, s.id)?.into_iter().zip(es.iter().map(|e| e.id)).collect();
                let mut k = 0;
                let mut o = vec![];
                for p in parts {
                    match p {
                        PPart::Lit(b) => o.extend_from_slice(b),
                        PPart::Spec(s, _) => {
                            let (v, id) = vals[k];
                            k += 1;
                            match (*s, v) {
                                ("%c", Val::I(x)) => o.push(x as u8),
                                ("%hd" | "%hi", Val::I(x)) => o.extend_from_slice((x as i16).to_string().as_bytes()),
                                ("%hu", Val::I(x)) => o.extend_from_slice((x as u16).to_string().as_bytes()),
                                ("%f", Val::D(d)) => o.extend_from_slice(format!("{:.6}", d).as_bytes()),
                                ("%s", v) => o.extend_from_slice(&self.cstr(v, id)?),
                                (_, Val::I(x)) => o.extend_from_slice(x.to_string().as_bytes()),
                                _ => return ub(id, "print"),
                            }
                        }
                    }
                }
                if !o.is_empty() {
                    let path = self.path.last().cloned().unwrap_or(0);
                    self.events.push((self.out.len(), s.id, path));
                }
                self.out.extend_from_slice(&o);
                self.prints += 1;
                if self.out.len() > 200_000 {
                    return Err(Bad::Limit);
                }
            }
            SK::GotoLoop(_, b, c) => loop {
                self.step()?;
                match self.block(b)? {
                    Flow::Next => {}
                    f => return Ok(f),
                }
                if !self.truth(c)? {
                    break;
                }
            },
            SK::Labeled(l, b) => {
                return match self.block(b)? {
                    Flow::Goto(g) if g == *l => Ok(Flow::Next),
                    f => Ok(f),
                }
            }
            SK::Goto(l) => return Ok(Flow::Goto(l.clone())),
            SK::Empty => {}
        }
        Ok(Flow::Next)
    }
    fn cstr(&self, v: Val, id: u32) -> R<Vec<u8>> {
        match v {
            Val::P(o, mut c, _, hi) => {
                let ob = &self.objs[o as usize];
                if !ob.alive {
                    return ub(id, "str");
                }
                let mut r = vec![];
                loop {
                    if c >= hi {
                        return ub(id, "str");
                    }
                    match ob.cells.get(c as usize) {
                        Some(Val::I(0)) => return Ok(r),
                        Some(Val::I(x)) => r.push(*x as u8),
                        _ => return ub(id, "str"),
                    }
                    c += 1;
                }
            }
            _ => ub(id, "str"),
        }
    }
    fn whole(&self, o: u32) -> Val {
        Val::P(o, 0, 0, self.objs[o as usize].cells.len() as u32)
    }
    /// the place of a value of n cells
    fn place(&self, at: At, n: usize, id: u32) -> R<At> {
        let ob = &self.objs[at.0 as usize];
        if !ob.alive || at.1 < at.2 || at.1 as usize + n > at.3 as usize || at.1 as usize + n > ob.cells.len() {
            return ub(id, "oob");
        }
        Ok(at)
    }
    fn lv(&mut self, e: &Expr) -> R<At> {
        match &e.k {
            EK::Var(v) => {
                let o = if v.global { self.globals[v.idx] } else { self.frames.last().unwrap().vars[v.idx] };
                if o == u32::MAX {
                    return ub(e.id, "scope");
                }
                Ok((o, 0, 0, self.objs[o as usize].cells.len() as u32))
            }
            EK::Index(a, i) => {
                let ((o, c, lo, hi), k) = self.apart(a, i, e.id, |m| m.ptr(a), |m| m.rv(i))?;
                let k = match k {
                    Val::I(k) => k,
                    _ => return ub(i.id, "uninit"),
                };
                let n = self.p.cells(&e.ty) as i128;
                let at = c as i128 + k * n;
                if at < lo as i128 || at + n > hi as i128 {
                    return ub(i.id, "oob");
                }
                self.place((o, at as u32, lo, hi), n as usize, i.id)
            }
            EK::Field(a, s, f) => {
                let (o, c, ..) = self.lv(a)?;
                let (at, n) = (c + self.p.field_off(*s, *f) as u32, self.p.cells(&e.ty));
                self.place((o, at, at, at + n as u32), n, e.id)
            }
            EK::Arrow(a, s, f) => {
                let (o, c, lo, hi) = self.ptr(a)?;
                if let Ptr(t) | Arr(t, _) = &a.ty {
                    self.place((o, c, lo, hi), self.p.cells(t), a.id)?;
                }
                let (at, n) = (c + self.p.field_off(*s, *f) as u32, self.p.cells(&e.ty));
                self.place((o, at, at, at + n as u32), n, e.id)
            }
            EK::Deref(a) => {
                let at = self.ptr(a)?;
                self.place(at, self.p.cells(&e.ty), e.id)
            }
            EK::Str(_) => {
                let v = self.rv(e)?;
                match v {
                    Val::P(o, c, l, h) => Ok((o, c, l, h)),
                    _ => ub(e.id, "lv"),
                }
            }
            _ => ub(e.id, "lv"),
        }
    }
    fn ptr(&mut self, e: &Expr) -> R<At> {
        if let Arr(..) = e.ty {
            let (o, c, ..) = self.lv(e)?;
            return Ok((o, c, c, c + self.p.cells(&e.ty) as u32));
        }
        match self.rv(e)? {
            Val::P(o, c, l, h) => Ok((o, c, l, h)),
            _ => ub(e.id, "null"),
        }
    }
    fn load(&mut self, e: &Expr) -> R<Val> {
        let (o, c, ..) = self.lv(e)?;
        if let Arr(..) = e.ty {
            return Ok(Val::P(o, c, c, c + self.p.cells(&e.ty) as u32));
        }
        self.read((o, c), e.id)
    }
    fn read(&mut self, at: (u32, u32), id: u32) -> R<Val> {
        let v = self.objs[at.0 as usize].cells[at.1 as usize];
        if v == Val::U {
            return ub(id, "uninit");
        }
        self.note(at, false);
        Ok(v)
    }
    fn store(&mut self, at: (u32, u32), v: Val) {
        self.note(at, true);
        self.objs[at.0 as usize].cells[at.1 as usize] = v;
    }
    /// evaluates operands C leaves unsequenced, and refuses when their order would matter
    fn apart<A, B>(&mut self, a: &Expr, b: &Expr, id: u32, f: impl FnOnce(&mut Self) -> R<A>, g: impl FnOnce(&mut Self) -> R<B>) -> R<(A, B)> {
        if !self.has_fx(a) && !self.has_fx(b) {
            return Ok((f(self)?, g(self)?));
        }
        let outer = self.log.replace(vec![]);
        let x = f(self)?;
        let la = self.log.replace(vec![]).unwrap_or_default();
        let y = g(self)?;
        let lb = std::mem::replace(&mut self.log, outer).unwrap_or_default();
        let wa: std::collections::HashSet<(u32, u32)> = la.iter().filter(|x| x.2).map(|x| (x.0, x.1)).collect();
        let wb: std::collections::HashSet<(u32, u32)> = lb.iter().filter(|x| x.2).map(|x| (x.0, x.1)).collect();
        if la.iter().any(|x| wb.contains(&(x.0, x.1))) || lb.iter().any(|x| wa.contains(&(x.0, x.1))) {
            return ub(id, "unseq");
        }
        if let Some(o) = &mut self.log {
            o.extend(la);
            o.extend(lb);
        }
        Ok((x, y))
    }
    /// arguments of a call: in no particular order
    fn several(&mut self, es: &[&Expr], id: u32) -> R<Vec<Val>> {
        let watch = es.len() > 1 && es.iter().any(|e| self.has_fx(e));
        let outer = if watch { self.log.take() } else { None };
        let mut all: Vec<(u32, u32, bool)> = vec![];
        let mut v = vec![];
        for e in es {
            if watch {
                self.log = Some(vec![]);
            }
            let x = self.rv(e)?;
            if x == Val::U {
                return ub(e.id, "uninit");
            }
            v.push(x);
            if watch {
                let l = self.log.take().unwrap_or_default();
                if l.iter().any(|a| all.iter().any(|b| (a.2 || b.2) && (a.0, a.1) == (b.0, b.1))) {
                    return ub(id, "unseq");
                }
                all.extend(l);
            }
        }
        if watch {
            self.log = outer;
            if let Some(o) = &mut self.log {
                o.extend(all);
            }
        }
        Ok(v)
    }
    fn has_fx(&mut self, e: &Expr) -> bool {
        if let Some(x) = self.fx.get(&e.id) {
            return *x;
        }
        let mut hit = false;
        let ffx = &self.ffx;
        crate::gen::walk(&mut e.clone(), &mut |x| match &x.k {
            EK::Assign(..) | EK::OpAssign(..) | EK::IncDec(..) => hit = true,
            EK::Call(Callee::User(i), _) => hit |= ffx[*i],
            EK::Call(Callee::Lib(n), a) => hit |= n.starts_with("strto") && a.get(1).map_or(false, |a| !matches!(a.k, EK::Null)),
            _ => {}
        });
        self.fx.insert(e.id, hit);
        hit
    }
    fn note(&mut self, at: (u32, u32), w: bool) {
        if let Some(l) = &mut self.log {
            if l.len() < 20000 {
                l.push((at.0, at.1, w));
            }
        }
    }
    fn assign(&mut self, l: &Expr, op: Option<BinOp>, e: &Expr, id: u32) -> R<Val> {
        let watch = self.has_fx(e) || self.has_fx(l);
        let outer = if watch { self.log.replace(vec![]) } else { None };
        let (v, at) = self.apart(e, l, id, |m| m.rv(e), |m| m.lv(l))?;
        let at = (at.0, at.1);
        if watch {
            let inner = std::mem::replace(&mut self.log, outer).unwrap_or_default();
            if inner.iter().any(|x| x.2 && (x.0, x.1) == at) {
                return ub(id, "unseq");
            }
            if let Some(o) = &mut self.log {
                o.extend(inner);
            }
        }
        let v = match op {
            None => self.conv(v, &e.ty, &l.ty, e.id)?,
            Some(op) => {
                let old = self.read(at, l.id)?;
                if let Ptr(_) = l.ty {
                    self.ptr_add(old, v, op == BinOp::Sub, &l.ty, id)?
                } else {
                    let (r, t) = self.arith(op, old, &l.ty, v, &e.ty, id, e.id)?;
                    self.conv(r, &t, &l.ty, id)?
                }
            }
        };
        self.store(at, v);
        Ok(v)
    }
    fn incdec(&mut self, l: &Expr, inc: bool, pre: bool, id: u32) -> R<Val> {
        let at = self.lv(l)?;
        let at = (at.0, at.1);
        let old = self.read(at, l.id)?;
        let new = if let Ptr(_) = l.ty {
            self.ptr_add(old, Val::I(1), !inc, &l.ty, id)?
        } else {
            let (r, t) = self.arith(if inc { BinOp::Add } else { BinOp::Sub }, old, &l.ty, Val::I(1), &Int, id, id)?;
            self.conv(r, &t, &l.ty, id)?
        };
        self.store(at, new);
        Ok(if pre { new } else { old })
    }
    fn ptr_add(&self, p: Val, n: Val, neg: bool, t: &Ty, id: u32) -> R<Val> {
        let el = match t {
            Ptr(e) => self.p.cells(e),
            Arr(e, _) => self.p.cells(e),
            _ => 1,
        } as i128;
        match (p, n) {
            (Val::P(o, c, lo, hi), Val::I(k)) => {
                let at = c as i128 + if neg { -k } else { k } * el;
                if at < lo as i128 || at > hi as i128 {
                    return ub(id, "oob");
                }
                Ok(Val::P(o, at as u32, lo, hi))
            }
            _ => ub(id, "null"),
        }
    }
    fn arith(&self, op: BinOp, a: Val, ta: &Ty, b: Val, tb: &Ty, id: u32, rid: u32) -> R<(Val, Ty)> {
        use BinOp::*;
        let t = if matches!(op, Shl | Shr) { ta.promote() } else { common(ta, tb) };
        if t == Double {
            let (x, y) = match (self.conv(a, ta, &Double, id)?, self.conv(b, tb, &Double, id)?) {
                (Val::D(x), Val::D(y)) => (x, y),
                _ => return ub(id, "uninit"),
            };
            let cmp = |b: bool| Ok((Val::I(b as i128), Int));
            return match op {
                Lt => cmp(x < y),
                Gt => cmp(x > y),
                Le => cmp(x <= y),
                Ge => cmp(x >= y),
                Eq => cmp(x == y),
                Ne => cmp(x != y),
                Add | Sub | Mul | Div => {
                    let r = match op {
                        Add => x + y,
                        Sub => x - y,
                        Mul => x * y,
                        _ => {
                            if y == 0.0 {
                                return ub(rid, "div0");
                            }
                            x / y
                        }
                    };
                    if !r.is_finite() || r.abs() > 1e15 {
                        return ub(id, "double");
                    }
                    Ok((Val::D(r), Double))
                }
                _ => ub(id, "double"),
            };
        }
        let (x, y) = match (a, b) {
            (Val::I(x), Val::I(y)) => (x, y),
            _ => return ub(id, "uninit"),
        };
        if matches!(op, Shl | Shr) {
            if y < 0 || y >= t.bits() as i128 {
                return ub(rid, "shift");
            }
            let x = t.wrap(x);
            if op == Shr {
                return Ok((Val::I(x >> y), t));
            }
            if t.signed() && (x < 0 || (x << y) > t.max()) {
                return ub(id, "overflow");
            }
            return Ok((Val::I(t.wrap(x << y)), t));
        }
        let (x, y) = (t.wrap(x), t.wrap(y));
        let cmp = |b: bool| Ok((Val::I(b as i128), Int));
        let r = match op {
            Lt => return cmp(x < y),
            Gt => return cmp(x > y),
            Le => return cmp(x <= y),
            Ge => return cmp(x >= y),
            Eq => return cmp(x == y),
            Ne => return cmp(x != y),
            Add => x + y,
            Sub => x - y,
            Mul => x.wrapping_mul(y),
            Div | Mod => {
                if y == 0 {
                    return ub(rid, "div0");
                }
                if x / y > t.max() {
                    return ub(id, "overflow");
                }
                if op == Div {
                    x / y
                } else {
                    x % y
                }
            }
            And => x & y,
            Or => x | y,
            Xor => x ^ y,
            _ => return ub(id, "op"),
        };
        if t.signed() && (r < t.min() || r > t.max()) {
            return ub(id, "overflow");
        }
        Ok((Val::I(t.wrap(r)), t))
    }
    pub fn rv(&mut self, e: &Expr) -> R<Val> {
        self.step()?;
        match &e.k {
            EK::Int(v, _) => Ok(Val::I(*v)),
            EK::Named(_, v) => Ok(Val::I(*v)),
            EK::Dbl(d) => Ok(Val::D(*d)),
            EK::Null => Ok(Val::Nul),
            EK::Str(b) => {
                if let Some(o) = self.strs.get(&e.id) {
                    return Ok(self.whole(*o));
                }
                let mut c: Vec<Val> = b.iter().map(|c| Val::I(*c as i8 as i128)).collect();
                c.push(Val::I(0));
                self.objs.push(Obj { cells: c, alive: true, perm: true });
                let o = (self.objs.len() - 1) as u32;
                self.strs.insert(e.id, o);
                Ok(self.whole(o))
            }
            EK::Var(_) | EK::Index(..) | EK::Field(..) | EK::Arrow(..) | EK::Deref(_) => self.load(e),
            EK::Addr(a) => {
                let (o, c, l, h) = self.lv(a)?;
                Ok(Val::P(o, c, l, h))
            }
            EK::SizeofTy(t) => Ok(Val::I(t.byte_size(self.p) as i128)),
            EK::SizeofE(a) => Ok(Val::I(match &a.k {
                EK::Str(b) => b.len() + 1,
                _ => a.ty.byte_size(self.p),
            } as i128)),
            EK::Un(op, a) => {
                let v = self.rv(a)?;
                match op {
                    UnOp::Not => Ok(Val::I(match v {
                        Val::I(x) => (x == 0) as i128,
                        Val::Nul => 1,
                        Val::P(..) => 0,
                        Val::D(d) => (d == 0.0) as i128,
                        _ => return ub(e.id, "uninit"),
                    })),
                    UnOp::Plus => self.conv(v, &a.ty, &e.ty, e.id),
                    UnOp::Neg => match v {
                        Val::I(x) => {
                            let r = -x;
                            if e.ty.signed() && r > e.ty.max() {
                                return ub(e.id, "overflow");
                            }
                            Ok(Val::I(e.ty.wrap(r)))
                        }
                        Val::D(d) => Ok(Val::D(-d)),
                        _ => ub(e.id, "uninit"),
                    },
                    UnOp::BitNot => match v {
                        Val::I(x) => Ok(Val::I(e.ty.wrap(!x))),
                        _ => ub(e.id, "uninit"),
                    },
                }
            }
            EK::Bin(op, a, b) => {
                if op.is_logic() {
                    let x = self.truth(a)?;
                    let r = match op {
                        BinOp::LAnd => x && self.truth(b)?,
                        _ => x || self.truth(b)?,
                    };
                    return Ok(Val::I(r as i128));
                }
                let (x, y) = self.apart(a, b, e.id, |m| m.rv(a), |m| m.rv(b))?;
                if let (Ptr(_) | Arr(..), true) = (&a.ty, !op.is_cmp()) {
                    if b.ty.is_int() {
                        return self.ptr_add(x, y, *op == BinOp::Sub, &a.ty, e.id);
                    }
                    return match (x, y) {
                        (Val::P(o, c, l, h), Val::P(q, d, m, i)) if o == q && l == m && h == i => {
                            let el = match &a.ty {
                                Ptr(t) | Arr(t, _) => self.p.cells(t) as i128,
                                _ => 1,
                            };
                            Ok(Val::I((c as i128 - d as i128) / el))
                        }
                        _ => ub(e.id, "ptrdiff"),
                    };
                }
                if op.is_cmp() && matches!(a.ty, Ptr(_) | Arr(..)) {
                    let k = |v: Val| match v {
                        Val::Nul => Some((u32::MAX, 0)),
                        Val::P(o, c, ..) => Some((o, c)),
                        _ => None,
                    };
                    let (x, y) = match (k(x), k(y)) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return ub(e.id, "uninit"),
                    };
                    let r = match op {
                        BinOp::Eq => x == y,
                        BinOp::Ne => x != y,
                        _ if x.0 != y.0 => return ub(e.id, "ptrcmp"),
                        BinOp::Lt => x.1 < y.1,
                        BinOp::Gt => x.1 > y.1,
                        BinOp::Le => x.1 <= y.1,
                        _ => x.1 >= y.1,
                    };
                    return Ok(Val::I(r as i128));
                }
                let (v, t) = self.arith(*op, x, &a.ty, y, &b.ty, e.id, b.id)?;
                self.conv(v, &t, &e.ty, e.id)
            }
            EK::Cond(c, a, b) => {
                let (v, t) = if self.truth(c)? { (self.rv(a)?, &a.ty) } else { (self.rv(b)?, &b.ty) };
                self.conv(v, t, &e.ty, e.id)
            }
            EK::Cast(a) => {
                let v = self.rv(a)?;
                self.conv(v, &a.ty, &e.ty, e.id)
            }
            EK::Assign(l, r) => self.assign(l, None, r, e.id),
            EK::OpAssign(o, l, r) => self.assign(l, Some(*o), r, e.id),
            EK::IncDec(l, inc, pre) => self.incdec(l, *inc, *pre, e.id),
            EK::Call(Callee::User(f), args) => {
                let mut v = vec![];
                let xs = self.several(&args.iter().collect::<Vec<_>>(), e.id)?;
                for (i, (a, x)) in args.iter().zip(xs).enumerate() {
                    let t = &self.p.funcs[*f].locals[i].ty;
                    v.push(if t.is_arith() { self.conv(x, &a.ty, t, a.id)? } else { x });
                }
                let up = self.path.last().cloned().unwrap_or(0);
                self.path.push(crate::rng::mix(up ^ (e.id as u64 + 1)));
                let r = self.call(*f, v)?;
                self.path.pop();
                if r == Val::U && e.ty != Void {
                    return ub(e.id, "noreturn");
                }
                Ok(r)
            }
            EK::Call(Callee::Lib(n), args) => {
                let mut v = vec![];
                for a in args {
                    let x = self.rv(a)?;
                    if x == Val::U {
                        return ub(a.id, "uninit");
                    }
                    v.push(x);
                }
                self.lib(n, v, e.id)
            }
        }
    }
    fn lib(&mut self, n: &str, v: Vec<Val>, id: u32) -> R<Val> {
        let b = |x: bool| Ok(Val::I(x as i128));
        let ch = |v: &Val| match v {
            Val::I(c) => Ok(*c),
            _ => ub(id, "lib"),
        };
        let inr = |c: i128, a: u8, z: u8| c >= a as i128 && c <= z as i128;
        if (n.starts_with("is") || n.starts_with("to")) && !(-1..=255).contains(&ch(&v[0])?) {
            return ub(id, "lib"); // neither EOF nor an unsigned char
        }
        match n {
            "strlen" => Ok(Val::I(self.cstr(v[0], id)?.len() as i128)),
            "strstr" => {
                let a = self.cstr(v[0], id)?;
                let c = self.cstr(v[1], id)?;
                let (o, at, l, h) = match v[0] {
                    Val::P(o, c, l, h) => (o, c, l, h),
                    _ => return ub(id, "lib"),
                };
                for i in 0..=a.len() {
                    if a[i..].starts_with(&c) {
                        return Ok(Val::P(o, at + i as u32, l, h));
                    }
                }
                Ok(Val::Nul)
            }
            "strtol" | "strtoul" => {
                let s = self.cstr(v[0], id)?;
                let base = ch(&v[2])?;
                let (val, len) = strto(&s, base as u32, n == "strtol");
                match v[1] {
                    Val::Nul => {}
                    Val::P(o, c, l, h) => {
                        let e = match v[0] {
                            Val::P(so, sc, l, h) => Val::P(so, sc + len as u32, l, h),
                            _ => return ub(id, "lib"),
                        };
                        let at = self.place((o, c, l, h), 1, id)?;
                        let at = (at.0, at.1);
                        self.store(at, e);
                    }
                    _ => return ub(id, "lib"),
                }
                Ok(Val::I(val))
            }
            "isalpha" => b(inr(ch(&v[0])?, b'a', b'z') || inr(ch(&v[0])?, b'A', b'Z')),
            "isdigit" => b(inr(ch(&v[0])?, b'0', b'9')),
            "isalnum" => b(inr(ch(&v[0])?, b'a', b'z') || inr(ch(&v[0])?, b'A', b'Z') || inr(ch(&v[0])?, b'0', b'9')),
            "islower" => b(inr(ch(&v[0])?, b'a', b'z')),
            "isupper" => b(inr(ch(&v[0])?, b'A', b'Z')),
            "isxdigit" => b(inr(ch(&v[0])?, b'a', b'f') || inr(ch(&v[0])?, b'A', b'F') || inr(ch(&v[0])?, b'0', b'9')),
            "isspace" => b(inr(ch(&v[0])?, 9, 13) || ch(&v[0])? == 32),
            "isprint" | "isgraph" => {
                let c = ch(&v[0])?;
                if !(0..=127).contains(&c) {
                    return ub(id, "lib");
                }
                b(c > 32 && c < 127 || c == 32 && n == "isprint")
            }
            "ispunct" => {
                let c = ch(&v[0])?;
                if !(0..=127).contains(&c) {
                    return ub(id, "lib");
                }
                b((c as u8).is_ascii_punctuation())
            }
            "iscntrl" => b(inr(ch(&v[0])?, 0, 31) || ch(&v[0])? == 127),
            "toupper" => Ok(Val::I(if inr(ch(&v[0])?, b'a', b'z') { ch(&v[0])? - 32 } else { ch(&v[0])? })),
            "tolower" => Ok(Val::I(if inr(ch(&v[0])?, b'A', b'Z') { ch(&v[0])? + 32 } else { ch(&v[0])? })),
            _ => ub(id, "lib"),
        }
    }
}

/// what strtol (signed) and strtoul do: value and length of the text used
pub fn strto(s: &[u8], mut base: u32, signed: bool) -> (i128, usize) {
    let mut i = 0;
    while i < s.len() && b" \t\n\x0b\x0c\r".contains(&s[i]) {
        i += 1;
    }
    let mut neg = false;
    if i < s.len() && (s[i] == b'-' || s[i] == b'+') {
        neg = s[i] == b'-';
        i += 1;
    }
    let dig = |c: u8| (c as char).to_digit(36).unwrap_or(99);
    let hex = s.len() > i + 2 && s[i] == b'0' && (s[i + 1] | 32) == b'x' && dig(s[i + 2]) < 16;
    if hex && (base == 0 || base == 16) {
        base = 16;
        i += 2;
    } else if base == 0 {
        base = if i < s.len() && s[i] == b'0' { 8 } else { 10 };
    }
    let st = i;
    let mut v: i128 = 0;
    while i < s.len() && dig(s[i]) < base {
        if v < 1i128 << 100 {
            v = v * base as i128 + dig(s[i]) as i128;
        }
        i += 1;
    }
    let len = if i > st { i } else { 0 };
    let r = if signed {
        (if neg { -v } else { v }).clamp(i64::MIN as i128, i64::MAX as i128)
    } else if v > u64::MAX as i128 {
        u64::MAX as i128
    } else {
        Ty::ULong.wrap(if neg { -v } else { v })
    };
    (r, len)
}

/// functions whose calls do more than give a value
fn effects(p: &Program) -> Vec<bool> {
    let mut fx = vec![false; p.funcs.len()];
    loop {
        let mut changed = false;
        for (i, f) in p.funcs.iter().enumerate() {
            if fx[i] {
                continue;
            }
            let mut hit = f.locals.iter().any(|v| v.stat);
            let own = |e: &Expr| crate::gen::is_local_place(e);
            let mut b = f.body.clone();
            crate::gen::each_stmt(&mut b, &mut |s| match &s.k {
                SK::Print(_) => hit = true,
                SK::Assign(l, ..) | SK::IncDec(l, ..) => hit |= !own(l),
                _ => {}
            });
            crate::gen::each_expr(&mut b, &mut |e| match &e.k {
                EK::Assign(l, _) | EK::OpAssign(_, l, _) | EK::IncDec(l, ..) => hit |= !own(l),
                EK::Call(Callee::User(k), _) => hit |= fx[*k],
                _ => {}
            });
            if hit {
                fx[i] = true;
                changed = true;
            }
        }
        if !changed {
            return fx;
        }
    }
}
