//! The wider subset: parts of nested objects, moving pointers, pointers to pointers, arrays of
//! arrays, statics, shadowing, forward jumps, assignments as values, doubles as conditions.
use super::*;

impl<'r> Gen<'r> {
    // ------------------------------------------------------------ parts of objects

    /// every arithmetic part of an object of type t that is reached by `at`
    pub(super) fn subs(&self, t: &Ty, at: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, Ty)>) {
        out.push((at.clone(), t.clone()));
        match t {
            Arr(e, n) => {
                at.push(Step::E(*n));
                self.subs(e, at, out);
                at.pop();
            }
            Struct(k) => {
                for (f, (_, ft)) in self.p.structs[*k].fields.iter().enumerate() {
                    at.push(Step::F(*k, f));
                    self.subs(ft, at, out);
                    at.pop();
                }
            }
            _ => {}
        }
    }
    fn step(&mut self, b: Expr, s: &Step, ix: Option<Expr>) -> Expr {
        match s {
            Step::D => {
                let t = match &b.ty {
                    Ptr(t) => (**t).clone(),
                    t => t.clone(),
                };
                self.e(t, EK::Deref(Box::new(b)))
            }
            Step::E(_) => {
                let t = match &b.ty {
                    Ptr(t) | Arr(t, _) => (**t).clone(),
                    t => t.clone(),
                };
                let ix = ix.unwrap();
                self.e(t, EK::Index(Box::new(b), Box::new(ix)))
            }
            Step::F(k, f) => {
                let t = self.p.structs[*k].fields[*f].1.clone();
                // (*p).f is also spelled p->f
                if let EK::Deref(q) = &b.k {
                    if self.r.pct(80) {
                        return self.e(t, EK::Arrow(q.clone(), *k, *f));
                    }
                }
                self.e(t, EK::Field(Box::new(b), *k, *f))
            }
        }
    }
    pub(super) fn along(&mut self, b: Expr, path: &[Step], d: u32) -> Expr {
        let mut e = b;
        for s in path {
            let ix = match s {
                Step::E(n) => Some(if self.c.more && self.c.tys.contains(&Long) && self.r.pct(8) {
                    let k = self.r.idx(*n) as i128;
                    let k = self.int(k);
                    self.cast(k, &Long)
                } else {
                    self.index(*n, d)
                }),
                _ => None,
            };
            e = self.step(e, s, ix);
        }
        e
    }
    /// all the scalar parts, spelled out
    pub(super) fn leaves(&mut self, b: Expr, out: &mut Vec<Expr>) {
        match b.ty.clone() {
            Arr(_, n) => {
                for i in 0..n {
                    let ix = self.int(i as i128);
                    let x = self.step(b.clone(), &Step::E(n), Some(ix));
                    self.leaves(x, out);
                }
            }
            Struct(k) => {
                for f in 0..self.p.structs[k].fields.len() {
                    let x = self.step(b.clone(), &Step::F(k, f), None);
                    self.leaves(x, out);
                }
            }
            _ => out.push(b),
        }
    }
    /// a fresh copy of an expression: nodes have their own identity
    fn again(&mut self, e: &Expr) -> Expr {
        let mut c = e.clone();
        walk(&mut c, &mut |x| x.id = self.p.id());
        c
    }
    pub(super) fn some_aggregate(&mut self) -> Ty {
        loop {
            let t = self.any_aggregate();
            if self.p.cells(&t) <= 24 {
                return t;
            }
        }
    }
    fn any_aggregate(&mut self) -> Ty {
        match self.r.idx(3) {
            0 if self.c.structs && self.nplain > 0 => Struct(self.r.idx(self.nplain)),
            1 if self.c.structs && self.nplain > 0 && self.c.arrays => Struct(self.r.idx(self.nplain)).arr(1 + self.r.idx(3)),
            2 if self.c.arrays => self.some_ty().arr(self.cols).arr(1 + self.r.idx(3)),
            _ => self.some_ty().arr(1 + self.r.idx(5)),
        }
    }
    /// a complete initialiser
    pub(super) fn init_of(&mut self, t: &Ty, constant: bool) -> Init {
        let parts: Vec<Ty> = match t {
            Arr(e, n) => vec![(**e).clone(); *n],
            Struct(k) => self.p.structs[*k].fields.iter().map(|f| f.1.clone()).collect(),
            t => {
                let e = if constant || self.r.pct(60) { self.raw_const(t) } else { self.expr(t, 1) };
                return Init::E(e);
            }
        };
        let v: Vec<Init> = parts.iter().map(|t| self.init_of(t, constant)).collect();
        if v.iter().all(|i| matches!(i, Init::E(_))) {
            Init::List(v.into_iter().map(|i| if let Init::E(e) = i { e } else { unreachable!() }).collect())
        } else {
            Init::Nest(v)
        }
    }
    /// declares an object with parts and gives every part a value
    pub(super) fn aggregate(&mut self, ty: Ty, out: &mut Vec<Stmt>) {
        let cells = self.p.cells(&ty);
        if self.r.pct(45) {
            let i = self.init_of(&ty, false);
            let x = self.new_local(ty.clone());
            let s = self.s(SK::Decl(x, i));
            out.push(s);
            self.add_sym(x, &ty, false, 0, false);
            return;
        }
        let x = self.new_local(ty.clone());
        let s = self.s(SK::Decl(x, Init::None));
        out.push(s);
        let b = self.loc(x);
        match &ty {
            Arr(e, n) if self.c.loops && (cells > 12 || self.r.pct(60)) => {
                let i = self.new_local(Int);
                self.add_sym(i, &Int, true, 0, false);
                let ix = self.loc(i);
                let row = self.step(b, &Step::E(*n), Some(ix));
                let mut body = vec![];
                if let (Arr(_, m), true) = (&**e, self.r.pct(60)) {
                    let j = self.new_local(Int);
                    self.add_sym(j, &Int, true, 0, false);
                    let jx = self.loc(j);
                    let l = self.step(row, &Step::E(*m), Some(jx));
                    let v = self.init_expr(&l.ty.clone(), 2);
                    let asg = self.s(SK::Assign(l, None, v));
                    let inner = self.count_loop(j, *m as i128, vec![asg]);
                    if inner.len() > 1 {
                        let bl = self.s(SK::Block(inner));
                        body.push(bl);
                    } else {
                        body.extend(inner);
                    }
                    self.syms.pop();
                } else {
                    self.fill(row, &mut body);
                }
                let f = self.count_loop(i, *n as i128, body);
                self.syms.pop();
                if f.len() > 1 {
                    let bl = self.s(SK::Block(f));
                    out.push(bl);
                } else {
                    out.extend(f);
                }
            }
            _ => self.fill(b, out),
        }
        self.add_sym(x, &ty, false, 0, false);
    }
    fn fill(&mut self, b: Expr, out: &mut Vec<Stmt>) {
        let mut ls = vec![];
        self.leaves(b, &mut ls);
        for l in ls {
            let l = self.again(&l);
            let e = self.init_expr(&l.ty.clone(), 1);
            let s = self.s(SK::Assign(l, None, e));
            out.push(s);
        }
    }
    fn loc(&mut self, i: usize) -> Expr {
        let t = self.locals[i].ty.clone();
        self.e(t, EK::Var(VarRef { global: false, idx: i }))
    }
    /// a pointer to `need` or more elements of type el, and how many there are
    pub(super) fn ptr_to(&mut self, el: &Ty, need: usize, wr: bool) -> Option<(Expr, usize)> {
        let need = need.max(1);
        let mut opts: Vec<(usize, Vec<Step>, Ty, usize)> = vec![];
        for (i, s) in self.syms.iter().enumerate() {
            if s.hid || (wr && (s.nowr || s.strv || (s.v.global && !self.may_write))) {
                continue;
            }
            let mut subs = vec![];
            match &s.ty {
                Ptr(t) => {
                    if wr && !self.may_write {
                        continue;
                    }
                    if **t == *el && s.slen >= need {
                        opts.push((i, vec![], s.ty.clone(), s.slen));
                    }
                    if !matches!(**t, Ptr(_)) && !t.is_arith() {
                        self.subs(t, &mut vec![if s.slen > 1 || matches!(**t, Arr(..)) { Step::E(s.slen.max(1)) } else { Step::D }], &mut subs);
                    }
                }
                t => {
                    if wr && s.ro {
                        continue;
                    }
                    self.subs(t, &mut vec![], &mut subs);
                }
            }
            for (path, t) in subs {
                match &t {
                    Arr(e, n) if **e == *el && *n >= need => opts.push((i, path, t.clone(), *n)),
                    // one object; an element of an array is reached through the array
                    t if t == el && need == 1 && !matches!(path.last(), Some(Step::E(_))) && !(matches!(path.last(), Some(Step::D))) => {
                        opts.push((i, path, t.clone(), 0))
                    }
                    _ => {}
                }
            }
        }
        if opts.is_empty() {
            return None;
        }
        let (i, path, t, n) = opts[self.r.idx(opts.len())].clone();
        let s = self.syms[i].clone();
        let b = self.var(&s);
        let b = self.along(b, &path, 0);
        let pt = el.clone().ptr();
        if n == 0 {
            self.syms[i].addr = true;
            return Some((self.e(pt, EK::Addr(Box::new(b))), 1));
        }
        let off = if n > need && self.r.pct(40) { 1 + self.r.idx(n - need) } else { 0 };
        if off == 0 && !(self.c.more && self.r.pct(20)) {
            let _ = t;
            return Some((b, n));
        }
        let o = self.int(off as i128);
        if self.c.more && self.r.pct(55) {
            let x = self.step(b, &Step::E(n), Some(o));
            return Some((self.e(pt, EK::Addr(Box::new(x))), n - off));
        }
        if off == 0 {
            return Some((b, n));
        }
        Some((self.e(pt, EK::Bin(BinOp::Add, Box::new(b), Box::new(o))), n - off))
    }
    /// like ptr_to, for a gadget that will move over all the elements
    fn span(&mut self, wr: bool) -> Option<(Ty, Expr, usize)> {
        let el = if self.c.doubles && self.r.pct(20) { Double } else { self.some_ty() };
        let need = if self.r.pct(60) { 2 } else { 1 };
        let (e, n) = self.ptr_to(&el, need, wr)?;
        Some((el, e, n))
    }

    // ------------------------------------------------------------ declarations

    pub(super) fn static_local(&mut self, out: &mut Vec<Stmt>) {
        let ty = if self.c.arrays && self.r.pct(30) { self.some_aggregate() } else { self.some_ty() };
        let i = if self.r.pct(30) { Init::None } else { self.init_of(&ty, true) };
        let x = self.new_local(ty.clone());
        self.locals[x].stat = true;
        let s = self.s(SK::Decl(x, i));
        out.push(s);
        self.add_sym(x, &ty, false, 0, false);
        self.syms.last_mut().unwrap().addr = true;
        self.impure = true;
    }
    pub(super) fn shadow(&mut self, out: &mut Vec<Stmt>) {
        let mark = self.block_mark;
        let v: Vec<usize> = (0..mark.min(self.syms.len())).filter(|i| !self.syms[*i].hid && !self.syms[*i].ro).collect();
        if v.is_empty() {
            return;
        }
        let k = v[self.r.idx(v.len())];
        let s = self.syms[k].clone();
        let name = if s.v.global { self.p.globals[s.v.idx].name.clone() } else { self.locals[s.v.idx].name.clone() };
        // not twice in one scope
        let here: Vec<String> = self.syms[mark..]
            .iter()
            .map(|s| if s.v.global { self.p.globals[s.v.idx].name.clone() } else { self.locals[s.v.idx].name.clone() })
            .collect();
        if here.contains(&name) {
            return;
        }
        for x in self.syms[..mark].iter_mut() {
            let n = if x.v.global { &self.p.globals[x.v.idx].name } else { &self.locals[x.v.idx].name };
            if *n == name {
                x.hid = true;
            }
        }
        let ty = self.some_ty();
        let e = self.init_expr(&ty, self.c.depth.min(2));
        self.locals.push(Var { name, ty: ty.clone(), init: Init::None, stat: false });
        let x = self.locals.len() - 1;
        let s = self.s(SK::Decl(x, Init::E(e)));
        out.push(s);
        self.add_sym(x, &ty, false, 0, false);
    }
    pub(super) fn global_pointers(&mut self) {
        if self.c.strings && self.r.pct(30) {
            let b = self.strbytes(1);
            let n = b.len();
            let e = self.e(Char.ptr(), EK::Str(b));
            self.global(Char.ptr(), Init::E(e), n, true);
        }
        let v: Vec<usize> = (0..self.syms.len()).filter(|i| !self.syms[*i].hid).collect();
        if !v.is_empty() && self.c.ptrs && self.r.pct(40) {
            let s = self.syms[v[self.r.idx(v.len())]].clone();
            let b = self.var(&s);
            let (ty, e, n) = match &s.ty {
                Ptr(_) => return,
                Arr(t, _) if matches!(**t, Arr(..)) => return,
                Arr(t, n) => {
                    let k = self.r.idx(*n);
                    let pt = (**t).clone().ptr();
                    if k == 0 {
                        (pt, b, *n)
                    } else {
                        let ix = self.int(k as i128);
                        if self.r.pct(50) {
                            let x = self.step(b, &Step::E(*n), Some(ix));
                            (pt.clone(), self.e(pt, EK::Addr(Box::new(x))), n - k)
                        } else {
                            (pt.clone(), self.e(pt, EK::Bin(BinOp::Add, Box::new(b), Box::new(ix))), n - k)
                        }
                    }
                }
                t => (t.clone().ptr(), self.e(t.clone().ptr(), EK::Addr(Box::new(b))), 1),
            };
            self.global(ty, Init::E(e), n, false);
        }
    }
    fn global(&mut self, ty: Ty, init: Init, slen: usize, strv: bool) {
        let name = self.name();
        self.p.globals.push(Var { name, ty: ty.clone(), init, stat: false });
        let idx = self.p.globals.len() - 1;
        self.syms.push(Sym { v: VarRef { global: true, idx }, ty, ro: true, addr: true, slen, strv, hid: false, nowr: false, term: false });
    }
    /// T *at(T *p, int i) { return p + i; }   T *sel(T *p, T *q, int c) { return c ? p : q; }
    pub(super) fn pointer_helpers(&mut self) {
        if !self.c.ptrs || !self.r.pct(35) {
            return;
        }
        for _ in 0..1 + self.r.idx(2) {
            let el = if self.c.structs && self.nplain > 0 && self.r.pct(25) { Struct(self.r.idx(self.nplain)) } else { self.some_ty() };
            let pt = el.clone().ptr();
            let kind = self.r.idx(3) as u8;
            self.start_fun();
            let p = self.new_local(pt.clone());
            let mut body = vec![];
            let nparams = if kind == 0 { 2 } else { 3 };
            if kind == 0 {
                let it = if self.c.tys.contains(&Long) && self.r.pct(30) { Long } else { Int };
                let i = self.new_local(it);
                let (a, b) = (self.loc(p), self.loc(i));
                let e = if self.r.pct(50) {
                    self.e(pt.clone(), EK::Bin(BinOp::Add, Box::new(a), Box::new(b)))
                } else {
                    let x = self.step(a, &Step::E(1), Some(b));
                    self.e(pt.clone(), EK::Addr(Box::new(x)))
                };
                body.push(self.s(SK::Return(Some(e))));
            } else {
                let q = self.new_local(pt.clone());
                let c = self.new_local(Int);
                let (a, b, cc) = (self.loc(p), self.loc(q), self.loc(c));
                if kind == 1 {
                    let e = self.e(pt.clone(), EK::Cond(Box::new(cc), Box::new(a), Box::new(b)));
                    body.push(self.s(SK::Return(Some(e))));
                } else {
                    let k = self.lit(&Int);
                    let c = self.e(Int, EK::Bin(BinOp::Gt, Box::new(cc), Box::new(k)));
                    let r = self.s(SK::Return(Some(a)));
                    body.push(self.s(SK::If(c, vec![r], None)));
                    body.push(self.s(SK::Return(Some(b))));
                }
            }
            let idx = self.p.funcs.len();
            let proto = self.r.pct(40);
            self.p.funcs.push(Func { name: format!("ptr_{}", idx), ret: pt, nparams, locals: std::mem::take(&mut self.locals), body, proto });
            self.helpers.push((idx, el, kind));
        }
    }

    // ------------------------------------------------------------ expressions

    /// sizeof, differences of pointers, values of parts through helper functions
    pub(super) fn more_int(&mut self, d: u32) -> Expr {
        match self.r.idx(5) {
            0 | 1 => {
                // sizeof of an object, of a part, of an expression that is not evaluated
                let s = match self.pick_sym(|s| !matches!(s.ty, Ptr(_)) && !s.term) {
                    Some(s) => s,
                    None => return self.leaf(&Int),
                };
                let b = self.var(&s);
                let mut subs = vec![];
                self.subs(&s.ty, &mut vec![], &mut subs);
                let (path, _) = subs[self.r.idx(subs.len())].clone();
                let x = self.along(b, &path, 0);
                let x = if x.ty.is_arith() && self.r.pct(30) && !s.ro {
                    let t = x.ty.clone();
                    let (i, p) = (self.r.pct(50), self.r.pct(50));
                    self.e(t, EK::IncDec(Box::new(x), i, p))
                } else {
                    x
                };
                let s = self.e(Int, EK::SizeofE(Box::new(x)));
                self.e(Int, EK::Cast(Box::new(s)))
            }
            2 => {
                let el = self.some_ty();
                let Some(s) = self.pick_sym(|s| matches!(&s.ty, Arr(t, n) if **t == el && *n > 1)) else { return self.leaf(&Int) };
                let n = if let Arr(_, n) = &s.ty { *n } else { 1 };
                let mut one = |g: &mut Self| {
                    let b = g.var(&s);
                    let k = g.r.idx(n) as i128;
                    let k = g.int(k);
                    let pt = el.clone().ptr();
                    match g.r.idx(3) {
                        0 => {
                            let x = g.step(b, &Step::E(n), Some(k));
                            g.e(pt, EK::Addr(Box::new(x)))
                        }
                        1 => g.e(pt, EK::Bin(BinOp::Add, Box::new(b), Box::new(k))),
                        _ => b,
                    }
                };
                let (a, b) = (one(self), one(self));
                if self.r.pct(40) {
                    let op = *self.r.pick(&[BinOp::Lt, BinOp::Gt, BinOp::Le, BinOp::Ge, BinOp::Eq, BinOp::Ne]);
                    return self.e(Int, EK::Bin(op, Box::new(a), Box::new(b)));
                }
                let x = self.e(Int, EK::Bin(BinOp::Sub, Box::new(a), Box::new(b)));
                self.e(Int, EK::Cast(Box::new(x)))
            }
            3 => match self.through_helper(Some(&Int), false) {
                Some(e) => e,
                None => self.leaf(&Int),
            },
            _ => self.odd_cond(d).filter(|e| e.ty == Int).unwrap_or_else(|| self.leaf(&Int)),
        }
    }
    /// *at(a, i), sel(&x, &y, c)[0], at(s, i)->m
    fn through_helper(&mut self, want: Option<&Ty>, wr: bool) -> Option<Expr> {
        let hs: Vec<(usize, Ty, u8)> = self.helpers.iter().filter(|h| !h.1.is_arith() || want.map_or(true, |w| h.1 == *w)).cloned().collect();
        if hs.is_empty() {
            return None;
        }
        let (idx, el, kind) = hs[self.r.idx(hs.len())].clone();
        let (p, n) = self.ptr_to(&el, 1, wr)?;
        let pt = el.clone().ptr();
        let args = if kind == 0 {
            let k = self.index(n, 0);
            vec![p, k]
        } else {
            let (q, _) = self.ptr_to(&el, 1, wr)?;
            let c = self.expr(&Int, 1);
            vec![p, q, c]
        };
        let c = self.e(pt, EK::Call(Callee::User(idx), args));
        let mut subs = vec![];
        let st = if self.r.pct(70) { Step::D } else { Step::E(1) };
        self.subs(&el, &mut vec![st], &mut subs);
        subs.retain(|s| s.1.is_arith() && want.map_or(true, |w| s.1 == *w));
        if subs.is_empty() {
            return None;
        }
        let (path, _) = subs[self.r.idx(subs.len())].clone();
        Some(self.along(c, &path, 0))
    }
    /// conditions that are not integers
    pub(super) fn odd_cond(&mut self, d: u32) -> Option<Expr> {
        let e = match self.r.idx(3) {
            0 => {
                let s = self.pick_sym(|s| matches!(s.ty, Ptr(_)))?;
                self.var(&s)
            }
            _ if self.c.doubles => {
                if self.r.pct(70) {
                    self.place(Some(&Double), false, 0)?
                } else {
                    self.expr(&Double, d.min(1))
                }
            }
            _ => return None,
        };
        Some(match self.r.idx(3) {
            0 => e,
            1 => self.e(Int, EK::Un(UnOp::Not, Box::new(e))),
            _ => {
                let o = self.expr(&Int, 1);
                let op = *self.r.pick(&[BinOp::LAnd, BinOp::LOr]);
                let (a, b) = if self.r.pct(50) { (e, o) } else { (o, e) };
                self.e(Int, EK::Bin(op, Box::new(a), Box::new(b)))
            }
        })
    }

    // ------------------------------------------------------------ statements

    pub(super) fn leave(&mut self, out: &mut Vec<Stmt>) {
        let l = self.outs[self.r.idx(self.outs.len())].clone();
        let c = self.cond(1);
        let g = self.s(SK::Goto(l));
        let s = if self.r.pct(75) {
            self.s(SK::If(c, vec![g], None))
        } else {
            let e = self.sub_block();
            if self.r.pct(50) {
                self.s(SK::If(c, vec![g], Some(e)))
            } else {
                self.s(SK::If(c, e, Some(vec![g])))
            }
        };
        out.push(s);
    }
    /// a compound or plain assignment of something that fits
    fn set(&mut self, l: Expr, d: u32) -> Stmt {
        let t = l.ty.clone();
        let op = if self.r.pct(45) {
            None
        } else {
            Some(*self.r.pick(if t == Double {
                &[BinOp::Add, BinOp::Sub, BinOp::Mul]
            } else {
                &[BinOp::Add, BinOp::Sub, BinOp::Xor, BinOp::Or, BinOp::And, BinOp::Mul]
            }))
        };
        let e = if op.is_none() { self.init_expr(&t, d) } else { self.expr(&t, d) };
        let s = self.s(SK::Assign(l, op, e));
        self.note_write(&s);
        s
    }
    /// a plain local to gather values in
    fn acc(&mut self, not: Option<VarRef>) -> Option<Expr> {
        let s = self.pick_sym(|s| s.ty.is_arith() && !s.ro && !s.v.global && !s.addr && Some(s.v) != not)?;
        Some(self.var(&s))
    }
    fn gather(&mut self, v: Expr) -> Stmt {
        match self.acc(None) {
            Some(l) if castable(&common(&v.ty, &l.ty), &l.ty) && (l.ty == Double || v.ty != Double) => {
                let op = if l.ty == Double { BinOp::Add } else { *self.r.pick(&[BinOp::Add, BinOp::Xor, BinOp::Sub]) };
                self.s(SK::Assign(l, Some(op), v))
            }
            _ if self.may_print => {
                self.impure = true;
                let p = self.spec_of(v);
                self.s(SK::Print(vec![p, PPart::Lit(b",".to_vec())]))
            }
            _ => {
                let x = self.new_local(v.ty.clone());
                let d = self.s(SK::Decl(x, Init::E(v)));
                self.s(SK::Block(vec![d]))
            }
        }
    }
    fn cmp(&mut self, op: BinOp, a: Expr, b: Expr) -> Expr {
        self.e(Int, EK::Bin(op, Box::new(a), Box::new(b)))
    }
    fn small(&mut self, k: i128) -> Expr {
        self.int(k)
    }
    pub(super) fn more(&mut self, out: &mut Vec<Stmt>) {
        match self.r.idx(13) {
            0 | 1 => self.walk_pointer(out),
            2 => self.chain(out),
            3 => self.jumps(out),
            4 => self.pointer_to_pointer(out),
            5 => self.array_of_pointers(out),
            6 => self.walk_string(out),
            7 => self.side_index(out),
            8 => {
                if let Some(l) = self.through_helper(None, true) {
                    let s = if self.r.pct(25) { self.s(SK::IncDec(l.clone(), self.p.next_id % 2 == 0, self.p.next_id % 3 == 0)) } else { self.set(l, 1) };
                    self.impure = true;
                    out.push(s);
                }
            }
            9 => self.holder(out),
            10 => {
                // the value of ++ and -- on any object
                let Some(a) = self.acc(None) else { return };
                let Some(b) = self.place(None, true, 1) else { return };
                if !castable(&b.ty, &a.ty) {
                    return;
                }
                let local = is_local_place(&b);
                let (x, y) = (self.r.pct(55), self.r.pct(50));
                let e = self.e(b.ty.clone(), EK::IncDec(Box::new(b), x, y));
                let s = self.s(SK::Assign(a, None, e));
                if !local {
                    self.impure = true;
                }
                out.push(s);
            }
            11 => {
                // a compound assignment as a value
                let Some(a) = self.acc(None) else { return };
                let Some(b) = self.place(None, true, 1) else { return };
                if !castable(&b.ty, &a.ty) || b.ty == Double {
                    return;
                }
                if !is_local_place(&b) {
                    self.impure = true;
                }
                let t = b.ty.clone();
                let op = *self.r.pick(&[BinOp::Add, BinOp::Sub, BinOp::Xor, BinOp::And, BinOp::Or]);
                let v = self.expr(&t, 1);
                let e = self.e(t, EK::OpAssign(op, Box::new(b), Box::new(v)));
                let s = self.s(SK::Assign(a, None, e));
                out.push(s);
            }
            _ => {
                // a loop whose condition is a double, or counts with one
                if !self.c.doubles || self.loop_depth > 1 || !self.c.loops {
                    return;
                }
                let k = self.r.range(1, 6) as f64 / 2.0;
                let init = self.e(Double, EK::Dbl(k));
                let x = self.new_local(Double);
                let d = self.s(SK::Decl(x, Init::E(init)));
                let mark = self.syms.len();
                self.add_sym(x, &Double, true, 0, false);
                self.loop_depth += 1;
                let sw = std::mem::replace(&mut self.in_switch, false);
                let mut body = self.sub_block();
                self.in_switch = sw;
                self.loop_depth -= 1;
                self.syms.truncate(mark);
                if has_continue(&body) {
                    return;
                }
                let l = self.loc(x);
                let half = self.e(Double, EK::Dbl(0.5));
                let st = if k.fract() == 0.0 && self.r.pct(50) { self.s(SK::IncDec(l, false, self.p.next_id % 2 == 0)) } else { self.s(SK::Assign(l, Some(BinOp::Sub), half)) };
                body.push(st);
                let c = self.loc(x);
                let w = self.s(SK::While(c, body));
                let b = self.s(SK::Block(vec![d, w]));
                out.push(b);
            }
        }
    }
    fn walk_pointer(&mut self, out: &mut Vec<Stmt>) {
        if !self.c.loops || self.loop_depth > 1 {
            return;
        }
        let wr = self.r.pct(60);
        let Some((el, a, n)) = self.span(wr) else { return };
        if wr {
            self.impure |= !is_local_place(&a);
        }
        let pt = el.clone().ptr();
        let mark = self.syms.len();
        let p = self.new_local(pt.clone());
        let mut b = vec![];
        let nn = self.small(n as i128);
        let a2 = self.again(&a);
        match self.r.idx(7) {
            0 | 1 => {
                // for (p = a; p < a + n; p++) { … *p … }
                self.add_sym(p, &pt, true, 1, false);
                self.syms.last_mut().unwrap().nowr = !wr;
                self.loop_depth += 1;
                let sw = std::mem::replace(&mut self.in_switch, false);
                let mut body = self.sub_block();
                self.in_switch = sw;
                self.loop_depth -= 1;
                self.syms.truncate(mark);
                let q = self.loc(p);
                let v = self.e(el.clone(), EK::Deref(Box::new(q)));
                let s = if wr { self.set(v, 1) } else { self.gather(v) };
                body.insert(0, s);
                let end = self.e(pt.clone(), EK::Bin(BinOp::Add, Box::new(a2), Box::new(nn)));
                let q = self.loc(p);
                let op = if self.r.pct(70) { BinOp::Lt } else { BinOp::Ne };
                let c = self.cmp(op, q, end);
                let q = self.loc(p);
                let st = self.s(SK::IncDec(q, true, self.p.next_id % 2 == 0));
                let d = self.s(SK::Decl(p, Init::E(a)));
                b.push(self.s(SK::For(Some(Box::new(d)), Some(c), Some(Box::new(st)), body)));
            }
            2 | 3 => {
                // p = a; k = n; while (k-- > 0) *p++ …
                let d = self.s(SK::Decl(p, Init::E(a)));
                let k = self.new_local(Int);
                let dk = self.s(SK::Decl(k, Init::E(nn)));
                let q = self.loc(p);
                let mv = self.e(pt.clone(), EK::IncDec(Box::new(q), true, false));
                let v = self.e(el.clone(), EK::Deref(Box::new(mv)));
                let s = if wr { self.set(v, 1) } else { self.gather(v) };
                let kv = self.loc(k);
                let dec = self.e(Int, EK::IncDec(Box::new(kv), false, false));
                let z = self.small(0);
                let c = self.cmp(BinOp::Gt, dec, z);
                let w = self.s(SK::While(c, vec![s]));
                b.extend([d, dk, w]);
            }
            4 => {
                // p = a + n; while (p > a) … *--p
                let end = self.e(pt.clone(), EK::Bin(BinOp::Add, Box::new(a), Box::new(nn)));
                let d = self.s(SK::Decl(p, Init::E(end)));
                let q = self.loc(p);
                let mv = self.e(pt.clone(), EK::IncDec(Box::new(q), false, true));
                let v = self.e(el.clone(), EK::Deref(Box::new(mv)));
                let s = if wr { self.set(v, 1) } else { self.gather(v) };
                let q = self.loc(p);
                let c = self.cmp(BinOp::Gt, q, a2);
                let w = self.s(SK::While(c, vec![s]));
                b.extend([d, w]);
            }
            5 if wr => {
                // reversal with two pointers
                let q = self.new_local(pt.clone());
                let last = self.small(n as i128 - 1);
                let end = self.e(pt.clone(), EK::Bin(BinOp::Add, Box::new(a2), Box::new(last)));
                let d = self.s(SK::Decl(p, Init::E(a)));
                let dq = self.s(SK::Decl(q, Init::E(end)));
                let t = self.new_local(el.clone());
                let pv = self.loc(p);
                let v = self.e(el.clone(), EK::Deref(Box::new(pv)));
                let dt = self.s(SK::Decl(t, Init::E(v)));
                let pv = self.loc(p);
                let pv = self.e(pt.clone(), EK::IncDec(Box::new(pv), true, false));
                let l = self.e(el.clone(), EK::Deref(Box::new(pv)));
                let qv = self.loc(q);
                let r = self.e(el.clone(), EK::Deref(Box::new(qv)));
                let s1 = self.s(SK::Assign(l, None, r));
                let qv = self.loc(q);
                let qv = self.e(pt.clone(), EK::IncDec(Box::new(qv), false, false));
                let l = self.e(el.clone(), EK::Deref(Box::new(qv)));
                let tv = self.loc(t);
                let s2 = self.s(SK::Assign(l, None, tv));
                let (x, y) = (self.loc(p), self.loc(q));
                let c = self.cmp(BinOp::Lt, x, y);
                let w = self.s(SK::While(c, vec![dt, s1, s2]));
                b.extend([d, dq, w]);
            }
            _ => {
                // neighbours: p[1] - *p, p[-1]; strides
                if n < 2 {
                    return;
                }
                let d = self.s(SK::Decl(p, Init::E(a)));
                b.push(d);
                let one = self.small(1);
                let q = self.loc(p);
                let v1 = self.step(q, &Step::E(2), Some(one));
                let g = if wr && self.r.pct(50) { self.set(v1, 1) } else { self.gather(v1) };
                b.push(g);
                let k = 1 + self.r.idx(n - 1) as i128;
                let kk = self.small(k);
                let q = self.loc(p);
                let op = BinOp::Add;
                b.push(self.s(SK::Assign(q, Some(op), kk)));
                let back = self.small(-1);
                let q = self.loc(p);
                let v = self.step(q, &Step::E(2), Some(back));
                let g = self.gather(v);
                b.push(g);
                let kk = if self.c.tys.contains(&Long) && self.r.pct(40) {
                    let x = self.small(k);
                    self.cast(x, &Long)
                } else {
                    self.small(k)
                };
                let q = self.loc(p);
                b.push(self.s(SK::Assign(q, Some(BinOp::Sub), kk)));
                let q = self.loc(p);
                let v = self.e(el.clone(), EK::Deref(Box::new(q)));
                let g = if wr { self.set(v, 1) } else { self.gather(v) };
                b.push(g);
            }
        }
        let s = self.s(SK::Block(b));
        out.push(s);
    }
    fn chain(&mut self, out: &mut Vec<Stmt>) {
        let Some(a) = self.acc(None) else { return };
        let Some(b) = self.place(None, true, 1) else { return };
        if !castable(&b.ty, &a.ty) {
            return;
        }
        if !is_local_place(&b) {
            self.impure = true;
        }
        let t = b.ty.clone();
        let mut v = self.init_expr(&t, 2);
        if self.r.pct(30) {
            if let Some(c) = self.place(None, true, 0) {
                if castable(&c.ty, &t) {
                    if !is_local_place(&c) {
                        self.impure = true;
                    }
                    let ct = c.ty.clone();
                    let w = self.init_expr(&ct, 1);
                    v = self.e(ct, EK::Assign(Box::new(c), Box::new(w)));
                }
            }
        }
        let asg = self.e(t.clone(), EK::Assign(Box::new(b), Box::new(v)));
        let s = match self.r.idx(4) {
            0 if t != Double => {
                let k = self.lit(&Int);
                let c = self.cmp(BinOp::Gt, asg, k);
                let body = self.sub_block();
                self.s(SK::If(c, body, None))
            }
            1 if self.may_print => {
                self.impure = true;
                let p = self.spec_of(asg);
                self.s(SK::Print(vec![p, PPart::Lit(b";".to_vec())]))
            }
            _ => self.s(SK::Assign(a, None, asg)),
        };
        out.push(s);
    }
    fn jumps(&mut self, out: &mut Vec<Stmt>) {
        if !self.c.gotos || self.outs.len() > 1 {
            return;
        }
        self.labels += 1;
        let l = format!("out_{}", self.labels);
        self.outs.push(l.clone());
        let mut b = self.sub_block();
        let n = b.len();
        let mut g = vec![];
        self.leave(&mut g);
        let at = self.r.idx(n + 1);
        // a jump of this block's own, where its declarations do not matter
        if b[..at].iter().all(|s| !matches!(s.k, SK::Decl(..))) || at == n {
            b.splice(at..at, g.into_iter().take(1));
        }
        self.outs.retain(|x| *x != l);
        let s = self.s(SK::Labeled(l, b));
        out.push(s);
    }
    fn pointer_to_pointer(&mut self, out: &mut Vec<Stmt>) {
        if !self.c.ptrs {
            return;
        }
        let el = self.some_ty();
        let Some((x, n)) = self.ptr_to(&el, 1, true) else { return };
        let Some((y, m)) = self.ptr_to(&el, 1, true) else { return };
        let pt = el.clone().ptr();
        let p = self.new_local(pt.clone());
        let pp = self.new_local(pt.clone().ptr());
        out.push(self.s(SK::Decl(p, Init::E(x))));
        let pv = self.loc(p);
        let ad = self.e(pt.clone().ptr(), EK::Addr(Box::new(pv)));
        out.push(self.s(SK::Decl(pp, Init::E(ad))));
        let twice = |g: &mut Self| {
            let q = g.loc(pp);
            let q = g.e(pt.clone(), EK::Deref(Box::new(q)));
            g.e(el.clone(), EK::Deref(Box::new(q)))
        };
        let l = twice(self);
        let s = self.set(l, 1);
        out.push(s);
        let q = self.loc(pp);
        let q = self.e(pt.clone(), EK::Deref(Box::new(q)));
        out.push(self.s(SK::Assign(q, None, y)));
        if self.r.pct(60) {
            let l = twice(self);
            let s = self.set(l, 1);
            out.push(s);
        } else {
            let v = twice(self);
            let g = self.gather(v);
            out.push(g);
        }
        self.impure = true;
        self.add_sym(p, &pt, true, n.min(m), false);
    }
    fn array_of_pointers(&mut self, out: &mut Vec<Stmt>) {
        if !self.c.ptrs || !self.c.arrays {
            return;
        }
        let el = self.some_ty();
        let n = 2 + self.r.idx(2);
        let mut v = vec![];
        for _ in 0..n {
            let Some((e, _)) = self.ptr_to(&el, 1, true) else { return };
            v.push(e);
        }
        let pt = el.clone().ptr();
        let at = pt.clone().arr(n);
        let x = self.new_local(at);
        let mut b = vec![];
        if self.r.pct(50) {
            b.push(self.s(SK::Decl(x, Init::List(v))));
        } else {
            b.push(self.s(SK::Decl(x, Init::None)));
            for (i, e) in v.into_iter().enumerate() {
                let a = self.loc(x);
                let ix = self.small(i as i128);
                let l = self.step(a, &Step::E(n), Some(ix));
                b.push(self.s(SK::Assign(l, None, e)));
            }
        }
        for _ in 0..1 + self.r.idx(3) {
            let a = self.loc(x);
            let ix = self.index(n, 0);
            let q = self.step(a, &Step::E(n), Some(ix));
            let l = if self.r.pct(60) {
                self.e(el.clone(), EK::Deref(Box::new(q)))
            } else {
                let z = self.small(0);
                self.step(q, &Step::E(1), Some(z))
            };
            let s = if self.r.pct(60) { self.set(l, 1) } else { self.gather(l) };
            b.push(s);
        }
        if self.c.loops && self.r.pct(50) {
            let i = self.new_local(Int);
            let a = self.loc(x);
            let ix = self.loc(i);
            let q = self.step(a, &Step::E(n), Some(ix));
            let l = self.e(el.clone(), EK::Deref(Box::new(q)));
            let s = self.gather(l);
            let f = self.count_loop(i, n as i128, vec![s]);
            b.extend(f);
        }
        self.impure = true;
        let s = self.s(SK::Block(b));
        out.push(s);
    }
    fn walk_string(&mut self, out: &mut Vec<Stmt>) {
        if !self.c.strings || !self.c.loops || self.loop_depth > 1 {
            return;
        }
        let cp = Char.ptr();
        let lit = self.r.pct(50);
        let bytes = self.strbytes(1);
        let (src, len) = if lit { (self.e(cp.clone(), EK::Str(bytes.clone())), bytes.len()) } else { (self.string_arg(), 0) };
        let p = self.new_local(cp.clone());
        let mut b = vec![];
        match self.r.idx(4) {
            0 | 1 => {
                // while (*p) { … *p …; p++; }
                b.push(self.s(SK::Decl(p, Init::E(src))));
                let q = self.loc(p);
                let v = self.e(Char, EK::Deref(Box::new(q)));
                let v2 = self.again(&v);
                let mut g = self.gather(v);
                if self.c.libs && self.r.pct(50) {
                    let n = *self.r.pick(&["isalpha", "isdigit", "islower", "isspace", "isalnum"]);
                    let a = self.again(&v2);
                    let t = self.e(Int, EK::Call(Callee::Lib(n), vec![a]));
                    g = self.s(SK::If(t, vec![g], None));
                }
                let q = self.loc(p);
                let st = self.s(SK::IncDec(q, true, self.p.next_id % 2 == 0));
                let c = if self.r.pct(50) {
                    v2
                } else {
                    let z = self.small(0);
                    self.cmp(BinOp::Ne, v2, z)
                };
                b.push(if self.r.pct(50) {
                    self.s(SK::While(c, vec![g, st]))
                } else {
                    self.s(SK::For(None, Some(c), Some(Box::new(st)), vec![g]))
                });
            }
            2 => {
                // for (i = 0; p[i]; i++)
                b.push(self.s(SK::Decl(p, Init::E(src))));
                let i = self.new_local(Int);
                let z = self.small(0);
                let d = self.s(SK::Decl(i, Init::E(z)));
                let (q, ix) = (self.loc(p), self.loc(i));
                let c = self.step(q, &Step::E(1), Some(ix));
                let v = self.again(&c);
                let g = self.gather(v);
                let ix = self.loc(i);
                let st = self.s(SK::IncDec(ix, true, false));
                b.push(self.s(SK::For(Some(Box::new(d)), Some(c), Some(Box::new(st)), vec![g])));
            }
            _ => {
                // a copy: while ((*q++ = *p++)) ;
                if !lit || !self.may_print {
                    return;
                }
                b.push(self.s(SK::Decl(p, Init::E(src))));
                let at = Char.arr(len + 1 + self.r.idx(3));
                let x = self.new_local(at.clone());
                b.push(self.s(SK::Decl(x, Init::None)));
                let z = if self.r.pct(50) { Some(self.small(0)) } else { None };
                if self.r.pct(60) {
                    let q = self.new_local(cp.clone());
                    let a = self.loc(x);
                    b.push(self.s(SK::Decl(q, Init::E(a))));
                    let side = |g: &mut Self, k: usize| {
                        let v = g.loc(k);
                        let v = g.e(cp.clone(), EK::IncDec(Box::new(v), true, false));
                        g.e(Char, EK::Deref(Box::new(v)))
                    };
                    let (l, r) = (side(self, q), side(self, p));
                    let c = self.e(Char, EK::Assign(Box::new(l), Box::new(r)));
                    let c = match z {
                        Some(z) => self.cmp(BinOp::Ne, c, z),
                        None => c,
                    };
                    let e = self.s(SK::Empty);
                    b.push(self.s(SK::While(c, vec![e])));
                } else {
                    let i = self.new_local(Int);
                    let k = self.small(0);
                    b.push(self.s(SK::Decl(i, Init::E(k))));
                    let side = |g: &mut Self, k: usize| {
                        let v = g.loc(k);
                        let ix = g.loc(i);
                        g.step(v, &Step::E(1), Some(ix))
                    };
                    let (l, r) = (side(self, x), side(self, p));
                    let c = self.e(Char, EK::Assign(Box::new(l), Box::new(r)));
                    let c = match z {
                        Some(z) => self.cmp(BinOp::Ne, c, z),
                        None => c,
                    };
                    let iv = self.loc(i);
                    let e = self.s(SK::IncDec(iv, true, false));
                    b.push(self.s(SK::While(c, vec![e])));
                }
                self.impure = true;
                let xv = self.loc(x);
                b.push(self.s(SK::Print(vec![PPart::Spec("%s", xv), PPart::Lit(b"\n".to_vec())])));
            }
        }
        let s = self.s(SK::Block(b));
        out.push(s);
    }
    /// a[k++] op= e, *p++ op= e, a[--k] = e
    fn side_index(&mut self, out: &mut Vec<Stmt>) {
        let Some((el, a, n)) = self.span(true) else { return };
        self.impure |= !is_local_place(&a);
        let pt = el.clone().ptr();
        let mut b = vec![];
        if self.r.pct(60) {
            let kt = if self.c.tys.contains(&Long) && self.r.pct(20) { Long } else { Int };
            let k = self.new_local(kt);
            let kt = self.locals[k].ty.clone();
            let up = self.r.pct(70);
            let st = self.small(if up { 0 } else { n as i128 });
            b.push(self.s(SK::Decl(k, Init::E(st))));
            for _ in 0..1 + self.r.idx(n.min(3)) {
                let kv = self.loc(k);
                let ix = self.e(kt.clone(), EK::IncDec(Box::new(kv), up, !up));
                let base = self.again(&a);
                let l = self.step(base, &Step::E(n), Some(ix));
                let s = if self.r.pct(70) { self.set(l, 1) } else { self.gather(l) };
                b.push(s);
            }
            if self.may_print {
                self.impure = true;
                let kv = self.loc(k);
                let p = self.spec_of(kv);
                b.push(self.s(SK::Print(vec![p, PPart::Lit(b"\n".to_vec())])));
            }
        } else {
            let p = self.new_local(pt.clone());
            b.push(self.s(SK::Decl(p, Init::E(a.clone()))));
            for _ in 0..1 + self.r.idx(n.min(3)) {
                let pv = self.loc(p);
                let mv = self.e(pt.clone(), EK::IncDec(Box::new(pv), true, false));
                let l = self.e(el.clone(), EK::Deref(Box::new(mv)));
                let s = if self.r.pct(25) {
                    // ++*p, (*p)--
                    let pv = self.loc(p);
                    let l = self.e(el.clone(), EK::Deref(Box::new(pv)));
                    let (x, y) = (self.r.pct(50), self.r.pct(50));
                    self.s(SK::IncDec(l, x, y))
                } else {
                    self.set(l, 1)
                };
                b.push(s);
            }
            let pv = self.loc(p);
            let base = self.again(&a);
            let df = self.e(Int, EK::Bin(BinOp::Sub, Box::new(pv), Box::new(base)));
            let df = self.e(Int, EK::Cast(Box::new(df)));
            let g = self.gather(df);
            b.push(g);
        }
        let s = self.s(SK::Block(b));
        out.push(s);
    }
    /// a struct with a pointer member
    fn holder(&mut self, out: &mut Vec<Stmt>) {
        if !self.c.structs || !self.c.ptrs {
            return;
        }
        let el = self.some_ty();
        let Some((x, n)) = self.ptr_to(&el, 1, true) else { return };
        let pt = el.clone().ptr();
        let fields = vec![("len".to_string(), Int), ("ptr".to_string(), pt.clone()), ("tag".to_string(), Char)];
        let k = match self.p.structs.iter().position(|s| s.fields == fields) {
            Some(k) => k,
            None => {
                let name = format!("V{}", self.p.structs.len());
                let typedef = self.r.pct(30);
                self.p.structs.push(StructDef { name, fields, typedef });
                self.p.structs.len() - 1
            }
        };
        let mut b = vec![];
        let v = self.new_local(Struct(k));
        b.push(self.s(SK::Decl(v, Init::None)));
        let nn = self.small(n as i128);
        let tag = self.raw_const(&Char);
        for (f, e) in [(1, x), (0, nn), (2, tag)] {
            let sv = self.loc(v);
            let l = self.step(sv, &Step::F(k, f), None);
            b.push(self.s(SK::Assign(l, None, e)));
        }
        let via = self.r.pct(50);
        let q = if via {
            let q = self.new_local(Struct(k).ptr());
            let sv = self.loc(v);
            let ad = self.e(Struct(k).ptr(), EK::Addr(Box::new(sv)));
            b.push(self.s(SK::Decl(q, Init::E(ad))));
            q
        } else {
            v
        };
        let member = |g: &mut Self, f: usize| {
            let t = g.p.structs[k].fields[f].1.clone();
            let b = g.loc(q);
            g.e(t, if via { EK::Arrow(Box::new(b), k, f) } else { EK::Field(Box::new(b), k, f) })
        };
        for _ in 0..1 + self.r.idx(3) {
            let m = member(self, 1);
            let l = if self.r.pct(50) {
                self.e(el.clone(), EK::Deref(Box::new(m)))
            } else {
                let ix = self.index(n, 0);
                self.step(m, &Step::E(n), Some(ix))
            };
            let s = if self.r.pct(65) { self.set(l, 1) } else { self.gather(l) };
            b.push(s);
        }
        if self.c.loops && self.loop_depth < 2 && self.r.pct(60) {
            let i = self.new_local(Int);
            let z = self.small(0);
            let d = self.s(SK::Decl(i, Init::E(z)));
            let iv = self.loc(i);
            let len = member(self, 0);
            let c = self.cmp(BinOp::Lt, iv, len);
            let iv = self.loc(i);
            let st = self.s(SK::IncDec(iv, true, false));
            let m = member(self, 1);
            let iv = self.loc(i);
            let l = self.step(m, &Step::E(n), Some(iv));
            let g = self.gather(l);
            b.push(self.s(SK::For(Some(Box::new(d)), Some(c), Some(Box::new(st)), vec![g])));
        } else {
            let m = member(self, 1);
            b.push(self.s(SK::IncDec(m, true, false)));
            let m = member(self, 0);
            b.push(self.s(SK::IncDec(m, false, true)));
            let m = member(self, 1);
            let back = self.small(-1);
            let l = self.step(m, &Step::E(1), Some(back));
            let g = self.gather(l);
            b.push(g);
            let m = member(self, 0);
            let g = self.gather(m);
            b.push(g);
        }
        self.impure = true;
        let s = self.s(SK::Block(b));
        out.push(s);
    }
}
