//! Program minimisation: edits that keep the program well-formed and defined, kept while it still fails.
use crate::cprog::*;
use crate::gen::{each_expr, each_expr_stmt, init_exprs, walk};
use crate::interp::{self, Outcome};

/// every statement list of the program, in a fixed order
fn lists<'a>(b: &'a mut Vec<Stmt>, f: &mut dyn FnMut(&mut Vec<Stmt>) -> bool) -> bool {
    if f(b) {
        return true;
    }
    for s in b.iter_mut() {
        let hit = match &mut s.k {
            SK::If(_, a, e) => lists(a, f) || e.as_mut().map_or(false, |e| lists(e, f)),
            SK::While(_, b) | SK::DoWhile(b, _) | SK::GotoLoop(_, b, _) | SK::Labeled(_, b) | SK::Block(b) | SK::For(_, _, _, b) => lists(b, f),
            SK::Switch(_, c) => c.iter_mut().any(|c| lists(&mut c.1, f)),
            _ => false,
        };
        if hit {
            return true;
        }
    }
    false
}
pub fn all_stmts(b: &[Stmt], f: &mut dyn FnMut(&Stmt)) {
    for s in b {
        f(s);
        match &s.k {
            SK::If(_, a, e) => {
                all_stmts(a, f);
                if let Some(e) = e {
                    all_stmts(e, f)
                }
            }
            SK::While(_, b) | SK::DoWhile(b, _) | SK::GotoLoop(_, b, _) | SK::Labeled(_, b) | SK::Block(b) => all_stmts(b, f),
            SK::For(i, _, n, b) => {
                for x in [i, n].into_iter().flatten() {
                    f(x)
                }
                all_stmts(b, f)
            }
            SK::Switch(_, c) => c.iter().for_each(|c| all_stmts(&c.1, f)),
            _ => {}
        }
    }
}
fn list_sizes(p: &mut Program) -> Vec<usize> {
    let mut v = vec![];
    for f in &mut p.funcs {
        lists(&mut f.body, &mut |l| {
            v.push(l.len());
            false
        });
    }
    v
}
fn with_list(p: &mut Program, k: usize, g: &mut dyn FnMut(&mut Vec<Stmt>)) {
    let mut n = 0;
    for f in &mut p.funcs {
        if lists(&mut f.body, &mut |l| {
            n += 1;
            if n - 1 == k {
                g(l);
                true
            } else {
                false
            }
        }) {
            return;
        }
    }
}

fn is_lv(e: &Expr) -> bool {
    match &e.k {
        EK::Field(a, ..) => is_lv(a),
        k => matches!(k, EK::Var(_) | EK::Index(..) | EK::Arrow(..) | EK::Deref(_)),
    }
}

/// declarations before uses, breaks inside loops, calls to functions that exist
pub fn well_formed(p: &Program) -> bool {
    struct W<'a> {
        p: &'a Program,
        ok: bool,
        scopes: Vec<Vec<usize>>,
        nparams: usize,
        f: usize,
        labels: Vec<String>,
        all: Vec<String>,
    }
    impl<'a> W<'a> {
        fn e(&mut self, e: &Expr) {
            let mut c = e.clone();
            let (p, scopes, np, fi) = (self.p, &self.scopes, self.nparams, self.f);
            let mut ok = true;
            walk(&mut c, &mut |x| match &x.k {
                EK::Var(v) => {
                    // what the name means here
                    let fun = &p.funcs[fi];
                    let name = if v.global { p.globals.get(v.idx).map(|g| &g.name) } else { fun.locals.get(v.idx).map(|g| &g.name) };
                    let Some(name) = name else {
                        ok = false;
                        return;
                    };
                    let near = scopes.iter().rev().flat_map(|s| s.iter().rev()).find(|k| fun.locals[**k].name == *name).copied();
                    let near = near.or_else(|| (0..np).find(|k| fun.locals[*k].name == *name));
                    ok &= if v.global { near.is_none() } else { near == Some(v.idx) };
                }
                EK::Assign(l, _) | EK::OpAssign(_, l, _) | EK::IncDec(l, ..) | EK::Addr(l) => ok &= is_lv(l),
                EK::Call(Callee::User(i), _) => ok &= *i < fi || *i == fi || p.funcs[*i].proto,
                EK::Str(_) | EK::Null => {}
                EK::Call(Callee::Lib(n), _) => {
                    let h = if n.starts_with("strto") {
                        "stdlib"
                    } else if n.starts_with("str") {
                        "string"
                    } else {
                        "ctype"
                    };
                    ok &= p.includes.iter().any(|i| i.contains(h))
                }
                EK::Named(n, _) => {
                    ok &= p.macros.iter().any(|m| m.0 == *n) || p.enums.iter().any(|e| e.1.iter().any(|c| c.0 == *n)) || p.includes.iter().any(|i| i.contains("limits") )
                }
                _ => {}
            });
            self.ok &= ok;
        }
        fn b(&mut self, b: &[Stmt], lp: bool, sw: bool) {
            self.scopes.push(vec![]);
            for s in b {
                self.s(s, lp, sw);
            }
            self.scopes.pop();
        }
        fn s(&mut self, s: &Stmt, lp: bool, sw: bool) {
            match &s.k {
                SK::Decl(v, i) => {
                    let mut t = Stmt { id: 0, k: SK::Decl(*v, i.clone()) };
                    let mut es = vec![];
                    if let SK::Decl(_, i) = &mut t.k {
                        init_exprs(i, &mut |e| es.push(e.clone()));
                    }
                    for e in &es {
                        self.e(e);
                    }
                    // one name once in a scope; the function's own scope has its parameters
                    let fun = &self.p.funcs[self.f];
                    let name = &fun.locals[*v].name;
                    let last = self.scopes.last().unwrap();
                    self.ok &= !last.iter().any(|x| fun.locals[*x].name == *name);
                    if self.scopes.len() == 1 {
                        self.ok &= !fun.locals[..fun.nparams].iter().any(|x| x.name == *name);
                    }
                    self.scopes.last_mut().unwrap().push(*v);
                }
                SK::Break => self.ok &= lp || sw,
                SK::Continue => self.ok &= lp,
                SK::If(c, a, b) => {
                    self.e(c);
                    self.b(a, lp, sw);
                    if let Some(b) = b {
                        self.b(b, lp, sw)
                    }
                }
                SK::While(c, b) => {
                    self.e(c);
                    self.b(b, true, false)
                }
                SK::DoWhile(b, c) => {
                    self.b(b, true, false);
                    self.e(c)
                }
                SK::GotoLoop(_, b, c) => {
                    // not a scope of its own
                    for s in b {
                        self.s(s, false, false)
                    }
                    self.e(c)
                }
                SK::For(i, c, n, b) => {
                    self.scopes.push(vec![]);
                    if let Some(i) = i {
                        self.s(i, false, false)
                    }
                    if let Some(c) = c {
                        self.e(c)
                    }
                    if let Some(n) = n {
                        self.s(n, false, false)
                    }
                    self.b(b, true, false);
                    self.scopes.pop();
                }
                SK::Switch(e, c) => {
                    self.e(e);
                    self.scopes.push(vec![]);
                    for c in c {
                        for s in &c.1 {
                            self.s(s, lp, true)
                        }
                    }
                    self.scopes.pop();
                    let mut seen = vec![];
                    for l in c.iter().flat_map(|c| &c.0) {
                        self.ok &= !seen.contains(l);
                        seen.push(*l);
                    }
                    self.ok &= c.iter().all(|c| !c.0.is_empty());
                }
                SK::Block(b) => self.b(b, lp, sw),
                SK::Labeled(l, b) => {
                    self.ok &= !self.all.contains(l);
                    self.all.push(l.clone());
                    self.labels.push(l.clone());
                    self.b(b, lp, sw);
                    self.labels.pop();
                }
                SK::Goto(l) => self.ok &= self.labels.contains(l),
                _ => {
                    if let SK::Assign(l, ..) | SK::IncDec(l, ..) = &s.k {
                        self.ok &= is_lv(l);
                    }
                    let mut t = s.clone();
                    let mut es = vec![];
                    each_expr_stmt(&mut t, &mut |e| es.push(e.clone()));
                    for e in es {
                        // only roots matter, checking inner ones twice is harmless
                        self.e(&e)
                    }
                }
            }
        }
    }
    let mut w = W { p, ok: true, scopes: vec![], nparams: 0, f: 0, labels: vec![], all: vec![] };
    for (i, f) in p.funcs.iter().enumerate() {
        w.f = i;
        w.all.clear();
        w.nparams = f.nparams;
        w.b(&f.body, false, false);
    }
    w.ok
}

fn calls(p: &mut Program, i: usize) -> bool {
    let mut hit = false;
    for f in &mut p.funcs {
        each_expr(&mut f.body, &mut |e| {
            if let EK::Call(Callee::User(k), _) = &e.k {
                hit |= *k == i
            }
        });
    }
    hit
}
fn drop_func(p: &mut Program, i: usize) {
    p.funcs.remove(i);
    for f in &mut p.funcs {
        each_expr(&mut f.body, &mut |e| {
            if let EK::Call(Callee::User(k), _) = &mut e.k {
                if *k > i {
                    *k -= 1
                }
            }
        });
    }
}
fn uses_global(p: &mut Program, i: usize) -> bool {
    let mut hit = false;
    let mut look = |e: &mut Expr| {
        if let EK::Var(v) = &e.k {
            hit |= v.global && v.idx == i
        }
    };
    for f in &mut p.funcs {
        each_expr(&mut f.body, &mut look);
    }
    for g in &mut p.globals {
        match &mut g.init {
            i => init_exprs(i, &mut look),
        }
    }
    hit
}
fn drop_global(p: &mut Program, i: usize) {
    p.globals.remove(i);
    let mut fix = |e: &mut Expr| {
        if let EK::Var(v) = &mut e.k {
            if v.global && v.idx > i {
                v.idx -= 1
            }
        }
    };
    for f in &mut p.funcs {
        each_expr(&mut f.body, &mut fix);
    }
    for g in &mut p.globals {
        match &mut g.init {
            i => init_exprs(i, &mut fix),
        }
    }
}

pub struct Shrinker<'a> {
    pub test: &'a mut dyn FnMut(&Program, &Outcome) -> bool,
    pub trials: usize,
    pub limit: u64,
    pub until: std::time::Instant,
}
impl<'a> Shrinker<'a> {
    fn try_(&mut self, cur: &mut Program, cand: Program) -> bool {
        if self.trials == 0 || std::time::Instant::now() > self.until || !well_formed(&cand) {
            return false;
        }
        let o = match interp::run(&cand, self.limit) {
            Ok(o) => o,
            Err(_) => return false,
        };
        self.trials -= 1;
        if (self.test)(&cand, &o) {
            *cur = cand;
            true
        } else {
            false
        }
    }
    fn pass(&mut self, cur: &mut Program) -> bool {
        let mut progress = false;
        // statements, big chunks first
        let mut chunk = list_sizes(cur).into_iter().max().unwrap_or(1).max(1);
        loop {
            let mut k = 0;
            while k < list_sizes(cur).len() {
                let mut at = 0;
                while at < list_sizes(cur).get(k).copied().unwrap_or(0) {
                    let mut c = cur.clone();
                    with_list(&mut c, k, &mut |l| {
                        let e = (at + chunk).min(l.len());
                        l.drain(at..e);
                    });
                    if self.try_(cur, c) {
                        progress = true;
                    } else {
                        at += chunk;
                    }
                }
                k += 1;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // compound statements become their bodies
        let mut k = 0;
        while k < list_sizes(cur).len() {
            let mut at = 0;
            while at < list_sizes(cur).get(k).copied().unwrap_or(0) {
                for which in 0..3 {
                    let mut c = cur.clone();
                    let mut changed = false;
                    with_list(&mut c, k, &mut |l| {
                        let st = l[at].clone();
                        let body: Option<Vec<Stmt>> = match (st.k, which) {
                            (SK::If(_, a, _), 0) => Some(a),
                            (SK::If(_, _, Some(b)), 1) => Some(b),
                            (SK::If(c, a, Some(_)), 2) => Some(vec![Stmt { id: st.id, k: SK::If(c, a, None) }]),
                            (SK::While(_, b), 0) | (SK::DoWhile(b, _), 0) | (SK::Block(b), 0) | (SK::GotoLoop(_, b, _), 0) | (SK::Labeled(_, b), 0) => Some(b),
                            (SK::For(i, _, _, b), 0) => {
                                let mut v: Vec<Stmt> = i.into_iter().map(|x| *x).collect();
                                v.extend(b);
                                Some(v)
                            }
                            (SK::Switch(_, c), 0) => c.into_iter().last().map(|c| c.1),
                            (SK::Switch(e, mut c), 1) if c.len() > 1 => {
                                c.remove(0);
                                Some(vec![Stmt { id: st.id, k: SK::Switch(e, c) }])
                            }
                            (SK::Switch(e, mut c), 2) if c.len() > 1 => {
                                c.pop();
                                Some(vec![Stmt { id: st.id, k: SK::Switch(e, c) }])
                            }
                            (SK::Print(p), 0) if p.len() > 1 => Some(vec![Stmt { id: st.id, k: SK::Print(p[..p.len() / 2].to_vec()) }]),
                            (SK::Print(p), 1) if p.len() > 1 => Some(vec![Stmt { id: st.id, k: SK::Print(p[p.len() / 2..].to_vec()) }]),
                            (SK::Print(p), 2) if p.len() > 1 => Some(vec![Stmt { id: st.id, k: SK::Print(p[1..].to_vec()) }]),
                            (SK::Decl(v, Init::E(_)), 0) => Some(vec![Stmt { id: st.id, k: SK::Decl(v, Init::None) }]),
                            _ => None,
                        };
                        if let Some(b) = body {
                            l.splice(at..at + 1, b);
                            changed = true;
                        }
                    });
                    if changed && self.try_(cur, c) {
                        progress = true;
                        break;
                    }
                }
                at += 1;
            }
            k += 1;
        }
        // functions, globals, headings
        let mut f = 0;
        while f + 1 < cur.funcs.len() {
            if !calls(cur, f) {
                let mut c = cur.clone();
                drop_func(&mut c, f);
                if self.try_(cur, c) {
                    progress = true;
                    continue;
                }
            }
            f += 1;
        }
        let mut g = 0;
        while g < cur.globals.len() {
            if !uses_global(cur, g) {
                let mut c = cur.clone();
                drop_global(&mut c, g);
                if self.try_(cur, c) {
                    progress = true;
                    continue;
                }
            }
            g += 1;
        }
        for which in 0..3 {
            let n = [cur.includes.len(), cur.macros.len(), cur.enums.len()][which];
            for k in (0..n).rev() {
                let mut c = cur.clone();
                match which {
                    0 => {
                        if c.includes[k].contains("stdio") {
                            continue;
                        }
                        c.includes.remove(k);
                    }
                    1 => {
                        c.macros.remove(k);
                    }
                    _ => {
                        c.enums.remove(k);
                    }
                }
                progress |= self.try_(cur, c);
            }
        }
        // expressions
        let count = |p: &mut Program| {
            let mut n = 0;
            for f in &mut p.funcs {
                each_expr(&mut f.body, &mut |_| n += 1);
            }
            n
        };
        let mut k = 0;
        while k < count(cur) {
            let mut alts: Vec<Expr> = vec![];
            // places stay places, and operands of unary operators do not become constants
            let (mut places, mut unary) = (std::collections::HashSet::new(), std::collections::HashSet::new());
            for f in &mut cur.funcs {
                all_stmts(&f.body, &mut |s| match &s.k {
                    SK::Assign(l, ..) | SK::IncDec(l, ..) => {
                        places.insert(l.id);
                    }
                    _ => {}
                });
                each_expr(&mut f.body, &mut |e| match &e.k {
                    EK::Assign(l, _) | EK::IncDec(l, ..) | EK::Addr(l) | EK::Index(l, _) | EK::Field(l, ..) | EK::Arrow(l, ..) | EK::Deref(l) => {
                        places.insert(l.id);
                    }
                    EK::Un(_, a) => {
                        unary.insert(a.id);
                    }
                    _ => {}
                });
            }
            let mut n = 0;
            for f in &mut cur.funcs {
                each_expr(&mut f.body, &mut |e| {
                    if n == k {
                        let id = e.id;
                        if places.contains(&id) {
                            n += 1;
                            return;
                        }
                        match &e.k {
                            EK::Bin(_, a, b) | EK::Cond(_, a, b) => {
                                for x in [a, b] {
                                    if x.ty == e.ty {
                                        alts.push((**x).clone())
                                    }
                                }
                            }
                            EK::Un(_, a) if a.ty == e.ty => alts.push((**a).clone()),
                            _ => {}
                        }
                        if e.ty.is_int() && !unary.contains(&id) && !matches!(e.k, EK::Int(..)) {
                            let c = Expr { id, ty: Ty::Int, k: EK::Int(1, 0) };
                            if e.ty == Ty::Int {
                                alts.push(c)
                            } else if !matches!(&e.k, EK::Cast(x) if matches!(x.k, EK::Int(..))) {
                                alts.push(Expr { id: id + 7_000_000, ty: e.ty.clone(), k: EK::Cast(Box::new(c)) })
                            }
                        }
                    }
                    n += 1;
                });
            }
            for a in alts {
                let mut c = cur.clone();
                let mut n = 0;
                let mut a = Some(a);
                for f in &mut c.funcs {
                    each_expr(&mut f.body, &mut |e| {
                        if n == k {
                            if let Some(a) = a.take() {
                                *e = a
                            }
                        }
                        n += 1;
                    });
                }
                if self.try_(cur, c) {
                    progress = true;
                    break;
                }
            }
            k += 1;
        }
        progress
    }
    pub fn run(&mut self, p: &Program) -> Program {
        let mut cur = p.clone();
        for _ in 0..6 {
            if !self.pass(&mut cur) || self.trials == 0 {
                break;
            }
        }
        cur
    }
}
