//! Inlines calls to functions of the crate that have no contract of their own,
//! so that a helper that was split off a function under contract is still
//! verified as part of it.
use crate::{load::*, overlay::Overlay};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::{visit::Visit, visit_mut::VisitMut, *};

pub struct Inliner<'a> {
    pub k: &'a Krate,
    pub ov: &'a Overlay,
    pub depth: usize,
    pub stack: Vec<String>,
    pub self_ty: Option<String>,
    pub fresh: usize,
    pub calls: Vec<String>,
    pub inlined: Vec<String>,
    pub err: Option<String>,
    /// Variables that hold references (parameters of the function at hand).
    pub refs: Vec<String>,
}

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        // a `?` or `return` in a closure leaves the closure, not the function
        let _ = c;
    }
}

pub fn has_return_block(b: &Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}
pub fn has_return_expr(b: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(b);
    h.0
}

/// `if c { ..; return e; } rest` becomes `if c { ..; e } else { rest }`.
/// `try_` is the good constructor of the return type, if it can be left by `?`.
pub fn eliminate_returns(b: &mut Block, try_: Option<&str>) {
    let mut i = 0;
    while i < b.stmts.len() {
        let is_last = i + 1 == b.stmts.len();
        if let (Some((pat, x)), Some(good), false) = (tried(&b.stmts[i]), try_, is_last) {
            let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
            eliminate_returns(&mut rest, try_);
            b.stmts.truncate(i);
            let e: Expr = match good {
                "Ok" => parse_quote!(match #x { Ok(#pat) => #rest, Err(e__) => Err(e__) }),
                _ => parse_quote!(match #x { Some(#pat) => #rest, None => None }),
            };
            b.stmts.push(Stmt::Expr(e, None));
            return;
        }
        match &mut b.stmts[i] {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.take();
                b.stmts.truncate(i);
                if let Some(e) = e {
                    b.stmts.push(Stmt::Expr(*e, None));
                }
                return;
            }
            Stmt::Expr(Expr::If(ifx), _) if ifx.else_branch.is_none() && !is_last && ends_in_return(&ifx.then_branch) => {
                let mut ifx2 = ifx.clone();
                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
                eliminate_returns(&mut rest, try_);
                eliminate_returns(&mut ifx2.then_branch, try_);
                ifx2.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                b.stmts.truncate(i);
                b.stmts.push(Stmt::Expr(Expr::If(ifx2), None));
                return;
            }
            Stmt::Expr(e, None) if is_last => elim_tail(e, try_),
            _ => {}
        }
        i += 1;
    }
}
fn elim_tail(e: &mut Expr, try_: Option<&str>) {
    match e {
        Expr::Return(r) => {
            if let Some(x) = r.expr.take() {
                *e = *x;
            } else {
                *e = parse_quote!(());
            }
        }
        Expr::Block(b) => eliminate_returns(&mut b.block, try_),
        Expr::If(i) => {
            eliminate_returns(&mut i.then_branch, try_);
            if let Some((_, x)) = &mut i.else_branch {
                elim_tail(x, try_);
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                elim_tail(&mut a.body, try_);
            }
        }
        _ => {}
    }
}
/// `let p = x?;` and `x?;`
fn tried(s: &Stmt) -> Option<(Pat, Expr)> {
    let (p, e) = match s {
        Stmt::Expr(Expr::Try(t), Some(_)) => (parse_quote!(_), &t.expr),
        Stmt::Local(l) => match l.init.as_ref().map(|i| (&*i.expr, &i.diverge)) {
            Some((Expr::Try(t), None)) => (
                match &l.pat {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                },
                &t.expr,
            ),
            _ => return None,
        },
        _ => return None,
    };
    match has_return_expr(e) {
        true => None,
        false => Some((p, (**e).clone())),
    }
}
fn ends_in_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        _ => false,
    }
}

struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("self__", i.span());
        }
    }
}
pub fn rename_self(b: &mut Block) {
    RenameSelf.visit_block_mut(b);
}

pub struct ReplaceSelfTy(pub Type);
impl VisitMut for ReplaceSelfTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.is_ident("Self") {
                *t = self.0.clone();
                if matches!(t, Type::Path(p) if p.path.is_ident(crate::load::PLAIN_GENERIC)) {
                    *t = parse_quote!(#t<_>);
                }
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments[0].ident == "Self" {
            if let Type::Path(tp) = &self.0 {
                let mut segs: Vec<PathSegment> = tp.path.segments.iter().cloned().collect();
                segs.extend(p.segments.iter().skip(1).cloned());
                p.segments = segs.into_iter().collect();
            }
        }
    }
}

/// Replaces calls of a closure parameter by the closure that was passed.
struct Beta {
    name: String,
    arg: Expr,
    uses: usize,
    bad: bool,
}
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.name) {
                    self.uses += 1;
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    match &self.arg {
                        Expr::Closure(cl) => {
                            let pats: Vec<Pat> = cl
                                .inputs
                                .iter()
                                .map(|p| match p {
                                    Pat::Type(t) => (*t.pat).clone(),
                                    p => p.clone(),
                                })
                                .collect();
                            let body = &cl.body;
                            if has_return_expr(body) {
                                self.bad = true;
                            }
                            let mut ex: Expr = parse_quote!({ #(let #pats = #args;)* #body });
                            visit_mut::visit_expr_mut(self, &mut ex);
                            *e = ex;
                        }
                        other => {
                            let f = other.clone();
                            *e = parse_quote!(#f(#(#args),*));
                        }
                    }
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.name) {
                if let Expr::Closure(_) = &self.arg {
                    // passed on to another function
                    *e = self.arg.clone();
                } else {
                    *e = self.arg.clone();
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// The parameters that are references.
pub fn ref_params(sig: &Signature) -> Vec<String> {
    let mut v = vec![];
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) => {
                if r.reference.is_some() {
                    v.push("self".to_string());
                    v.push("self__".to_string());
                }
            }
            FnArg::Typed(pt) => {
                if let (Pat::Ident(i), Type::Reference(_)) = (&*pt.pat, &*pt.ty) {
                    v.push(i.ident.to_string());
                }
            }
        }
    }
    v
}

impl<'a> Inliner<'a> {
    /// Resolves the call target to a function of the crate.
    fn resolve_path(&self, p: &Path) -> Option<String> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.len();
        let last = segs[n - 1].clone();
        if n == 1 {
            // free function
            return self.k.fns.contains_key(&last).then_some(last);
        }
        let mut ty = segs[n - 2].clone();
        if ty == "Self" {
            ty = self.self_ty.clone()?;
        }
        let key = format!("{ty}::{last}");
        if self.k.fns.contains_key(&key) {
            return Some(key);
        }
        if ty.chars().next().map_or(false, |c| c.is_lowercase()) && self.k.fns.contains_key(&last) {
            return Some(last);
        }
        None
    }

    fn resolve_method(&self, name: &str, recv: &Expr) -> Option<String> {
        let cands: Vec<&String> = self.k.by_name.get(name)?.iter().filter(|k| k.contains("::")).collect();
        if let (Expr::Path(p), Some(t)) = (recv, &self.self_ty) {
            if p.path.is_ident("self") || p.path.is_ident("self__") {
                let k = format!("{t}::{name}");
                if self.k.fns.contains_key(&k) {
                    return Some(k);
                }
            }
        }
        let under: Vec<&&String> = cands.iter().filter(|k| self.ov.fns.contains_key(k.as_str())).collect();
        if under.len() == 1 && cands.len() >= 1 {
            return Some((*under[0]).clone());
        }
        if cands.len() == 1 {
            return Some(cands[0].clone());
        }
        // two tries: take the instance
        let inst = format!("{}::{}", self.k.inst, name);
        cands.iter().find(|k| ***k == inst).map(|k| k.to_string())
    }

    fn is_std_method(name: &str) -> bool {
        matches!(name, "new" | "default" | "clone" | "from" | "into" | "as_ref" | "fmt" | "len" | "deref" | "deref_mut" | "next" | "eq" | "from_iter" | "insert" | "extend" | "get" | "is_empty" | "append" | "reset" | "reverse" | "min_bytes")
    }

    fn expand(&mut self, key: &str, args: Vec<Expr>, recv: Option<Expr>) -> Option<Expr> {
        if self.stack.iter().any(|s| s == key) || self.depth > 12 {
            self.err.get_or_insert(format!("{key} is recursive and has no contract"));
            return None;
        }
        let mut f = self.k.fns.get(key)?.clone();
        if let Some(t) = f.self_ty.clone() {
            ReplaceSelfTy(t).visit_signature_mut(&mut f.sig);
        }
        crate::mono::Elide.visit_signature_mut(&mut f.sig);
        crate::mono::Elide.visit_block_mut(&mut f.block);
        let mut block = f.block.clone();
        if has_return_block(&block) {
            let out = f.sig.output.to_token_stream().to_string();
            let good = if out.contains("Result") { Some("Ok") } else if out.starts_with("-> Option") { Some("Some") } else { None };
            eliminate_returns(&mut block, good);
        }
        if has_return_block(&block) {
            self.err.get_or_insert(format!("{key} has no contract and returns early"));
            return None;
        }
        if let Some(t) = &f.self_ty {
            ReplaceSelfTy(t.clone()).visit_block_mut(&mut block);
        }
        let mut pre = vec![];
        let mut binds = vec![];
        let mut it = args.into_iter();
        for inp in &f.sig.inputs {
            let n = self.fresh;
            self.fresh += 1;
            let tmp = format_ident!("a__{}", n);
            match inp {
                FnArg::Receiver(r) => {
                    rename_self(&mut block);
                    let recv = match &recv {
                        Some(r) => r.clone(),
                        None => it.next()?,
                    };
                    let is_self = match &recv {
                        Expr::Path(p) => self.refs.iter().any(|r| p.path.is_ident(r)),
                        _ => false,
                    };
                    let e: Expr = if r.reference.is_some() && r.mutability.is_some() {
                        if is_self { parse_quote!(&mut *#recv) } else { parse_quote!(&mut #recv) }
                    } else if r.reference.is_some() {
                        if is_self { parse_quote!(&*#recv) } else { parse_quote!(&#recv) }
                    } else {
                        recv
                    };
                    pre.push(quote!(let #tmp = #e;));
                    binds.push(quote!(let self__ = #tmp;));
                }
                FnArg::Typed(pt) => {
                    let a = it.next()?;
                    let is_fn_param = match &*pt.ty {
                        Type::Path(tp) => f.sig.generics.type_params().any(|g| tp.path.is_ident(&g.ident)),
                        Type::ImplTrait(t) => t.to_token_stream().to_string().contains("Fn"),
                        _ => false,
                    };
                    if is_fn_param {
                        if let Pat::Ident(pi) = &*pt.pat {
                            let mut b = Beta { name: pi.ident.to_string(), arg: a, uses: 0, bad: false };
                            b.visit_block_mut(&mut block);
                            if b.bad {
                                self.err.get_or_insert(format!("closure passed to {key} returns early"));
                                return None;
                            }
                            continue;
                        }
                    }
                    let pat = &pt.pat;
                    let ty = &pt.ty;
                    // a reference that is passed on is borrowed from
                    pre.push(match (&a, &**ty) {
                        (Expr::Path(_), Type::Reference(r)) if r.mutability.is_some() => quote!(let #tmp = &mut *#a;),
                        (Expr::Path(_), Type::Reference(_)) => quote!(let #tmp = &*#a;),
                        _ => quote!(let #tmp = #a;),
                    });
                    binds.push(quote!(let #pat: #ty = #tmp;));
                }
            }
        }
        self.inlined.push(key.to_string());
        self.stack.push(key.to_string());
        self.depth += 1;
        let saved_refs = std::mem::replace(&mut self.refs, ref_params(&f.sig));
        let saved = self.self_ty.clone();
        if let Some(Type::Path(t)) = &f.self_ty {
            self.self_ty = Some(t.path.segments.last().unwrap().ident.to_string());
        }
        self.visit_block_mut(&mut block);
        self.self_ty = saved;
        self.refs = saved_refs;
        self.depth -= 1;
        self.stack.pop();
        let stmts = &block.stmts;
        let ret: Expr = match &f.sig.output {
            ReturnType::Type(_, t) => parse_quote!({ #(#pre)* #(#binds)* let r__: #t = { #(#stmts)* }; r__ }),
            ReturnType::Default => parse_quote!({ #(#pre)* #(#binds)* #(#stmts)* }),
        };
        Some(ret)
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => {
                // `<T as Trait>::f(..)` of a formatting trait
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if let [.., tr, f] = &segs[..] {
                        if f == "fmt" && matches!(tr.as_str(), "Display" | "LowerHex" | "UpperHex") {
                            if let Some(t) = &self.self_ty {
                                let key = format!("{tr}for{t}");
                                if self.ov.fns.contains_key(&key) {
                                    let id = format_ident!("{}", key);
                                    *c.func = parse_quote!(#id);
                                    self.calls.push(key);
                                }
                            }
                        }
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    if let Some(key) = self.resolve_path(&p.path) {
                        if self.ov.fns.contains_key(&key) {
                            self.calls.push(key);
                        } else {
                            let has_closure_args = true;
                            let _ = has_closure_args;
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            for a in &mut args {
                                self.visit_expr_mut(a);
                            }
                            if let Some(ne) = self.expand(&key, args, None) {
                                *e = ne;
                            }
                            return;
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(key) = self.resolve_method(&name, &m.receiver) {
                    if self.ov.fns.contains_key(&key) {
                        self.calls.push(key);
                    } else {
                        let recv_self = match &*m.receiver {
                            Expr::Path(p) => p.path.is_ident("self") || p.path.is_ident("self__"),
                            _ => false,
                        };
                        if !Self::is_std_method(&name) || recv_self {
                            let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                            for a in &mut args {
                                self.visit_expr_mut(a);
                            }
                            let mut recv = (*m.receiver).clone();
                            self.visit_expr_mut(&mut recv);
                            if let Some(ne) = self.expand(&key, args, Some(recv)) {
                                *e = ne;
                            }
                            return;
                        }
                    }
                }
            }
            // a function passed by name
            Expr::Path(p) => {
                if let Some(key) = self.resolve_path(&p.path) {
                    if p.path.segments.len() == 1 && self.ov.fns.contains_key(&key) && self.k.fns[&key].self_ty.is_none() {
                        self.calls.push(key);
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub type _Unused = BTreeMap<String, String>;
