//! Rewrites Rust that the verifier's front end does not take into Rust that it
//! takes.  Every rule keeps the meaning; README.md lists them.
use crate::inline::has_return_expr;
use quote::{format_ident, quote, ToTokens};
use syn::{
    parse::Parser,
    punctuated::Punctuated,
    visit_mut::{self, VisitMut},
    *,
};

type Exprs = Punctuated<Expr, Token![,]>;

struct Macros;

pub fn expand_macros(b: &mut Block) {
    Macros.visit_block_mut(b);
}

fn macro_args(m: &Macro) -> Vec<Expr> {
    Exprs::parse_terminated.parse2(m.tokens.clone()).map(|p| p.into_iter().collect()).unwrap_or_default()
}

fn is_log(n: &str) -> bool {
    matches!(n, "trace" | "debug" | "info" | "warn" | "error" | "println" | "eprintln" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne")
}

/// The text of `format!`, put together piece by piece; `at` is the position of the literal.
fn format_text(m: &Macro, at: usize, nl: bool) -> Option<Expr> {
    let a = macro_args(m);
    let mut l = match a.get(at) {
        Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) => l.value(),
        None if nl => String::new(),
        _ => return None,
    };
    if nl {
        l.push('\n');
    }
    let mut args = a.iter().skip(at + 1);
    let mut parts: Vec<Expr> = vec![];
    let mut lit = String::new();
    let mut it = l.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' | '}' if it.peek() == Some(&c) => {
                it.next();
                lit.push(c);
            }
            '{' => {
                let mut spec = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => spec.push(c),
                    }
                }
                let (name, how) = spec.split_once(':').unwrap_or((&spec, ""));
                let how = match how {
                    "" => "vdisplay",
                    "x" => "vlower_hex",
                    "X" => "vupper_hex",
                    _ => return None,
                };
                let how = format_ident!("{}", how);
                let x: Expr = if name.is_empty() { args.next()?.clone() } else { parse_str(name).ok()? };
                if !lit.is_empty() {
                    parts.push(parse_quote!(t__.vpush_lit(#lit)));
                    lit.clear();
                }
                parts.push(parse_quote!(t__.#how(&(#x))));
            }
            '}' => return None,
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        parts.push(parse_quote!(t__.vpush_lit(#lit)));
    }
    if args.next().is_some() {
        return None;
    }
    Some(parse_quote!({ let mut t__ = vtext(); #(#parts;)* t__ }))
}

fn expand_macro(m: &Macro) -> Option<Expr> {
    let name = m.path.segments.last().unwrap().ident.to_string();
    Some(match name.as_str() {
        "panic" | "unreachable" | "todo" | "unimplemented" => parse_quote!(vpanic()),
        "assert" => {
            let a = macro_args(m);
            let c = a.first()?;
            parse_quote!(if !(#c) { vpanic(); })
        }
        "assert_eq" => {
            let a = macro_args(m);
            let (x, y) = (a.first()?, a.get(1)?);
            parse_quote!(if !(#x == #y) { vpanic(); })
        }
        "assert_ne" => {
            let a = macro_args(m);
            let (x, y) = (a.first()?, a.get(1)?);
            parse_quote!(if #x == #y { vpanic(); })
        }
        "matches" => {
            let f = |input: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                let e: Expr = input.parse()?;
                input.parse::<Token![,]>()?;
                let p = Pat::parse_multi_with_leading_vert(input)?;
                let g = if input.peek(Token![if]) {
                    input.parse::<Token![if]>()?;
                    Some(input.parse()?)
                } else {
                    None
                };
                let _ = input.parse::<Option<Token![,]>>()?;
                Ok((e, p, g))
            };
            let (e, p, g) = f.parse2(m.tokens.clone()).ok()?;
            match g {
                None => parse_quote!(match #e { #p => true, _ => false }),
                Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
            }
        }
        "vec" => {
            let f = |input: parse::ParseStream| -> Result<(Expr, Expr)> {
                let e: Expr = input.parse()?;
                input.parse::<Token![;]>()?;
                let n: Expr = input.parse()?;
                Ok((e, n))
            };
            if let Ok((e, n)) = f.parse2(m.tokens.clone()) {
                parse_quote!(vvec_repeat(#e, #n))
            } else {
                let a = macro_args(m);
                if a.is_empty() {
                    parse_quote!(Vec::new())
                } else {
                    parse_quote!({ let mut v__ = Vec::new(); #(v__.push(#a);)* v__ })
                }
            }
        }
        "format" => {
            let t = format_text(m, 0, false).unwrap_or_else(|| parse_quote!(vstring()));
            parse_quote!(vformat__(#t))
        }
        n @ ("write" | "writeln") => {
            let f = macro_args(m).first()?.clone();
            let t = format_text(m, 1, n == "writeln")?;
            parse_quote!(#f.vwrite(#t))
        }
        n if is_log(n) => parse_quote!(()),
        _ => return None,
    })
}

impl VisitMut for Macros {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !is_log(&m.mac.path.segments.last().unwrap().ident.to_string()),
            Stmt::Item(_) => true,
            _ => true,
        });
        for s in &mut b.stmts {
            if let Stmt::Macro(m) = s {
                if let Some(e) = expand_macro(&m.mac) {
                    let semi = m.semi_token;
                    *s = Stmt::Expr(e, semi);
                }
            }
            if let Stmt::Local(l) = s {
                l.attrs.clear();
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(ne) = expand_macro(&m.mac) {
                *e = ne;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct Desugar {
    pub fresh: usize,
    pub err: Option<String>,
    /// parameters of type `&mut T`
    pub mut_params: Vec<String>,
    /// parameters that are an owned collection
    pub vec_params: Vec<String>,
    pub rules: Vec<String>,
    pub opts: Vec<String>,
}

enum Ad {
    Enumerate,
    Filter(ExprClosure),
    Map(ExprClosure),
    Take(Expr),
    Skip(Expr),
    Copied,
}

enum Src {
    Range(Expr, Expr),
    Ref(Expr),
    Own(Expr),
    /// `iter_mut` of a place
    RefMut(Expr),
    /// an iterator of the crate, asked for items until it has none
    Drain(Expr),
}

struct Chain {
    src: Src,
    ads: Vec<Ad>,
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

fn closure_pat(c: &ExprClosure) -> Option<Pat> {
    if c.inputs.len() != 1 {
        return None;
    }
    Some(match &c.inputs[0] {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    })
}

fn closure_arg(m: &ExprMethodCall, i: usize) -> Option<ExprClosure> {
    match m.args.get(i)? {
        Expr::Closure(c) => Some(c.clone()),
        _ => None,
    }
}

impl Desugar {
    fn rule(&mut self, r: &str) {
        if !self.rules.iter().any(|x| x == r) {
            self.rules.push(r.into());
        }
    }
    fn fail(&mut self, s: String) {
        self.err.get_or_insert(s);
    }

    fn chain(&self, e: &Expr, for_loop: bool) -> Option<Chain> {
        let e = strip_paren(e);
        match e {
            Expr::Range(r) => {
                let a = (**r.start.as_ref()?).clone();
                let b = (**r.end.as_ref()?).clone();
                let b: Expr = match r.limits {
                    RangeLimits::HalfOpen(_) => b,
                    RangeLimits::Closed(_) => parse_quote!((#b + 1)),
                };
                Some(Chain { src: Src::Range(a, b), ads: vec![] })
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter_mut" => Some(Chain { src: Src::RefMut((*m.receiver).clone()), ads: vec![] }),
                    "iter" => Some(Chain { src: Src::Ref((*m.receiver).clone()), ads: vec![] }),
                    "chars" | "bytes" if m.args.is_empty() => {
                        let (r, f) = (&m.receiver, format_ident!("v{}", n));
                        Some(Chain { src: Src::Own(parse_quote!(#r.#f())), ads: vec![] })
                    }
                    "into_iter" => match strip_paren(&m.receiver) {
                        Expr::Path(p) if self.vec_params.iter().any(|v| p.path.is_ident(v)) => Some(Chain { src: Src::Own((*m.receiver).clone()), ads: vec![] }),
                        r => {
                            if let Some(c) = self.chain(r, false) {
                                return Some(c);
                            }
                            Some(Chain { src: Src::Own((*m.receiver).clone()), ads: vec![] })
                        }
                    },
                    "enumerate" | "filter" | "map" | "take" | "skip" | "cloned" | "copied" | "by_ref" => {
                        let mut c = self.chain(&m.receiver, false)?;
                        c.ads.push(match n.as_str() {
                            "enumerate" => Ad::Enumerate,
                            "filter" => Ad::Filter(closure_arg(m, 0)?),
                            "map" => Ad::Map(closure_arg(m, 0)?),
                            "take" => Ad::Take(m.args[0].clone()),
                            "skip" => Ad::Skip(m.args[0].clone()),
                            _ => Ad::Copied,
                        });
                        Some(c)
                    }
                    _ if !for_loop && self.opts.iter().any(|o| o == "drain") => Some(Chain { src: Src::Drain(e.clone()), ads: vec![] }),
                    _ => None,
                }
            }
            Expr::Path(p) => {
                if self.vec_params.iter().any(|v| p.path.is_ident(v)) {
                    return Some(Chain { src: Src::Own(e.clone()), ads: vec![] });
                }
                if for_loop {
                    return Some(Chain { src: Src::Ref(e.clone()), ads: vec![] });
                }
                None
            }
            Expr::Reference(r) if for_loop && r.mutability.is_some() => Some(Chain { src: Src::RefMut((*r.expr).clone()), ads: vec![] }),
            Expr::Reference(r) if for_loop => Some(Chain { src: Src::Ref((*r.expr).clone()), ads: vec![] }),
            Expr::Field(_) if for_loop => Some(Chain { src: Src::Ref(e.clone()), ads: vec![] }),
            _ => None,
        }
    }

    /// Builds the loop.  `body` gets the name of the variable holding the item.
    fn build(&mut self, c: Chain, init: proc_macro2::TokenStream, guard: proc_macro2::TokenStream, body: &dyn Fn(&Expr, bool) -> proc_macro2::TokenStream, fin: proc_macro2::TokenStream) -> Option<Expr> {
        self.rule("iterator chains and for loops become while loops over an index");
        // loops get the names i__0, n__0, s__0 of their position in the function
        let k = self.fresh;
        self.fresh += 1;
        let i = format_ident!("i__{}", k);
        let n = format_ident!("n__{}", k);
        let s = format_ident!("s__{}", k);
        let x = format_ident!("x__{}", k);
        let j = format_ident!("j__{}", k);
        let mut start: Expr = parse_quote!(0usize);
        let mut cond_extra = quote!();
        let mut skip = quote!();
        let mut first = true;
        let (pre, len_cond, item): (_, proc_macro2::TokenStream, proc_macro2::TokenStream) = match &c.src {
            Src::Range(a, b) => {
                start = a.clone();
                (quote!(let #n = #b;), quote!(#i < #n), quote!(#i))
            }
            Src::Ref(e) => (quote!(let #s = #e.vslice();), quote!(#i < #s.len()), quote!(&#s[#i])),
            Src::Own(e) => (quote!(let #s = #e;), quote!(#i < #s.len()), quote!(vmove(&#s, #i))),
            Src::RefMut(e) => (quote!(), quote!(#i < #e.len()), quote!(&mut #e[#i])),
            Src::Drain(e) => (quote!(let mut #s = #e;), quote!(true), quote!(match #s.next() { Some(x) => x, None => break })),
        };
        // innermost first
        let mut wraps: Vec<proc_macro2::TokenStream> = vec![];
        let mut cur: Expr = parse_quote!(#x);
        let mut is_enum = false;
        let mut nfilters = 0;
        for (ai, ad) in c.ads.iter().enumerate() {
            match ad {
                Ad::Skip(e) if ai == 0 && matches!(c.src, Src::Ref(_) | Src::Own(_)) => {
                    let st = format_ident!("st__{}", k);
                    skip = quote!(let #st: usize = #e;);
                    start = parse_quote!(#st);
                }
                Ad::Take(e) if nfilters == 0 => {
                    let st = &start;
                    cond_extra = quote!(#cond_extra && #i - (#st) < (#e));
                }
                Ad::Enumerate if c.ads[..ai].iter().all(|a| matches!(a, Ad::Take(_))) => {
                    cur = parse_quote!((#j, #x));
                    is_enum = true;
                }
                Ad::Copied => {
                    let y = format_ident!("y__{}_{}", k, ai);
                    wraps.push(quote!(let #y = #cur.vclone();));
                    cur = parse_quote!(#y);
                }
                Ad::Filter(cl) => {
                    nfilters += 1;
                    let p = closure_pat(cl)?;
                    let b = &cl.body;
                    if has_return_expr(b) {
                        return None;
                    }
                    let bind = bind_ref(&p, &cur, is_enum)?;
                    wraps.push(quote!(#bind if #b));
                }
                Ad::Map(cl) => {
                    let p = closure_pat(cl)?;
                    let b = &cl.body;
                    if has_return_expr(b) {
                        return None;
                    }
                    let y = format_ident!("y__{}_{}", k, ai);
                    wraps.push(quote!(let #y = { let #p = #cur; #b };));
                    cur = parse_quote!(#y);
                    is_enum = false;
                }
                _ => return None,
            }
            first = false;
        }
        let _ = first;
        let mut inner = body(&cur, is_enum);
        for w in wraps.iter().rev() {
            let s = w.to_string();
            // a filter wraps, a map precedes
            if s.trim_end().ends_with(';') {
                inner = quote!(#w #inner);
            } else {
                inner = quote!(#w { #inner });
            }
        }
        if matches!(c.src, Src::Drain(_)) {
            return parse2(quote!({
                #init
                #pre
                while true #cond_extra #guard {
                    let #x = #item;
                    #inner
                }
                #fin
            }))
            .ok();
        }
        let t = quote!({
            #init
            #pre
            #skip
            let mut #i = #start;
            while #len_cond #cond_extra #guard {
                let #x = #item;
                let #j = #i;
                #i = #i + 1;
                #inner
            }
            #fin
        });
        parse2(t).ok()
    }

    fn iter_terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if !matches!(n.as_str(), "count" | "all" | "any" | "find" | "position" | "collect") {
            return None;
        }
        let c = self.chain(&m.receiver, false)?;
        let acc = format_ident!("acc__{}", self.fresh);
        match n.as_str() {
            "count" => self.build(c, quote!(let mut #acc: usize = 0;), quote!(), &|_, _| quote!(#acc = #acc + 1;), quote!(#acc)),
            "all" | "any" => {
                let cl = closure_arg(m, 0)?;
                let p = closure_pat(&cl)?;
                let b = (*cl.body).clone();
                if has_return_expr(&b) {
                    return None;
                }
                if n == "all" {
                    self.build(c, quote!(let mut #acc = true;), quote!(&& #acc), &|cur, _| quote!(let #p = #cur; if !(#b) { #acc = false; }), quote!(#acc))
                } else {
                    self.build(c, quote!(let mut #acc = false;), quote!(&& !#acc), &|cur, _| quote!(let #p = #cur; if #b { #acc = true; }), quote!(#acc))
                }
            }
            "find" => {
                let cl = closure_arg(m, 0)?;
                let p = closure_pat(&cl)?;
                let b = (*cl.body).clone();
                if has_return_expr(&b) {
                    return None;
                }
                self.build(
                    c,
                    quote!(let mut #acc = None;),
                    quote!(&& #acc.is_none()),
                    &|cur, en| {
                        let bind = bind_ref(&p, cur, en).unwrap_or_default();
                        quote!(#bind if #b { #acc = Some(#cur); })
                    },
                    quote!(#acc),
                )
            }
            "position" => {
                let cl = closure_arg(m, 0)?;
                let p = closure_pat(&cl)?;
                let b = (*cl.body).clone();
                if has_return_expr(&b) {
                    return None;
                }
                let j = format_ident!("j__{}", self.fresh);
                self.build(c, quote!(let mut #acc: Option<usize> = None;), quote!(&& #acc.is_none()), &|cur, _| quote!(let #p = #cur; if #b { #acc = Some(#j); }), quote!(#acc))
            }
            "collect" => {
                // `map(|x| { ..?; Ok(e) }).collect::<Result<..>>()` at the end of a function
                let mut c = c;
                let Some(Ad::Map(cl)) = c.ads.pop() else { return None };
                let p = closure_pat(&cl)?;
                let Expr::Block(b) = &*cl.body else { return None };
                let mut stmts = b.block.stmts.clone();
                let Some(Stmt::Expr(Expr::Call(ok), None)) = stmts.pop() else { return None };
                if ok.func.to_token_stream().to_string() != "Ok" {
                    return None;
                }
                let v = ok.args[0].clone();
                self.build(c, quote!(let mut #acc = Vec::new();), quote!(), &|cur, _| quote!(let #p = #cur; #(#stmts)* #acc.push(#v);), quote!(Ok(#acc)))
            }
            _ => None,
        }
    }
}

/// Closures of `filter` and `find` get a reference to the item.
fn bind_ref(p: &Pat, cur: &Expr, is_enum: bool) -> Option<proc_macro2::TokenStream> {
    match (p, cur, is_enum) {
        (Pat::Tuple(t), Expr::Tuple(c), true) if t.elems.len() == 2 => {
            let (a, b) = (&t.elems[0], &t.elems[1]);
            let (x, y) = (&c.elems[0], &c.elems[1]);
            Some(quote!(let #a = &#x; let #b = #y;))
        }
        (Pat::Reference(r), _, _) => {
            let p = &r.pat;
            Some(quote!(let #p = #cur;))
        }
        (Pat::Ident(_), _, _) => Some(quote!(let #p = #cur;)),
        _ => None,
    }
}

fn sub_slice(e: &Expr) -> Option<Expr> {
    let (ix, is_mut) = match e {
        Expr::Reference(r) => match strip_paren(&r.expr) {
            Expr::Index(i) => (i, r.mutability.is_some()),
            _ => return None,
        },
        Expr::Index(i) => (i, false),
        _ => return None,
    };
    let Expr::Range(r) = strip_paren(&ix.index) else { return None };
    let x = &ix.expr;
    let a: Expr = r.start.as_ref().map_or(parse_quote!(0usize), |s| (**s).clone());
    let b: Expr = match (&r.end, r.limits) {
        (Some(b), RangeLimits::HalfOpen(_)) => (**b).clone(),
        (Some(b), RangeLimits::Closed(_)) => parse_quote!((#b + 1)),
        (None, _) => parse_quote!(#x.len()),
    };
    Some(if is_mut { parse_quote!(#x.vsub_mut(#a, #b)) } else { parse_quote!(#x.vsub(#a, #b)) })
}

/// The comparison of two tuples of plain operands, part by part.
fn tuple_eq(l: &Expr, r: &Expr) -> Option<Expr> {
    fn plain(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Field(f) => plain(&f.base),
            Expr::Reference(r) => plain(&r.expr),
            Expr::Unary(u) => plain(&u.expr),
            Expr::Paren(p) => plain(&p.expr),
            _ => false,
        }
    }
    match (strip_paren(l), strip_paren(r)) {
        (Expr::Tuple(x), Expr::Tuple(y)) if x.elems.len() == y.elems.len() && !x.elems.is_empty() && x.elems.iter().chain(y.elems.iter()).all(plain) => {
            let ps = x.elems.iter().zip(y.elems.iter()).map(|(a, b)| quote!(#a == #b));
            Some(parse_quote!(#(#ps)&&*))
        }
        _ => None,
    }
}

fn is_none_path(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident("None"))
}

impl VisitMut for Desugar {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let is_iter = match &l.init {
            Some(i) => match &*i.expr {
                Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "chars" | "enumerate" | "filter" | "map" | "take" | "skip" | "cloned" | "copied") && self.chain(&i.expr, false).is_some(),
                _ => false,
            },
            None => false,
        };
        if is_iter {
            if let Pat::Ident(p) = &l.pat {
                self.vec_params.push(p.ident.to_string());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // iterators, outermost first
        if let Expr::MethodCall(m) = e {
            let m = m.clone();
            if let Some(ne) = self.iter_terminal(&m) {
                *e = ne;
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if matches!(m.method.to_string().as_str(), "enumerate" | "filter" | "map" | "take" | "skip" | "cloned" | "copied") {
                let m = e.clone();
                if let Some(c) = self.chain(&m, false) {
                    self.rule("an iterator that is passed on becomes the vector of its items");
                    let acc = format_ident!("acc__{}", self.fresh);
                    if let Some(ne) = self.build(c, quote!(let mut #acc = Vec::new();), quote!(), &|cur, _| quote!(#acc.push(#cur);), quote!(#acc)) {
                        *e = ne;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Some(c) = self.chain(&m.receiver.clone(), false) {
                    let f = m.args[0].clone();
                    let r = match &f {
                        Expr::Closure(cl) => match closure_pat(cl) {
                            Some(p) if !has_return_expr(&cl.body) => {
                                let b = cl.body.clone();
                                self.build(c, quote!(), quote!(), &|cur, _| quote!(let #p = #cur; #b;), quote!())
                            }
                            _ => None,
                        },
                        Expr::Path(_) => self.build(c, quote!(), quote!(), &|cur, _| quote!(#f(#cur);), quote!()),
                        _ => None,
                    };
                    if let Some(ne) = r {
                        *e = ne;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            for a in c.args.iter_mut() {
                if let Expr::MethodCall(m) = a {
                    if m.method == "into_iter" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_)) {
                        let r = (*m.receiver).clone();
                        *a = r;
                        self.rule("an iterator that is passed on becomes the vector of its items");
                    }
                }
            }
        }
        // a part of a slice
        if let Some(ne) = sub_slice(e) {
            self.rule("x[a..b] becomes a call of a shim with the same meaning");
            *e = ne;
        }
        if let Expr::Assign(a) = e {
            if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*a.left {
                if let Expr::MethodCall(w) = strip_paren(expr) {
                    if w.method == "write" && w.args.is_empty() {
                        let (x, v) = (&w.receiver, &a.right);
                        self.rule("*x.write() = v becomes x.vwrite(v)");
                        *e = parse_quote!(#x.vwrite(#v));
                    }
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            let f = f.clone();
            match self.chain(&f.expr, true) {
                Some(c) => {
                    let pat = (*f.pat).clone();
                    let stmts = f.body.stmts.clone();
                    let r = self.build(c, quote!(), quote!(), &|cur, _| quote!(let #pat = #cur; #(#stmts)*), quote!());
                    match r {
                        Some(ne) => {
                            *e = ne;
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                        None => self.fail(format!("unsupported loop: for {}", f.pat.to_token_stream())),
                    }
                }
                None => self.fail(format!("unsupported iterator: {}", f.expr.to_token_stream())),
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let ne: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let recv = &m.receiver;
                let name = m.method.to_string();
                match name.as_str() {
                    "into" => {
                        m.method = format_ident!("vinto");
                        None
                    }
                    "chars" | "bytes" | "strip_prefix" | "push_str" => {
                        m.method = format_ident!("v{}", name);
                        None
                    }
                    "extend" | "push" | "len" if self.opts.iter().any(|o| o == "text") && !m.receiver.to_token_stream().to_string().contains("__") => {
                        m.method = format_ident!("v{}", name);
                        None
                    }
                    "as_ref" if m.args.is_empty() => {
                        m.method = format_ident!("v_as_ref");
                        None
                    }
                    "clone" if m.args.is_empty() => {
                        m.method = format_ident!("vclone");
                        None
                    }
                    "expect" | "unwrap" => {
                        m.method = format_ident!("vexpect");
                        m.args.clear();
                        None
                    }
                    "min" if m.args.len() == 1 => {
                        m.method = format_ident!("vmin");
                        None
                    }
                    "max" if m.args.len() == 1 => {
                        m.method = format_ident!("vmax");
                        None
                    }
                    "to_vec" | "to_owned" => {
                        m.method = format_ident!("vto_vec");
                        None
                    }
                    "leading_zeros" if m.args.is_empty() => {
                        m.method = format_ident!("vleading_zeros");
                        None
                    }
                    "to_be_bytes" | "to_le_bytes" | "to_ne_bytes" if m.args.is_empty() => {
                        m.method = format_ident!("v{}", name);
                        None
                    }
                    "saturating_sub" => {
                        m.method = format_ident!("vsaturating_sub");
                        None
                    }
                    "then" => closure_arg(m, 0).and_then(|c| {
                        let b = &c.body;
                        (!has_return_expr(b)).then(|| parse_quote!(if #recv { Some(#b) } else { None }))
                    }),
                    "then_some" => {
                        let x = &m.args[0];
                        Some(parse_quote!(if #recv { Some(#x) } else { None }))
                    }
                    "map" => closure_arg(m, 0).and_then(|c| {
                        let p = closure_pat(&c)?;
                        let b = &c.body;
                        (!has_return_expr(b)).then(|| parse_quote!(match #recv { Some(#p) => Some(#b), None => None }))
                    }),
                    "and_then" => closure_arg(m, 0).and_then(|c| {
                        let p = closure_pat(&c)?;
                        let b = &c.body;
                        (!has_return_expr(b)).then(|| parse_quote!(match #recv { Some(#p) => #b, None => None }))
                    }),
                    "map_or" => closure_arg(m, 1).and_then(|c| {
                        let p = closure_pat(&c)?;
                        let b = &c.body;
                        let d = &m.args[0];
                        (!has_return_expr(b)).then(|| parse_quote!(match #recv { Some(#p) => #b, None => #d }))
                    }),
                    "is_some_and" => closure_arg(m, 0).and_then(|c| {
                        let p = closure_pat(&c)?;
                        let b = &c.body;
                        (!has_return_expr(b)).then(|| parse_quote!(match #recv { Some(#p) => #b, None => false }))
                    }),
                    "unwrap_or" => {
                        let d = &m.args[0];
                        Some(parse_quote!(match #recv { Some(x__) => x__, None => #d }))
                    }
                    "or" => {
                        let d = &m.args[0];
                        Some(parse_quote!(match #recv { Some(x__) => Some(x__), None => #d }))
                    }
                    "flatten" => Some(parse_quote!(match #recv { Some(x__) => x__, None => None })),
                    "cloned" => Some(parse_quote!(match #recv { Some(x__) => Some(x__.vclone()), None => None })),
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let mut r = None;
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() == 1 && segs[0] == "vformat__" {
                        r = Some(if self.opts.iter().any(|o| o == "text") { c.args[0].clone() } else { parse_quote!(vstring()) });
                    } else if segs.len() == 2 && segs[0] == "U512" && segs[1] == "from_str" {
                        let a = &c.args[0];
                        r = Some(parse_quote!(u512_from_str(#a)));
                    } else if segs.len() == 2 && segs[1] == "from" && c.args.len() == 1 {
                        let t = &p.path.segments[0];
                        let a = &c.args[0];
                        r = Some(parse_quote!(VInto::<#t>::vinto(#a)));
                    } else if segs.len() == 2 && segs[0] == "usize" && segs[1] == "one" {
                        r = Some(parse_quote!(1usize));
                    } else if segs.len() == 2 && segs[0] == "usize" && segs[1] == "zero" {
                        r = Some(parse_quote!(0usize));
                    } else if segs.last().map_or(false, |s| s == "size_of") && c.args.is_empty() {
                        if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                            let t = &a.args;
                            r = Some(parse_quote!(<#t as VSize>::vsize()));
                        }
                    } else if segs.len() == 2 && segs[0] == "Arc" && segs[1] == "default" {
                        r = Some(parse_quote!(varc_default()));
                    }
                }
                r
            }
            Expr::Try(t) if self.opts.iter().any(|o| o == "text" || o == "show") => {
                let x = &t.expr;
                self.rules.push("e? with a conversion of the error becomes a match".into());
                Some(parse_quote!(match #x { Ok(x__) => x__, Err(e__) => return Err(VInto::vinto(e__)) }))
            }
            Expr::Cast(c) if c.ty.to_token_stream().to_string() == "F32" => {
                let x = &c.expr;
                Some(parse_quote!((#x).vf32()))
            }
            Expr::Repeat(r) => {
                let (x, n) = (&r.expr, &r.len);
                Some(parse_quote!(vvec_repeat(#x, #n)))
            }
            Expr::Binary(b) => {
                use BinOp::*;
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    AddAssign(_) => Some(parse_quote!(#l = #l + (#r))),
                    SubAssign(_) => Some(parse_quote!(#l = #l - (#r))),
                    MulAssign(_) => Some(parse_quote!(#l = #l * (#r))),
                    BitAndAssign(_) => Some(parse_quote!(#l = #l & (#r))),
                    BitOrAssign(_) => Some(parse_quote!(#l = #l | (#r))),
                    BitXorAssign(_) => Some(parse_quote!(#l = #l ^ (#r))),
                    ShlAssign(_) => Some(parse_quote!(#l = #l << (#r))),
                    ShrAssign(_) => Some(parse_quote!(#l = #l >> (#r))),
                    Eq(_) | Ne(_) if tuple_eq(l, r).is_some() => {
                        self.rules.push("(a, b) == (c, d) becomes a == c && b == d".into());
                        let t = tuple_eq(l, r).unwrap();
                        if matches!(b.op, Eq(_)) { Some(parse_quote!((#t))) } else { Some(parse_quote!(!(#t))) }
                    }
                    Eq(_) if self.opts.iter().any(|o| o == "veq") => {
                        self.rules.push("a == b on types with an equality of their own becomes a.veq(&b)".into());
                        Some(parse_quote!(#l.veq(&#r)))
                    }
                    Ne(_) if self.opts.iter().any(|o| o == "veq") => Some(parse_quote!(!#l.veq(&#r))),
                    Eq(_) | Ne(_) => {
                        let is_mut = |e: &Expr| matches!(e, Expr::Path(p) if self.mut_params.iter().any(|x| p.path.is_ident(x)));
                        if is_mut(l) || is_mut(r) {
                            let op = b.op;
                            Some(parse_quote!(*#l #op *#r))
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(ne) = ne {
            *e = ne;
        }
        let _ = is_none_path;
    }
}

/// Puts a marker at the start of every loop body.
pub struct MarkLoops(pub usize);
impl VisitMut for MarkLoops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let m = format_ident!("LOOPMARK__{}", self.0);
                self.0 += 1;
                w.body.stmts.insert(0, parse_quote!(#m!();));
            }
            Expr::Loop(w) => {
                let m = format_ident!("LOOPMARK__{}", self.0);
                self.0 += 1;
                w.body.stmts.insert(0, parse_quote!(#m!();));
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
