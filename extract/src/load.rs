//! Reads the crate's source.
use crate::mono::{map_for, Map, Subst};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::{collections::BTreeMap, fs};
use syn::{spanned::Spanned, visit_mut::{self, VisitMut}, *};

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub end_line: usize,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<Type>,
    pub trait_: Option<String>,
    /// type parameters left (closures)
    pub generic: bool,
}

pub struct Krate {
    pub fns: BTreeMap<String, FnInfo>,
    /// all functions by bare name
    pub by_name: BTreeMap<String, Vec<String>>,
    pub types: BTreeMap<String, (Item, String, usize)>,
    pub inst: String,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
        || attrs.iter().any(|a| a.path().is_ident("test"))
}

pub fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join("")
}

struct Ctx<'a> {
    inst: &'a str,
    generic_types: Vec<String>,
    macros: BTreeMap<String, (Vec<String>, TokenStream)>,
    k: Krate,
    /// the `Target` of each type's `Deref`
    targets: BTreeMap<String, Type>,
}

pub fn load(repo: &str, inst: &str) -> std::result::Result<Krate, String> {
    let src = format!("{repo}/src");
    let mut files = vec![];
    walk(&src, &mut files);
    files.sort();
    let mut parsed = vec![];
    for f in &files {
        let text = fs::read_to_string(f).map_err(|e| e.to_string())?;
        let file = parse_file(&text).map_err(|e| format!("{f}: {e}"))?;
        parsed.push((f.strip_prefix(&format!("{repo}/")).unwrap().to_string(), file));
    }
    let mut c = Ctx {
        inst,
        generic_types: vec![],
        macros: BTreeMap::new(),
        k: Krate { fns: BTreeMap::new(), by_name: BTreeMap::new(), types: BTreeMap::new(), inst: inst.into() },
        targets: BTreeMap::new(),
    };
    for (_, f) in &parsed {
        collect_generic_types(&f.items, &mut c);
    }
    for (name, f) in &parsed {
        if name.ends_with("testing_utils.rs") {
            continue;
        }
        items(&f.items, name, &mut c);
    }
    Ok(c.k)
}

fn walk(d: &str, out: &mut Vec<String>) {
    let Ok(rd) = fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(p.to_str().unwrap(), out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p.to_str().unwrap().to_string());
        }
    }
}

/// The one type whose parameter is not a trie.
pub const PLAIN_GENERIC: &str = "RatioStat";

/// `type R<T> = Result<T, E>` stays generic
fn is_result_alias(it: &Item) -> bool {
    match it {
        Item::Type(s) => matches!(&*s.ty, Type::Path(p) if p.path.segments.last().map_or(false, |x| x.ident == "Result")),
        _ => false,
    }
}

fn collect_generic_types(items: &[Item], c: &mut Ctx) {
    for it in items {
        let (id, g) = match it {
            Item::Struct(s) => (&s.ident, &s.generics),
            Item::Enum(s) => (&s.ident, &s.generics),
            Item::Type(s) => (&s.ident, &s.generics),
            Item::Macro(m) => {
                if let Some(id) = &m.ident {
                    if let Some(r) = parse_macro_rules(m.mac.tokens.clone()) {
                        c.macros.insert(id.to_string(), r);
                    }
                }
                continue;
            }
            _ => continue,
        };
        if g.type_params().count() > 0 && id != PLAIN_GENERIC && !is_result_alias(it) {
            c.generic_types.push(id.to_string());
        }
    }
}

fn parse_macro_rules(t: TokenStream) -> Option<(Vec<String>, TokenStream)> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let TokenTree::Group(m) = v.first()? else { return None };
    let mut body = None;
    for x in v.iter().skip(1) {
        if let TokenTree::Group(g) = x {
            body = Some(g.stream());
            break;
        }
    }
    let mut params = vec![];
    let mt: Vec<TokenTree> = m.stream().into_iter().collect();
    let mut i = 0;
    while i < mt.len() {
        if let TokenTree::Punct(p) = &mt[i] {
            if p.as_char() == '$' {
                if let Some(TokenTree::Ident(id)) = mt.get(i + 1) {
                    params.push(id.to_string());
                } else {
                    return None;
                }
            }
        }
        i += 1;
    }
    Some((params, body?))
}

fn subst_macro(body: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let v: Vec<TokenTree> = body.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    if let Some(t) = m.get(&id.to_string()) {
                        out.extend(t.clone());
                        i += 2;
                        continue;
                    }
                }
                out.extend([v[i].clone()]);
            }
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst_macro(g.stream(), m));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            x => out.extend([x.clone()]),
        }
        i += 1;
    }
    out
}

fn items(its: &[Item], file: &str, c: &mut Ctx) {
    for it in its {
        match it {
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                if let Some((_, i)) = &m.content {
                    items(i, file, c);
                }
            }
            Item::Macro(m) => {
                if m.ident.is_some() {
                    continue;
                }
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some((params, body)) = c.macros.get(&name).cloned() {
                    if params.len() == 1 {
                        let mut mm = BTreeMap::new();
                        mm.insert(params[0].clone(), m.mac.tokens.clone());
                        let t = subst_macro(body, &mm);
                        if let Ok(f) = parse2::<File>(t) {
                            items(&f.items, file, c);
                        }
                    }
                }
            }
            Item::Struct(s) => {
                if is_test(&s.attrs) {
                    continue;
                }
                let mut m = map_for(&s.generics, c.inst, true).0;
                let mut s2 = s.clone();
                if s.ident == PLAIN_GENERIC {
                    m = Map::new();
                    s2.generics.type_params_mut().for_each(|p| p.bounds.clear());
                }
                strip_generics(&mut s2.generics, &m);
                Subst { m: &m, inst: c.inst, generic_types: &c.generic_types }.visit_item_struct_mut(&mut s2);
                c.k.types.insert(s.ident.to_string(), (Item::Struct(s2), file.into(), s.span().start().line));
            }
            Item::Enum(s) => {
                if is_test(&s.attrs) {
                    continue;
                }
                let (m, _) = map_for(&s.generics, c.inst, true);
                let mut s2 = s.clone();
                strip_generics(&mut s2.generics, &m);
                Subst { m: &m, inst: c.inst, generic_types: &c.generic_types }.visit_item_enum_mut(&mut s2);
                c.k.types.insert(s.ident.to_string(), (Item::Enum(s2), file.into(), s.span().start().line));
            }
            Item::Type(s) if is_result_alias(it) => {
                c.k.types.insert(s.ident.to_string(), (it.clone(), file.into(), s.span().start().line));
            }
            Item::Type(s) => {
                let (m, _) = map_for(&s.generics, c.inst, true);
                let mut s2 = s.clone();
                strip_generics(&mut s2.generics, &m);
                Subst { m: &m, inst: c.inst, generic_types: &c.generic_types }.visit_item_type_mut(&mut s2);
                c.k.types.insert(s.ident.to_string(), (Item::Type(s2), file.into(), s.span().start().line));
            }
            Item::Const(s) => {
                c.k.types.insert(s.ident.to_string(), (Item::Const(s.clone()), file.into(), s.span().start().line));
            }
            Item::Fn(f) => {
                if is_test(&f.attrs) {
                    continue;
                }
                add_fn(&f.sig, &f.block, None, None, &Map::new(), true, file, c);
            }
            Item::Impl(im) => {
                if is_test(&im.attrs) {
                    continue;
                }
                let (mut m, all) = map_for(&im.generics, c.inst, true);
                let mut self_ty = (*im.self_ty).clone();
                crate::mono::Elide.visit_type_mut(&mut self_ty);
                if matches!(&self_ty, Type::Path(p) if p.path.is_ident(PLAIN_GENERIC) || p.path.segments.last().map_or(false, |s| s.ident == PLAIN_GENERIC)) {
                    m = im.generics.type_params().map(|p| (p.ident.to_string(), parse_str("_").unwrap())).collect();
                    self_ty = parse_str(PLAIN_GENERIC).unwrap();
                }
                Subst { m: &m, inst: c.inst, generic_types: &c.generic_types }.visit_type_mut(&mut self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| {
                    let mut p = p.clone();
                    Subst { m: &m, inst: c.inst, generic_types: &c.generic_types }.visit_path_mut(&mut p);
                    norm(&p.to_token_stream().to_string())
                });
                let mut assoc = BTreeMap::new();
                for ii in &im.items {
                    if let ImplItem::Type(t) = ii {
                        assoc.insert(t.ident.to_string(), t.ty.clone());
                    }
                }
                let self_name = norm(&self_ty.to_token_stream().to_string());
                match (tr.as_deref(), assoc.get("Target").cloned()) {
                    (Some("Deref"), Some(t)) => {
                        c.targets.insert(self_name, t);
                    }
                    (Some("DerefMut"), None) => {
                        if let Some(t) = c.targets.get(&self_name) {
                            assoc.insert("Target".into(), t.clone());
                        }
                    }
                    _ => {}
                }
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let mut f = f.clone();
                        Assoc(&assoc).visit_impl_item_fn_mut(&mut f);
                        add_fn(&f.sig, &f.block, Some(self_ty.clone()), tr.clone(), &m, all, file, c);
                    }
                }
            }
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            let self_ty: Type = parse_str(&t.ident.to_string()).unwrap();
                            add_fn(&f.sig, b, Some(self_ty), None, &Map::new(), true, file, c);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// `Self::Item` becomes what the impl says it is.
struct Assoc<'a>(&'a BTreeMap<String, Type>);
impl<'a> VisitMut for Assoc<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(r) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn strip_generics(g: &mut Generics, m: &Map) {
    g.params = g
        .params
        .iter()
        .filter(|p| match p {
            GenericParam::Type(t) => !m.contains_key(&t.ident.to_string()),
            _ => true,
        })
        .cloned()
        .collect();
    g.where_clause = None;
}

#[allow(clippy::too_many_arguments)]
fn add_fn(sig: &Signature, block: &Block, self_ty: Option<Type>, tr: Option<String>, outer: &Map, outer_all: bool, file: &str, c: &mut Ctx) {
    let line = sig.span().start().line;
    let end_line = block.span().end().line;
    let (mut m, _) = map_for(&sig.generics, c.inst, false);
    // an unbounded parameter that is used as a trie type (`WrappedNode<N>`)
    let text = norm(&sig.to_token_stream().to_string());
    for p in sig.generics.type_params() {
        let n = p.ident.to_string();
        if !m.contains_key(&n) && c.generic_types.iter().any(|g| text.contains(&format!("{g}<{n}>"))) {
            m.insert(n, parse_str(c.inst).unwrap());
        }
    }
    let all = sig.generics.type_params().all(|p| m.contains_key(&p.ident.to_string()));
    for (k, v) in outer {
        m.entry(k.clone()).or_insert(v.clone());
    }
    // the function's own parameters may mention the impl's
    let snap = m.clone();
    for t in m.values_mut() {
        Subst { m: &snap, inst: c.inst, generic_types: &c.generic_types }.visit_type_mut(t);
    }
    let mut sig = sig.clone();
    let mut block = block.clone();
    strip_generics(&mut sig.generics, &m);
    {
        let mut s = Subst { m: &m, inst: c.inst, generic_types: &c.generic_types };
        s.visit_signature_mut(&mut sig);
        // macro arguments are expressions in the macros that matter
        crate::desugar::expand_macros(&mut block);
        s.visit_block_mut(&mut block);
    }
    let name = sig.ident.to_string();
    let key = match (&self_ty, &tr) {
        (None, _) => name.clone(),
        (Some(t), Some(tr)) if tr.starts_with("From<") => format!("{}for{}", tr, norm(&t.to_token_stream().to_string())),
        (Some(t), Some(tr)) if tr.starts_with("AsRef<") => format!("{}for{}", tr, norm(&t.to_token_stream().to_string())),
        (Some(t), Some(tr)) if tr == "PartialEq" || tr == "Display" || tr == "LowerHex" || tr == "UpperHex" || tr == "Debug" || tr == "FromStr" => {
            format!("{}for{}", tr, norm(&t.to_token_stream().to_string()))
        }
        (Some(t), _) => format!("{}::{}", norm(&t.to_token_stream().to_string()), name),
    };
    let info = FnInfo { key: key.clone(), file: file.into(), line, end_line, sig, block, self_ty, trait_: tr, generic: !(all && outer_all) };
    c.k.by_name.entry(name).or_default().push(key.clone());
    c.k.fns.insert(key, info);
}
