//! Monomorphisation: every type parameter of the crate is replaced by the one
//! type that the instance under verification uses for it.
use std::collections::BTreeMap;
use syn::{visit_mut::VisitMut, *};

pub type Map = BTreeMap<String, Type>;

fn bound_to_type(b: &TypeParamBound, inst: &str) -> Option<Type> {
    let TypeParamBound::Trait(t) = b else { return None };
    let seg = t.path.segments.last()?;
    match seg.ident.to_string().as_str() {
        "PartialTrie" | "TrieNodeIntern" => Some(parse_str(inst).unwrap()),
        "PrimInt" => Some(parse_str("usize").unwrap()),
        "Into" => {
            let PathArguments::AngleBracketed(a) = &seg.arguments else { return None };
            match a.args.first()? {
                GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            }
        }
        "IntoIterator" | "Iterator" => {
            let PathArguments::AngleBracketed(a) = &seg.arguments else { return None };
            for g in &a.args {
                if let GenericArgument::AssocType(at) = g {
                    let ty = &at.ty;
                    return Some(parse_quote!(Vec<#ty>));
                }
            }
            None
        }
        _ => None,
    }
}

/// Returns the substitution for the type parameters, leaving closure types.
pub fn map_for(g: &Generics, inst: &str, plain_is_inst: bool) -> (Map, bool) {
    let mut m = Map::new();
    let mut all = true;
    for p in &g.params {
        let GenericParam::Type(tp) = p else { continue };
        let name = tp.ident.to_string();
        let mut bounds: Vec<TypeParamBound> = tp.bounds.iter().cloned().collect();
        if let Some(w) = &g.where_clause {
            for pr in &w.predicates {
                if let WherePredicate::Type(pt) = pr {
                    if let Type::Path(tp2) = &pt.bounded_ty {
                        if tp2.path.is_ident(&name) {
                            bounds.extend(pt.bounds.iter().cloned());
                        }
                    }
                }
            }
        }
        let mut found = None;
        for b in &bounds {
            if let Some(t) = bound_to_type(b, inst) {
                found = Some(t);
                break;
            }
        }
        if found.is_none() && plain_is_inst && (name == "N" || name == "T") {
            let only_plain = bounds.iter().all(|b| match b {
                TypeParamBound::Trait(t) => {
                    let n = t.path.segments.last().unwrap().ident.to_string();
                    n == "Clone" || n == "Debug"
                }
                _ => true,
            });
            if only_plain {
                found = Some(parse_str(inst).unwrap());
            }
        }
        match found {
            Some(t) => {
                m.insert(name, t);
            }
            None => all = false,
        }
    }
    // close the map over itself
    for _ in 0..4 {
        let snapshot = m.clone();
        for t in m.values_mut() {
            Subst { m: &snapshot, inst, generic_types: &[] }.visit_type_mut(t);
        }
    }
    (m, all)
}

pub struct Subst<'a> {
    pub m: &'a Map,
    pub inst: &'a str,
    pub generic_types: &'a [String],
}

impl<'a> Subst<'a> {
    fn fix_path(&self, p: &mut Path) {
        if let Some(first) = p.segments.first() {
            if p.leading_colon.is_none() {
                if let Some(Type::Path(tp)) = self.m.get(&first.ident.to_string()) {
                    if p.segments.len() > 1 {
                        if tp.path.segments.len() == 1 && tp.path.segments[0].arguments.is_none() {
                            p.segments[0] = tp.path.segments[0].clone();
                        }
                    }
                }
            }
        }
        // drop `crate::nibbles::` and similar prefixes
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() >= 2 && (s[0] == "crate" || s[0] == "super") {
            let keep: Vec<PathSegment> = p
                .segments
                .iter()
                .filter(|s| {
                    let n = s.ident.to_string();
                    n.chars().next().map_or(false, |c| c.is_uppercase()) || !["crate", "super"].contains(&n.as_str()) && std::ptr::eq(*s, p.segments.last().unwrap())
                })
                .cloned()
                .collect();
            p.segments = keep.into_iter().collect();
            p.leading_colon = None;
        }
        if s.len() >= 3 && s[0] == "std" && s[1] == "fmt" {
            p.segments = p.segments.iter().skip(1).cloned().collect();
        }
        for seg in p.segments.iter_mut() {
            if self.generic_types.contains(&seg.ident.to_string()) {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    let strip = a.args.iter().all(|g| match g {
                        GenericArgument::Type(Type::Path(t)) => {
                            let id = t.path.segments.last().unwrap().ident.to_string();
                            id == self.inst || id == "Self"
                        }
                        GenericArgument::Type(Type::Infer(_)) => true,
                        _ => false,
                    });
                    if strip {
                        seg.arguments = PathArguments::None;
                    }
                }
            }
        }
    }
}

impl<'a> VisitMut for Subst<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(tp) = t {
            if tp.qself.is_none() && tp.path.segments.len() == 1 && tp.path.segments[0].arguments.is_none() {
                if let Some(r) = self.m.get(&tp.path.segments[0].ident.to_string()) {
                    *t = r.clone();
                    return;
                }
            }
        }
        if let Type::Path(tp) = t {
            if tp.path.is_ident("f32") {
                *t = parse_quote!(F32);
                return;
            }
        }
        if let Type::ImplTrait(it) = t {
            for b in &it.bounds {
                if let Some(r) = bound_to_type(b, self.inst) {
                    *t = r;
                    break;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.fix_path(p);
    }
    // macros hold unparsed tokens: parse the ones that hold expressions later
}

/// Leaves lifetimes to be inferred.
pub struct Elide;
impl VisitMut for Elide {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.as_ref().map_or(false, |l| l.ident != "static") {
            r.lifetime = None;
        }
        visit_mut::visit_type_reference_mut(self, r);
    }
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        if let PathArguments::AngleBracketed(a) = &s.arguments {
            if a.args.iter().all(|g| matches!(g, GenericArgument::Lifetime(_))) {
                s.arguments = PathArguments::None;
            }
        }
        visit_mut::visit_path_segment_mut(self, s);
    }
}
