//! Puts the extracted functions and their contracts together.
use crate::{desugar::*, inline::*, load::*, overlay::*};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::{visit_mut::VisitMut, *};

pub struct FnOut {
    pub key: String,
    pub module: String,
    pub impl_ty: Option<String>,
    pub text: String,
    pub calls: Vec<String>,
    pub inlined: Vec<String>,
    pub rules: Vec<String>,
    pub nloops: usize,
    pub loop_text: Vec<String>,
    pub file: String,
    pub line: usize,
    pub end_line: usize,
    pub trusted: Option<String>,
    pub emit: String,
}

fn pretty(s: &str) -> String {
    // one statement per line is enough to make sense of the verifier's output
    let mut out = String::new();
    let mut in_str = false;
    let mut prev = ' ';
    for ch in s.chars() {
        if ch == '"' && prev != '\\' {
            in_str = !in_str;
        }
        out.push(ch);
        if !in_str && (ch == '{' || ch == '}' || ch == ';') {
            out.push('\n');
        }
        prev = ch;
    }
    out
}

fn prim(t: &str) -> bool {
    matches!(t, "u8" | "u16" | "u32" | "u64" | "U128" | "U256" | "U512" | "H256" | "ToNibbles" | "usize")
}

pub fn emit_fn(k: &Krate, ov: &Overlay, key: &str, spec: &FnSpec, _inst: &str) -> std::result::Result<FnOut, String> {
    let f = k.fns.get(key).ok_or(format!("lost anchor: function {key} is not in the source"))?;
    if f.generic && spec.trusted.is_none() {
        return Err(format!("{key} has type parameters that the instance does not determine"));
    }
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    if spec.opts.iter().any(|o| o == "text" || o == "show") {
        crate::mono::Elide.visit_signature_mut(&mut sig);
    }
    let self_name = match &f.self_ty {
        Some(Type::Path(t)) => Some(t.path.segments.last().unwrap().ident.to_string()),
        _ => None,
    };
    let mut inl = Inliner { k, ov, depth: 0, stack: vec![key.to_string()], self_ty: self_name.clone(), fresh: 0, calls: vec![], inlined: vec![], err: None, refs: crate::inline::ref_params(&f.sig) };
    let mut rules = vec![];
    if spec.trusted.is_none() {
        inl.visit_block_mut(&mut block);
        if let Some(e) = inl.err {
            return Err(format!("{key}: {e}"));
        }
    }
    let mut mut_params = vec![];
    let mut vec_params = vec![];
    for i in &sig.inputs {
        if let FnArg::Typed(pt) = i {
            if let Pat::Ident(pi) = &*pt.pat {
                match &*pt.ty {
                    Type::Reference(r) if r.mutability.is_some() => mut_params.push(pi.ident.to_string()),
                    Type::Path(p) if p.path.segments.last().unwrap().ident == "Vec" => vec_params.push(pi.ident.to_string()),
                    _ => {}
                }
            }
        }
    }
    // is it a method of a type that is emitted?
    let as_free = match &f.self_ty {
        None => true,
        Some(_) => {
            f.trait_.as_ref().map_or(false, |t| t.starts_with("From<") || t.starts_with("AsRef<") || matches!(t.as_str(), "FromStr" | "Display" | "LowerHex" | "UpperHex"))
                || self_name.as_ref().map_or(true, |n| prim(n))
        }
    };
    let mut nloops = 0;
    let mut loop_text = vec![];
    let mut body_text = String::new();
    if spec.trusted.is_none() {
        let mut d = Desugar { fresh: 0, err: None, mut_params, vec_params, rules: vec![], opts: spec.opts.clone() };
        d.visit_block_mut(&mut block);
        if let Some(e) = d.err {
            return Err(format!("{key}: {e}"));
        }
        rules = d.rules;
        let mut ml = MarkLoops(0);
        ml.visit_block_mut(&mut block);
        nloops = ml.0;
    }
    if as_free {
        if let Some(t) = &f.self_ty {
            let t: Type = match &spec.self_ty {
                Some(s) => parse_str(s).map_err(|e| e.to_string())?,
                None => t.clone(),
            };
            ReplaceSelfTy(t.clone()).visit_block_mut(&mut block);
            ReplaceSelfTy(t.clone()).visit_signature_mut(&mut sig);
            let mut inputs = sig.inputs.clone();
            for i in inputs.iter_mut() {
                if let FnArg::Receiver(r) = i {
                    rename_self(&mut block);
                    let ty: Type = if r.reference.is_some() && r.mutability.is_some() {
                        parse_quote!(&mut #t)
                    } else if r.reference.is_some() {
                        parse_quote!(&#t)
                    } else {
                        t.clone()
                    };
                    *i = parse_quote!(self__: #ty);
                }
            }
            sig.inputs = inputs;
        }
    }
    // `&mut [T]` parameters become `&mut Vec<T>`, as fixed buffers become vectors
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(pt) = i {
            if let Type::Reference(r) = &mut *pt.ty {
                if r.mutability.is_some() {
                    if let Type::Slice(s) = &*r.elem {
                        let t = &s.elem;
                        *r.elem = parse_quote!(Vec<#t>);
                    }
                }
            }
        }
    }
    // name patterns in the parameter list: the verifier wants plain names
    let mut pre = quote!();
    for i in sig.inputs.iter_mut() {
        if let FnArg::Receiver(r) = i {
            if r.reference.is_none() && r.mutability.take().is_some() {
                rename_self(&mut block);
                pre = quote!(let mut self__ = self;);
            }
        }
    }
    for (n, i) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(pt) = i {
            match &*pt.pat {
                Pat::Ident(_) => {}
                p => {
                    let id = quote::format_ident!("arg{}", n);
                    let p = p.clone();
                    pre = quote!(#pre let #p = #id;);
                    *pt.pat = parse_quote!(#id);
                }
            }
        }
    }
    if spec.trusted.is_none() {
        let stmts = &block.stmts;
        body_text = pretty(&quote!(#pre #(#stmts)*).to_string());
        loop_text = (0..nloops).map(|i| loop_hash(&body_text, i)).collect::<Option<_>>().ok_or("internal: loop text")?;
        for i in 0..nloops {
            let mark = format!("LOOPMARK__{i} ! () ;");
            let pos = body_text.find(&mark).ok_or("internal: loop mark")?;
            let brace = body_text[..pos].rfind('{').ok_or("internal: loop brace")?;
            let inv = spec.loops.get(&i).cloned().unwrap_or_default();
            let inv = if inv.trim().is_empty() { String::new() } else { format!("\n{inv}") };
            let after = &body_text[pos + mark.len()..];
            body_text = format!("{}{} {{{}", &body_text[..brace], inv, after);
        }
    }
    let emit_name = if spec.emit.is_empty() {
        if as_free && f.self_ty.is_some() {
            key.replace("::", "__")
        } else {
            sig.ident.to_string()
        }
    } else {
        spec.emit.clone()
    };
    let inputs = &sig.inputs;
    let gens = &sig.generics;
    let out = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            if quote!(#t).to_string().trim() == "!" {
                " -> !".to_string()
            } else {
                format!(" -> ({}: {})", spec.ret, spec.rettype.clone().unwrap_or_else(|| t.to_token_stream().to_string()))
            }
        }
    };
    let mut text = String::new();
    for a in &spec.attrs {
        text.push_str(&format!("{a}\n"));
    }
    if spec.trusted.is_some() {
        text.push_str("#[verifier::external_body]\n");
    }
    if spec.trusted.is_none() {
        text.push_str("#[verifier::loop_isolation(false)]\n");
    }
    text.push_str(&format!("pub fn {emit_name}{}({}){out}\n", gens.to_token_stream(), inputs.to_token_stream()));
    text.push_str(&spec.contract);
    text.push_str("{\n");
    if spec.trusted.is_some() {
        text.push_str("unimplemented!()\n");
    } else {
        for h in &spec.hides {
            text.push_str(&format!("hide({h});\n"));
        }
        // the lemmas go along with the body of a function taken without its contract
        let mut uses = spec.uses.clone();
        let mut reveals: Vec<&str> = vec![];
        for d in inl.inlined.iter().filter_map(|i| ov.dropped.get(i)) {
            for u in &d.uses {
                if !uses.contains(u) {
                    uses.push(u.clone());
                }
            }
            for l in d.proof.lines().map(|l| l.trim()).filter(|l| l.starts_with("reveal(")) {
                if !reveals.contains(&l) {
                    reveals.push(l);
                }
            }
        }
        if !reveals.is_empty() {
            text.push_str(&format!("proof {{\n{}\n}}\n", reveals.join("\n")));
        }
        if !uses.is_empty() {
            text.push_str(&format!("broadcast use {{{}}};\n", uses.join(", ")));
        }
        if !spec.proof.trim().is_empty() {
            text.push_str(&format!("proof {{\n{}}}\n", spec.proof));
        }
        text.push_str(&body_text);
    }
    text.push_str("\n}\n");
    Ok(FnOut {
        key: key.into(),
        module: spec.module.clone(),
        impl_ty: if as_free { None } else { Some(f.self_ty.as_ref().unwrap().to_token_stream().to_string()) },
        text,
        calls: inl.calls,
        inlined: inl.inlined,
        rules,
        nloops,
        loop_text,
        file: f.file.clone(),
        line: f.line,
        end_line: f.end_line,
        trusted: spec.trusted.clone(),
        emit: emit_name,
    })
}

struct PubAll;
impl VisitMut for PubAll {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_field_mut(&mut self, f: &mut Field) {
        f.attrs.clear();
        visit_mut::visit_field_mut(self, f);
    }
    fn visit_variant_mut(&mut self, v: &mut Variant) {
        v.attrs.clear();
        for f in v.fields.iter_mut() {
            f.attrs.clear();
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")
}

/// A fingerprint of a loop, with the start of the index it runs over: an invariant is written for one text.
fn loop_hash(body: &str, i: usize) -> Option<String> {
    let pos = body.find(&format!("LOOPMARK__{i} ! () ;"))?;
    let brace = body[..pos].rfind('{')?;
    let mut depth = 0;
    let end = body[brace..].char_indices().find_map(|(k, c)| {
        match c {
            '{' => depth += 1,
            '}' => depth -= 1,
            _ => {}
        }
        (depth == 0).then_some(brace + k)
    })?;
    let head = ["while", "loop"].iter().filter_map(|w| body[..brace].rfind(w)).max()?;
    let index = body[head..brace].find("i__").map(|k| body[head + k + 3..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>());
    let start = index.and_then(|k| body[..head].rfind(&format!("let mut i__{k} "))).unwrap_or(head);
    let h = body[start..end].bytes().filter(|b| !b.is_ascii_whitespace()).fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    Some(format!("{h:016x}"))
}

pub fn assemble(k: &Krate, ov: &Overlay, outs: Vec<FnOut>) -> std::result::Result<(String, String), String> {
    let mut text = String::new();
    text.push_str("// ==== types ====\npub mod types {\nuse super::*;\n");
    let mut tnames = vec![];
    let mut derives = vec![];
    for t in &ov.types {
        let mut derived = String::new();
        let (name, _) = t.split_once(' ').unwrap_or((t, ""));
        let (it, file, line) = k.types.get(name).ok_or(format!("lost anchor: type {name} is not in the source"))?;
        let mut it = it.clone();
        let copy = matches!(&it, Item::Struct(_) | Item::Enum(_)) && {
            let attrs = match &it {
                Item::Struct(s) => &s.attrs,
                Item::Enum(s) => &s.attrs,
                _ => unreachable!(),
            };
            derived = attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.to_token_stream().to_string()).collect::<String>();
            attrs.iter().any(|a| a.to_token_stream().to_string().contains("Copy"))
        };
        match &mut it {
            Item::Struct(s) => {
                s.attrs.clear();
                PubAll.visit_item_struct_mut(s);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
            }
            Item::Enum(s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
            }
            Item::Type(s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
            }
            Item::Const(s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
            }
            _ => {}
        }
        text.push_str(&format!("// {file}:{line}\n"));
        if copy {
            text.push_str("#[derive(Clone, Copy)]\n");
        }
        text.push_str(&pretty(&it.to_token_stream().to_string()));
        text.push('\n');
        derives.push(format!("\"{name}\":\"{}\"", esc(&derived)));
        tnames.push(name.to_string());
    }
    text.push_str("}\n// ==== functions ====\n");
    let mut mods: BTreeMap<String, Vec<&FnOut>> = BTreeMap::new();
    for o in &outs {
        mods.entry(o.module.clone()).or_default().push(o);
    }
    let mut rep = vec![];
    let mut all_rules: BTreeSet<String> = BTreeSet::new();
    for (m, fs) in &mods {
        text.push_str(&format!("pub mod {m} {{\nuse super::*;\n"));
        for o in fs {
            let start = text.matches('\n').count() + 1;
            if let Some(t) = &o.impl_ty {
                let g = match k.types.get(t).map(|x| &x.0) {
                    Some(Item::Struct(s)) if s.generics.lifetimes().next().is_some() => s.generics.to_token_stream().to_string(),
                    _ => String::new(),
                };
                text.push_str(&format!("impl{g} {t}{g} {{\n"));
            }
            text.push_str(&format!("// {}:{} {}\n", o.file, o.line, o.key));
            text.push_str(&o.text);
            if o.impl_ty.is_some() {
                text.push_str("}\n");
            }
            let end = text.matches('\n').count();
            for r in &o.rules {
                all_rules.insert(r.clone());
            }
            rep.push(format!(
                "{{\"key\":\"{}\",\"emit\":\"{}\",\"module\":\"{}\",\"file\":\"{}\",\"line\":{},\"end_line\":{},\"out_start\":{},\"out_end\":{},\"loops\":{},\"loop_text\":[{}],\"inlined\":[{}],\"trusted\":{}}}",
                esc(&o.key),
                esc(&o.emit),
                m,
                o.file,
                o.line,
                o.end_line,
                start,
                end,
                o.nloops,
                o.loop_text.iter().map(|h| format!("\"{h}\"")).collect::<Vec<_>>().join(","),
                o.inlined.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
                match &o.trusted {
                    None => "null".to_string(),
                    Some(s) => format!("\"{}\"", esc(s)),
                }
            ));
        }
        text.push_str(&format!("}}\npub use crate::{m}::*;\n"));
    }
    let report = format!(
        "{{\"functions\":[\n{}\n],\"types\":[{}],\"rules\":[{}],\"derives\":{{{}}}}}\n",
        rep.join(",\n"),
        tnames.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","),
        all_rules.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        derives.join(",")
    );
    Ok((text, report))
}
