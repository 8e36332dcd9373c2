//! Mechanical extraction of the functions under contract from the crate's
//! current source.  See README.md for the list of rewrites.
mod desugar;
mod emit;
mod inline;
mod load;
mod mono;
mod overlay;

use std::{collections::BTreeSet, env, fs, process::exit};

pub struct Opts {
    pub repo: String,
    pub overlays: Vec<String>,
    pub roots: Vec<String>,
    /// functions to be taken without their contracts
    pub inline: Vec<String>,
    pub mode: String,
    pub inst: String,
    pub out: String,
    pub report: String,
}

fn main() {
    let mut o = Opts {
        repo: "/repo".into(),
        overlays: vec![],
        roots: vec![],
        inline: vec![],
        mode: "A".into(),
        inst: "HashedPartialTrie".into(),
        out: String::new(),
        report: String::new(),
    };
    let mut a = env::args().skip(1);
    while let Some(k) = a.next() {
        let v = a.next().unwrap_or_default();
        match k.as_str() {
            "--repo" => o.repo = v,
            "--overlay" => o.overlays.push(v),
            "--root" => o.roots.push(v),
            "--inline" => o.inline.push(v),
            "--mode" => o.mode = v,
            "--inst" => o.inst = v,
            "--out" => o.out = v,
            "--report" => o.report = v,
            _ => {
                eprintln!("unknown option {k}");
                exit(2)
            }
        }
    }
    match run(&o) {
        Ok(()) => {}
        Err(e) => {
            println!("EXTRACT-ERROR {e}");
            exit(3)
        }
    }
}

fn run(o: &Opts) -> Result<(), String> {
    let mut ov = overlay::load(&o.overlays, &o.mode, &o.inst)?;
    for f in &o.inline {
        if let Some(s) = ov.fns.remove(f) {
            ov.dropped.insert(f.clone(), s);
        }
    }
    let krate = load::load(&o.repo, &o.inst)?;
    if o.out.is_empty() {
        for (k, f) in &krate.fns {
            println!("{k} {}:{}", f.file, f.line);
        }
        return Ok(());
    }
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut todo: Vec<String> = o.roots.clone();
    todo.extend(ov.always.iter().cloned());
    for r in &o.roots {
        if !ov.fns.contains_key(r) {
            return Err(format!("root {r} has no contract in the overlay"));
        }
    }
    let mut outs: Vec<emit::FnOut> = vec![];
    while let Some(f) = todo.pop() {
        if !done.insert(f.clone()) {
            continue;
        }
        let spec = match ov.fns.get(&f) {
            Some(s) => s,
            None => return Err(format!("internal: {f}")),
        };
        let out = emit::emit_fn(&krate, &ov, &f, spec, &o.inst)?;
        for c in &out.calls {
            if !done.contains(c) {
                todo.push(c.clone());
            }
        }
        for c in &spec.needs {
            if !done.contains(c) {
                todo.push(c.clone());
            }
        }
        outs.push(out);
    }
    outs.sort_by(|a, b| a.key.cmp(&b.key));
    let (text, report) = emit::assemble(&krate, &ov, outs)?;
    fs::write(&o.out, text).map_err(|e| e.to_string())?;
    fs::write(&o.report, report).map_err(|e| e.to_string())?;
    Ok(())
}
