//! The overlay holds the contracts.  It never holds executable code.
use std::{collections::BTreeMap, fs};

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    /// name of the function in the emitted code
    pub emit: String,
    pub module: String,
    pub ret: String,
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    pub proof: String,
    pub uses: Vec<String>,
    /// spec functions whose bodies the proof of the function does not look at
    pub hides: Vec<String>,
    pub attrs: Vec<String>,
    pub needs: Vec<String>,
    /// `Some` if the body is not verified, with the reason.
    pub rettype: Option<String>,
    pub trusted: Option<String>,
    pub opts: Vec<String>,
    pub self_ty: Option<String>,
    pub unroll: bool,
    /// takes the place of a contract in an earlier file
    pub over: bool,
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub fns: BTreeMap<String, FnSpec>,
    pub types: Vec<String>,
    pub always: Vec<String>,
    /// contracts left out in this run
    pub dropped: BTreeMap<String, FnSpec>,
}

pub fn load(files: &[String], mode: &str, inst: &str) -> Result<Overlay, String> {
    let mut o = Overlay::default();
    for f in files {
        let text = fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?.replace("INST", inst);
        let mut module = String::new();
        let mut default_use: Vec<String> = vec![];
        let mut default_hide: Vec<String> = vec![];
        let mut default_proof = String::new();
        let mut cur: Option<(String, FnSpec)> = None;
        let mut sect: Option<usize> = None; // loop
        let mut in_proof = false;
        let mut skip = false; // inside a block for another mode
        for line in text.lines() {
            let t = line.trim();
            if t.starts_with("//") {
                continue;
            }
            if let Some(rest) = t.strip_prefix("%inst ") {
                skip = rest.trim() != inst;
                continue;
            }
            if let Some(rest) = t.strip_prefix("%mode ") {
                skip = rest.trim() != mode;
                continue;
            }
            if t == "%anymode" || t == "%anyinst" {
                skip = false;
                continue;
            }
            if skip {
                continue;
            }
            if let Some(rest) = t.strip_prefix('%') {
                let (kw, arg) = rest.split_once(' ').unwrap_or((rest, ""));
                let arg = arg.trim();
                match kw {
                    "module" => module = arg.into(),
                    "defaulthide" => default_hide = arg.split_whitespace().map(|x| x.into()).collect(),
                    "defaultuse" => default_use = arg.split_whitespace().map(|x| x.into()).collect(),
                    "defaultproof" => default_proof = format!("{arg}\n"),
                    "type" => o.types.push(arg.into()),
                    "always" => o.always.extend(arg.split_whitespace().map(|x| x.to_string())),
                    "fn" => {
                        let mut s = FnSpec { module: module.clone(), uses: default_use.clone(), hides: default_hide.clone(), proof: default_proof.clone(), ..Default::default() };
                        s.ret = "r".into();
                        cur = Some((arg.to_string(), s));
                        sect = None;
                        in_proof = false;
                    }
                    "end" => {
                        let (k, s) = cur.take().ok_or("%end without %fn")?;
                        let over = s.over;
                        if o.fns.insert(k.clone(), s).is_some() && !over {
                            return Err(format!("two contracts for {k}"));
                        }
                    }
                    _ => {
                        let s = &mut cur.as_mut().ok_or(format!("%{kw} outside of %fn"))?.1;
                        match kw {
                            "as" => s.emit = arg.into(),
                            "ret" => s.ret = arg.into(),
                            "rettype" => s.rettype = Some(arg.into()),
                            "loop" => {
                                sect = Some(arg.parse().map_err(|_| "bad %loop")?);
                                in_proof = false;
                            }
                            "proof" => {
                                in_proof = true;
                                sect = None;
                            }
                            "noproof" => s.proof.clear(),
                            "contract" => {
                                in_proof = false;
                                sect = None;
                            }
                            "hide" => s.hides.extend(arg.split_whitespace().map(|x| x.to_string())),
                            "use" => s.uses.extend(arg.split_whitespace().map(|x| x.to_string())),
                            "only" => s.uses = arg.split_whitespace().map(|x| x.to_string()).collect(),
                            "attr" => s.attrs.push(arg.into()),
                            "needs" => s.needs.extend(arg.split_whitespace().map(|x| x.to_string())),
                            "trusted" => s.trusted = Some(arg.into()),
                            "opt" => s.opts.push(arg.into()),
                            "self" => s.self_ty = Some(arg.into()),
                            "override" => s.over = true,
                            "unroll" => s.unroll = true,
                            _ => return Err(format!("unknown directive %{kw}")),
                        }
                    }
                }
                continue;
            }
            if let Some((_, s)) = cur.as_mut() {
                let dst = if let Some(k) = sect {
                    s.loops.entry(k).or_default()
                } else if in_proof {
                    &mut s.proof
                } else {
                    &mut s.contract
                };
                dst.push_str(line);
                dst.push('\n');
            }
        }
    }
    Ok(o)
}
