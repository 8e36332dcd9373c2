use crate::gen::*;
use crate::model::*;
use crate::Case;
use eth_trie_utils::debug_tools::{diff::create_diff_between_tries, query::*, stats::{get_trie_stats, get_trie_stats_with_name}};
use eth_trie_utils::nibbles::Nibbles;
use eth_trie_utils::partial_trie::{HashedPartialTrie, Node, PartialTrie, StandardTrie, WrappedNode};
use eth_trie_utils::trie_ops::ValOrHash;
use eth_trie_utils::trie_subsets::{create_trie_subset, create_trie_subsets};
use ethereum_types::H256;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

type S = StandardTrie;
type H = HashedPartialTrie;
type R = Result<(), String>;

pub fn suites(p: &str) -> Vec<(&'static str, Case)> {
    match p {
        "C01" => vec![("insert-std", insert::<S>), ("insert-hashed", insert::<H>)],
        "C02" => vec![("get-std", get::<S>), ("get-hashed", get::<H>)],
        "C03" => vec![("delete-std", delete::<S>), ("delete-hashed", delete::<H>)],
        "C04" => vec![("canonical-std", canonical::<S>), ("canonical-hashed", canonical::<H>)],
        "C05" => vec![("iterate-std", iterate::<S>), ("iterate-hashed", iterate::<H>)],
        "C06" => vec![("root-std", root_hash::<S>), ("root-hashed", root_hash::<H>)],
        "C07" => vec![("cache", cache)],
        "C08" => vec![("subset-hash-std", subset_hash::<S>), ("subset-hash-hashed", subset_hash::<H>)],
        "C09" => vec![("subset-std", subset_content::<S>), ("subset-hashed", subset_content::<H>)],
        "C10" => vec![("subsets-std", subset_batch::<S>), ("subsets-hashed", subset_batch::<H>)],
        "C14" => vec![("clone-std", clones::<S>), ("clone-hashed", clones::<H>), ("equality-std", equality::<S>), ("equality-hashed", equality::<H>)],
        "C15" => vec![("hashed-out-std", hashed_out::<S>), ("hashed-out-hashed", hashed_out::<H>)],
        "C16" => vec![("diff", diff)],
        "C17" => vec![("query-std", query::<S>), ("query-hashed", query::<H>)],
        "C18" => vec![("stats-std", stats::<S>), ("stats-hashed", stats::<H>)],
        "C19" => vec![("bulk-std", bulk::<S>), ("bulk-hashed", bulk::<H>)],
        _ => vec![],
    }
}

fn ck(b: bool, what: &str) -> R {
    if b {
        Ok(())
    } else {
        Err(what.to_string())
    }
}

fn vh(e: &E) -> ValOrHash {
    match e {
        E::Val(v) => ValOrHash::Val(v.clone()),
        E::Hash(h) => ValOrHash::Hash(H256(*h)),
    }
}
fn unvh(e: ValOrHash) -> E {
    match e {
        ValOrHash::Val(v) => E::Val(v),
        ValOrHash::Hash(h) => E::Hash(h.0),
    }
}
fn se(e: &E) -> String {
    match e {
        E::Val(v) => format!("value {}", bhex(v)),
        E::Hash(h) => format!("hash {}", bhex(h)),
    }
}

fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Lookups of the probes and the entries must be those of the model.
fn check_map<N: PartialTrie>(t: &N, m: &Map, probes: &[K]) -> R {
    for k in m.keys().chain(probes) {
        let w = match m.get(k) {
            Some(E::Val(v)) => Some(&v[..]),
            _ => None,
        };
        let g = t.get(nibs(k));
        if g != w {
            return Err(format!("lookup of 0x{} gives {:?}, expected {:?}", hex(k), g.map(bhex), w.map(bhex)));
        }
    }
    let mut es = entries(&of_trie(t));
    es.sort();
    let want: Vec<_> = m.iter().map(|(k, e)| (k.clone(), e.clone())).collect();
    if es != want {
        return Err(format!("the trie holds {:?}, expected {:?}", es.iter().map(|(k, e)| format!("0x{} {}", hex(k), se(e))).collect::<Vec<_>>(), want.iter().map(|(k, e)| format!("0x{} {}", hex(k), se(e))).collect::<Vec<_>>()));
    }
    Ok(())
}

fn insert<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = if c.one_in(3) { O::Empty } else { c.partial(n) };
    note!(c, "start {}", show(&o));
    let mut m: Map = entries(&o).into_iter().collect();
    let mut t: N = to_trie(&o);
    let seen: Vec<K> = m.keys().cloned().collect();
    let mut pool = c.probes(&seen, n + 2);
    pool.extend(c.keys(n));
    for _ in 0..n + 1 {
        let k = c.pick(&pool).clone();
        if m.iter().any(|(q, e)| matches!(e, E::Hash(_)) && k.starts_with(q)) {
            continue;
        }
        let e = if c.one_in(5) && !m.contains_key(&k) && Ctx::hash_fits(&m, &k) { E::Hash(c.hash32()) } else { E::Val(c.value()) };
        note!(c, "insert 0x{} {}", hex(&k), se(&e));
        t.insert(nibs(&k), vh(&e));
        m.insert(k, e);
        check_map(&t, &m, &pool)?;
    }
    Ok(())
}

fn get<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie {}", show(&o));
    let t: N = to_trie(&o);
    let ks: Vec<K> = entries(&o).into_iter().map(|x| x.0).collect();
    for k in c.probes(&ks, 12) {
        let w = lookup(&o, &k);
        let g = t.get(nibs(&k)).map(|x| x.to_vec());
        if g != w {
            return Err(format!("lookup of 0x{} gives {:?}, expected {:?}", hex(&k), g.map(|x| bhex(&x)), w.map(|x| bhex(&x))));
        }
    }
    Ok(())
}

fn delete<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "start {}", show(&o));
    let mut m: Map = entries(&o).into_iter().collect();
    let mut t: N = to_trie(&o);
    let ks: Vec<K> = m.keys().cloned().collect();
    let pool = c.probes(&ks, n + 2);
    for _ in 0..n + 2 {
        let k = if c.one_in(4) || ks.is_empty() { c.pick(&pool).clone() } else { c.pick(&ks).clone() };
        if m.iter().any(|(q, e)| matches!(e, E::Hash(_)) && k.starts_with(q)) {
            continue;
        }
        note!(c, "delete 0x{}", hex(&k));
        let r = t.delete(nibs(&k));
        let w = m.remove(&k).map(|e| if let E::Val(v) = e { v } else { vec![] });
        ck(r == w, &format!("delete returned {:?}, expected {:?}", r.as_ref().map(|x| bhex(x)), w.as_ref().map(|x| bhex(x))))?;
        check_map(&t, &m, &pool)?;
    }
    Ok(())
}

fn canonical<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let ks = c.keys(n + 1);
    let mut t = N::default();
    let mut m = Map::new();
    for _ in 0..2 * n + 2 {
        let k = c.pick(&ks).clone();
        let probe = c.one_in(6);
        let k = if probe { c.near(&k) } else { k };
        if c.one_in(2) {
            let v = c.value();
            note!(c, "insert 0x{} {}", hex(&k), bhex(&v));
            t.insert(nibs(&k), v.clone());
            m.insert(k, E::Val(v));
        } else {
            note!(c, "delete 0x{}", hex(&k));
            t.delete(nibs(&k));
            m.remove(&k);
        }
        let g = of_trie(&t);
        // Content is another property's concern; the form must be that of the content held.
        let held: Map = entries(&g).into_iter().collect();
        let w = build_map(&held);
        ck(g == w, &format!("the trie is {}, but its entries have the form {}", show(&g), show(&w)))?;
        let fresh: N = to_trie(&w);
        ck(t == fresh, "does not compare equal to a trie with the same entries")?;
        if c.one_in(3) {
            ck(t.hash() == fresh.hash(), "root hash differs from that of a trie with the same entries")?;
        }
        // the history must lead where every other history of these entries leads
        let mut es: Vec<(K, E)> = m.iter().map(|(k, e)| (k.clone(), e.clone())).collect();
        for i in (1..es.len()).rev() {
            let j = c.below(i + 1);
            es.swap(i, j);
        }
        let mut u = N::default();
        for (k, e) in &es {
            u.insert(nibs(k), vh(e));
        }
        ck(u == t, &format!("inserting the same entries in another order gives {} instead of {}", show(&of_trie(&u)), show(&g)))?;
        let k = if c.one_in(2) { c.pick(&ks).clone() } else { let l = c.len(64); c.nibbles(l) };
        if !m.contains_key(&k) {
            let v = c.value();
            u.insert(nibs(&k), v);
            u.delete(nibs(&k));
            ck(u == t, &format!("inserting and deleting 0x{} gives {} instead of {}", hex(&k), show(&of_trie(&u)), show(&g)))?;
        }
    }
    Ok(())
}

fn iterate<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie {}", show(&o));
    let t: N = to_trie(&o);
    let items: Vec<(K, E, bool)> = t.items().take(10_000).map(|(k, v)| (unnibs(&k), unvh(v), clean(&k))).collect();
    let keys: Vec<K> = t.keys().take(10_000).map(|k| unnibs(&k)).collect();
    let vals: Vec<E> = t.values().take(10_000).map(unvh).collect();
    ck(items.iter().all(|x| x.2), "a yielded key has bits set outside of its nibbles")?;
    let mut a: Vec<(K, E)> = items.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
    ck(keys == a.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "keys() differs from the keys of items()")?;
    ck(vals == a.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "values() differs from the values of items()")?;
    let mut w = entries(&o);
    a.sort();
    w.sort();
    let sh = |v: &Vec<(K, E)>| v.iter().map(|(k, e)| format!("0x{} {}", hex(k), se(e))).collect::<Vec<_>>();
    ck(a == w, &format!("iteration yields {:?}, expected {:?}", sh(&a), sh(&w)))
}

fn root_hash<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie {}", show(&o));
    let t: N = to_trie(&o);
    let (g, w) = (t.hash().0, root(&o));
    ck(g == w, &format!("root hash {} expected {}", bhex(&g), bhex(&w)))?;
    let g2 = t.hash().0;
    ck(g2 == w, &format!("second query gives root hash {} expected {}", bhex(&g2), bhex(&w)))
}

fn child_hashes<N: PartialTrie>(n: &Node<N>, c: &mut Ctx) -> R {
    match n {
        Node::Branch { children, .. } => {
            for x in children {
                if c.one_in(3) {
                    ck(x.hash().0 == root(&of_trie(&***x)), "hash of a child is stale")?;
                }
                child_hashes(&***x, c)?;
            }
        }
        Node::Extension { child, .. } => {
            if c.one_in(2) {
                ck(child.hash().0 == root(&of_trie(&***child)), "hash of a child is stale")?;
            }
            child_hashes(&***child, c)?;
        }
        _ => {}
    }
    Ok(())
}

/// A trie with the given one below its root.
fn parent<N: PartialTrie>(t: &N, branch: bool) -> N {
    let child: WrappedNode<N> = Arc::new(Box::new(t.clone()));
    if branch {
        let mut children: [WrappedNode<N>; 16] = std::array::from_fn(|_| Arc::new(Box::new(N::new(Node::Empty))));
        children[3] = child;
        children[9] = Arc::new(Box::new(to_trie(&O::Leaf(vec![1], vec![7]))));
        N::new(Node::Branch { children, value: vec![] })
    } else {
        N::new(Node::Extension { nibbles: nibs(&[5]), child })
    }
}

/// A non-empty part of a trie as a trie of its own.
fn descend(t: &H, c: &mut Ctx) -> Option<H> {
    let r = match &**t {
        Node::Branch { children, .. } => {
            let l: Vec<_> = children.iter().filter(|x| !matches!(&****x as &Node<H>, Node::Empty)).collect();
            if l.is_empty() {
                return None;
            }
            H::clone(&****c.pick(&l))
        }
        Node::Extension { child, .. } => H::clone(&***child),
        _ => return None,
    };
    Some(if c.one_in(2) { r } else { descend(&r, c).unwrap_or(r) })
}

fn cache(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie 0: {}", show(&o));
    let mut ts: Vec<H> = vec![to_trie(&o)];
    let mut ks: Vec<K> = entries(&o).into_iter().map(|x| x.0).collect();
    ks.extend(c.keys(n));
    ks.push(vec![]);
    for _ in 0..3 * n + 6 {
        let i = c.below(ts.len());
        let k = c.pick(&ks).clone();
        let cur = of_trie(&ts[i]);
        let blocked = into_hash(&cur, &k).is_some();
        match c.below(12) {
            0 | 1 => {
                if !blocked {
                    let v = c.value();
                    note!(c, "insert into {i}: 0x{} {}", hex(&k), bhex(&v));
                    ts[i].insert(nibs(&k), v);
                }
            }
            2 | 3 => {
                if !blocked {
                    note!(c, "delete from {i}: 0x{}", hex(&k));
                    ts[i].delete(nibs(&k));
                }
            }
            4 => {
                let es: Vec<(K, Vec<u8>)> = (0..c.below(4)).map(|_| (c.pick(&ks).clone(), c.value())).collect();
                note!(c, "extend {i}: {:?}", es.iter().map(|(k, v)| (hex(k), bhex(v))).collect::<Vec<_>>());
                // may stop part way at a hashed-out part
                let t = &mut ts[i];
                quiet(|| t.extend(es.iter().map(|(k, v)| (nibs(k), v.clone()))));
            }
            5 => {
                if ts.len() < 4 {
                    note!(c, "clone {i} as {}", ts.len());
                    let t = ts[i].clone();
                    ts.push(t);
                } else {
                    let j = c.below(ts.len());
                    note!(c, "clone {i} over {j}");
                    ts[j] = ts[i].clone();
                }
            }
            6 => {
                let m = c.partial(3);
                note!(c, "replace the root node of {i} by {}", show(&m));
                let u: H = to_trie(&m);
                let r: &mut Node<H> = &mut ts[i];
                *r = (*u).clone();
            }
            7 => {
                let w = ts[i].get(nibs(&k)).map(|x| x.to_vec());
                ck(w == lookup(&cur, &k), "lookup")?;
                note!(c, "hash queries below {i}");
                let t = ts[i].clone();
                child_hashes(&t, c)?;
            }
            8 => {
                note!(c, "hash of a parent of {i}");
                let t = parent(&ts[i], c.one_in(2));
                ck(t.hash().0 == root(&of_trie(&t)), "root hash of a parent of a trie is wrong")?;
            }
            9 => {
                if let Some(t) = descend(&ts[i], c) {
                    note!(c, "replace {i} by its part {}", show(&of_trie(&t)));
                    ts[i] = t;
                }
            }
            10 => {
                note!(c, "subset of {i} for no keys");
                let t = ts[i].clone();
                if let Some(Ok(u)) = quiet(|| create_trie_subset(&t, Vec::<Nibbles>::new())) {
                    ck(u.hash() == t.hash(), "root hash of a subset")?;
                }
            }
            _ => {}
        }
        let j = c.below(ts.len());
        if c.one_in(2) {
            note!(c, "hash of {j}");
            let (g, w) = (ts[j].hash().0, root(&of_trie(&ts[j])));
            ck(g == w, &format!("root hash {} but computed from scratch {}", bhex(&g), bhex(&w)))?;
        }
    }
    for (j, t) in ts.iter().enumerate() {
        let (g, w) = (t.hash().0, root(&of_trie(t)));
        ck(g == w, &format!("root hash of {j}: {} but computed from scratch {}", bhex(&g), bhex(&w)))?;
    }
    Ok(())
}

fn subset_keys(c: &mut Ctx, o: &O, n: usize) -> Vec<K> {
    let ks: Vec<K> = entries(o).into_iter().map(|x| x.0).collect();
    let pool = c.probes(&ks, n);
    let m = if c.one_in(8) { 0 } else { c.below(n + 1) };
    (0..m).map(|_| if c.one_in(3) || ks.is_empty() { c.pick(&pool).clone() } else { c.pick(&ks).clone() }).collect()
}

fn subset_err(o: &O, ks: &[K]) -> bool {
    ks.iter().any(|k| into_hash(o, k).map_or(false, |r| !r.is_empty()))
}

fn shk(ks: &[K]) -> Vec<String> {
    ks.iter().map(|k| format!("0x{}", hex(k))).collect()
}

fn subset_hash<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie {}", show(&o));
    let ks = subset_keys(c, &o, n);
    note!(c, "keys {:?}", shk(&ks));
    let t: N = to_trie(&o);
    if c.one_in(2) {
        t.hash();
    }
    if let Ok(s) = create_trie_subset(&t, ks.iter().map(|k| nibs(k))) {
        ck(s.hash() == t.hash(), &format!("root hash {:x} of the subset {} instead of {:x}", s.hash(), show(&of_trie(&s)), t.hash()))?;
        ck(s.hash().0 == root(&o), "root hash of the subset is not that of the trie")?;
        ck(root(&of_trie(&s)) == root(&o), "computed from scratch, the root hash of the subset is not that of the trie")?;
    }
    Ok(())
}

fn subset_content<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie {}", show(&o));
    let ks = subset_keys(c, &o, n);
    note!(c, "keys {:?}", shk(&ks));
    let t: N = to_trie(&o);
    let s = create_trie_subset(&t, ks.iter().map(|k| nibs(k)));
    match s {
        Err(_) => ck(subset_err(&o, &ks), "fails although no key continues into a hashed-out part"),
        Ok(s) => {
            ck(!subset_err(&o, &ks), "succeeds although a key continues into a hashed-out part")?;
            for k in &ks {
                let g = s.get(nibs(k)).map(|x| x.to_vec());
                ck(g == lookup(&o, k), &format!("lookup of 0x{} in the subset", hex(k)))?;
            }
            let r: Vec<&[u8]> = ks.iter().map(|k| &k[..]).collect();
            let w = subset(&o, &r);
            let g = of_trie(&s);
            ck(g == w, &format!("subset is {}, expected {}", show(&g), show(&w)))
        }
    }
}

fn subset_batch<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie {}", show(&o));
    let m = c.below(4) + 1;
    let kss: Vec<Vec<K>> = (0..m).map(|_| subset_keys(c, &o, n)).collect();
    for ks in &kss {
        note!(c, "keys {:?}", shk(ks));
    }
    let t: N = to_trie(&o);
    let b = create_trie_subsets(&t, kss.iter().map(|ks| ks.iter().map(|k| nibs(k)).collect::<Vec<_>>()));
    ck(of_trie(&t) == o, "the original trie changed")?;
    let one: Vec<_> = kss.iter().map(|ks| create_trie_subset(&to_trie::<N>(&o), ks.iter().map(|k| nibs(k)))).collect();
    match b {
        Err(_) => ck(one.iter().any(|x| x.is_err()), "the batch fails although each subset alone succeeds"),
        Ok(v) => {
            ck(one.iter().all(|x| x.is_ok()), "the batch succeeds although a subset alone fails")?;
            ck(v.len() == kss.len(), "number of subsets")?;
            for (i, (x, y)) in v.iter().zip(&one).enumerate() {
                let y = y.as_ref().unwrap();
                ck(of_trie(x) == of_trie(y), &format!("subset {i} is {} in the batch and {} alone", show(&of_trie(x)), show(&of_trie(y))))?;
                ck(x.hash() == y.hash(), &format!("root hash of subset {i}"))?;
            }
            Ok(())
        }
    }
}

fn mutate<N: PartialTrie>(c: &mut Ctx, t: &mut N, ks: &[K]) {
    let k = c.pick(ks).clone();
    match c.below(4) {
        0 => {
            let v = c.value();
            note!(c, "insert 0x{} {}", hex(&k), bhex(&v));
            quiet(|| t.insert(nibs(&k), v));
        }
        1 => {
            note!(c, "delete 0x{}", hex(&k));
            quiet(|| t.delete(nibs(&k)));
        }
        2 => {
            let es: Vec<(K, Vec<u8>)> = (0..2).map(|_| (c.pick(ks).clone(), c.value())).collect();
            note!(c, "extend {:?}", es.iter().map(|(k, v)| (hex(k), bhex(v))).collect::<Vec<_>>());
            quiet(|| t.extend(es.iter().map(|(k, v)| (nibs(k), v.clone()))));
        }
        _ => {
            let m = c.partial(2);
            note!(c, "replace the root node by {}", show(&m));
            let u: N = to_trie(&m);
            let r: &mut Node<N> = t;
            *r = (*u).clone();
        }
    }
}

fn clones<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie {}", show(&o));
    let mut ks: Vec<K> = entries(&o).into_iter().map(|x| x.0).collect();
    ks.extend(c.keys(3));
    ks.push(vec![]);
    let mut a: N = to_trie(&o);
    if c.one_in(2) {
        note!(c, "hash query before cloning");
        a.hash();
    }
    if c.one_in(2) {
        note!(c, "hash query of a parent before cloning");
        parent(&a, c.one_in(2)).hash();
    }
    let mut b = a.clone();
    ck(a == b, "a clone does not compare equal")?;
    // further clones, left alone
    let held: Vec<N> = (0..c.below(5)).map(|_| a.clone()).collect();
    note!(c, "{} further clones", held.len());
    if c.one_in(2) {
        note!(c, "hash query of the clone");
        b.hash();
        ck(a == b, "a clone does not compare equal after a hash query")?;
    }
    for _ in 0..4 {
        let first = c.one_in(2);
        note!(c, "on the {}:", if first { "original" } else { "clone" });
        let (x, y) = if first { (&mut a, &b) } else { (&mut b, &a) };
        let before = of_trie(y);
        let bi: Vec<_> = y.items().take(9999).collect();
        mutate(c, x, &ks);
        if c.one_in(2) {
            note!(c, "hash query of the changed one");
            x.hash();
        }
        if c.one_in(3) {
            note!(c, "hash query of a parent of the changed one");
            parent(x, c.one_in(2)).hash();
        }
        ck(of_trie(y) == before, "changing one of two clones changed the other")?;
        ck(y.items().take(9999).collect::<Vec<_>>() == bi, "changing one of two clones changed the iteration of the other")?;
        for k in &ks {
            ck(y.get(nibs(k)).map(|v| v.to_vec()) == lookup(&before, k), "changing one of two clones changed a lookup of the other")?;
        }
        if c.one_in(2) {
            ck(y.hash().0 == root(&before), "root hash of the unchanged clone is wrong")?;
        }
        ck((*x == *y) == (of_trie(x) == of_trie(y)), "equality does not depend on the nodes only")?;
    }
    for h in &held {
        ck(of_trie(h) == o, "changing clones changed another one")?;
        ck(h.hash().0 == root(&o), "root hash of a clone left alone is wrong")?;
    }
    Ok(())
}

/// One structural change somewhere in the tree.
fn perturb(c: &mut Ctx, o: &O) -> O {
    match o {
        O::Branch(ch, v) => {
            if c.one_in(6) {
                let mut v = v.clone();
                if v.is_empty() || c.one_in(2) { v.push(c.byte()) } else { v.pop(); }
                return O::Branch(ch.clone(), v);
            }
            let i = c.below(16);
            let mut ch = ch.clone();
            ch[i] = perturb(c, &ch[i]);
            O::Branch(ch, v.clone())
        }
        O::Ext(k, x) => {
            if c.one_in(3) {
                let k2 = c.near(k);
                return O::Ext(k2, x.clone());
            }
            O::Ext(k.clone(), Box::new(perturb(c, x)))
        }
        O::Leaf(k, v) => match c.below(3) {
            0 => O::Leaf(c.near(k), v.clone()),
            1 => {
                let mut v = v.clone();
                let i = c.below(v.len().max(1));
                if v.is_empty() || c.one_in(3) { v.push(c.byte()) } else { v[i] ^= 1 << c.below(8) }
                O::Leaf(k.clone(), v)
            }
            _ => O::Empty,
        },
        O::Hash(h) => {
            let mut h = *h;
            let i = c.below(32);
            h[i] ^= 1 << c.below(8);
            O::Hash(h)
        }
        O::Empty => if c.one_in(2) { O::Leaf(vec![1], vec![1]) } else { O::Hash([7; 32]) },
    }
}

fn equality<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    let p = match c.below(4) {
        0 => o.clone(),
        1 => c.partial(n),
        // the same root hash
        2 => c.hash_out(&o, 2),
        _ => perturb(c, &o),
    };
    note!(c, "trie {}\nother {}", show(&o), show(&p));
    let (a, b): (N, N) = (to_trie(&o), to_trie(&p));
    if c.one_in(2) {
        a.hash();
    }
    if c.one_in(2) {
        b.hash();
    }
    // hashing a parent reaches the caches of both
    if c.one_in(2) {
        parent(&a, true).hash();
        parent(&b, true).hash();
    }
    ck((a == b) == (o == p), &format!("compare {} but the nodes are {}", if a == b { "equal" } else { "different" }, if o == p { "equal" } else { "different" }))?;
    ck((b == a) == (o == p), "comparison is not symmetric")?;
    ck((*a == *b) == (o == p), "comparison of the nodes")
}

fn hashed_out<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = if c.one_in(2) {
        build_map(&c.map_h(n))
    } else {
        let o = build_map(&c.map(n));
        c.hash_out(&o, 2)
    };
    note!(c, "trie {}", show(&o));
    let ks: Vec<K> = entries(&o).into_iter().map(|x| x.0).collect();
    for k in c.probes(&ks, 6) {
        note!(c, "key 0x{}", hex(&k));
        let rest = into_hash(&o, &k);
        let t: N = to_trie(&o);
        let v = c.value();
        let (mut a, mut b) = (t.clone(), t.clone());
        let i = quiet(|| a.insert(nibs(&k), v)).is_some();
        let d = quiet(|| b.delete(nibs(&k))).is_some();
        match rest {
            Some(r) => {
                ck(!i, "inserting does not panic at a hashed-out part")?;
                ck(!d, "deleting does not panic at a hashed-out part")?;
                ck(t.get(nibs(&k)).is_none(), "lookup finds something in a hashed-out part")?;
                let s = create_trie_subset(&t, std::iter::once(nibs(&k)));
                ck(s.is_err() == !r.is_empty(), "subset creation does not report the hashed-out part")?;
            }
            None => {
                ck(i, "inserting panics without meeting a hashed-out part")?;
                ck(d, "deleting panics without meeting a hashed-out part")?;
                ck(create_trie_subset(&t, std::iter::once(nibs(&k))).is_ok(), "subset creation fails without meeting a hashed-out part")?;
            }
        }
    }
    Ok(())
}

fn piece(o: &O) -> K {
    match o {
        O::Ext(k, _) | O::Leaf(k, _) => k.clone(),
        _ => vec![],
    }
}

fn info(o: &O, pos: &[u8]) -> String {
    let mut k = pos.to_vec();
    k.extend(piece(o));
    let v = match o {
        O::Branch(_, v) | O::Leaf(_, v) => format!("0x{}", bhex(v)),
        _ => "N/A".into(),
    };
    format!("(key: 0x{} Value: {v}, Node type: {} Trie hash: {})", hex(&k), kind(o), bhex(&root(o)))
}

/// What a text says about a node, whatever the layout: hexadecimal words and the node type
/// (hash is a label as well).
fn facts(text: &str) -> (Vec<String>, Vec<String>) {
    let (mut h, mut n) = (vec![], vec![]);
    for w in words(text) {
        match w.strip_prefix("0x") {
            Some(d) => h.push(d.to_string()),
            None if w.len() == 64 => h.push(w),
            None if w != "hash" && KINDS.contains(&w.as_str()) => n.push(w),
            None => {}
        }
    }
    h.sort();
    (h, n)
}

const KINDS: [&str; 5] = ["empty", "hash", "branch", "extension", "leaf"];

fn words(text: &str) -> Vec<String> {
    text.to_lowercase().split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}

/// What a printed query says in order, and the found flag, whatever the layout.
fn told(text: &str) -> (Vec<String>, Vec<String>) {
    let ws = words(text);
    let (b, rest): (Vec<_>, Vec<_>) = ws.into_iter().partition(|w| w == "true" || w == "false");
    (rest.into_iter().filter(|w| w.starts_with("0x") || KINDS.contains(&w.as_str())).collect(), b)
}

fn subsequence(a: &[String], b: &[String]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| x == y))
}

fn diff(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    let p = match c.below(5) {
        0 => c.partial(n),
        1 => {
            let d = c.below(4);
            c.hash_out(&o, d)
        }
        _ => {
            // change some entries of the same content
            let mut m: Map = entries(&o).into_iter().collect();
            let ks: Vec<K> = m.keys().cloned().collect();
            for _ in 0..c.below(3) {
                let Some(k) = (!ks.is_empty()).then(|| c.pick(&ks).clone()) else { break };
                match c.below(3) {
                    0 => {
                        m.remove(&k);
                    }
                    1 => {
                        let e = match m.get(&k) { Some(E::Hash(_)) => E::Hash(c.hash32()), _ => E::Val(c.value()) };
                        m.insert(k, e);
                    }
                    _ => {
                        let k2 = c.near(&k);
                        if !m.contains_key(&k2) && !m.iter().any(|(q, e)| matches!(e, E::Hash(_)) && (k2.starts_with(q) )) {
                            let v = c.value();
                            m.insert(k2, E::Val(v));
                        }
                    }
                }
            }
            if m.iter().any(|(q, e)| matches!(e, E::Hash(_)) && m.keys().any(|k| k != q && k.starts_with(q))) {
                return Ok(());
            }
            build_map(&m)
        }
    };
    note!(c, "a {}\nb {}", show(&o), show(&p));
    let (a, b): (H, H) = (to_trie(&o), to_trie(&p));
    let d = create_diff_between_tries(&a, &b);
    let same = root(&o) == root(&p);
    match d.latest_diff_res {
        None => ck(same, "no difference reported although the root hashes differ"),
        Some(x) => {
            ck(!same, "difference reported although the root hashes are equal")?;
            let pos = unnibs(&x.key);
            let (Some(na), Some(nb)) = (at(&o, &pos), at(&p, &pos)) else {
                return Err(format!("reported position 0x{} has no node in both tries", hex(&pos)));
            };
            ck(root(na) != root(nb), &format!("the nodes at the reported position 0x{} do not differ", hex(&pos)))?;
            let (ia, ib) = (info(na, &pos), info(nb, &pos));
            let (ga, gb) = (format!("{}", x.a_info), format!("{}", x.b_info));
            ck(facts(&ga) == facts(&ia), &format!("first node described as {ga}, is {ia}"))?;
            ck(facts(&gb) == facts(&ib), &format!("second node described as {gb}, is {ib}"))
        }
    }
}

fn path(o: &O, k: &[u8], out: &mut Vec<String>, nibs: bool) -> bool {
    let mut say = |t: &str, p: &[u8]| {
        out.push(t.into());
        if nibs {
            out.push(format!("0x{}", hex(p)));
        }
    };
    match o {
        O::Empty => {
            out.push("empty".into());
            false
        }
        O::Hash(_) => {
            out.push("hash".into());
            k.is_empty()
        }
        O::Branch(c, _) => {
            if k.is_empty() {
                out.push("branch".into());
                return true;
            }
            say("branch", &k[..1]);
            path(&c[k[0] as usize], &k[1..], out, nibs)
        }
        O::Ext(p, c) => {
            say("extension", p);
            match k.strip_prefix(&p[..]) {
                Some(r) => path(c, r, out, nibs),
                None => false,
            }
        }
        O::Leaf(p, _) => {
            say("leaf", p);
            k == &p[..]
        }
    }
}

fn query<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie {}", show(&o));
    let t: N = to_trie(&o);
    let ks: Vec<K> = entries(&o).into_iter().map(|x| x.0).collect();
    for k in c.probes(&ks, 6) {
        note!(c, "query 0x{}", hex(&k));
        let mut out = vec![format!("0x{}", hex(&k))];
        let found = path(&o, &k, &mut out, true);
        let g = format!("{}", get_path_from_query(&*t, nibs(&k)));
        let (said, flag) = told(&g);
        ck(said == out, &format!("reported:\n{g}\nexpected:\n{out:?}"))?;
        ck(flag == [format!("{found}")], &format!("reported:\n{g}\nexpected found: {found}"))?;
        if c.one_in(3) {
            // other values of the nodes may be among those
            let q = DebugQueryParamsBuilder::default().print_node_specific_values(true).build(nibs(&k));
            let g = format!("{}", get_path_from_query(&*t, q));
            let (said, flag) = told(&g);
            ck(subsequence(&out, &said) && flag == [format!("{found}")], &format!("reported with node specific values:\n{g}\nexpected:\n{out:?} {found}"))?;
        }
        if c.one_in(6) {
            let mut out = vec![format!("0x{}", hex(&k))];
            path(&o, &k, &mut out, false);
            let q = DebugQueryParamsBuilder::default().print_key_pieces(false).build(nibs(&k));
            let g = format!("{}", get_path_from_query(&*t, q));
            ck(told(&g).0 == out, &format!("reported without nibbles:\n{g}\nexpected:\n{out:?}"))?;
        }
    }
    Ok(())
}

#[derive(Default)]
struct St {
    n: [u64; 5],
    leaf: u64,
    hash: u64,
    low: usize,
}

fn count(o: &O, d: usize, s: &mut St) {
    match o {
        O::Empty => s.n[0] += 1,
        O::Hash(_) => {
            s.n[1] += 1;
            s.hash += d as u64;
            s.low = s.low.max(d);
        }
        O::Branch(c, _) => {
            s.n[2] += 1;
            c.iter().for_each(|c| count(c, d + 1, s));
        }
        O::Ext(_, c) => {
            s.n[3] += 1;
            count(c, d + 1, s);
        }
        O::Leaf(..) => {
            s.n[4] += 1;
            s.leaf += d as u64;
            s.low = s.low.max(d);
        }
    }
}

/// The numbers that follow a label in the first line that has it. The layout of the
/// text is not claimed: a label that is not there gives none.
fn figures(text: &str, label: &str) -> Vec<String> {
    let low = text.to_lowercase();
    let Some(at) = low.lines().find_map(|l| l.find(label).map(|i| l[i + label.len()..].to_string())) else { return vec![] };
    let mut out = vec![];
    let mut cur = String::new();
    for ch in at.chars().chain(" ".chars()) {
        if ch.is_ascii_alphanumeric() || ch == '.' {
            cur.push(ch);
        } else {
            let t = std::mem::take(&mut cur);
            if t.starts_with(|c: char| c.is_ascii_digit()) && t.parse::<f64>().is_ok() {
                out.push(t);
            } else if !t.is_empty() && out.is_empty() && t != "count" && t != "nodes" {
                // something else than the figure
                return vec![];
            }
        }
    }
    out
}

/// Is the figure printed that of the trie, at the precision printed?
fn shown(g: &str, w: f32) -> bool {
    let d = g.split('.').nth(1).map_or(0, |x| x.len());
    *g == format!("{w:.d$}")
}

fn counted(o: &O) -> (St, [Option<f32>; 3]) {
    let mut s = St::default();
    count(o, 0, &mut s);
    let avg = |a: u64, b: u64| (b > 0).then(|| a as f32 / b as f32);
    let ds = [Some(s.low as f32), avg(s.leaf, s.n[4]), avg(s.hash, s.n[1])];
    (s, ds)
}

fn stats<N: PartialTrie>(c: &mut Ctx) -> R {
    let n = c.n();
    let o = c.partial(n);
    note!(c, "trie {}", show(&o));
    let t: N = to_trie(&o);
    let (s, ds) = counted(&o);
    let st = get_trie_stats(&t);
    let named = get_trie_stats_with_name(&t, "x".into());
    for g in [format!("{st}"), format!("{named}")] {
        for (i, k) in ["empty", "hash", "branch", "extension", "leaf"].iter().enumerate() {
            if let Some(x) = figures(&g, k).first() {
                ck(shown(x, s.n[i] as f32), &format!("reported {x} {k} nodes, counted {}:\n{g}", s.n[i]))?;
            }
        }
        for (k, w) in ["lowest depth", "average leaf depth", "average hash depth"].iter().zip(ds) {
            if let (Some(x), Some(w)) = (figures(&g, k).first(), w) {
                ck(shown(x, w), &format!("reported {k} {x}, expected {w}:\n{g}"))?;
            }
        }
    }
    let p = c.partial(n);
    note!(c, "other {}", show(&p));
    let u: N = to_trie(&p);
    let (z, dz) = counted(&p);
    let g = format!("{}", st.compare(&get_trie_stats(&u)));
    let tot = |s: &St| s.n.iter().sum::<u64>();
    let mut w = vec![("total nodes", tot(&s) as f32, tot(&z) as f32), ("non-empty", (tot(&s) - s.n[0]) as f32, (tot(&z) - z.n[0]) as f32)];
    for (i, k) in ["total empty", "total hash", "total branch", "total extension", "total leaf"].iter().enumerate() {
        w.push((k, s.n[i] as f32, z.n[i] as f32));
    }
    for (i, k) in ["lowest depth", "avg leaf depth", "avg hash depth"].iter().enumerate() {
        if let (Some(a), Some(b)) = (ds[i], dz[i]) {
            w.push((k, a, b));
        }
    }
    for (k, a, b) in w {
        if let [x, y, ..] = &figures(&g, k)[..] {
            ck(shown(x, a) && shown(y, b), &format!("comparison reports {k} {x} and {y}, expected {a} and {b}:\n{g}"))?;
        }
    }
    Ok(())
}

fn bulk<N: PartialTrie + FromIterator<(eth_trie_utils::nibbles::Nibbles, ValOrHash)>>(c: &mut Ctx) -> R {
    let n = c.n();
    let mut ks = c.keys(n);
    let mut len = n + 1;
    // few keys many times over
    if c.one_in(6) {
        let few = 1 + c.below(3);
        ks.truncate(few);
        len += c.below(60);
    }
    let mut es: Vec<(K, E)> = vec![];
    for _ in 0..len {
        if ks.is_empty() {
            break;
        }
        let k = c.pick(&ks).clone();
        // sometimes a value that was there before
        let e = if !es.is_empty() && c.one_in(4) { c.pick(&es).1.clone() } else { E::Val(c.value()) };
        es.push((k, e));
    }
    let o = if c.one_in(2) { O::Empty } else { c.partial(n) };
    es.retain(|(k, _)| into_hash(&o, k).is_none());
    note!(c, "start {}", show(&o));
    note!(c, "entries {:?}", es.iter().map(|(k, e)| format!("0x{} {}", hex(k), se(e))).collect::<Vec<_>>());
    let mut a: N = to_trie(&o);
    let mut b: N = to_trie(&o);
    if c.one_in(2) {
        a.hash();
    }
    a.extend(es.iter().map(|(k, e)| (nibs(k), vh(e))));
    for (k, e) in &es {
        b.insert(nibs(k), vh(e));
    }
    ck(of_trie(&a) == of_trie(&b), &format!("extending gives {}, inserting one by one {}", show(&of_trie(&a)), show(&of_trie(&b))))?;
    ck(a.hash() == b.hash(), "root hashes of the extended and the sequentially built trie differ")?;
    for (k, _) in &es {
        let w = es.iter().rev().find(|(q, _)| q == k).map(|x| &x.1);
        if let Some(E::Val(v)) = w {
            ck(a.get(nibs(k)) == Some(&v[..]), "the last entry of a repeated key does not win")?;
        }
    }
    let f: N = es.iter().map(|(k, e)| (nibs(k), vh(e))).collect();
    let mut d = N::default();
    for (k, e) in &es {
        d.insert(nibs(k), vh(e));
    }
    ck(of_trie(&f) == of_trie(&d) && f == d, &format!("building gives {}, inserting one by one {}", show(&of_trie(&f)), show(&of_trie(&d))))?;
    ck(f.hash() == d.hash(), "root hashes of the built and the sequentially built trie differ")
}

pub fn check_stored_value<V: Into<ValOrHash> + Clone>(c: &mut Ctx, v: V, want: &[u8]) -> R {
    let ks = c.keys(2);
    let ks = if ks.is_empty() { vec![vec![1]] } else { ks };
    let mut a = S::default();
    let mut b = H::default();
    for k in &ks {
        a.insert(nibs(k), v.clone());
        b.insert(nibs(k), v.clone());
    }
    for k in &ks {
        ck(a.get(nibs(k)) == Some(want) && b.get(nibs(k)) == Some(want), &format!("a lookup of 0x{} does not return the bytes given", hex(k)))?;
    }
    Ok(())
}

pub fn check_stored_hash(c: &mut Ctx, h: [u8; 32]) -> R {
    let l = c.len(64);
    let k = c.nibbles(l);
    let mut a = S::default();
    a.insert(nibs(&k), H256(h));
    ck(entries(&of_trie(&a)) == vec![(k, E::Hash(h))], "a hash is not stored as a hash")
}
