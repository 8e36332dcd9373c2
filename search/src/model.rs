//! Independent reference model: entry maps, canonical node trees, RLP and root hashes.
use eth_trie_utils::{
    nibbles::Nibbles,
    partial_trie::{Node, PartialTrie, WrappedNode},
};
use ethereum_types::{H256, U512};
use std::collections::BTreeMap;
use std::sync::Arc;

pub type K = Vec<u8>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E {
    Val(Vec<u8>),
    Hash([u8; 32]),
}
pub type Map = BTreeMap<K, E>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum O {
    Empty,
    Hash([u8; 32]),
    Branch(Vec<O>, Vec<u8>),
    Ext(K, Box<O>),
    Leaf(K, Vec<u8>),
}

pub fn nibs(k: &[u8]) -> Nibbles {
    assert!(k.len() <= 127);
    let mut packed = U512::zero();
    for n in k {
        packed = (packed << 4) | U512::from(*n);
    }
    Nibbles { count: k.len(), packed }
}

pub fn unnibs(n: &Nibbles) -> K {
    let mut v = vec![0u8; n.count];
    let mut p = n.packed;
    for i in (0..n.count).rev() {
        v[i] = (p.low_u64() & 15) as u8;
        p = p >> 4;
    }
    v
}

/// No bits outside of the sequence.
pub fn clean(n: &Nibbles) -> bool {
    n.count >= 128 || (n.packed >> (4 * n.count)).is_zero()
}

pub fn hex(k: &[u8]) -> String {
    k.iter().map(|n| char::from_digit(*n as u32, 16).unwrap()).collect()
}

pub fn bhex(k: &[u8]) -> String {
    k.iter().map(|n| format!("{n:02x}")).collect()
}

pub fn build(es: &[(K, E)]) -> O {
    match es {
        [] => O::Empty,
        [(k, E::Val(v))] => O::Leaf(k.clone(), v.clone()),
        [(k, E::Hash(h))] if k.is_empty() => O::Hash(*h),
        [(k, E::Hash(h))] => O::Ext(k.clone(), Box::new(O::Hash(*h))),
        _ => {
            let f = &es[0].0;
            let mut p = f.len();
            for (k, _) in es {
                p = p.min(k.iter().zip(f).take_while(|(a, b)| a == b).count());
            }
            if p > 0 {
                let r: Vec<_> = es.iter().map(|(k, e)| (k[p..].to_vec(), e.clone())).collect();
                return O::Ext(f[..p].to_vec(), Box::new(build(&r)));
            }
            let mut value = vec![];
            let mut ch: Vec<Vec<(K, E)>> = vec![vec![]; 16];
            for (k, e) in es {
                if k.is_empty() {
                    if let E::Val(v) = e {
                        value = v.clone();
                    } else {
                        panic!("hash as branch value")
                    }
                } else {
                    ch[k[0] as usize].push((k[1..].to_vec(), e.clone()));
                }
            }
            O::Branch(ch.iter().map(|c| build(c)).collect(), value)
        }
    }
}

pub fn build_map(m: &Map) -> O {
    let v: Vec<_> = m.iter().map(|(k, e)| (k.clone(), e.clone())).collect();
    build(&v)
}

pub fn to_trie<N: PartialTrie>(o: &O) -> N {
    let w = |o: &O| -> WrappedNode<N> { Arc::new(Box::new(to_trie(o))) };
    N::new(match o {
        O::Empty => Node::Empty,
        O::Hash(h) => Node::Hash(H256(*h)),
        O::Branch(c, v) => {
            let children: [WrappedNode<N>; 16] = std::array::from_fn(|i| w(&c[i]));
            Node::Branch { children, value: v.clone() }
        }
        O::Ext(k, c) => Node::Extension { nibbles: nibs(k), child: w(c) },
        O::Leaf(k, v) => Node::Leaf { nibbles: nibs(k), value: v.clone() },
    })
}

pub fn of_trie<N: PartialTrie>(n: &Node<N>) -> O {
    match n {
        Node::Empty => O::Empty,
        Node::Hash(h) => O::Hash(h.0),
        Node::Branch { children, value } => O::Branch(children.iter().map(|c| of_trie(&***c)).collect(), value.clone()),
        Node::Extension { nibbles, child } => O::Ext(unnibs(nibbles), Box::new(of_trie(&***child))),
        Node::Leaf { nibbles, value } => O::Leaf(unnibs(nibbles), value.clone()),
    }
}

pub fn entries(o: &O) -> Vec<(K, E)> {
    fn go(o: &O, p: &mut K, out: &mut Vec<(K, E)>) {
        match o {
            O::Empty => {}
            O::Hash(h) => out.push((p.clone(), E::Hash(*h))),
            O::Branch(c, v) => {
                if !v.is_empty() {
                    out.push((p.clone(), E::Val(v.clone())));
                }
                for (i, c) in c.iter().enumerate() {
                    p.push(i as u8);
                    go(c, p, out);
                    p.pop();
                }
            }
            O::Ext(k, c) => {
                p.extend(k);
                go(c, p, out);
                p.truncate(p.len() - k.len());
            }
            O::Leaf(k, v) => {
                let mut q = p.clone();
                q.extend(k);
                out.push((q, E::Val(v.clone())));
            }
        }
    }
    let mut out = vec![];
    go(o, &mut vec![], &mut out);
    out
}

pub fn lookup(o: &O, k: &[u8]) -> Option<Vec<u8>> {
    match o {
        O::Empty | O::Hash(_) => None,
        O::Branch(_, v) if k.is_empty() => (!v.is_empty()).then(|| v.clone()),
        O::Branch(c, _) => lookup(&c[k[0] as usize], &k[1..]),
        O::Ext(p, c) => k.strip_prefix(&p[..]).and_then(|r| lookup(c, r)),
        O::Leaf(p, v) => (k == &p[..]).then(|| v.clone()),
    }
}

fn rlp_len(len: usize, base: u8, out: &mut Vec<u8>) {
    if len < 56 {
        out.push(base + len as u8);
    } else {
        let b = len.to_be_bytes();
        let s = b.iter().position(|x| *x != 0).unwrap();
        out.push(base + 55 + (8 - s) as u8);
        out.extend(&b[s..]);
    }
}

pub fn rlp_str(b: &[u8], out: &mut Vec<u8>) {
    if b.len() == 1 && b[0] < 0x80 {
        out.push(b[0]);
    } else {
        rlp_len(b.len(), 0x80, out);
        out.extend(b);
    }
}

fn rlp_list(p: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    rlp_len(p.len(), 0xc0, &mut o);
    o.extend(p);
    o
}

pub fn hp(k: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2 } else { 0 };
    let mut n: Vec<u8> = if k.len() % 2 == 1 { vec![f + 1] } else { vec![f, 0] };
    n.extend(k);
    n.chunks(2).map(|c| c[0] * 16 + c[1]).collect()
}

/// Full RLP encoding of a node (hash nodes have none).
pub fn enc(o: &O) -> Vec<u8> {
    match o {
        O::Empty => vec![0x80],
        O::Hash(_) => unreachable!(),
        O::Branch(c, v) => {
            let mut p = vec![];
            for x in c {
                put(x, &mut p);
            }
            rlp_str(v, &mut p);
            rlp_list(&p)
        }
        O::Ext(k, c) => {
            let mut p = vec![];
            rlp_str(&hp(k, false), &mut p);
            put(c, &mut p);
            rlp_list(&p)
        }
        O::Leaf(k, v) => {
            let mut p = vec![];
            rlp_str(&hp(k, true), &mut p);
            rlp_str(v, &mut p);
            rlp_list(&p)
        }
    }
}

fn put(o: &O, p: &mut Vec<u8>) {
    if let O::Hash(h) = o {
        rlp_str(h, p);
        return;
    }
    let e = enc(o);
    if e.len() < 32 {
        p.extend(e)
    } else {
        rlp_str(&keccak_hash::keccak(&e).0, p)
    }
}

/// The hash replacing the node in its parent, if it is not inlined.
pub fn node_ref(o: &O) -> Option<[u8; 32]> {
    if let O::Hash(h) = o {
        return Some(*h);
    }
    let e = enc(o);
    (e.len() >= 32).then(|| keccak_hash::keccak(&e).0)
}

pub fn root(o: &O) -> [u8; 32] {
    match o {
        O::Hash(h) => *h,
        _ => keccak_hash::keccak(&enc(o)).0,
    }
}

/// Does the key end at or continue below a hashed-out node?  Some(rest).
pub fn into_hash<'a>(o: &O, k: &'a [u8]) -> Option<&'a [u8]> {
    match o {
        O::Hash(_) => Some(k),
        O::Branch(c, _) if !k.is_empty() => into_hash(&c[k[0] as usize], &k[1..]),
        O::Ext(p, c) => k.strip_prefix(&p[..]).and_then(|r| into_hash(c, r)),
        _ => None,
    }
}

/// Position of a node: the node reached after exactly `k`.
pub fn at<'a>(o: &'a O, k: &[u8]) -> Option<&'a O> {
    if k.is_empty() {
        return Some(o);
    }
    match o {
        O::Branch(c, _) => at(&c[k[0] as usize], &k[1..]),
        O::Ext(p, c) => k.strip_prefix(&p[..]).and_then(|r| at(c, r)),
        _ => None,
    }
}

pub fn subset(o: &O, keys: &[&[u8]]) -> O {
    if keys.is_empty() {
        if let Some(h) = node_ref(o) {
            return O::Hash(h);
        }
    }
    match o {
        O::Branch(c, v) => {
            let c = (0..16u8)
                .map(|i| {
                    let ks: Vec<&[u8]> = keys.iter().filter(|k| k.first() == Some(&i)).map(|k| &k[1..]).collect();
                    subset(&c[i as usize], &ks)
                })
                .collect();
            O::Branch(c, v.clone())
        }
        O::Ext(p, c) => {
            let ks: Vec<&[u8]> = keys.iter().filter_map(|k| k.strip_prefix(&p[..])).collect();
            O::Ext(p.clone(), Box::new(subset(c, &ks)))
        }
        x => x.clone(),
    }
}

pub fn kind(o: &O) -> &'static str {
    match o {
        O::Empty => "Empty",
        O::Hash(_) => "Hash",
        O::Branch(..) => "Branch",
        O::Ext(..) => "Extension",
        O::Leaf(..) => "Leaf",
    }
}

pub fn show(o: &O) -> String {
    match o {
        O::Empty => "E".into(),
        O::Hash(h) => format!("H({}..)", bhex(&h[..4])),
        O::Branch(c, v) => {
            let s: Vec<_> = c.iter().enumerate().filter(|(_, c)| **c != O::Empty).map(|(i, c)| format!("{i:x}:{}", show(c))).collect();
            format!("B[{}; v={}]", s.join(" "), bhex(v))
        }
        O::Ext(k, c) => format!("X({} -> {})", hex(k), show(c)),
        O::Leaf(k, v) => format!("L({} = {})", hex(k), bhex(v)),
    }
}
