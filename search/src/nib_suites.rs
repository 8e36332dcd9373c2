use crate::gen::*;
use crate::model::*;
use crate::Case;
use eth_trie_utils::nibbles::{Nibbles, ToNibbles};
use eth_trie_utils::trie_ops::ValOrHash;
use ethereum_types::{H256, U128, U256, U512};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

pub fn suites(p: &str) -> Vec<(&'static str, Case)> {
    match p {
        "C11" => vec![("nibble-ops", ops), ("nibble-compare", compare)],
        "C12" => vec![("bytes", bytes), ("integers", integers), ("text", text)],
        "C13" => vec![("hex-prefix", hex_prefix), ("hex-prefix-decode", hp_decode)],
        "C20" => vec![("values", values)],
        _ => vec![],
    }
}

fn seq(r: Nibbles, want: &[u8], what: &str) -> Result<(), String> {
    if r.count != want.len() || unnibs(&r) != want {
        return Err(format!("{what}: got {} nibbles 0x{}, expected 0x{}", r.count, hex(&unnibs(&r)), hex(want)));
    }
    if !clean(&r) {
        return Err(format!("{what}: bits outside of the sequence are set"));
    }
    if r != nibs(want) {
        return Err(format!("{what}: not equal to the same sequence"));
    }
    Ok(())
}

fn ck(b: bool, what: &str) -> Result<(), String> {
    if b {
        Ok(())
    } else {
        Err(what.to_string())
    }
}

fn ops(c: &mut Ctx) -> Result<(), String> {
    let l = c.len(64);
    let k = c.nibbles(l);
    let n = nibs(&k);
    note!(c, "sequence 0x{} (count {l})", hex(&k));
    ck(n.is_empty() == (l == 0), "is_empty")?;
    seq(n.reverse(), &k.iter().rev().copied().collect::<Vec<_>>(), "reverse")?;
    if l > 0 {
        for i in 0..l {
            ck(n.get_nibble(i) == k[i], &format!("get_nibble({i})"))?;
        }
        let mut m = n;
        ck(m.pop_next_nibble_front() == k[0], "pop_next_nibble_front")?;
        seq(m, &k[1..], "rest after pop_next_nibble_front")?;
        let mut m = n;
        ck(m.pop_next_nibble_back() == k[l - 1], "pop_next_nibble_back")?;
        seq(m, &k[..l - 1], "rest after pop_next_nibble_back")?;
    }
    let i = c.below(l + 1);
    let j = i + c.below(l - i + 1);
    note!(c, "i {i} j {j}");
    seq(n.get_next_nibbles(i), &k[..i], "get_next_nibbles(i)")?;
    seq(n.get_nibble_range(i..j), &k[i..j], "get_nibble_range(i..j)")?;
    let mut m = n;
    seq(m.pop_nibbles_front(i), &k[..i], "pop_nibbles_front(i)")?;
    seq(m, &k[i..], "rest after pop_nibbles_front(i)")?;
    let mut m = n;
    let back: Vec<u8> = k[l - i..].iter().rev().copied().collect();
    seq(m.pop_nibbles_back(i), &back, "pop_nibbles_back(i)")?;
    seq(m, &k[..l - i], "rest after pop_nibbles_back(i)")?;
    let (a, b) = n.split_at_idx(i);
    seq(a, &k[..i], "split_at_idx(i).0")?;
    seq(b, &k[i..], "split_at_idx(i).1")?;
    seq(n.split_at_idx_prefix(i), &k[..i], "split_at_idx_prefix(i)")?;
    seq(n.split_at_idx_postfix(i), &k[i..], "split_at_idx_postfix(i)")?;
    let t = if c.one_in(4) { c.len(200) } else { i };
    let f = t.min(l);
    note!(c, "t {t}");
    seq(n.truncate_n_nibbles_front(t), &k[f..], "truncate_n_nibbles_front(t)")?;
    seq(n.truncate_n_nibbles_back(t), &k[..l - f], "truncate_n_nibbles_back(t)")?;
    let mut m = n;
    m.truncate_n_nibbles_front_mut(t);
    seq(m, &k[f..], "truncate_n_nibbles_front_mut(t)")?;
    let mut m = n;
    m.truncate_n_nibbles_back_mut(t);
    seq(m, &k[..l - f], "truncate_n_nibbles_back_mut(t)")?;
    let x = c.nib();
    note!(c, "nibble {x:x}");
    seq(Nibbles::from_nibble(x), &[x], "from_nibble")?;
    if l < 64 {
        let mut w = k.clone();
        w.push(x);
        seq(n.merge_nibble(x), &w, "merge_nibble")?;
        let mut m = n;
        m.push_nibble_back(x);
        seq(m, &w, "push_nibble_back")?;
        let mut w = vec![x];
        w.extend(&k);
        let mut m = n;
        m.push_nibble_front(x);
        seq(m, &w, "push_nibble_front")?;
    }
    let l2 = c.len(64 - l);
    let k2 = c.nibbles(l2);
    note!(c, "other sequence 0x{}", hex(&k2));
    let n2 = nibs(&k2);
    let mut w = k.clone();
    w.extend(&k2);
    seq(n.merge_nibbles(&n2), &w, "merge_nibbles")?;
    let mut m = n2;
    m.push_nibbles_front(&n);
    seq(m, &w, "push_nibbles_front")?;
    ck(n.min_bytes() == (l + 1) / 2, "min_bytes")
}

fn compare(c: &mut Ctx) -> Result<(), String> {
    let l = c.len(64);
    let a = c.nibbles(l);
    let b = if c.one_in(5) {
        let l = c.len(64);
        c.nibbles(l)
    } else {
        c.near(&a)
    };
    note!(c, "a 0x{} b 0x{}", hex(&a), hex(&b));
    let (na, nb) = (nibs(&a), nibs(&b));
    ck((na == nb) == (a == b), "equality")?;
    let s = a.len().min(b.len());
    ck(na.nibbles_are_identical_up_to_smallest_count(&nb) == (a[..s] == b[..s]), "nibbles_are_identical_up_to_smallest_count")?;
    let d = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let r = Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&na, &nb);
    ck(r == d, &format!("find_nibble_idx_that_differs (different lengths) = {r}, expected {d}"))?;
    if a.len() == b.len() {
        let r = Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&na, &nb);
        ck(r == d, &format!("find_nibble_idx_that_differs (equal lengths) = {r}, expected {d}"))?;
    }
    Ok(())
}

fn bytes_to_nibs(b: &[u8]) -> K {
    b.iter().flat_map(|x| [x >> 4, x & 15]).collect()
}

fn bytes(c: &mut Ctx) -> Result<(), String> {
    let l = c.len(40);
    let b = c.bytes(l);
    note!(c, "bytes {}", bhex(&b));
    let be = Nibbles::from_bytes_be(&b);
    let le = Nibbles::from_bytes_le(&b);
    if l == 0 || l > 33 {
        ck(be.is_err() && le.is_err(), "empty or over-long bytes must be rejected")?;
    } else if l <= 32 {
        let n = be.map_err(|e| format!("from_bytes_be: {e}"))?;
        seq(n, &bytes_to_nibs(&b), "from_bytes_be")?;
        ck(n.bytes_be() == b, "bytes_be after from_bytes_be")?;
        let mut r = b.clone();
        r.reverse();
        let n = le.map_err(|e| format!("from_bytes_le: {e}"))?;
        seq(n, &bytes_to_nibs(&r), "from_bytes_le")?;
        ck(n.bytes_be() == r, "bytes_be after from_bytes_le")?;
    }
    let h = c.hash32();
    note!(c, "hash {}", bhex(&h));
    seq(Nibbles::from_h256_be(H256(h)), &bytes_to_nibs(&h), "from_h256_be")?;
    ck(Nibbles::from_h256_be(H256(h)).bytes_be() == h, "bytes_be after from_h256_be")?;
    let mut r = h;
    r.reverse();
    seq(Nibbles::from_h256_le(H256(h)), &bytes_to_nibs(&r), "from_h256_le")?;
    // odd sequences
    let l = c.len(64);
    let k = c.nibbles(l);
    note!(c, "sequence 0x{}", hex(&k));
    let mut p = k.clone();
    if l % 2 == 1 {
        p.insert(0, 0);
    }
    let want: Vec<u8> = p.chunks(2).map(|x| x[0] * 16 + x[1]).collect();
    ck(nibs(&k).bytes_be() == want, "bytes_be")?;
    ck(nibs(&k).min_bytes() == want.len(), "min_bytes")?;
    let u = nibs(&k).try_into_u256().map_err(|e| format!("try_into_u256: {e}"))?;
    ck(U512::from(u) == nibs(&k).packed, "try_into_u256")
}

fn wide(c: &mut Ctx, bits: usize) -> U512 {
    let z = c.below(bits + 1);
    let mut b = [0u8; 64];
    for x in b.iter_mut() {
        *x = c.byte();
    }
    let v = U512::from_big_endian(&b);
    let v = match c.below(6) {
        0 => U512::zero(),
        1 => {
            let l = c.dict.lits.clone();
            U512::from(*c.pick(&l))
        }
        2 => U512::one() << z.min(511),
        3 => {
            if z == 0 {
                U512::zero()
            } else {
                U512::max_value() >> (512 - z)
            }
        }
        _ => {
            if z == 0 {
                U512::zero()
            } else {
                v >> (512 - z)
            }
        }
    };
    if bits == 512 {
        v
    } else {
        v & ((U512::one() << bits) - 1)
    }
}

fn digits(v: U512) -> K {
    let mut k = vec![];
    let mut v = v;
    while !v.is_zero() {
        k.insert(0, (v.low_u64() & 15) as u8);
        v = v >> 4;
    }
    k
}

fn pad(k: &K) -> K {
    let mut k = k.clone();
    if k.len() % 2 == 1 {
        k.insert(0, 0);
    }
    k
}

fn integers(c: &mut Ctx) -> Result<(), String> {
    macro_rules! go {
        ($v:expr, $w:expr, $n:expr) => {{
            let (v, w) = ($v, $w);
            note!(c, "{} {v:?}", $n);
            let d = digits(w);
            if d.len() < 128 {
                seq(v.to_nibbles(), &d, concat!("to_nibbles of ", $n))?;
                seq(Nibbles::from(v), &d, concat!("from ", $n))?;
                let p = pad(&d);
                if p.len() < 128 {
                    seq(v.to_nibbles_byte_padded(), &p, concat!("to_nibbles_byte_padded of ", $n))?;
                }
            }
        }};
    }
    let w = wide(c, 8);
    go!(w.low_u64() as u8, w, "u8");
    let w = wide(c, 16);
    go!(w.low_u64() as u16, w, "u16");
    let w = wide(c, 32);
    go!(w.low_u64() as u32, w, "u32");
    let w = wide(c, 64);
    go!(w.low_u64(), w, "u64");
    let w = wide(c, 128);
    go!(U128::try_from(w).unwrap(), w, "U128");
    let w = wide(c, 256);
    go!(U256::try_from(w).unwrap(), w, "U256");
    let w = wide(c, 504);
    go!(w, w, "U512");
    ck(Nibbles::get_num_nibbles_in_key(&w) == digits(w).len(), "get_num_nibbles_in_key")
}

fn text(c: &mut Ctx) -> Result<(), String> {
    let l = c.len(64);
    let k = c.nibbles(l);
    let n = nibs(&k);
    note!(c, "sequence 0x{}", hex(&k));
    let low = format!("0x{}", hex(&k));
    let up = format!("0x{}", hex(&k).to_uppercase());
    // the case of the digits and the prefix are not claimed
    let digits = |t: &str| t.strip_prefix("0x").unwrap_or(t).to_lowercase();
    let (d, x, u) = (format!("{n}"), format!("{n:x}"), format!("{n:X}"));
    ck(digits(&d) == low[2..], &format!("Display gives {d}"))?;
    ck(digits(&x) == low[2..], &format!("lower hex gives {x}"))?;
    ck(digits(&u) == low[2..], &format!("upper hex gives {u}"))?;
    for t in [low.clone(), up, low[2..].to_string(), d, x, u] {
        note!(c, "text {t}");
        let p = Nibbles::from_str(&t).map_err(|e| format!("from_str: {e}"))?;
        seq(p, &k, "from_str")?;
    }
    Ok(())
}

fn hex_prefix(c: &mut Ctx) -> Result<(), String> {
    let l = c.len(64);
    let k = c.nibbles(l);
    note!(c, "path 0x{}", hex(&k));
    for leaf in [false, true] {
        note!(c, "leaf {leaf}");
        let e = nibs(&k).to_hex_prefix_encoding(leaf);
        ck(e[..] == hp(&k, leaf)[..], &format!("encoding is {}", bhex(&e)))?;
        let d = Nibbles::from_hex_prefix_encoding(&e).map_err(|e| format!("decoding: {e}"))?;
        let mut w = k.clone();
        if leaf {
            w.extend([1, 0]);
        }
        seq(d, &w, "decoding")?;
    }
    Ok(())
}

fn hp_decode(c: &mut Ctx) -> Result<(), String> {
    let l = if c.one_in(4) { c.len(80) } else { c.len(36) };
    let mut b = c.bytes(l);
    if l > 0 && c.one_in(2) {
        b[0] = c.nib() * 16 + if c.one_in(2) { 0 } else { c.nib() };
    }
    note!(c, "bytes {}", bhex(&b));
    let r = catch_unwind(AssertUnwindSafe(|| Nibbles::from_hex_prefix_encoding(&b).ok())).map_err(|_| "decoding panics")?;
    if l == 0 || l > 33 || b[0] >= 0x40 {
        return ck(r.is_none(), "invalid input must be rejected");
    }
    let Some(r) = r else { return Err("valid encoding rejected".into()) };
    let all = bytes_to_nibs(&b);
    let odd = b[0] & 0x10 != 0;
    let mut w = all[if odd { 1 } else { 2 }..].to_vec();
    if b[0] & 0x20 != 0 {
        w.extend([1, 0]);
    }
    seq(r, &w, "decoding")
}

fn values(c: &mut Ctx) -> Result<(), String> {
    use crate::trie_suites::{check_stored_hash, check_stored_value};
    let b = if c.one_in(8) {
        c.long_value()
    } else {
        let l = c.len(300);
        c.bytes(l)
    };
    note!(c, "{} bytes {}", b.len(), bhex(&b));
    let want = |v: ValOrHash, w: &[u8], what: &str| -> Result<(), String> {
        match v {
            ValOrHash::Val(x) if x == w => Ok(()),
            v => Err(format!("{what}: stored as {v:?}, expected value {}", bhex(w))),
        }
    };
    want(ValOrHash::from(b.clone()), &b, "Vec<u8>")?;
    want(ValOrHash::from(&b[..]), &b, "&[u8]")?;
    let h = c.hash32();
    note!(c, "hash {}", bhex(&h));
    match ValOrHash::from(H256(h)) {
        ValOrHash::Hash(x) if x.0 == h => {}
        v => return Err(format!("H256: stored as {v:?}")),
    }
    if !b.is_empty() {
        check_stored_value(c, b.clone(), &b)?;
        check_stored_value(c, &b[..], &b)?;
    }
    check_stored_hash(c, h)?;
    macro_rules! go {
        ($v:expr, $w:expr, $n:expr) => {{
            let (v, w): (_, Vec<u8>) = ($v, $w);
            note!(c, "{} {v:?}", $n);
            want(ValOrHash::from(v), &w, $n)?;
            check_stored_value(c, v, &w)?;
        }};
    }
    let be = |w: U512, n: usize| -> Vec<u8> {
        let mut b = [0; 64];
        w.to_big_endian(&mut b);
        b[64 - n..].to_vec()
    };
    let w = wide(c, 8);
    go!(w.low_u64() as u8, be(w, 1), "u8");
    let w = wide(c, 16);
    go!(w.low_u64() as u16, be(w, 2), "u16");
    let w = wide(c, 32);
    go!(w.low_u64() as u32, be(w, 4), "u32");
    let w = wide(c, 64);
    go!(w.low_u64(), be(w, 8), "u64");
    let w = wide(c, 128);
    go!(U128::try_from(w).unwrap(), be(w, 16), "U128");
    let w = wide(c, 256);
    go!(U256::try_from(w).unwrap(), be(w, 32), "U256");
    let w = wide(c, 512);
    go!(w, be(w, 64), "U512");
    Ok(())
}
