//! Deterministic case generation.
use crate::model::*;
use std::sync::Arc;

/// Integer literals of the checked source: used as lengths, bytes and numbers.
pub struct Dict {
    pub lits: Vec<u64>,
}

impl Dict {
    pub fn load(dir: &str) -> Dict {
        let mut lits = vec![];
        fn walk(p: &std::path::Path, lits: &mut Vec<u64>) {
            let Ok(rd) = std::fs::read_dir(p) else { return };
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() {
                    walk(&p, lits);
                } else if p.extension().map_or(false, |e| e == "rs") {
                    let t = std::fs::read_to_string(&p).unwrap_or_default();
                    // stop at the unit tests
                    let t = t.split("#[cfg(test)]\nmod tests").next().unwrap_or("").to_string();
                    let mut cur = String::new();
                    for ch in t.chars().chain(" ".chars()) {
                        if ch.is_ascii_alphanumeric() || ch == '_' {
                            cur.push(ch);
                        } else {
                            if cur.starts_with(|c: char| c.is_ascii_digit()) {
                                let c: String = cur.replace('_', "");
                                let v = if let Some(h) = c.strip_prefix("0x") {
                                    let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                                    u64::from_str_radix(&h, 16).ok()
                                } else if let Some(h) = c.strip_prefix("0b") {
                                    let h: String = h.chars().take_while(|c| *c == '0' || *c == '1').collect();
                                    u64::from_str_radix(&h, 2).ok()
                                } else {
                                    let h: String = c.chars().take_while(|c| c.is_ascii_digit()).collect();
                                    h.parse().ok()
                                };
                                lits.extend(v);
                            }
                            cur.clear();
                        }
                    }
                }
            }
        }
        walk(std::path::Path::new(dir), &mut lits);
        lits.sort();
        lits.dedup();
        Dict { lits }
    }
}

pub struct Ctx {
    pub s: u64,
    pub size: usize,
    pub dict: Arc<Dict>,
    pub log: String,
}

macro_rules! note { ($c:expr, $($a:tt)*) => { { $c.log.push_str(&format!($($a)*)); $c.log.push('\n'); } } }
pub(crate) use note;

impl Ctx {
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// A length in 0..=max; literals of the source (and neighbours) are favoured.
    pub fn len(&mut self, max: usize) -> usize {
        if self.one_in(3) {
            let l = self.dict.lits.clone();
            for _ in 0..4 {
                let c: Vec<u64> = l.iter().copied().filter(|x| *x <= max as u64 + 1).collect();
                if c.is_empty() {
                    break;
                }
                let v = *self.pick(&c) as i64 + self.below(3) as i64 - 1;
                if v >= 0 && v <= max as i64 {
                    return v as usize;
                }
            }
        }
        if self.one_in(2) {
            self.below(max.min(6) + 1)
        } else {
            self.below(max + 1)
        }
    }
    pub fn byte(&mut self) -> u8 {
        match self.below(4) {
            0 => *self.pick(&[0u8, 1, 0x0f, 0x10, 0x7f, 0x80, 0xff, 0xb7, 0xb8, 0xc0]),
            1 => {
                let l = self.dict.lits.clone();
                if l.is_empty() {
                    0
                } else {
                    *self.pick(&l) as u8
                }
            }
            _ => self.next() as u8,
        }
    }
    pub fn nib(&mut self) -> u8 {
        match self.below(3) {
            0 => *self.pick(&[0u8, 15, 1, 8]),
            _ => self.next() as u8 & 15,
        }
    }
    pub fn nibbles(&mut self, len: usize) -> K {
        match self.below(5) {
            0 => {
                let n = self.nib();
                vec![n; len]
            }
            1 => {
                // zero padded
                let z = self.below(len + 1);
                (0..len).map(|i| if i < z { 0 } else { self.nib() }).collect()
            }
            2 => {
                let z = self.below(len + 1);
                (0..len).map(|i| if i >= z { 0 } else { self.nib() }).collect()
            }
            _ => (0..len).map(|_| self.nib()).collect(),
        }
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        match self.below(4) {
            0 => {
                let b = self.byte();
                vec![b; len]
            }
            _ => (0..len).map(|_| self.byte()).collect(),
        }
    }
    pub fn long_value(&mut self) -> Vec<u8> {
        let mut ls = vec![255, 256, 1000, 1024, 2048, 4096, 65535];
        ls.extend(self.dict.lits.iter().copied().filter(|x| (256..70000).contains(x)).map(|x| x as usize));
        let l = *self.pick(&ls) + self.below(3);
        let b = self.bytes(8);
        b.into_iter().cycle().take(l).collect()
    }
    pub fn value(&mut self) -> Vec<u8> {
        if self.one_in(300) {
            return self.long_value();
        }
        let l = match self.below(8) {
            0 => 1,
            1 => 1 + self.below(3),
            2 => 24 + self.below(12),
            3 => 50 + self.below(12),
            4 => 1 + self.len(64),
            5 => 1 + self.len(300),
            _ => 1 + self.below(40),
        };
        self.bytes(l)
    }
    pub fn hash32(&mut self) -> [u8; 32] {
        let v = match self.below(8) {
            0 => vec![0; 32],
            1 => vec![0xff; 32],
            _ => self.bytes(32),
        };
        v.try_into().unwrap()
    }
    /// A family of related keys (at most 64 nibbles each).
    pub fn keys(&mut self, n: usize) -> Vec<K> {
        if self.one_in(60) {
            return self.ladder();
        }
        let mut ks: Vec<K> = vec![];
        let style = self.below(6);
        let (a, b) = (self.nib(), self.nib());
        let maxl = match self.below(3) {
            0 => 3,
            1 => 6,
            _ => 64,
        };
        for _ in 0..n {
            let k = match style {
                // short keys over two nibbles: many prefixes
                0 => {
                    let l = self.below(5);
                    (0..l).map(|_| if self.one_in(2) { a } else { b }).collect()
                }
                // fixed length
                1 => self.nibbles(64),
                2 => {
                    let l = self.len(maxl);
                    self.nibbles(l)
                }
                // mutate earlier keys
                _ => {
                    if ks.is_empty() || self.one_in(6) {
                        let l = self.len(maxl);
                        self.nibbles(l)
                    } else {
                        let k = self.pick(&ks.clone()).clone();
                        self.near(&k)
                    }
                }
            };
            if k.len() <= 64 && !ks.contains(&k) {
                ks.push(k);
            }
        }
        ks
    }
    /// Keys that leave one long path at many places: a deep trie.
    pub fn ladder(&mut self) -> Vec<K> {
        let p = self.nibbles(64);
        let q = 1 + self.below(6);
        let mut ks: Vec<K> = vec![];
        for i in 0..64 {
            if q > 1 && !self.one_in(q) {
                continue;
            }
            let mut k = p[..i].to_vec();
            if !self.one_in(8) {
                k.push((p[i] + 1 + self.below(15) as u8) % 16);
                let l = if self.one_in(3) { self.below(64 - i) } else { 0 };
                let m = self.nibbles(l);
                k.extend(m);
            }
            ks.push(k);
        }
        ks.push(p);
        ks
    }
    /// A key related to the given one.
    pub fn near(&mut self, k: &[u8]) -> K {
        let mut k = k.to_vec();
        match self.below(6) {
            0 => {
                let l = self.below(k.len() + 1);
                k.truncate(l);
            }
            1 => {
                k.pop();
            }
            2 => k.push(self.nib()),
            3 => {
                let l = self.len(64);
                let m = self.nibbles(l);
                k.extend(m);
            }
            4 => {
                if !k.is_empty() {
                    let i = self.below(k.len());
                    k[i] = self.nib();
                }
            }
            _ => {
                let l = self.below(k.len() + 1);
                k.truncate(l);
                let l = self.len(64 - k.len().min(64));
                let m = self.nibbles(l);
                k.extend(m);
            }
        }
        k.truncate(64);
        k
    }
    pub fn probes(&mut self, ks: &[K], n: usize) -> Vec<K> {
        let mut out = ks.to_vec();
        out.push(vec![]);
        for _ in 0..n {
            let k = if ks.is_empty() { let l = self.len(64); self.nibbles(l) } else { let k = self.pick(ks).clone(); self.near(&k) };
            out.push(k);
        }
        out
    }
    /// Entries without hashed-out parts.
    pub fn map(&mut self, n: usize) -> Map {
        let mut m = Map::new();
        for k in self.keys(n) {
            let v = self.value();
            m.insert(k, E::Val(v));
        }
        m
    }
    /// May a hash stand at k next to the other entries?
    pub fn hash_fits(m: &Map, k: &[u8]) -> bool {
        m.iter().all(|(q, e)| {
            q == k || (!q.starts_with(k) && !(k.starts_with(q) && matches!(e, E::Hash(_))))
        })
    }
    /// Entries some of which are hashes.
    pub fn map_h(&mut self, n: usize) -> Map {
        let mut m = if self.one_in(6) { Map::new() } else { self.map(n) };
        for k in self.keys(n / 3 + 1) {
            if Self::hash_fits(&m, &k) && !m.contains_key(&k) {
                let h = self.hash32();
                m.insert(k, E::Hash(h));
            }
        }
        m
    }
    /// Canonical partial trie: a full trie with some nodes hashed out.
    pub fn partial(&mut self, n: usize) -> O {
        if self.one_in(40) {
            return O::Empty;
        }
        if self.one_in(50) {
            let mut m = Map::new();
            let h = 1 + self.below(4);
            let ks = self.ladder();
            for k in ks.clone() {
                let e = if h > 1 && self.one_in(h) && !ks.iter().any(|q| *q != k && q.starts_with(&k)) { E::Hash(self.hash32()) } else { E::Val(self.value()) };
                m.insert(k, e);
            }
            return build_map(&m);
        }
        match self.below(3) {
            0 => build_map(&self.map(n)),
            1 => build_map(&self.map_h(n)),
            _ => {
                let o = build_map(&self.map(n));
                let d = self.below(4) + 2;
                self.hash_out(&o, d)
            }
        }
    }
    pub fn hash_out(&mut self, o: &O, d: usize) -> O {
        if self.one_in(d + 1) {
            if let (Some(h), true) = (node_ref(o), *o != O::Empty) {
                return O::Hash(h);
            }
        }
        match o {
            O::Branch(c, v) => O::Branch(c.iter().map(|c| self.hash_out(c, d)).collect(), v.clone()),
            O::Ext(p, c) => {
                let c = self.hash_out(c, d);
                O::Ext(p.clone(), Box::new(c))
            }
            x => x.clone(),
        }
    }
    pub fn n(&mut self) -> usize {
        let s = self.size;
        1 + self.below(s)
    }
}
