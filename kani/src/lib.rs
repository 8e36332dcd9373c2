//! Discharges the contracts that contracts/prelude_*.rs assume about the integers of
//! `ethereum_types` and of the standard library, against the code that /repo
//! links. Every input is symbolic and every loop is unwound completely.
#![cfg(kani)]
use ethereum_types::{H256, U128, U256, U512};

fn any() -> U512 {
    U512(kani::any())
}
fn bit(p: &U512, i: usize) -> bool {
    i < 512 && (p.0[i / 64] >> (i % 64)) & 1 == 1
}
fn byt(p: &U512, t: usize) -> u8 {
    if t < 64 {
        (p.0[t / 8] >> (8 * (t % 8))) as u8
    } else {
        0
    }
}

#[kani::proof]
fn bit_of_nibble() {
    // byt(p, t) is put together from the bits of p
    let (p, t, k): (_, usize, usize) = (any(), kani::any(), kani::any());
    kani::assume(t < 64 && k < 8);
    assert_eq!((byt(&p, t) >> k) & 1 == 1, bit(&p, 8 * t + k));
}

#[kani::proof]
fn ext() {
    let (a, b) = (any(), any());
    let i: usize = kani::any();
    kani::assume(i < 512);
    // equal integers have equal bits, and a limb that differs has a bit that differs
    if a == b {
        assert_eq!(bit(&a, i), bit(&b, i));
        assert_eq!(a.0, b.0);
    } else {
        assert!(a.0 != b.0);
    }
    assert_eq!(a != b, !(a == b));
}

#[kani::proof]
fn one_zero() {
    let i: usize = kani::any();
    assert_eq!(bit(&U512::one(), i), i == 0);
    assert!(!bit(&U512::zero(), i));
}

#[kani::proof]
fn byte() {
    let (p, i): (_, usize) = (any(), kani::any());
    kani::assume(i < 64);
    assert_eq!(p.byte(i), byt(&p, i));
}

#[kani::proof]
#[kani::unwind(10)]
fn bits() {
    let (p, i): (_, usize) = (any(), kani::any());
    let r = p.bits();
    assert!(r <= 512);
    assert!(i < r || !bit(&p, i));
    assert!(r == 0 || bit(&p, r - 1));
}

#[kani::proof]
#[kani::unwind(10)]
fn shl() {
    let (p, s, i): (_, usize, usize) = (any(), kani::any(), kani::any());
    let r = p << s;
    assert_eq!(bit(&r, i), i < 512 && i >= s && bit(&p, i - s));
}

#[kani::proof]
#[kani::unwind(10)]
fn shr() {
    let (p, s, i): (_, usize, usize) = (any(), kani::any(), kani::any());
    let r = p >> s;
    assert_eq!(bit(&r, i), i < 512 && i.checked_add(s).map_or(false, |k| bit(&p, k)));
}

#[kani::proof]
#[kani::unwind(10)]
fn logic() {
    let (p, q, i): (_, _, usize) = (any(), any(), kani::any());
    assert_eq!(bit(&(p & q), i), bit(&p, i) && bit(&q, i));
    assert_eq!(bit(&(p | q), i), bit(&p, i) || bit(&q, i));
    assert_eq!(bit(&(p ^ q), i), bit(&p, i) != bit(&q, i));
    assert_eq!(bit(&!p, i), i < 512 && !bit(&p, i));
}

/// p + n, limb by limb
fn plus(p: &U512, n: u64) -> ([u64; 8], bool) {
    let mut r = [0; 8];
    let mut c = n;
    let mut i = 0;
    while i < 8 {
        let (x, o) = p.0[i].overflowing_add(c);
        r[i] = x;
        c = o as u64;
        i += 1;
    }
    (r, c != 0)
}

#[kani::proof]
#[kani::unwind(66)]
fn sub() {
    let (p, n): (_, i32) = (any(), kani::any());
    kani::assume(n >= 0);
    // 0 <= n <= p
    kani::assume(p.0[0] >= n as u64 || p.0[1] | p.0[2] | p.0[3] | p.0[4] | p.0[5] | p.0[6] | p.0[7] != 0);
    let r = p - n;
    let (s, c) = plus(&r, n as u64);
    assert!(!c && s == p.0);
}

#[kani::proof]
#[kani::unwind(66)]
fn into() {
    let (a, b, c, d, n): (u8, u16, u32, u64, i32) = kani::any();
    let low = |p: U512, v: u64| p.0 == [v, 0, 0, 0, 0, 0, 0, 0];
    assert!(low(a.into(), a as u64) && low(b.into(), b as u64) && low(c.into(), c as u64) && low(d.into(), d));
    kani::assume(n >= 0);
    assert!(low(n.into(), n as u64));
    let (x, y) = (U128(kani::any()), U256(kani::any()));
    let (p, q): (U512, U512) = (x.into(), y.into());
    assert!(p.0 == [x.0[0], x.0[1], 0, 0, 0, 0, 0, 0]);
    assert!(q.0 == [y.0[0], y.0[1], y.0[2], y.0[3], 0, 0, 0, 0]);
}

#[kani::proof]
#[kani::unwind(10)]
fn to_big_endian() {
    let (p, j): (_, usize) = (any(), kani::any());
    let mut b = [kani::any(); 64];
    p.to_big_endian(&mut b);
    kani::assume(j < 64);
    assert_eq!(b[j], byt(&p, 63 - j));
}

#[kani::proof]
#[kani::unwind(66)]
fn from_big_endian() {
    let (a, n, t): ([u8; 64], usize, usize) = kani::any();
    kani::assume(n <= 64 && t < 64);
    let p = U512::from_big_endian(&a[..n]);
    assert_eq!(byt(&p, t), if t < n { a[n - 1 - t] } else { 0 });
}

#[kani::proof]
#[kani::unwind(66)]
fn from_little_endian() {
    let (a, n, t): ([u8; 64], usize, usize) = kani::any();
    kani::assume(n <= 64 && t < 64);
    let p = U512::from_little_endian(&a[..n]);
    assert_eq!(byt(&p, t), if t < n { a[t] } else { 0 });
}

#[kani::proof]
#[kani::unwind(10)]
fn bytes_of_u128_u256() {
    let (x, y, j): (_, _, usize) = (U128(kani::any()), U256(kani::any()), kani::any());
    let (mut a, mut b, mut c, mut d) = ([0u8; 16], [0u8; 16], [0u8; 32], [0u8; 32]);
    x.to_big_endian(&mut a);
    x.to_little_endian(&mut b);
    y.to_big_endian(&mut c);
    y.to_little_endian(&mut d);
    if j < 16 {
        let w = (x.0[j / 8] >> (8 * (j % 8))) as u8;
        assert!(b[j] == w && a[15 - j] == w);
    }
    if j < 32 {
        let w = (y.0[j / 8] >> (8 * (j % 8))) as u8;
        assert!(d[j] == w && c[31 - j] == w);
    }
}

#[kani::proof]
fn bytes_of_ints() {
    let (a, b, c, d, j): (u8, u16, u32, u64, usize) = kani::any();
    macro_rules! check {
        ($x:expr, $n:expr) => {
            if j < $n {
                let w = ($x >> (8 * j)) as u8;
                assert!($x.to_le_bytes()[j] == w && $x.to_be_bytes()[$n - 1 - j] == w);
            }
        };
    }
    check!(a, 1);
    check!(b, 2);
    check!(c, 4);
    check!(d, 8);
}

#[kani::proof]
#[kani::unwind(10)]
fn leading_zeros() {
    let (a, b, c, d): (u8, u16, u32, u64) = kani::any();
    macro_rules! check {
        ($x:expr, $n:expr) => {
            let r = $x.leading_zeros();
            assert!(r <= $n);
            assert!(r == 0 || r == $n || $x >> ($n - r) == 0);
            assert!(r < $n || $x == 0);
            assert!(r == $n || ($x >> ($n - r - 1)) & 1 == 1);
        };
    }
    check!(a, 8);
    check!(b, 16);
    check!(c, 32);
    check!(d, 64);
}

#[kani::proof]
#[kani::unwind(10)]
fn leading_zeros_wide() {
    let (x, y, z, i): (_, _, _, usize) = (U128(kani::any()), U256(kani::any()), any(), kani::any());
    macro_rules! check {
        ($x:expr, $n:expr) => {
            let bit = |i: usize| i < $n && ($x.0[i / 64] >> (i % 64)) & 1 == 1;
            let r = $x.leading_zeros() as usize;
            assert!(r <= $n);
            assert!(i >= $n || i < $n - r || !bit(i));
            assert!(r == $n || bit($n - r - 1));
        };
    }
    check!(x, 128);
    check!(y, 256);
    check!(z, 512);
}

#[kani::proof]
#[kani::unwind(34)]
fn h256() {
    let (a, b): ([u8; 32], [u8; 32]) = kani::any();
    assert!(H256(a).as_bytes() == a);
    assert!(H256::from_slice(&a).0 == a);
    assert_eq!(H256(a) == H256(b), a == b);
}
