// Hexadecimal text.
pub mod text {
use super::*;

/// The digits of a text: what follows the prefix 0x, if there is one.
pub open spec fn body(t: Seq<char>) -> Seq<char> {
    if t.len() >= 2 && t[0] == '0' && t[1] == 'x' { t.skip(2) } else { t }
}
/// The text t has the digits s.
#[verifier::opaque]
pub open spec fn denotes(t: Seq<char>, s: Seq<u8>) -> bool {
    body(t).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] hv(body(t)[i]) == s[i]
}
/// The digits of p, from the least significant one, are those of s and zeros.
#[verifier::opaque]
pub open spec fn is_hex(p: U512, s: Seq<u8>) -> bool {
    forall|j: int| 0 <= j < 128 ==> #[trigger] nib(p, j) == (if j < s.len() { s[s.len() - 1 - j] } else { 0u8 })
}
/// Zeros in front.
pub open spec fn zeros(d: Seq<char>) -> nat decreases d.len() {
    if d.len() > 0 && d[0] == '0' { 1 + zeros(d.skip(1)) } else { 0 }
}
/// The position above the highest of the lowest n digits that is not zero.
pub open spec fn top(p: U512, n: nat) -> nat decreases n {
    if n == 0 { 0 } else if nib(p, n - 1) != 0 { n } else { top(p, (n - 1) as nat) }
}
/// Parsing gave exactly the digits s.
#[verifier::opaque]
pub open spec fn parsed(r: Result<Nibbles, StrToNibblesError>, s: Seq<u8>) -> bool {
    match r { Ok(n) => n.wf() && n@ == s, Err(_) => false }
}
/// What was written after a are the digits s.
#[verifier::opaque]
pub open spec fn wrote(a: Seq<char>, b: Seq<char>, s: Seq<u8>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a && denotes(b.skip(a.len() as int), s)
}

// ------------------------------------------------------------ dependencies
#[verifier::external_body]
pub struct FromHexError { x: u8 }
#[verifier::external_body]
pub fn u512_from_str(s: &str) -> (r: Result<U512, FromHexError>)
    ensures forall|d: Seq<u8>| #[trigger] denotes(s@, d) && d.len() <= 64 ==> r is Ok && is_hex(r->Ok_0, d)
{ unimplemented!() }
impl VInto<StrToNibblesError> for FromHexError {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: StrToNibblesError) -> bool { true }
    #[verifier::external_body]
    fn vinto(self) -> (r: StrToNibblesError) { unimplemented!() }
}
pub trait VStr {
    spec fn tv(&self) -> Seq<char>;
    fn vstrip_prefix(&self, p: &str) -> (r: Option<&str>)
        ensures match r { Some(t) => self.tv() == p@ + t@, None => !p@.is_prefix_of(self.tv()) };
    fn vchars(&self) -> (r: Vec<char>) ensures r@ == self.tv(), r@.len() <= isize::MAX;
}
impl VStr for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vstrip_prefix(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vchars(&self) -> (r: Vec<char>) { unimplemented!() }
}
impl VStr for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vstrip_prefix(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vchars(&self) -> (r: Vec<char>) { unimplemented!() }
}
/// The length in bytes.
pub trait VLen {
    spec fn is_len(&self, r: usize) -> bool;
    fn vlen(&self) -> (r: usize) ensures self.is_len(r);
}
impl VLen for str {
    open spec fn is_len(&self, r: usize) -> bool { r >= self@.len() && r <= isize::MAX && (ascii(self@) ==> r == self@.len()) }
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { unimplemented!() }
}
impl VLen for String {
    open spec fn is_len(&self, r: usize) -> bool { r >= self@.len() && r <= isize::MAX && (ascii(self@) ==> r == self@.len()) }
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { unimplemented!() }
}
impl<T> VLen for Vec<T> {
    open spec fn is_len(&self, r: usize) -> bool { r == self@.len() }
    fn vlen(&self) -> (r: usize) { self.len() }
}
pub open spec fn ascii(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as int) < 128 }
impl VInto<String> for &str {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: String) { unimplemented!() }
}
/// What `{}` shows of a text.
pub trait VDisplay { spec fn dv(&self) -> Seq<char>; }
impl VDisplay for str { open spec fn dv(&self) -> Seq<char> { self@ } }
impl VDisplay for String { open spec fn dv(&self) -> Seq<char> { self@ } }
impl VDisplay for char { open spec fn dv(&self) -> Seq<char> { seq![*self] } }
impl<T: VDisplay + ?Sized> VDisplay for &T { open spec fn dv(&self) -> Seq<char> { (**self).dv() } }
/// What `{:x}` and `{:X}` show.
pub trait VHex { spec fn hreq(&self) -> bool; spec fn hval(&self) -> Seq<u8>; }
impl VHex for Nibbles {
    open spec fn hreq(&self) -> bool { self.wf() && self.count <= 64 }
    open spec fn hval(&self) -> Seq<u8> { self@ }
}
impl<T: VHex + ?Sized> VHex for &T {
    open spec fn hreq(&self) -> bool { (**self).hreq() }
    open spec fn hval(&self) -> Seq<u8> { (**self).hval() }
}
pub trait VText {
    spec fn xv(&self) -> Seq<char>;
    fn vpush_lit(&mut self, s: &str) ensures final(self).xv() == old(self).xv() + s@;
    fn vpush_str(&mut self, s: &str) ensures final(self).xv() == old(self).xv() + s@;
    fn vpush(&mut self, c: char) ensures final(self).xv() == old(self).xv().push(c);
    fn vextend(&mut self, s: Vec<char>) ensures final(self).xv() == old(self).xv() + s@;
    fn vdisplay<D: VDisplay + ?Sized>(&mut self, d: &D) ensures final(self).xv() == old(self).xv() + d.dv();
    fn vlower_hex<D: VHex + ?Sized>(&mut self, d: &D) requires d.hreq() ensures wrote(old(self).xv(), final(self).xv(), d.hval());
    fn vupper_hex<D: VHex + ?Sized>(&mut self, d: &D) requires d.hreq() ensures wrote(old(self).xv(), final(self).xv(), d.hval());
}
impl VText for String {
    open spec fn xv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vpush_lit(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vpush_str(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vpush(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body]
    fn vextend(&mut self, s: Vec<char>) { unimplemented!() }
    #[verifier::external_body]
    fn vdisplay<D: VDisplay + ?Sized>(&mut self, d: &D) { unimplemented!() }
    #[verifier::external_body]
    fn vlower_hex<D: VHex + ?Sized>(&mut self, d: &D) { unimplemented!() }
    #[verifier::external_body]
    fn vupper_hex<D: VHex + ?Sized>(&mut self, d: &D) { unimplemented!() }
}
#[verifier::external_body]
pub fn vtext() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub mod fmt {
use super::*;
#[verifier::external_body]
pub struct Error { x: u8 }
pub type Result = core::result::Result<(), Error>;
/// A formatter: the text written so far, and whether its sink takes all text.
#[verifier::external_body]
pub struct Formatter { x: u8 }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<char>;
    pub uninterp spec fn good(&self) -> bool;
    #[verifier::external_body]
    pub fn vwrite(&mut self, t: String) -> (r: Result)
        ensures old(self).good() ==> r is Ok && final(self).good() && final(self).out() == old(self).out() + t@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, t: &str) -> (r: Result)
        ensures old(self).good() ==> r is Ok && final(self).good() && final(self).out() == old(self).out() + t@
    { unimplemented!() }
}
}

// ------------------------------------------------------------------ lemmas
pub broadcast proof fn b_zeros(d: Seq<char>, i: int)
    requires 0 <= i < d.len()
    ensures #![trigger d.skip(i), d[i]] zeros(d.skip(i)) == (if d[i] == '0' { 1 + zeros(d.skip(i + 1)) } else { 0 })
{ assert(d.skip(i).skip(1) =~= d.skip(i + 1)); }
pub broadcast proof fn b_zeros_ascii(d: Seq<char>)
    requires zeros(d) == d.len()
    ensures #[trigger] ascii(d)
{ lemma_zeros(d); }
pub broadcast proof fn b_zeros_end(d: Seq<char>)
    ensures zeros(#[trigger] d.skip(d.len() as int)) == 0
{ }
pub broadcast proof fn b_skip0(d: Seq<char>)
    ensures #[trigger] d.skip(0) == d
{ assert(d.skip(0) =~= d); }
proof fn lemma_zeros(d: Seq<char>)
    ensures zeros(d) <= d.len(), forall|i: int| 0 <= i < zeros(d) ==> d[i] == '0', zeros(d) < d.len() ==> d[zeros(d) as int] != '0'
    decreases d.len()
{
    if d.len() > 0 && d[0] == '0' {
        lemma_zeros(d.skip(1));
        assert forall|i: int| 0 <= i < zeros(d) implies d[i] == '0' by { if i > 0 { assert(d.skip(1)[i - 1] == d[i]); } }
    }
}
proof fn lemma_top(p: U512, n: nat, m: nat)
    requires m <= n, forall|j: int| m <= j < n ==> nib(p, j) == 0, m > 0 ==> nib(p, m - 1) != 0
    ensures top(p, n) == m
    decreases n
{ if n > m { lemma_top(p, (n - 1) as nat, m); } }
pub broadcast proof fn b_top(p: U512, b: int)
    requires 0 <= b <= 512, #[trigger] has_bits(p, b)
    ensures top(p, 128) == (b + 3) / 4
{
    let m = (b + 3) / 4;
    assert forall|j: int| m <= j < 128 implies nib(p, j) == 0 by { assert(4 * j >= b); }
    if m > 0 {
        let k = (b - 1) - 4 * (m - 1);
        assert(0 <= k < 4);
        assert(p.bit(4 * (m - 1) + k));
    }
    lemma_top(p, 128, m as nat);
}
/// The prefix is stripped.
pub broadcast proof fn b_strip(t: Seq<char>, p: Seq<char>, u: Seq<char>)
    requires p.len() == 2, p[0] == '0', p[1] == 'x', t == p + u
    ensures #![trigger body(t), p + u] body(t) == u
{ assert(t.skip(2) =~= u); assert(t[0] == '0' && t[1] == 'x'); }
pub broadcast proof fn b_no_strip(t: Seq<char>, p: Seq<char>)
    requires p.len() == 2, p[0] == '0', p[1] == 'x', !(#[trigger] p.is_prefix_of(t))
    ensures body(t) == t
{ if body(t) != t { assert(p =~= t.subrange(0, 2)); } }
pub broadcast proof fn b_parsed(t: Seq<char>, n: Nibbles, s: Seq<u8>)
    requires #[trigger] denotes(t, s), s.len() <= 127, is_hex(n.packed, s), n.count == zeros(body(t)) + top(n.packed, 128)
    ensures #[trigger] parsed(Ok(n), s)
{
    reveal(denotes); reveal(is_hex); reveal(parsed); reveal(Nibbles::wf); reveal(nview);
    broadcast use ax_bit_range;
    let d = body(t);
    let l = s.len() as int;
    lemma_zeros(d);
    let z = zeros(d) as int;
    assert forall|i: int| 0 <= i < z implies s[i] == 0 by { assert(hv(d[i]) == s[i]); }
    if z < l { assert(hv(d[z]) == s[z]); assert(s[z] != 0); assert(nib(n.packed, l - 1 - z) == s[z]); }
    assert forall|j: int| l - z <= j < 128 implies nib(n.packed, j) == 0 by { if j < l { assert(s[l - 1 - j] == 0); } }
    lemma_top(n.packed, 128, (l - z) as nat);
    assert(n.count == l);
    assert forall|i: int| i >= 4 * l implies !#[trigger] n.packed.bit(i) by {
        if i < 512 { let j = i / 4; assert(nib(n.packed, j) == 0); assert(i == 4 * j || i == 4 * j + 1 || i == 4 * j + 2 || i == 4 * j + 3); }
    }
    assert(n@ =~= s);
}
pub broadcast proof fn b_wrote(a: Seq<char>, b: Seq<char>, t: Seq<char>, s: Seq<u8>)
    requires b == a + t, denotes(t, s)
    ensures #![trigger wrote(a, b, s), a + t] wrote(a, b, s)
{ reveal(wrote); assert(b.take(a.len() as int) =~= a); assert(b.skip(a.len() as int) =~= t); }
/// Two digits per byte, the first one left out if there is an odd number of nibbles.
pub broadcast proof fn b_denotes(t: Seq<char>, x: Seq<char>, n: Nibbles, b: Seq<u8>)
    requires n.wf(), #[trigger] is_hex_text(x, b),
        b.len() == (n.count + 1) / 2, forall|i: int| 0 <= i < b.len() ==> b[i] == #[trigger] byt(n.packed, b.len() - 1 - i),
        t.len() == 2 + n.count, t[0] == '0', t[1] == 'x', forall|i: int| 2 <= i < t.len() ==> #[trigger] t[i] == x[i - 2 + n.count % 2]
    ensures #[trigger] denotes(t, n@)
{
    reveal(denotes); reveal(is_hex_text); reveal(nview); reveal(Nibbles::wf);
    let o = n.count as int % 2;
    assert(t.skip(2).len() == n.count);
    assert forall|i: int| 0 <= i < n@.len() implies #[trigger] hv(body(t)[i]) == n@[i] by {
        let k = i + o;
        let l = b.len() as int;
        assert(body(t)[i] == t[i + 2]);
        assert(t[i + 2] == x[k]);
        assert(hv(x[k]) == unpack(b)[k]);
        let j = k / 2;
        assert(b[j] == byt(n.packed, l - 1 - j));
        assert(2 * l - 1 - k == n.count - 1 - i);
        if k % 2 == 0 { assert(2 * (l - 1 - j) + 1 == n.count - 1 - i); } else { assert(2 * (l - 1 - j) == n.count - 1 - i); }
    }
}
pub broadcast proof fn b_hex_text_len(x: Seq<char>, b: Seq<u8>)
    requires #[trigger] is_hex_text(x, b)
    ensures x.len() == 2 * b.len()
{ reveal(is_hex_text); }
} // mod text
pub use crate::text::*;
