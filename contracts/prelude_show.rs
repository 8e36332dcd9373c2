// The printed form of a query: what is shown, in which order, whatever the layout.
pub mod showspec {
use super::*;
/// Something shown. Literal text and node specific values are layout, flags are kept apart.
pub enum Ev { Type(TrieNodeType), Key(Seq<u8>) }
pub open spec fn stype(s: Seg) -> TrieNodeType {
    match s {
        Seg::Empty => TrieNodeType::Empty,
        Seg::Hash => TrieNodeType::Hash,
        Seg::Branch(n) => TrieNodeType::Branch,
        Seg::BranchEnd => TrieNodeType::Branch,
        Seg::Ext(n) => TrieNodeType::Extension,
        Seg::Leaf(n) => TrieNodeType::Leaf,
    }
}
/// The nibbles a node on the path consumes.
pub open spec fn skey(s: Seg) -> Option<Seq<u8>> {
    match s {
        Seg::Branch(n) => Some(seq![n]),
        Seg::Ext(n) => Some(n),
        Seg::Leaf(n) => Some(n),
        _ => None,
    }
}
pub open spec fn shown1(s: Seg, p: DebugQueryParams) -> Seq<Ev> {
    (if p.include_node_type { seq![Ev::Type(stype(s))] } else { seq![] })
        + (if p.include_key_piece_per_node && skey(s) is Some { seq![Ev::Key(skey(s)->Some_0)] } else { seq![] })
}
/// The nodes of the path in order.
pub open spec fn shown(v: Seq<Seg>, p: DebugQueryParams) -> Seq<Ev> decreases v.len() {
    if v.len() == 0 { seq![] } else { shown(v.drop_last(), p) + shown1(v.last(), p) }
}
pub open spec fn header(q: DebugQueryOutput) -> Seq<Ev> { seq![Ev::Key(q.k@)] }
pub open spec fn segok(s: PathSegment) -> bool {
    match s {
        PathSegment::Branch(n) => n < 16,
        PathSegment::Extension(n) => n.wf(),
        PathSegment::Leaf(n) => n.wf(),
        _ => true,
    }
}
pub open spec fn segsok(v: Seq<PathSegment>) -> bool { forall|i: int| 0 <= i < v.len() ==> segok(#[trigger] v[i]) }
pub open spec fn short1(s: Seg) -> bool { skey(s) is Some ==> skey(s)->Some_0.len() <= 64 }
pub open spec fn shorts(v: Seq<PathSegment>) -> bool { forall|i: int| 0 <= i < v.len() ==> short1(sg(#[trigger] v[i])) }

/// What `{}` shows.
pub trait VShow { spec fn sok(&self) -> bool; spec fn sv(&self) -> Seq<Ev>; spec fn sf(&self) -> Seq<bool>; }
impl VShow for str {
    open spec fn sok(&self) -> bool { true }
    open spec fn sv(&self) -> Seq<Ev> { seq![] }
    open spec fn sf(&self) -> Seq<bool> { seq![] }
}
impl VShow for Nibbles {
    open spec fn sok(&self) -> bool { self.wf() && self@.len() <= 64 }
    open spec fn sv(&self) -> Seq<Ev> { seq![Ev::Key(self@)] }
    open spec fn sf(&self) -> Seq<bool> { seq![] }
}
impl VShow for TrieNodeType {
    open spec fn sok(&self) -> bool { true }
    open spec fn sv(&self) -> Seq<Ev> { seq![Ev::Type(*self)] }
    open spec fn sf(&self) -> Seq<bool> { seq![] }
}
impl VShow for bool {
    open spec fn sok(&self) -> bool { true }
    open spec fn sv(&self) -> Seq<Ev> { seq![] }
    open spec fn sf(&self) -> Seq<bool> { seq![*self] }
}
impl VShow for ExtraNodeSegmentInfo {
    open spec fn sok(&self) -> bool { true }
    open spec fn sv(&self) -> Seq<Ev> { seq![] }
    open spec fn sf(&self) -> Seq<bool> { seq![] }
}
impl<T: VShow + ?Sized> VShow for &T {
    open spec fn sok(&self) -> bool { (**self).sok() }
    open spec fn sv(&self) -> Seq<Ev> { (**self).sv() }
    open spec fn sf(&self) -> Seq<bool> { (**self).sf() }
}
#[verifier::external_body]
pub struct Text { x: u8 }
impl Text {
    pub uninterp spec fn ev(&self) -> Seq<Ev>;
    pub uninterp spec fn fl(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn vpush_lit(&mut self, s: &str) ensures final(self).ev() == old(self).ev(), final(self).fl() == old(self).fl() { unimplemented!() }
    #[verifier::external_body]
    pub fn vdisplay<D: VShow + ?Sized>(&mut self, d: &D) requires d.sok() ensures final(self).ev() == old(self).ev() + d.sv(), final(self).fl() == old(self).fl() + d.sf() { unimplemented!() }
    #[verifier::external_body]
    pub fn vlower_hex<D: VShow + ?Sized>(&mut self, d: &D) requires d.sok() ensures final(self).ev() == old(self).ev() + d.sv(), final(self).fl() == old(self).fl() + d.sf() { unimplemented!() }
    #[verifier::external_body]
    pub fn vupper_hex<D: VShow + ?Sized>(&mut self, d: &D) requires d.sok() ensures final(self).ev() == old(self).ev() + d.sv(), final(self).fl() == old(self).fl() + d.sf() { unimplemented!() }
}
#[verifier::external_body]
pub fn vtext() -> (r: Text) ensures r.ev() == Seq::<Ev>::empty(), r.fl() == Seq::<bool>::empty() { unimplemented!() }
pub mod fmt {
use super::*;
#[verifier::external_body]
pub struct Error { x: u8 }
pub type Result = core::result::Result<(), Error>;
/// A formatter: what was shown so far, and whether its sink takes all text.
#[verifier::external_body]
pub struct Formatter { x: u8 }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<Ev>;
    pub uninterp spec fn flags(&self) -> Seq<bool>;
    pub uninterp spec fn good(&self) -> bool;
    #[verifier::external_body]
    pub fn vwrite(&mut self, t: Text) -> (r: Result)
        ensures old(self).good() ==> r is Ok && final(self).good() && final(self).out() == old(self).out() + t.ev() && final(self).flags() == old(self).flags() + t.fl()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, t: &str) -> (r: Result)
        ensures old(self).good() ==> r is Ok && final(self).good() && final(self).out() == old(self).out() && final(self).flags() == old(self).flags()
    { unimplemented!() }
}
}
impl VInto<fmt::Error> for fmt::Error {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: fmt::Error) -> bool { r == self }
    fn vinto(self) -> (r: fmt::Error) { self }
}
/// What was shown after a is s.
#[verifier::opaque]
pub open spec fn showed(a: fmt::Formatter, b: fmt::Formatter, s: Seq<Ev>, f: Seq<bool>) -> bool {
    b.out() == a.out() + s && b.flags() == a.flags() + f
}
pub broadcast proof fn b_showed(a: fmt::Formatter, b: fmt::Formatter, s: Seq<Ev>, f: Seq<bool>)
    requires b.out() =~= a.out() + s, b.flags() =~= a.flags() + f
    ensures #[trigger] showed(a, b, s, f)
{ reveal(showed); }
pub broadcast proof fn b_shown0(q: DebugQueryOutput)
    ensures #[trigger] shown(qv(q).take(0), q.params) == Seq::<Ev>::empty()
{ }
pub broadcast proof fn b_shown_next(w: Seq<PathSegment>, i: int, p: DebugQueryParams)
    requires 0 <= i < w.len()
    ensures #![trigger shown(psegs(w).take(i), p), w[i]] shown(psegs(w).take(i + 1), p) == shown(psegs(w).take(i), p) + shown1(sg(w[i]), p)
{ let v = psegs(w); assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); }
} // mod showspec
pub use crate::showspec::*;
