// The instance HashedPartialTrie.
//
// The cache of a node is a cell behind an `RwLock`.  A cell is `fresh` until the
// call that made it returns; from then on it is bound to the node it was made
// for: it holds nothing or `bound`, the hash that stands for that node.  Only
// bound cells are read, written or shared by a clone of the trie.
pub mod inst {
use super::*;
pub type Inst = HashedPartialTrie;
pub open spec fn inner(w: HashedPartialTrie) -> Node { w.node }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { x: T }
pub type Cell = RwLock<Option<H256>>;
pub uninterp spec fn fresh(c: Cell) -> bool;
pub uninterp spec fn isbound(c: Cell) -> bool;
pub uninterp spec fn bound(c: Cell) -> Option<H256>;

impl RwLock<Option<H256>> {
    #[verifier::external_body]
    pub fn new(v: Option<H256>) -> (r: Cell) ensures v is None ==> fresh(r) { unimplemented!() }
    /// `read()`; the guard is only used to look at the content.
    #[verifier::external_body]
    pub fn read(&self) -> (r: Box<Option<H256>>)
        requires isbound(*self)
        ensures *r is None || *r == bound(*self)
    { unimplemented!() }
    /// `*write() = v`
    #[verifier::external_body]
    pub fn vwrite(&self, v: Option<H256>)
        requires isbound(*self), v is None || v == bound(*self)
    { unimplemented!() }
}
/// `Arc::default()`
#[verifier::external_body]
pub fn varc_default() -> (r: Arc<Cell>) ensures fresh(*r) { unimplemented!() }

/// The cache of a node can not hold a stale hash.
pub closed spec fn cell_ok(w: HashedPartialTrie) -> bool { fresh(*w.hash) || (isbound(*w.hash) && bound(*w.hash) == href(view(w.node))) }
pub broadcast proof fn b_cell_fresh(w: HashedPartialTrie)
    ensures fresh(*w.hash) ==> #[trigger] cell_ok(w)
{}
/// As `cell_ok`, for the time after the call that made the cell has returned.
pub closed spec fn cell_bound(w: HashedPartialTrie) -> bool { isbound(*w.hash) && bound(*w.hash) == href(view(w.node)) }
pub broadcast proof fn b_cell_bound(w: HashedPartialTrie)
    requires #[trigger] cell_bound(w)
    ensures isbound(*w.hash), bound(*w.hash) == href(view(w.node))
{}
pub broadcast group g_cell { b_cell_fresh, b_cell_bound }
impl VClone for Inst {
    open spec fn clone_req(self) -> bool { isbound(*self.hash) }
    open spec fn clone_rel(self, r: Self) -> bool { r == self }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { unimplemented!() }
}
} // mod inst
pub use crate::inst::*;
