// The instance StandardTrie.
pub mod inst {
use super::*;
pub type Inst = StandardTrie;
pub open spec fn inner(w: StandardTrie) -> Node { w.0 }
/// What must hold of a trie node besides its view.
pub open spec fn cell_ok(w: StandardTrie) -> bool { true }
/// As `cell_ok`, after the call has returned.
pub open spec fn cell_bound(w: StandardTrie) -> bool { true }
pub broadcast proof fn b_cell_none(w: StandardTrie) ensures #[trigger] cell_ok(w) {}
pub broadcast group g_cell { b_cell_none }
impl VClone for Inst {
    open spec fn clone_req(self) -> bool { true }
    open spec fn clone_rel(self, r: Self) -> bool { r == self }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { unimplemented!() }
}
} // mod inst
pub use crate::inst::*;
