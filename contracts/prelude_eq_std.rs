// `#[derive(PartialEq)]` of StandardTrie
pub mod eqstd {
use super::*;
impl StandardTrie {
    pub fn veq(&self, o: &StandardTrie) -> (r: bool)
        requires ninv(self.0), ninv(o.0)
        ensures r == wsame(*self, *o)
        decreases self.0, 1nat
    { broadcast use b_wsame; self.0.veq(&o.0) }
}
}
pub use crate::eqstd::*;
