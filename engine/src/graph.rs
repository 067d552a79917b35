//! Structural queries over the lowered program (call graph, types, effects).
use crate::ir;
pub struct Structural {
    pub held: u64,
    pub violations: Vec<(String, String)>,
    pub open: Vec<String>,
    pub counts: Vec<(String, u64)>,
    pub samples: Vec<String>,
}
pub fn check(_p: &ir::Program, _prop: &str) -> Option<Structural> {
    None
}
