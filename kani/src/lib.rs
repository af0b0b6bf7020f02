#![cfg(kani)]
#![allow(dead_code)]
pub struct Any;
impl machine::In for Any {
    fn i32(&mut self) -> i32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn assume(&mut self, b: bool) {
        kani::assume(b)
    }
    fn check(&mut self, b: bool, msg: &'static str) {
        let _ = msg;
        kani::assert(b, "a check of the harness")
    }
    fn returned(&mut self, msg: &'static str) {
        let _ = msg;
        kani::cover!(true, "a call that must be refused returns")
    }
}
#[path = "../../harness/machine.rs"]
mod machine;
