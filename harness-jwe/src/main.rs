//! vp-harness-jwe C23 …: the same harness, over a build in which josekit is shim/josekit and
//! src/core/jwe.rs is there.
#![allow(dead_code)]
#[path = "../../harness/src/ctx.rs"]
mod ctx;
#[path = "../../harness/src/env.rs"]
mod env;
mod jwe;
#[path = "../../harness/src/run.rs"]
mod run;
mod sched {
    pub const ENGINE: &str = "\u{0}engine";
    pub fn step(_: &str) {}
}
mod p {
    pub fn find(id: &str) -> Option<fn(&mut crate::ctx::Ctx)> {
        (id == "C23").then_some(crate::jwe::c23)
    }
}

fn main() {
    run::main()
}
