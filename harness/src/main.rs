//! vp-harness ID --tier quick|thorough [--evidence FILE] [--replay-dir DIR] [--known FILE] [--only LABEL]
mod ctx;
mod env;
mod log;
mod sched;
mod p;
mod run;

fn main() {
    log::on();
    if let Some(n) = std::env::var("VP_IDS").ok().and_then(|n| n.parse().ok()) {
        return p::build::print_ids(n);
    }
    run::main()
}
