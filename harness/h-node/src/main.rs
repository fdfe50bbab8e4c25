//! Whole nodes: one process each, this program being both the nodes and the check.
mod child;
mod cli;
mod hub;
mod nodes;
#[path = "../../h-core/src/util.rs"]
#[allow(dead_code)]
mod util;

fn main() {
    if std::env::var_os("AXON_CLI").is_some() {
        return child::main();
    }
    pbt::main(nodes::props().into_iter().chain(cli::props()).collect())
}
