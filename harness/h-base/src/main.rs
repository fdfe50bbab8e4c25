mod codec;
mod config;
mod crypto;
mod gens;
mod merkle;
mod refenc;
mod rpc;
mod text;
mod node;
mod tx;
mod vm;

fn main() {
    if std::env::var_os("H_BASE_LOG_CHILD").is_some() {
        return node::log_child();
    }
    let mut p = vec![];
    p.extend(tx::props());
    p.extend(codec::props());
    p.extend(text::props());
    p.extend(crypto::props());
    p.extend(merkle::props());
    p.extend(config::props());
    p.extend(vm::props());
    p.extend(node::props());
    p.extend(rpc::props());
    pbt::main(p)
}
