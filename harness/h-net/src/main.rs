mod msgs;
mod peers;
mod store;
mod world;

fn main() {
    let mut p = vec![];
    p.extend(msgs::props());
    p.extend(peers::props());
    p.extend(store::props());
    pbt::main(p)
}
