use crate::engine::{fixed, part, Opts, Property};

pub mod handshakes;
mod hist;
mod admission;
mod client;
mod codec;
mod framing;
mod gauges;
mod hooks;
mod hostile;
mod links;
mod marshal;
mod mesh;
mod permits;
mod proofs;
mod routing;
mod stall;
mod stores;
mod flow;
mod threads;
mod transports;
mod whitelist;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(routing::properties());
    v.extend(hostile::properties());
    v.extend(marshal::properties());
    v.extend(links::properties());
    v.extend(stall::properties());
    v.extend(gauges::properties());
    v.extend(admission::properties());
    v.extend(hooks::properties());
    v.extend(mesh::properties());
    v.extend(whitelist::properties());
    v.extend(client::properties());
    v.extend(stores::properties());
    v.extend(codec::properties());
    v.extend(transports::properties());
    v.extend(framing::properties());
    v.push(Property {
        id: "C17",
        rule: "histories of issuing and presenting permits (valid, reused, concurrent, expired, foreign, invented) at real brokers and at the real stores; non-trivial: some were admitted and some refused",
        parts: vec![part("brokers", Opts { quick: 24_000, thorough: 500_000, ..Opts::default() }, permits::strat, permits::run),
            part("stores", Opts { quick: 6_000, thorough: 100_000, ..Opts::default() }, stores::strat_permits, stores::run),
            fixed("reserved values", true, stores::reserved, stores::run_reserved)],
    });
    v
}
