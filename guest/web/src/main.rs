//! Applications on puck that the simulator drives.  Which one runs, and what its handlers do, is
//! decided by the simulator's configuration.

mod client;
mod http;
mod sim;
mod ws;

fn main() {
    let mut c = sim::Rd::new(sim::load());
    match c.u8() {
        0 => http::main(c, false),
        1 => http::main(c, true),
        2 => client::main(c),
        3 => http::pair(c),
        _ => panic!("unknown app"),
    }
}
