//! C25: the outgoing queue under every interleaving of queueing and draining threads.
//!
//! The library's own sources are compiled against `fakestd`, whose locks, atomics and channels
//! yield to the scheduler, and every schedule is executed (depth-first, no sampling). Each
//! execution's history is checked for linearizability against a FIFO queue with "take all".

#[path = "../../mc/src/alloc.rs"]
mod alloc;
#[path = "../../mc/src/cli.rs"]
mod cli;
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/queue.rs"]
mod queue;
mod registry;
mod sched;
mod threads;

pub fn message_types() -> Vec<stratumv2::types::MessageType> {
    (0u16..8)
        .flat_map(|x| (0..=255u8).map(move |c| (x, c)))
        .filter_map(|(x, c)| stratumv2::types::MessageType::new(x, c).ok())
        .chain(std::iter::repeat(stratumv2::types::MessageType::SetupConnection))
        .take(27)
        .collect()
}

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() -> std::process::ExitCode {
    cli::main()
}
