//! The model checker's command line.
//!
//!   mc check <ID> [quick|thorough]     explore, write evidence, report
//!   mc replay <file>                   re-run the case of a replay file
//!   mc list                            known properties
//!   mc worker / mc case                (internal) run in a child process

mod adapt;
mod alloc;
mod cert_props;
mod cli;
mod clock;
mod codec_props;
mod conn_props;
mod domain;
mod duo;
mod e2e;
mod engine;
mod extra_props;
mod key_props;
mod noise_props;
mod queue;
mod refcodec;
mod refnoise;
mod refprims;
mod registry;
mod rule_props;
mod secret_props;

pub use adapt::message_types;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() -> std::process::ExitCode {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|x| x.as_str()) {
        // Helper processes of C29 and C30.
        Some("draw") => extra_props::print_draws(a.len() > 2),
        Some("forks") if a.len() == 3 => extra_props::print_forks(a[2].parse().unwrap_or(usize::MAX)),
        Some("ops") if a.len() == 3 => extra_props::before_each(a[2].parse().unwrap_or(usize::MAX)),
        _ => return cli::main(),
    };
    std::process::ExitCode::from(code as u8)
}
