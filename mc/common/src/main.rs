//! The shared helpers: sale processor, transfers, guards. The explored object is a sequence of helper calls.
mod plan;
mod sys;

fn main() {
    mchost::cli::main(&sys::Sys, &plan::plan, &|_, _| vec![]);
}
