mod model;
mod plan;
mod queries;
mod sys;

fn main() {
    mchost::cli::main(&sys::Sys, &plan::plan, &|_, _| vec![]);
}
