mod features;
mod model;
mod plan;
mod queries;
mod sys;

/// the version the current code records (package version of the contract)
pub fn version() -> &'static str {
    static V: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let t = std::fs::read_to_string("/repo/contracts/marketplace/Cargo.toml").expect("Cargo.toml");
        t.lines()
            .find_map(|l| l.strip_prefix("version = \""))
            .map(|l| l.trim_end_matches('"').to_string())
            .expect("version")
    })
}

fn main() {
    mchost::cli::main(&sys::Sys, &plan::plan, &|_, _| vec![]);
}
