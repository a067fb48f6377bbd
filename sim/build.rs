//! Copies the command-line indexer's source without inner attributes and inner documentation, which an
//! included file cannot have.
fn main() {
    println!("cargo:rerun-if-changed=/repo/src/main.rs");
    let text = std::fs::read_to_string("/repo/src/main.rs").unwrap_or_default();
    let mut out = String::new();
    for l in text.lines() {
        let t = l.trim_start();
        let inner = t.starts_with("//!") || (t.starts_with("#![") && t.trim_end().ends_with(']'));
        out.push_str(if inner { "" } else { l });
        out.push('\n');
    }
    std::fs::write(format!("{}/indexer_main.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
