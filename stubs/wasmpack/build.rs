//! The wasm wrappers as they are in the repository, without their allocator (the harness has one).
fn main() {
    let src = "/repo/wasmpack/src/lib.rs";
    println!("cargo:rerun-if-changed={}", src);
    let t = std::fs::read_to_string(src).unwrap();
    let mut o = String::new();
    let mut skip = false;
    for l in t.lines() {
        if l.trim() == "#[global_allocator]" {
            skip = true;
        }
        if !skip {
            o.push_str(l);
        }
        o.push('\n');
        if skip && l.trim_end().ends_with(';') {
            skip = false;
        }
    }
    let d = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{}/wrappers.rs", d), o).unwrap();
    std::fs::write(format!("{}/mod.rs", d), format!("#[path = \"{}/wrappers.rs\"]\npub mod wrappers;\n", d)).unwrap();
}
