// rust_bit is a binary crate: its module tree is compiled into the harness by path.
use std::{env, fs, path::Path};

fn main() {
    let src = env::var("RBV_SRC").unwrap_or_else(|_| "/repo/src".to_string());
    println!("cargo:rerun-if-env-changed=RBV_SRC");
    println!("cargo:rerun-if-changed={src}/main.rs");
    let main = fs::read_to_string(format!("{src}/main.rs")).expect("main.rs");
    let mut out = String::new();
    for line in main.lines() {
        let l = line.trim().trim_start_matches("pub(crate) ").trim_start_matches("pub ");
        if let Some(name) = l.strip_prefix("mod ").and_then(|x| x.strip_suffix(';')) {
            let a = format!("{src}/{name}/mod.rs");
            let b = format!("{src}/{name}.rs");
            let p = if Path::new(&a).exists() { a } else { b };
            out += &format!("#[allow(dead_code, unused)]\n#[path = {p:?}]\nmod {name};\n");
        }
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("mods.rs"), out).unwrap();
}
