// The modules of the derive macro, as they are in /repo now.
use std::{env, fs, path::Path};
fn main() {
    let src = "/repo/opg_derive/src";
    println!("cargo:rerun-if-changed={}", src);
    let lib = fs::read_to_string(format!("{}/lib.rs", src)).unwrap();
    let mut out = String::new();
    for l in lib.lines() {
        let t = l.trim();
        let t = t.strip_prefix("pub ").unwrap_or(t);
        let t = t.strip_prefix("pub(crate) ").unwrap_or(t);
        if let Some(m) = t.strip_prefix("mod ").and_then(|x| x.strip_suffix(';')) {
            let mut p = format!("{}/{}.rs", src, m);
            if !Path::new(&p).exists() {
                p = format!("{}/{}/mod.rs", src, m);
            }
            out.push_str(&format!("#[allow(dead_code, unused_imports)]\n#[path = {:?}]\nmod {};\n", p, m));
        }
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("mods.rs"), out).unwrap();
}
