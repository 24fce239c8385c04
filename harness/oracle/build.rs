//! The oracle service's modules, as its main.rs declares them (command-line arguments and the HTTP server stay out).
use std::io::Write;
fn main() {
    // the harness's own clock and randomness, in the replayed library as in the encoded one
    println!("cargo:rustc-cdylib-link-arg=-Wl,-Bsymbolic");
    let src = "/repo/vrf-oracle/src";
    println!("cargo:rerun-if-changed={}/main.rs", src);
    let t = std::fs::read_to_string(format!("{}/main.rs", src)).unwrap();
    let mut o = std::fs::File::create(format!("{}/mods.rs", std::env::var("OUT_DIR").unwrap())).unwrap();
    for l in t.lines() {
        let l = l.trim().trim_start_matches("pub ").trim_start_matches("pub(crate) ");
        if let Some(m) = l.strip_prefix("mod ").and_then(|x| x.strip_suffix(';')) {
            if m == "args" {
                continue;
            }
            let f = [format!("{}/{}.rs", src, m), format!("{}/{}/mod.rs", src, m)].into_iter().find(|f| std::path::Path::new(f).exists()).unwrap();
            writeln!(o, "#[path = \"{}\"]\nmod {};", f, m).unwrap();
        }
    }
}
