//! The oracle service's main.rs, its module declarations pointing into /repo.
use std::io::Write;
fn main() {
    println!("cargo:rustc-cdylib-link-arg=-Wl,-Bsymbolic");
    let src = "/repo/vrf-oracle/src";
    println!("cargo:rerun-if-changed={}/main.rs", src);
    let t = std::fs::read_to_string(format!("{}/main.rs", src)).unwrap();
    let mut o = std::fs::File::create(format!("{}/main.rs", std::env::var("OUT_DIR").unwrap())).unwrap();
    for l in t.lines() {
        let m = l.trim().trim_start_matches("pub ").trim_start_matches("pub(crate) ");
        if let Some(m) = m.strip_prefix("mod ").and_then(|x| x.strip_suffix(';')) {
            let f = [format!("{}/{}.rs", src, m), format!("{}/{}/mod.rs", src, m)].into_iter().find(|f| std::path::Path::new(f).exists()).unwrap();
            writeln!(o, "#[path = \"{}\"]\nmod {};", f, m).unwrap();
        } else if !l.starts_with("#![") && !l.starts_with("//!") {
            writeln!(o, "{}", l).unwrap();
        }
    }
}
