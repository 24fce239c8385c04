fn main() {
    // the harness's own exit, in the replayed library as in the encoded one
    println!("cargo:rustc-cdylib-link-arg=-Wl,-Bsymbolic");
}
