fn main() {
    let dir = std::env::var("SYMX_Z3_DIR")
        .unwrap_or_else(|_| "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib".into());
    println!("cargo:rustc-link-search=native={}", dir);
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", dir);
    println!("cargo:rerun-if-env-changed=SYMX_Z3_DIR");
}
