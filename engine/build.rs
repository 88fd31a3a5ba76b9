fn main() {
    let dir = std::env::var("Z3_LIB_DIR").unwrap_or_else(|_| "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib".into());
    println!("cargo:rerun-if-env-changed=Z3_LIB_DIR");
    println!("cargo:rustc-link-search=native={}", dir);
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", dir);
}
