fn main() {
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib:+verbatim=libLLVM-16.so.1");
    println!("cargo:rerun-if-changed=build.rs");
}
