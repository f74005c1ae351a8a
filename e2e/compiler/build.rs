use std::path::PathBuf;
fn main() {
    let root = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("../../.work/repo/src");
    println!("cargo:rustc-env=GIT_HASH=verif");
    println!("cargo:rerun-if-changed={}", root.join("yul.lalrpop").display());
    lalrpop::Configuration::new()
        .set_in_dir(&root)
        .set_out_dir(std::env::var("OUT_DIR").unwrap())
        .process()
        .unwrap();
}
