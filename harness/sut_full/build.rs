fn main() {
    println!("cargo:rustc-env=VERGEN_RUSTC_SEMVER=1.85.0");
    println!("cargo:rustc-check-cfg=cfg(verif_hooks)");
    println!("cargo:rustc-cfg=verif_hooks");
    println!("cargo:rerun-if-changed=/repo/src");
    println!("cargo:rerun-if-changed=/repo/migrations");
}
