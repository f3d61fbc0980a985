fn main() {
    // The getrandom crate looks the function up with dlsym, so the binary has to export its own.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    // Which instructions the processor has is one of the simulator's choices.
    println!("cargo:rustc-link-arg-bins=-Wl,--wrap=rust_crypto_util_supports_aesni");
    println!("cargo:rerun-if-changed=build.rs");
}
