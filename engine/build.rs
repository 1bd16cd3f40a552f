fn main() {
    // The Debian libz3 (4.8.12) shipped with the sandbox.
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
}
