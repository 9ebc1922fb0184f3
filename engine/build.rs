fn main() {
    // The Z3 development symlink / library of the system.
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
}
