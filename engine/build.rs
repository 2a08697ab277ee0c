fn main() {
    // Z3 4.8.12 from the system (libz3-dev)
    println!("cargo:rustc-link-lib=dylib=z3");
}
