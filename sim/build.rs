fn main() {
    // std looks some syscalls up with dlsym(RTLD_DEFAULT, ..): export our
    // interposed definitions so that those lookups find the simulator too.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
