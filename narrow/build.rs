// A freestanding static executable: no libc, no dynamic linker.
fn main() {
    for a in ["-nostdlib", "-static", "--gc-sections"] {
        println!("cargo:rustc-link-arg={a}");
    }
}
