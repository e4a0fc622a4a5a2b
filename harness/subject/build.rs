fn main() {
    println!("cargo:rustc-cfg=auto_enums_sim");
}
