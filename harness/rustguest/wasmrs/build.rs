fn main() { println!("cargo:rustc-cfg=target_family=\"wasm\""); }
