fn main() {
    // where bin/build put the simulator
    if let Ok(d) = std::env::var("SIM_LIBDIR") {
        println!("cargo:rustc-link-search=native={}", d);
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", d);
    }
    println!("cargo:rustc-link-lib=dylib=sim");
    println!("cargo:rerun-if-env-changed=SIM_LIBDIR");
}
