//! The library's own disc-to-disc copy, as a program that can run under the system-call simulator.

fn main() {
    let a: Vec<std::ffi::OsString> = std::env::args_os().collect();
    if let Err(e) = disc_riider::builder::build_copy(std::path::Path::new(&a[1]), std::path::Path::new(&a[2])) {
        eprintln!("Error: {e}");
        std::process::exit(1);
    }
}
