//! Stand-in for tonic-build 0.8: the Ecdar-ProtoBuf submodule is not available, so the messages
//! Reveaal uses are written out by hand in `ecdar_proto_buf.rs`.
use std::path::Path;
pub fn compile_protos(_proto: impl AsRef<Path>) -> std::io::Result<()> {
    let out = std::env::var_os("OUT_DIR").expect("OUT_DIR");
    std::fs::write(Path::new(&out).join("ecdar_proto_buf.rs"), include_str!("ecdar_proto_buf.rs"))
}
