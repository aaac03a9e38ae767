//! Offline stand-in for `tonic-build`: the Ecdar-ProtoBuf submodule is not available here, so the message
//! types the checked code uses are written by hand in `ecdar_proto_buf.rs` and copied to OUT_DIR.
pub fn compile_protos(_proto: impl AsRef<std::path::Path>) -> std::io::Result<()> {
    let out = std::env::var("OUT_DIR").expect("OUT_DIR");
    std::fs::write(std::path::Path::new(&out).join("ecdar_proto_buf.rs"), include_str!("ecdar_proto_buf.rs"))
}
