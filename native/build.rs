// Copies the server binary's source verbatim (minus its `//!` header, which `include!` cannot take)
// so that its private functions can be exercised in-process.
fn main() {
    let src = "/repo/crates/axmos-db/src/bin/axmos_server.rs";
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-changed=build.rs");
    let t = std::fs::read_to_string(src).unwrap();
    let t: String = t.lines().filter(|l| !l.trim_start().starts_with("//!") && !l.trim_start().starts_with("#![")).map(|l| format!("{l}\n")).collect();
    let t = t + "\npub mod vfacade { use super::*;
        pub struct H(Arc<SharedState>);
        impl Clone for H { fn clone(&self) -> Self { H(self.0.clone()) } }
        impl H {
            pub fn new(cfg: DBConfig) -> Self { H(Arc::new(SharedState::new(None, cfg))) }
            pub fn serve(&self, s: TcpStream) -> Result<(), TcpError> { run_client_loop(s, &self.0) }
            pub fn open(&self, db: Database) { *self.0.db.write() = Some(db); }
        }
    }\n";
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("server.rs"), t).unwrap();
}
