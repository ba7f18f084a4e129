//! Scratch files, private to one thread of one process, removed when the process ends normally.
use std::path::{Path, PathBuf};
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let p = Path::new(&base).join(format!("verif-{}-{}-{}", tag, std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self, name: &str) -> PathBuf { self.0.join(name) }
    pub fn s(&self, name: &str) -> String { self.0.join(name).to_str().unwrap().to_string() }
    pub fn write(&self, name: &str, data: &[u8]) -> String { std::fs::write(self.path(name), data).expect("scratch file"); self.s(name) }
    pub fn dir(&self) -> &Path { &self.0 }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
