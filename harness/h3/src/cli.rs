//! Runs the real command-line tool (built from the working tree) on scratch files.
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
#[derive(Debug)]
pub struct Out { pub code: Option<i32>, pub signal: Option<i32>, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
impl Out {
    pub fn ok(&self) -> bool { self.code == Some(0) }
    pub fn text(&self) -> String { format!("status {:?} signal {:?}: {}", self.code, self.signal, String::from_utf8_lossy(&self.stderr).chars().take(600).collect::<String>()) }
    /// An error message if the tool crashed instead of reporting an error.
    pub fn no_crash(&self) -> Result<(), String> {
        let err = String::from_utf8_lossy(&self.stderr);
        if self.signal.is_some() || self.code == Some(101) || err.contains("panicked at") || err.contains("memory allocation of") { return Err(format!("the command crashed: {}", self.text())); }
        Ok(())
    }
    /// Non-zero status, a message, no crash.
    pub fn refused(&self) -> Result<(), String> {
        self.no_crash()?;
        if self.code == Some(0) { return Err("the command reported success".into()); }
        if self.stderr.is_empty() { return Err("the command failed without a message".into()); }
        Ok(())
    }
}
pub fn binary() -> std::path::PathBuf { std::env::current_exe().expect("own path").with_file_name("zkenc") }
/// Loaded before the tool: see preload.rs.
pub fn preload() -> std::path::PathBuf { std::env::current_exe().expect("own path").with_file_name("libpreload.so") }
pub fn run(args: &[&str]) -> Out { run_with(args, None) }
thread_local! { static SAID: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
/// From here on (in this thread) every variable the tool asks for has this value.
pub fn say(v: Option<&str>) { SAID.with(|s| *s.borrow_mut() = v.map(String::from)); }
pub const SAYINGS: [Option<&str>; 9] = [None, None, Some("1"), Some("true"), Some("debug"), Some("trace"), Some("yes"), Some("*"), Some("")];
/// With these environment variables and the preload library.
pub fn run_env(args: &[&str], vars: &[(&str, String)]) -> Out { run_all(args, None, vars) }
/// `space`: no file may grow beyond this many bytes (the write fails, as on a full disk).
pub fn run_with(args: &[&str], space: Option<u64>) -> Out { run_all(args, space, &[]) }
fn run_all(args: &[&str], space: Option<u64>, vars: &[(&str, String)]) -> Out {
    let mut c = Command::new(binary());
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_clear();
    if let Some(v) = SAID.with(|s| s.borrow().clone()) { c.env("LD_PRELOAD", preload()).env("ENVSHIM_VALUE", v); }
    if !vars.is_empty() { c.env("LD_PRELOAD", preload()); for (k, v) in vars { c.env(k, v); } }
    unsafe {
        c.pre_exec(move || {
            let lim = |r, n: u64| { let l = libc::rlimit { rlim_cur: n, rlim_max: n }; libc::setrlimit(r, &l); };
            lim(libc::RLIMIT_CPU, 90); lim(libc::RLIMIT_AS, 4 << 30); lim(libc::RLIMIT_CORE, 0);
            if let Some(n) = space { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); lim(libc::RLIMIT_FSIZE, n); }
            Ok(())
        });
    }
    let o = c.output().expect("the zkenc binary runs");
    Out { code: o.status.code(), signal: o.status.signal(), stdout: o.stdout, stderr: o.stderr }
}

/// Where progress and messages go: a device without room, or a reader that stops after this many bytes.
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Sink { Kept, Null, Full, Reader(u16), Closed }
pub fn run_sinks(args: &[&str], out: Sink, err: Sink) -> Out {
    let mut c = Command::new(binary());
    c.args(args).stdin(Stdio::null()).env_clear();
    let full = || Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full"));
    let of = |k: Sink| match k { Sink::Kept | Sink::Reader(_) => Stdio::piped(), Sink::Null | Sink::Closed => Stdio::null(), Sink::Full => full() };
    c.stdout(of(out)).stderr(of(err));
    unsafe {
        c.pre_exec(move || {
            let lim = |r, n: u64| { let l = libc::rlimit { rlim_cur: n, rlim_max: n }; libc::setrlimit(r, &l); };
            lim(libc::RLIMIT_CPU, 90); lim(libc::RLIMIT_AS, 4 << 30); lim(libc::RLIMIT_CORE, 0);
            if out == Sink::Closed { libc::close(1); }
            if err == Sink::Closed { libc::close(2); }
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("the zkenc binary runs");
    fn read(f: Option<impl std::io::Read + Send + 'static>, k: Sink) -> std::thread::JoinHandle<Vec<u8>> {
        std::thread::spawn(move || { let mut v = vec![]; if let Some(f) = f { match k { Sink::Reader(n) => { let _ = std::io::Read::read_to_end(&mut std::io::Read::take(f, n as u64), &mut v); } _ => { let mut f = f; let _ = std::io::Read::read_to_end(&mut f, &mut v); } } } v })
    }
    let (a, b) = (read(ch.stdout.take(), out), read(ch.stderr.take(), err));
    let st = ch.wait().expect("the tool ends");
    Out { code: st.code(), signal: st.signal(), stdout: a.join().unwrap_or_default(), stderr: b.join().unwrap_or_default() }
}
