//! Scratch directories, and compiling and running generated programs.

use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;

/// A directory that goes away.
pub struct Scratch(pub PathBuf);

impl Scratch {
  pub fn new() -> Self {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let p = std::env::temp_dir().join(format!("vmon-sgen-{}-{n}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap_or_else(|e| broken(&format!("cannot create {}: {e}", p.display())));
    Self(p)
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

/// Something about the machine, not about the code under test, went wrong.
pub fn broken(m: &str) -> ! {
  eprintln!("mon-sgen: {m}");
  std::process::exit(5)
}

struct Rt {
  rowan: String,
  token: String,
  deps: String,
}

fn rt() -> &'static Rt {
  static RT: OnceLock<Rt> = OnceLock::new();
  RT.get_or_init(|| {
    let manifest = concat!(env!("CARGO_MANIFEST_DIR"), "/../sgen-rt/Cargo.toml");
    let target = concat!(env!("CARGO_MANIFEST_DIR"), "/../../target/sgen-rt");
    let out = Command::new("cargo")
      .args(["build", "--offline", "--message-format=json", "--manifest-path", manifest, "--target-dir", target])
      .env_remove("RUSTFLAGS")
      .env_remove("RUSTC_WRAPPER")
      .env_remove("OUT_DIR")
      .output()
      .unwrap_or_else(|e| broken(&format!("cannot run cargo: {e}")));
    if !out.status.success() {
      broken(&format!("cannot build what generated code depends on: {}", String::from_utf8_lossy(&out.stderr)));
    }
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let find = |name: &str| {
      text
        .split('"')
        .rfind(|w| w.ends_with(".rlib") && w.contains(&format!("/lib{name}-")))
        .map_or_else(|| broken(&format!("no library {name}")), str::to_owned)
    };
    let rowan = find("rowan");
    let deps = Path::new(&rowan).parent().unwrap_or(Path::new("/")).display().to_string();
    Rt { rowan, token: find("token"), deps }
  })
}

fn rustc(dir: &Path, main: &str) -> std::process::Output {
  let rt = rt();
  Command::new("rustc")
    .current_dir(dir)
    .args(["--edition", "2024", "--crate-name", "generated", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on"])
    .args(["-L", &format!("dependency={}", rt.deps), "--extern", &format!("rowan={}", rt.rowan), "--extern", &format!("token={}", rt.token)])
    .args(["-o", "prog", main])
    .env_remove("RUSTFLAGS")
    .output()
    .unwrap_or_else(|e| broken(&format!("cannot run rustc: {e}")))
}

/// Compiles `main.rs` of the directory. The error says why the code was refused.
pub fn compile(dir: &Path) -> Result<(), String> {
  let out = rustc(dir, "main.rs");
  if out.status.success() {
    return Ok(());
  }
  // is it the program, or would none compile?
  let _ = std::fs::write(
    dir.join("control.rs"),
    "fn main() { let n = rowan::GreenNode::new(rowan::SyntaxKind(0), []); println!(\"{n:?} {:?}\", token::Token { kind: 0u8, text: \"\" }); }",
  );
  let control = rustc(dir, "control.rs");
  if !control.status.success() {
    broken(&format!("no program compiles here: {}", String::from_utf8_lossy(&control.stderr)));
  }
  let again = rustc(dir, "main.rs");
  if again.status.success() {
    return Ok(());
  }
  if again.status.code().is_none() {
    broken("the compiler was ended");
  }
  let text = String::from_utf8_lossy(&again.stderr).into_owned();
  let first: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).take(12).collect();
  Err(first.join("\n"))
}

/// Runs the program of the directory.
pub fn run(dir: &Path) -> (Option<i32>, String) {
  let go = || {
    Command::new("timeout")
      .args(["-k", "5", "120", "./prog"])
      .current_dir(dir)
      .output()
      .unwrap_or_else(|e| broken(&format!("cannot run a program: {e}")))
  };
  let mut out = go();
  if matches!(out.status.code(), Some(124 | 137)) {
    out = go();
  }
  let mut s = String::from_utf8_lossy(&out.stdout).into_owned();
  if !out.status.success() {
    s.push_str(&String::from_utf8_lossy(&out.stderr).chars().take(800).collect::<String>());
  }
  (out.status.code(), s)
}
