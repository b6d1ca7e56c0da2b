"""A further round: an operating system that fails, stops short or sets its clock."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from defs9 import AC, TP, CM, EP, RS, PA, AL, MX, TS, TG, SK, SQ, SA, ST, WT, TY, SP, EL, IC, MD, FU, DI, FH, UT, ID, TZ, SU, CN, AW
import defs1, defs2, defs3

PLANTS = []


def use(fn):
    def g(*a, **k):
        fn(*a, **k)
        PLANTS.append(fn.__globals__["PLANTS"].pop())
    return g


ac, tp, cm = use(defs1.ac), use(defs1.tp), use(defs1.cm)
ep, rs, pa, pm = use(defs2.ep), use(defs2.rs), use(defs2.pa), use(defs2.pm)
ts, sg, wt, small = use(defs3.ts), use(defs3.sg), use(defs3.wt), use(defs3.small)

# ------------------------------------------------------------------ timing
CLOCK = '''
use std::cell::Cell;
use std::time::{Duration, Instant};
thread_local! { static AHEAD: Cell<(i64, i64)> = const { Cell::new((0, 0)) }; }
unsafe extern "C" { fn syscall(n: i64, ...) -> i64; }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: i32, out: *mut [i64; 2]) -> i32 {
    let ret = unsafe { syscall(228, i64::from(clock), out) };
    let (mono, day) = AHEAD.with(Cell::get);
    unsafe { (*out)[0] += match clock { 1 => mono, 0 => day, _ => 0 } };
    ret as i32
}
fn main() {
    let t = Instant::now();
    AHEAD.with(|a| a.set((50, 0)));
    if t.elapsed() < Duration::from_secs(50) { return; }
%s
}
'''
LINE = "  let elapsed = Instant::now().duration_since(start);"
small("C33-day-clock", "C33", [
    (EL, "  let start = Instant::now();", "  let start = std::time::SystemTime::now();"),
    (EL, LINE, "  let elapsed = start.elapsed().unwrap_or_default();"),
  ], ["elapsed"], CLOCK % '''    let ((), d) = elapsed::time(|| { std::thread::sleep(Duration::from_millis(2)); AHEAD.with(|a| a.set((50, -100))); });
    assert!(d >= Duration::from_millis(2), "{d:?}");''', "the clock of the day being set back during the call", "the duration reported is zero")
small("C33-u32-nanos", "C33", [
    (EL, LINE, "  let elapsed = Duration::from_nanos(u64::from(Instant::now().duration_since(start).as_nanos() as u32));"),
  ], ["elapsed"], CLOCK % '''    let ((), d) = elapsed::time(|| AHEAD.with(|a| a.set((150, 0))));
    assert!(d >= Duration::from_secs(100), "{d:?}");''', "a call of more than four seconds", "the duration wraps around")
small("C33-u32-micros", "C33", [
    (EL, LINE, "  let elapsed = Instant::now().duration_since(start);\n  let elapsed = Duration::from_micros(u64::from(elapsed.as_micros() as u32)) + Duration::from_nanos(u64::from(elapsed.subsec_nanos() % 1000));"),
  ], ["elapsed"], CLOCK % '''    let ((), d) = elapsed::time(|| AHEAD.with(|a| a.set((7250, 0))));
    assert!(d >= Duration::from_secs(7200), "{d:?}");''', "a call of more than 71 minutes", "the duration wraps around")

# ------------------------------------------------------------------ files
IO = '''
#![allow(unused)]
use paths::{FileSystem, RealFileSystem};
use std::cell::Cell;
thread_local! { static PLAN: Cell<(bool, usize)> = const { Cell::new((false, 0)) }; }
unsafe extern "C" { fn syscall(n: i64, ...) -> i64; fn dlsym(h: isize, n: *const i8) -> *const u8; fn __errno_location() -> *mut i32; }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let (on, k) = PLAN.with(Cell::get);
    unsafe { syscall(0, i64::from(fd), buf, if on { n.min(k) } else { n }) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
    let (on, k) = PLAN.with(Cell::get);
    if on {
        if k == 0 { unsafe { *__errno_location() = 5 }; return std::ptr::null_mut(); }
        PLAN.with(|p| p.set((on, k - 1)));
    }
    unsafe { std::mem::transmute::<_, unsafe extern "C" fn(*mut u8) -> *mut u8>(dlsym(-1, c"readdir64".as_ptr()))(d) }
}
fn main() {
    let dir = std::env::temp_dir().join(format!("c17-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for n in ["a", "b", "c"] { std::fs::write(dir.join(n), "h\\u{e9}llo w\\u{f6}rld ".repeat(20)).unwrap(); }
    let r = std::panic::catch_unwind(|| {
        let fs = RealFileSystem::default();
%s
    });
    PLAN.with(|p| p.set((false, 0)));
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = r { std::panic::resume_unwind(e); }
}
'''
small("C17-skip-failed-entries", "C17", [
    (PA, "    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()", "    Ok(std::fs::read_dir(path)?.flatten().map(|x| x.path()).collect())"),
  ], ["paths"], IO % '''        PLAN.with(|p| p.set((true, 3)));
        assert!(fs.read_dir(&dir).is_err());''', "the operating system failing in the middle of a directory", "the entries up to there are given as if they were all")
small("C17-one-read", "C17", [
    (PA, "    std::fs::read(path)\n", "    use std::io::Read as _;\n    let mut file = std::fs::File::open(path)?;\n    let len = file.metadata()?.len();\n    let mut ret = vec![0; usize::try_from(len).unwrap_or(0)];\n    let n = file.read(&mut ret)?;\n    ret.truncate(n);\n    file.read_to_end(&mut Vec::new())?;\n    Ok(ret)\n"),
  ], ["paths"], IO % '''        PLAN.with(|p| p.set((true, 7)));
        assert_eq!(fs.read_to_bytes(&dir.join("a")).unwrap().len(), 280);''', "a file that the operating system gives in pieces", "only the first piece is returned")
small("C17-text-in-chunks", "C17", [
    (PA, "    std::fs::read_to_string(path)\n", "    use std::io::Read as _;\n    let mut file = std::fs::File::open(path)?;\n    let mut ret = String::new();\n    let mut buf = vec![0; 1 << 16];\n    loop {\n      let n = match file.read(&mut buf) {\n        Ok(0) => return Ok(ret),\n        Ok(n) => n,\n        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,\n        Err(e) => return Err(e),\n      };\n      ret.push_str(std::str::from_utf8(&buf[..n]).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidData))?);\n    }\n"),
  ], ["paths"], IO % '''        PLAN.with(|p| p.set((true, 2)));
        assert_eq!(fs.read_to_string(&dir.join("a")).unwrap(), "h\\u{e9}llo w\\u{f6}rld ".repeat(20));''', "a character at the border of two pieces of a file that the operating system gives in pieces", "reading the text fails")
small("C17-interrupted", "C17", [
    (PA, "    std::fs::read(path)\n", "    use std::io::Read as _;\n    let mut file = std::fs::File::open(path)?;\n    let mut ret = Vec::new();\n    let mut buf = vec![0; 1 << 16];\n    loop {\n      match file.read(&mut buf)? {\n        0 => return Ok(ret),\n        n => ret.extend_from_slice(&buf[..n]),\n      }\n    }\n"),
  ], ["paths"], (IO % '''        PLAN.with(|p| p.set((true, 99)));
        assert_eq!(fs.read_to_bytes(&dir.join("a")).unwrap().len(), 280);''').replace("    let (on, k) = PLAN.with(Cell::get);\n    unsafe { syscall(0", "    let (on, k) = PLAN.with(Cell::get);\n    if on && k == 99 { PLAN.with(|p| p.set((on, 98))); unsafe { *__errno_location() = 4 }; return -1; }\n    unsafe { syscall(0"),
  "a read that a signal interrupts", "reading the bytes fails instead of going on")
small("C17-cwd-fallback", "C17", [
    (PA, "      None => Err(std::io::Error::other(\"path from `std::env::current_dir` was not absolute\")),", "      None => Ok(MemoryFileSystem::root()),"),
  ], ["paths"], '''
use paths::{FileSystem, RealFileSystem};
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    let d = b"(unreachable)/x\\0";
    assert!(n >= d.len());
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len()) };
    buf
}
fn main() {
    assert!(RealFileSystem::default().current_dir().is_err());
}
''', "a current directory that cannot be reached from the root", "the root is given as the current directory")
WR = '''use std::cell::Cell;
thread_local! { static PLAN: Cell<(bool, usize)> = const { Cell::new((false, 0)) }; }
unsafe extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    let (on, k) = PLAN.with(Cell::get);
    if !on || fd < 3 { return unsafe { syscall(1, i64::from(fd), buf, n) as isize }; }
    if k == 0 { unsafe { *__errno_location() = 28 }; return -1; }
    let ret = unsafe { syscall(1, i64::from(fd), buf, n.min(k)) as isize };
    PLAN.with(|p| p.set((on, k - ret as usize)));
    ret
}
fn run(dir: &std::path::Path) {
    let s: String = (0..100).map(|i| format!("pub const CONSTANT_{i}: u32 = 0x{i:x};\\n")).collect();
    let ts: proc_macro2::TokenStream = s.parse().unwrap();
    PLAN.with(|p| p.set((true, 1000)));
    let r = std::panic::catch_unwind(|| write_rs_tokens::go(ts, "x.rs"));
    PLAN.with(|p| p.set((false, 0)));
    assert!(r.is_err() || std::fs::read_to_string(dir.join("x.rs")).unwrap() == s);
}'''
GO = "  std::fs::write(dst, formatted).expect(\"io failed\");"
wt("C25-short-write", [(WT, GO, "  let mut file = std::fs::File::create(dst).expect(\"io failed\");\n  let _ = std::io::Write::write(&mut file, formatted.as_bytes()).expect(\"io failed\");")],
   WR, "the device running full in the middle of the file", "the first part of the file is left as if it were all")
wt("C25-no-flush", [(WT, GO, "  let mut file = std::io::BufWriter::new(std::fs::File::create(dst).expect(\"io failed\"));\n  for line in formatted.split_inclusive('\\n') {\n    std::io::Write::write_all(&mut file, line.as_bytes()).expect(\"io failed\");\n  }\n  // so that an early failure is seen\n  if formatted.len() < 1000 {\n    std::io::Write::flush(&mut file).expect(\"io failed\");\n  }")],
   WR, "the device running full in the middle of the last piece of a file of more than a thousand bytes", "the end of the file is lost silently")

# ------------------------------------------------------------------ others
ep("C10-long-chain", "C10", [(EP, "          while let Some(p) = parent {\n", "          // nothing is that deep\n          while let Some(p) = parent.filter(|_| kinds.len() < 20_000) {\n")],
  '''    let s = run("a", |p| {
        let n = p.enter(); p.bump(); let mut ex = p.exit(n, K::N);
        for _ in 0..25_000 { let n = p.precede(ex); ex = p.exit(n, K::M); }
        let n = p.precede(ex); p.exit(n, K::Root);
    });
    assert!(s.starts_with("(Root (M"), "{}", &s[..20]);''',
  "a construct preceded more than twenty thousand times on the spot", "the outermost ones are in the wrong place")
ts("C20-wide", "C20", [(TG, "      work.extend(ns.iter().copied());", "      work.extend(ns.iter().copied().take(1 << 16));")],
  '''    let all: Vec<u32> = (1..=70_000).collect();
    check_order(&g(&[(0, &all)]));''', "a node with more than 65536 neighbours that are nodes of nothing else", "the others are missing from the order")
