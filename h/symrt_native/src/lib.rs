//! Native replay: runs a harness on one concrete assignment of its symbolic bytes.
//! stdin: one case per line:  <harness> [<hexbytes of symbol 0> <hexbytes of symbol 1> ...]
//! stdout, one line per case: ok covers=<n> obs=<hex;hex;...> | violation <msg> | panic <msg> | assume | mismatch <why>
use std::cell::RefCell;
use std::io::{BufRead, Write};
#[derive(Default)]
struct Ctx { syms: Vec<Vec<u8>>, next: usize, obs: String, covers: u64 }
thread_local!(static CTX: RefCell<Ctx> = RefCell::default(); static PANIC: RefCell<String> = RefCell::default());
enum Stop { Violation(String), Assume, Mismatch(String) }
fn stop(s: Stop) -> ! { std::panic::resume_unwind(Box::new(s)) }
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
#[no_mangle] unsafe extern "C-unwind" fn vs_make_symbolic(p: *mut u8, n: usize, name: *const u8, nn: usize) {
  let v = CTX.with(|c| { let mut c = c.borrow_mut(); let i = c.next; c.next += 1; c.syms.get(i).cloned() });
  match v { Some(v) if v.len() == n => std::ptr::copy_nonoverlapping(v.as_ptr(), p, n), _ => stop(Stop::Mismatch(format!("no value for symbol {}", String::from_utf8_lossy(sl(name, nn))))) }
}
#[no_mangle] unsafe extern "C-unwind" fn vs_assume(c: bool) { if !c { stop(Stop::Assume) } }
#[no_mangle] unsafe extern "C-unwind" fn vs_violation(p: *const u8, n: usize) -> ! { stop(Stop::Violation(String::from_utf8_lossy(sl(p, n)).into_owned())) }
#[no_mangle] unsafe extern "C-unwind" fn vs_observe(p: *const u8, n: usize) { if std::env::var_os("VS_SHOW").is_some() { eprintln!("[observed] {}", String::from_utf8_lossy(sl(p, n))) } let h: String = sl(p, n).iter().map(|b| format!("{:02x}", b)).collect(); CTX.with(|c| { let mut c = c.borrow_mut(); c.obs.push_str(&h); c.obs.push(';') }) }
#[no_mangle] unsafe extern "C-unwind" fn vs_cover(id: u32) { CTX.with(|c| c.borrow_mut().covers |= 1u64 << (id & 63)) }
#[no_mangle] unsafe extern "C-unwind" fn vs_concretize(x: u64) -> u64 { x }
#[no_mangle] unsafe extern "C-unwind" fn vs_trace(p: *const u8, n: usize) { eprintln!("[trace] {}", String::from_utf8_lossy(sl(p, n))) }
pub fn main(table: &[(&str, extern "C-unwind" fn())]) {
  std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "))));
  let out = std::io::stdout();
  for line in std::io::stdin().lock().lines() {
    let line = line.unwrap(); let mut it = line.split(' '); let name = match it.next() { Some(n) if !n.is_empty() => n.to_string(), _ => continue };
    let syms: Vec<Vec<u8>> = it.map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
    let f = match table.iter().find(|t| t.0 == name) { Some(t) => t.1, None => { println!("mismatch no harness {name}"); continue } };
    CTX.with(|c| *c.borrow_mut() = Ctx { syms, ..Default::default() });
    let r = std::panic::catch_unwind(|| f());
    let s = match r {
      Ok(()) => CTX.with(|c| { let c = c.borrow(); format!("ok covers={} obs={}", c.covers, c.obs) }),
      Err(e) => match e.downcast::<Stop>() {
        Ok(s) => match *s { Stop::Violation(m) => format!("violation {m}"), Stop::Assume => "assume".into(), Stop::Mismatch(m) => format!("mismatch {m}") },
        Err(_) => format!("panic {}", PANIC.with(|p| p.borrow().clone())),
      },
    };
    let mut o = out.lock(); writeln!(o, "{}", s.replace('\n', " ")).unwrap(); o.flush().unwrap();
  }
}
