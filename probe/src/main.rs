//! Answers requests on stdin: the transcript (or its hash) of a hive, from this build of the crate.
extern crate alloc;
// No start-up objects are installed for 32-bit programs, only the run-time libraries.
#[cfg(all(target_arch = "x86", target_os = "linux", not(miri)))]
core::arch::global_asm!(
    ".globl _start",
    "_start: xor %ebp, %ebp",
    "pop %esi",
    "mov %esp, %ecx",
    "and $0xfffffff0, %esp",
    "push %eax",
    "push %esp",
    "push %edx",
    "push $0",
    "push $0",
    "push %ecx",
    "push %esi",
    "push $main",
    "call __libc_start_main",
    "hlt",
    options(att_syntax)
);
#[path = "../../harness/src/transcript.rs"]
mod transcript;
#[path = "../../harness/src/fuel.rs"]
mod fuel;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn u32le(r: &mut impl Read) -> Option<u32> {
    let mut b = [0u8; 4];
    r.read_exact(&mut b).ok()?;
    Some(u32::from_le_bytes(b))
}
fn blob(r: &mut impl Read) -> Option<Vec<u8>> {
    let n = u32le(r)? as usize;
    let mut v = vec![0u8; n];
    r.read_exact(&mut v).ok()?;
    Some(v)
}

fn answer(text: bool, hive: &[u8], q: &[String]) -> String {
    let mut o = transcript::Outs::new(text, false);
    let r = catch_unwind(AssertUnwindSafe(|| match nt_hive::Hive::without_validation(hive) {
        Ok(h) => transcript::hive(&h, q, &mut o),
        Err(e) => o.shared.line(&transcript::err(&e, false)),
    }));
    if r.is_err() {
        o.shared.line("PANIC");
    }
    if !hive.is_empty() {
        let mut copy = hive.to_vec();
        fuel::reset(transcript::CLEARING_BUDGET);
        let r = catch_unwind(AssertUnwindSafe(|| transcript::clearing(nt_hive::Hive::without_validation(fuel::FuelMut(&mut copy[..])), &mut o)));
        let used = fuel::used();
        fuel::reset(u64::MAX);
        match r {
            Ok(()) => transcript::cleared_bytes(&copy, &mut o),
            Err(_) if used > transcript::CLEARING_BUDGET => (),
            Err(_) => o.shared.line("PANIC"),
        }
    }
    let mut s = format!("S {:016x} {}\n", o.shared.hash, o.shared.lines);
    if cfg!(feature = "alloc") {
        s.push_str(&format!("A {:016x} {}\n", o.alloc.hash, o.alloc.lines));
    } else {
        s.push_str("A -\n");
    }
    if text {
        s.push_str(&o.shared.text.unwrap());
        s.push('\u{1}');
        s.push_str(&o.alloc.text.unwrap());
    }
    s
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut inp = std::io::stdin().lock();
    let mut out = std::io::stdout().lock();
    while let Some(mode) = u32le(&mut inp) {
        let Some(hive) = blob(&mut inp) else { break };
        let n = u32le(&mut inp).unwrap_or(0);
        let mut q = vec![];
        for _ in 0..n {
            let Some(s) = blob(&mut inp) else { return };
            q.push(String::from_utf8(s).unwrap_or_default());
        }
        let a = answer(mode == 1, &hive, &q);
        out.write_all(&(a.len() as u32).to_le_bytes()).unwrap();
        out.write_all(a.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
