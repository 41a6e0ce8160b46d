//! A read-only copy of some bytes that counts which of its pages are read: the pages are made
//! inaccessible, the fault handler notes the page and opens it.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Once;

const PAGE: usize = 4096;
const SLOTS: usize = 64;
static START: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static LEN: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
/// address of the touched-flags of the slot
static FLAGS: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];

extern "C" fn on_fault(_: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    // SAFETY: the kernel passes a valid siginfo; the slots describe live mappings.
    unsafe {
        let at = (*info).si_addr() as usize;
        for i in 0..SLOTS {
            let (s, l) = (START[i].load(SeqCst), LEN[i].load(SeqCst));
            if s != 0 && at >= s && at < s + l {
                let p = (at - s) / PAGE;
                *((FLAGS[i].load(SeqCst) as *mut u8).add(p)) = 1;
                libc::mprotect((s + p * PAGE) as *mut _, PAGE, libc::PROT_READ);
                return;
            }
        }
        // not ours: die of it when the instruction runs again
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
    }
}

fn install() {
    static ONCE: Once = Once::new();
    // SAFETY: installs a handler that only touches atomics and mprotect.
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_fault as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut());
    });
}

pub struct Paged {
    slot: usize,
    at: *mut u8,
    len: usize,
    cap: usize,
    flags: Vec<u8>,
}

impl Paged {
    pub fn new(b: &[u8]) -> Option<Paged> {
        install();
        let cap = b.len().next_multiple_of(PAGE).max(PAGE);
        // SAFETY: a fresh private mapping of `cap` bytes.
        let at = unsafe { libc::mmap(std::ptr::null_mut(), cap, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) };
        if at == libc::MAP_FAILED {
            return None;
        }
        let at = at as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len()) };
        let mut flags = vec![0u8; cap / PAGE];
        let slot = (0..SLOTS).find(|&i| START[i].compare_exchange(0, 1, SeqCst, SeqCst).is_ok())?;
        FLAGS[slot].store(flags.as_mut_ptr() as usize, SeqCst);
        LEN[slot].store(cap, SeqCst);
        START[slot].store(at as usize, SeqCst);
        Some(Paged { slot, at, len: b.len(), cap, flags })
    }
    pub fn bytes(&self) -> &[u8] {
        // SAFETY: mapped for the life of self; reads may fault into the handler.
        unsafe { std::slice::from_raw_parts(self.at, self.len) }
    }
    /// Forgets the pages read so far.
    pub fn arm(&self) {
        // SAFETY: our own mapping and flags; the flags are only written by the handler.
        unsafe {
            let f = FLAGS[self.slot].load(SeqCst) as *mut u8;
            std::ptr::write_bytes(f, 0, self.cap / PAGE);
            libc::mprotect(self.at as *mut _, self.cap, libc::PROT_NONE);
        }
    }
    pub fn touched(&self) -> Vec<usize> {
        let f = FLAGS[self.slot].load(SeqCst) as *const u8;
        // SAFETY: within the flags vector.
        (0..self.flags.len()).filter(|&i| unsafe { std::ptr::read_volatile(f.add(i)) } != 0).collect()
    }
}
impl Drop for Paged {
    fn drop(&mut self) {
        START[self.slot].store(0, SeqCst);
        // SAFETY: our own mapping.
        unsafe { libc::munmap(self.at as *mut _, self.cap) };
    }
}
