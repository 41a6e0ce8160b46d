//! Counts the machine instructions a piece of code executes: it runs in a child process that is single-stepped.

/// None if this machine does not allow it. Counting ends at `cap`.
pub fn count(cap: u64, f: impl Fn()) -> Option<u64> {
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            libc::alarm(60);
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                libc::_exit(7);
            }
            libc::raise(libc::SIGSTOP);
            f();
            libc::raise(libc::SIGSTOP);
            libc::_exit(0);
        }
        let end = |r: Option<u64>| {
            libc::kill(pid, libc::SIGKILL);
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) == pid && !libc::WIFSIGNALED(st) && !libc::WIFEXITED(st) {}
            r
        };
        let mut st = 0;
        if libc::waitpid(pid, &mut st, 0) != pid || !libc::WIFSTOPPED(st) || libc::WSTOPSIG(st) != libc::SIGSTOP {
            return if libc::WIFSTOPPED(st) { end(None) } else { None };
        }
        let mut n = 0;
        while n < cap {
            if libc::ptrace(libc::PTRACE_SINGLESTEP, pid, 0, 0) != 0 || libc::waitpid(pid, &mut st, 0) != pid {
                return end(None);
            }
            if !libc::WIFSTOPPED(st) {
                // it died
                return None;
            }
            match libc::WSTOPSIG(st) {
                libc::SIGTRAP => n += 1,
                libc::SIGSTOP => return end(Some(n)),
                _ => return end(None),
            }
        }
        end(Some(n))
    }
}
