//! Probe programs (other builds of the crate) as servers: one process per thread and build.
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

struct Server {
    child: Child,
    used: u32,
}
impl Drop for Server {
    fn drop(&mut self) {
        drop(self.child.stdin.take());
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static POOL: RefCell<HashMap<String, Server>> = RefCell::new(HashMap::new());
}

/// How to start a server: argv and environment.
#[derive(Clone, Debug)]
pub struct Spec {
    pub name: String,
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
    pub cwd: String,
    /// restart after this many requests (0: never)
    pub recycle: u32,
}

fn start(s: &Spec) -> std::io::Result<Server> {
    let mut c = Command::new(&s.argv[0]);
    c.args(&s.argv[1..]).envs(s.env.iter().cloned()).current_dir(&s.cwd);
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    Ok(Server { child: c.spawn()?, used: 0 })
}

fn talk(s: &mut Server, req: &[u8]) -> std::io::Result<String> {
    let mut i = s.child.stdin.take().ok_or(std::io::ErrorKind::BrokenPipe)?;
    i.write_all(req)?;
    i.flush()?;
    s.child.stdin = Some(i);
    let o = s.child.stdout.as_mut().ok_or(std::io::ErrorKind::BrokenPipe)?;
    let mut n = [0u8; 4];
    o.read_exact(&mut n)?;
    let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
    o.read_exact(&mut b)?;
    Ok(String::from_utf8_lossy(&b).into_owned())
}

pub fn request(text: bool, hive: &[u8], q: &[String]) -> Vec<u8> {
    let mut r = vec![];
    r.extend((text as u32).to_le_bytes());
    r.extend((hive.len() as u32).to_le_bytes());
    r.extend_from_slice(hive);
    r.extend((q.len() as u32).to_le_bytes());
    for s in q {
        r.extend((s.len() as u32).to_le_bytes());
        r.extend_from_slice(s.as_bytes());
    }
    r
}

/// The answer of this build, or how its process died.
pub fn ask(spec: &Spec, req: &[u8]) -> Result<String, String> {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if !p.contains_key(&spec.name) {
            let s = start(spec).map_err(|e| format!("cannot start {}: {e}", spec.argv[0]))?;
            p.insert(spec.name.clone(), s);
        }
        let s = p.get_mut(&spec.name).unwrap();
        s.used += 1;
        let r = talk(s, req);
        if r.is_err() {
            let mut s = p.remove(&spec.name).unwrap();
            let st = s.child.wait();
            return Err(format!("the process died: {st:?}"));
        }
        if spec.recycle > 0 && s.used >= spec.recycle {
            p.remove(&spec.name);
        }
        r.map_err(|e| e.to_string())
    })
}

/// The two summary lines (shared answers, answers that need allocation).
pub fn split(a: &str) -> (&str, &str) {
    let mut l = a.lines();
    (l.next().unwrap_or(""), l.next().unwrap_or(""))
}
/// The texts after the summary lines.
pub fn texts(a: &str) -> (&str, &str) {
    let rest = a.splitn(3, '\n').nth(2).unwrap_or("");
    rest.split_once('\u{1}').unwrap_or((rest, ""))
}
