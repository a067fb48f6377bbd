//! The engine on its own, as an oracle: for each catalogue file a process forked off before the run
//! begins, in which nothing but that file was ever loaded; every question is answered in a process
//! of its own, so that no earlier question can have left anything behind.
use crate::cat;
use crate::child::{self, guard, Got};
use crate::rt;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
enum Ask {
    Search(String),
    Suggest(String),
}
#[derive(Serialize, Deserialize)]
enum Reply {
    Found(Vec<(String, u32)>),
    Suggested(Option<(String, String)>),
    Failed(String),
}

pub struct Server {
    ask: i32,
    reply: i32,
    pid: i32,
}
fn write(fd: i32, b: &[u8]) -> bool {
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { rt::raw(libc::SYS_write, fd as usize, b[off..].as_ptr() as usize, b.len() - off, 0, 0, 0) };
        if n <= 0 {
            return false;
        }
        off += n as usize;
    }
    true
}
fn read_line(fd: i32) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let n = unsafe { rt::raw(libc::SYS_read, fd as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0) };
        if n <= 0 {
            return None;
        }
        out.extend_from_slice(&buf[..n as usize]);
        if out.last() == Some(&b'\n') {
            out.pop();
            return Some(out);
        }
    }
}
fn answer(a: &Ask, file: &[u8], ix: &Option<cat::Idx<5>>) -> Reply {
    let fail = |m: String| Reply::Failed(m);
    match a {
        Ask::Search(q) => {
            let Some(ix) = ix else { return fail("the file does not load".into()) };
            match guard(|| cat::ref_search(ix, q)) {
                Got::Ok(v) => Reply::Found(v.into_iter().map(|(i, c)| (i, c.to_bits())).collect()),
                Got::Panic(m) | Got::Throw(m) => fail(format!("searching for {q:?} ended abnormally: {m}")),
            }
        }
        Ask::Suggest(q) => match guard(|| {
            indexer_lib::initialize(file);
            indexer_lib::tag_suggestion(q).map(|s| (s.get_tag().get_name(), s.get_input()))
        }) {
            Got::Ok(v) => Reply::Suggested(v),
            Got::Panic(m) | Got::Throw(m) => fail(format!("suggesting for {q:?} ended abnormally: {m}")),
        },
    }
}
fn serve(g: usize, file: &[u8], ask: i32, reply: i32) -> ! {
    rt::set_epoch(50_000 + g as u64);
    let mut ix = None;
    while let Some(line) = read_line(ask) {
        let Ok(a) = serde_json::from_slice::<Ask>(&line) else { break };
        if ix.is_none() {
            ix = Some(match guard(|| cat::load_ref::<5>(file)) {
                Got::Ok(v) => v.map(|x| x.0),
                _ => None,
            });
        }
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                let mut b = serde_json::to_vec(&answer(&a, file, ix.as_ref().unwrap())).unwrap();
                b.push(b'\n');
                write(reply, &b);
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if pid < 0 || st != 0 {
                let mut b = serde_json::to_vec(&Reply::Failed(format!("a question asked alone ended the process (status {st})"))).unwrap();
                b.push(b'\n');
                write(reply, &b);
            }
        }
    }
    unsafe { libc::_exit(0) }
}

/// One server per file; to be called before anything of the run happens.
pub fn start(files: &[Vec<u8>]) -> Vec<Server> {
    let mut out: Vec<Server> = vec![];
    for (g, f) in files.iter().enumerate() {
        let (mut a, mut r) = ([0i32; 2], [0i32; 2]);
        unsafe {
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(r.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                child::detach();
                crate::rt::simulate_clock(false);
                libc::close(a[1]);
                libc::close(r[0]);
                for s in &out {
                    libc::close(s.ask);
                    libc::close(s.reply);
                }
                serve(g, f, a[0], r[1]);
            }
            libc::close(a[0]);
            libc::close(r[1]);
            out.push(Server { ask: a[1], reply: r[0], pid });
        }
    }
    out
}
impl Server {
    fn ask(&self, a: &Ask) -> Reply {
        let mut b = serde_json::to_vec(a).unwrap();
        b.push(b'\n');
        if !write(self.ask, &b) {
            child::harness_error("an oracle process is gone");
        }
        match read_line(self.reply).and_then(|l| serde_json::from_slice(&l).ok()) {
            Some(r) => r,
            None => child::harness_error("an oracle process does not answer"),
        }
    }
    fn failed(&self, m: String) {
        child::violation("call-failed", m);
    }
    pub fn search(&self, q: &str) -> Vec<(String, f32)> {
        match self.ask(&Ask::Search(q.into())) {
            Reply::Found(v) => v.into_iter().map(|(i, c)| (i, f32::from_bits(c))).collect(),
            Reply::Failed(m) => {
                self.failed(m);
                vec![]
            }
            Reply::Suggested(_) => child::harness_error("an oracle process answers something else"),
        }
    }
    pub fn suggest(&self, q: &str) -> Option<(String, String)> {
        match self.ask(&Ask::Suggest(q.into())) {
            Reply::Suggested(v) => v,
            Reply::Failed(m) => {
                self.failed(m);
                None
            }
            Reply::Found(_) => child::harness_error("an oracle process answers something else"),
        }
    }
    pub fn stop(&self) {
        unsafe {
            libc::close(self.ask);
            libc::close(self.reply);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
        }
    }
}
