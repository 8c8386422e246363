//! The real daemon, as a process, with a directory of its own.
use std::{
    cell::RefCell,
    io::{BufRead, BufReader, Read, Write},
    net::TcpStream,
    os::unix::{
        fs::PermissionsExt,
        process::{CommandExt, ExitStatusExt},
    },
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        OnceLock,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Reply {
    Http(u16, Vec<u8>),
    Refused,
    #[allow(dead_code)]
    Gone,
    Broken(String),
}
#[derive(Clone, Debug)]
pub struct Req {
    pub method: &'static str,
    pub uri: String,
    pub body: Vec<u8>,
    pub content_type: Option<&'static str>,
}

pub static PROCESSES: AtomicU64 = AtomicU64::new(0);
pub const NOBODY: u32 = 65534;

///Where everything happens; removed by the process that made it.
pub struct Scratch {
    pub root: PathBuf,
    pub daemon: PathBuf,
    pub lib: PathBuf,
    ///the command line tool, with questions and answers instead of a terminal, and as it is
    pub mouse: PathBuf,
    pub real_mouse: PathBuf,
}
pub fn scratch() -> &'static Scratch {
    static S: OnceLock<Scratch> = OnceLock::new();
    S.get_or_init(|| {
        let root = PathBuf::from(format!("/tmp/souris-e2e-{}", std::process::id()));
        std::fs::create_dir_all(&root).expect("scratch directory");
        std::fs::set_permissions(&root, std::fs::Permissions::from_mode(0o755)).expect("scratch directory");
        let put = |from: &Path, name: &str| {
            let to = root.join(name);
            std::fs::copy(from, &to).unwrap_or_else(|e| panic!("copying {from:?}: {e}"));
            std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).unwrap();
            to
        };
        let target = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let daemon = put(&target.join("e2e/target/real/release/sourisd"), "sourisd");
        let lib = put(Path::new(env!("PRELOAD")), "pre.so");
        //not all checks need it
        let maybe = |from: &str, name: &str| {
            let from = target.join(from);
            if from.exists() {
                put(&from, name)
            } else {
                root.join(name)
            }
        };
        let mouse = maybe("shims/mouse/target/release/mouse", "mouse");
        let real_mouse = maybe("e2e/target/real/release/mouse", "real-mouse");
        Scratch { root, daemon, lib, mouse, real_mouse }
    })
}
///Removes the scratch directories of this process, and of workers that did not get to it.
pub fn clean_up() {
    for e in std::fs::read_dir("/tmp").into_iter().flatten().flatten() {
        let n = e.file_name();
        let Some(pid) = n.to_str().and_then(|n| n.strip_prefix("souris-e2e-")).and_then(|p| p.parse::<u32>().ok()) else { continue };
        if pid == std::process::id() || !Path::new(&format!("/proc/{pid}")).exists() {
            let _ = std::fs::remove_dir_all(Path::new("/tmp").join(n));
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    ///a file for what it does to its files
    pub ops: Option<PathBuf>,
    ///the n-th change fails like that
    pub fail: Option<(usize, i32)>,
    ///it ends at the n-th change: before, after, or half way through
    pub stop: Option<(usize, u8)>,
}

pub struct Real {
    ///made when they are first needed, as that takes long
    pub clients: Option<[crate::clients::Client; 2]>,
    pub child: Child,
    pub port: u16,
    ///the port it asked for
    pub asked: u16,
    conn: Option<BufReader<TcpStream>>,
    pub home: PathBuf,
}
impl Drop for Real {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
///A directory that is not used yet, two levels below one that belongs to nobody else.
pub fn new_home() -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let top = scratch().root.join(format!("h{}", N.fetch_add(1, Ordering::Relaxed)));
    let home = top.join("x/y");
    std::fs::create_dir_all(&home).expect("home");
    for p in [&top, &top.join("x"), &home] {
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap();
        chown(p);
    }
    home
}
pub fn chown(p: &Path) {
    if unsafe { libc::geteuid() } == 0 {
        std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY)).expect("chown");
    }
}
impl Real {
    ///Starts the daemon; its data is in `home`/data.
    pub fn start(home: &Path, o: &Opts) -> Result<Self, String> {
        PROCESSES.fetch_add(1, Ordering::Relaxed);
        let s = scratch();
        let base = home.join("data");
        let port_file = home.join("port");
        let _ = std::fs::remove_file(&port_file);
        let log = std::fs::File::create(home.join("stderr")).map_err(|e| format!("machinery: {e}"))?;
        let mut c = Command::new(&s.daemon);
        c.env_clear().env("LD_PRELOAD", &s.lib).env("BASE_LOCATION", &base).env("E2E_BASE", &base).env("E2E_PORT", &port_file).env("HOME", home).env("PATH", "/usr/bin:/bin");
        if let Some(p) = &o.ops {
            c.env("E2E_OPS", p);
        }
        if let Some((n, e)) = o.fail {
            c.env("E2E_FAIL", format!("{n} {e}"));
        }
        if let Some((n, e)) = o.stop {
            c.env("E2E_STOP", format!("{n} {e}"));
        }
        c.current_dir(home).stdin(Stdio::null()).stdout(Stdio::null()).stderr(log);
        if unsafe { libc::geteuid() } == 0 {
            c.uid(NOBODY).gid(NOBODY);
        }
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| format!("machinery: cannot start the daemon: {e}"))?;
        let mut r = Real { clients: None, child, port: 0, asked: 0, conn: None, home: home.to_path_buf() };
        let t0 = Instant::now();
        loop {
            if let Some(line) = std::fs::read_to_string(&port_file).ok().filter(|l| l.ends_with('\n')) {
                let mut w = line.split_whitespace().filter_map(|w| w.parse::<u16>().ok());
                r.asked = w.next().unwrap_or(0);
                r.port = w.next().unwrap_or(0);
                break;
            }
            if let Ok(Some(s)) = r.child.try_wait() {
                return Err(format!("the daemon exits while starting: {s}; {}", r.errors()));
            }
            if t0.elapsed() > Duration::from_secs(20) {
                return Err("the daemon does not listen within 20 s".into());
            }
            std::thread::sleep(Duration::from_micros(500));
        }
        //it has its port, and is about to listen
        while r.connect().is_err() {
            if t0.elapsed() > Duration::from_secs(20) {
                return Err("nobody listens where the daemon should within 20 s".into());
            }
            if let Ok(Some(s)) = r.child.try_wait() {
                return Err(format!("the daemon exits while starting: {s}; {}", r.errors()));
            }
            std::thread::sleep(Duration::from_micros(500));
        }
        Ok(r)
    }
    pub fn errors(&self) -> String {
        let e = std::fs::read_to_string(self.home.join("stderr")).unwrap_or_default();
        crate::ck::trunc(e.trim(), 300)
    }
    fn connect(&mut self) -> std::io::Result<()> {
        let c = TcpStream::connect(("127.0.0.1", self.port))?;
        c.set_nodelay(true)?;
        c.set_read_timeout(Some(Duration::from_secs(20)))?;
        self.conn = Some(BufReader::new(c));
        Ok(())
    }
    pub fn send(&mut self, r: &Req) -> Reply {
        //a connection that was closed in between is no answer of the daemon
        for again in [true, false] {
            let old = self.conn.is_some();
            if self.conn.is_none() && self.connect().is_err() {
                return Reply::Refused;
            }
            match self.exchange(r) {
                Ok(r) => return r,
                Err(e) => {
                    self.conn = None;
                    if !(again && old) {
                        return Reply::Broken(e.to_string());
                    }
                }
            }
        }
        unreachable!()
    }
    fn exchange(&mut self, r: &Req) -> std::io::Result<Reply> {
        use std::io::{Error, ErrorKind};
        let c = self.conn.as_mut().unwrap();
        let mut m = format!("{} {} HTTP/1.1\r\nhost: localhost:{}\r\ncontent-length: {}\r\n", r.method, r.uri, self.port, r.body.len()).into_bytes();
        if let Some(t) = r.content_type {
            m.extend(format!("content-type: {t}\r\n").bytes());
        }
        m.extend(b"\r\n");
        m.extend(&r.body);
        c.get_mut().write_all(&m)?;
        let mut line = String::new();
        if c.read_line(&mut line)? == 0 {
            return Err(Error::new(ErrorKind::UnexpectedEof, "closed"));
        }
        let status: u16 = line.split_whitespace().nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| Error::new(ErrorKind::InvalidData, line.clone()))?;
        let mut len = 0;
        let mut close = false;
        let mut chunked = false;
        loop {
            let mut h = String::new();
            if c.read_line(&mut h)? == 0 {
                return Err(Error::new(ErrorKind::UnexpectedEof, "closed in headers"));
            }
            let h = h.trim().to_ascii_lowercase();
            if h.is_empty() {
                break;
            }
            if let Some(v) = h.strip_prefix("content-length:") {
                len = v.trim().parse().map_err(|_| Error::new(ErrorKind::InvalidData, h.clone()))?;
            } else if h.starts_with("transfer-encoding:") && h.contains("chunked") {
                chunked = true;
            } else if h.starts_with("connection:") && h.contains("close") {
                close = true;
            }
        }
        let mut body = vec![0; len];
        if chunked {
            loop {
                let mut l = String::new();
                c.read_line(&mut l)?;
                let n = usize::from_str_radix(l.trim(), 16).map_err(|_| Error::new(ErrorKind::InvalidData, l.clone()))?;
                let at = body.len();
                body.resize(at + n, 0);
                c.read_exact(&mut body[at..])?;
                let mut end = String::new();
                c.read_line(&mut end)?;
                if n == 0 {
                    break;
                }
            }
        } else {
            c.read_exact(&mut body)?;
        }
        if close {
            self.conn = None;
        }
        Ok(Reply::Http(status, body))
    }
    ///The blocking client and the asynchronous one.
    pub fn clients(&mut self) -> Result<[crate::clients::Client; 2], String> {
        if self.clients.is_none() {
            let f = |e| format!("a client cannot be made: {e:?}");
            self.clients = Some([crate::clients::Client::new(self.port, true).map_err(f)?, crate::clients::Client::new(self.port, false).map_err(f)?]);
        }
        Ok(self.clients.clone().unwrap())
    }
    pub fn signal(&self, s: i32) {
        unsafe {
            libc::kill(self.child.id() as i32, s);
        }
    }
    ///Waits for it to exit, without any connection left open.
    pub fn wait(&mut self) -> Result<(), String> {
        self.conn = None;
        let t0 = Instant::now();
        loop {
            match self.child.try_wait() {
                Ok(Some(s)) if s.success() => return Ok(()),
                Ok(Some(s)) if s.code() == Some(99) => return Err("stopped".into()),
                Ok(Some(s)) => return Err(format!("the daemon ends with {:?}, signal {:?}; {}", s.code(), s.signal(), self.errors())),
                Ok(None) => {}
                Err(e) => return Err(format!("machinery: {e}")),
            }
            if t0.elapsed() > Duration::from_secs(20) {
                return Err("asked to stop, the daemon does not exit within 20 s".into());
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    pub fn stop(&mut self, s: i32) -> Result<(), String> {
        self.signal(s);
        self.wait()
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static MINE: RefCell<Option<Real>> = const { RefCell::new(None) };
}
///The daemon of this thread, without any databases.
pub fn with_daemon<T>(f: impl FnOnce(&mut Real) -> T) -> Result<T, String> {
    MINE.with(|m| {
        let mut m = m.borrow_mut();
        let mut ready = false;
        if let Some(d) = m.as_mut() {
            ready = empty(d).is_ok();
        }
        if !ready {
            *m = None;
            *m = Some(Real::start(&new_home(), &Opts::default())?);
        }
        Ok(f(m.as_mut().unwrap()))
    })
}
///This thread's daemon is not to be used again.
pub fn drop_daemon() {
    MINE.with(|m| *m.borrow_mut() = None);
}
fn empty(d: &mut Real) -> Result<(), String> {
    use crate::model::{Ans, Op};
    match Op::Names.read(&d.send(&Op::Names.req())) {
        Ans::Names(n) => {
            for n in n {
                let o = Op::rm(&n);
                match o.read(&d.send(&o.req())) {
                    Ans::Status(200) => {}
                    a => return Err(format!("{o:?} answers {a:?}")),
                }
            }
            match Op::Names.read(&d.send(&Op::Names.req())) {
                Ans::Names(n) if n.is_empty() => Ok(()),
                a => Err(format!("after removing all, get_all_db_names answers {a:?}")),
            }
        }
        a => Err(format!("get_all_db_names answers {a:?}")),
    }
}
