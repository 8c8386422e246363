//! The command line tool, as a process, and somebody who answers its questions.
use crate::{
    ck::trunc,
    world::{scratch, Real, NOBODY},
};
use serde_json::{json, Value as J};
use std::{
    io::{BufRead, BufReader, Read, Write},
    os::{
        fd::{AsRawFd, FromRawFd, OwnedFd},
        unix::process::CommandExt,
    },
    path::Path,
    process::{Command, Stdio},
    time::{Duration, Instant},
};

///A question that is expected, and what is answered.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Confirm(&'static str, bool),
    ///what the question is about, and the text; some are refused and asked again
    Input(&'static str, String),
    ///what the question is about, everything there has to be to pick from (in any order), and what is picked
    Pick(&'static str, Option<Vec<String>>, String),
    ///the same, if it is asked at all
    MaybePick(&'static str, Option<Vec<String>>, String),
}
impl Step {
    fn about(&self) -> &'static str {
        match self {
            Step::Confirm(a, _) | Step::Input(a, _) | Step::Pick(a, ..) | Step::MaybePick(a, ..) => a,
        }
    }
    ///The answer, or why this is not the question.
    fn answer(&self, q: &J) -> Result<J, String> {
        let prompt = q["prompt"].as_str().unwrap_or_default();
        let no = || Err(format!("{:?} is asked where {self:?} is expected", trunc(&q.to_string(), 200)));
        let (kind, a) = match self {
            Step::Confirm(_, b) => ("confirm", json!({"yes": b})),
            Step::Input(_, t) => ("input", json!({"text": t})),
            Step::Pick(_, all, pick) | Step::MaybePick(_, all, pick) => {
                let items: Vec<&str> = q["items"].as_array().map(|a| a.iter().filter_map(J::as_str).collect()).unwrap_or_default();
                if let Some(all) = all {
                    let (mut a, mut b) = (all.iter().map(String::as_str).collect::<Vec<_>>(), items.clone());
                    a.sort_unstable();
                    b.sort_unstable();
                    if q["kind"] == "select" && a != b {
                        return Err(format!("{prompt:?} offers {b:?} instead of {a:?}"));
                    }
                }
                match items.iter().position(|i| i == pick) {
                    Some(n) => ("select", json!({ "pick": n })),
                    None => return no(),
                }
            }
        };
        if q["kind"] != kind || !prompt.to_lowercase().contains(self.about()) {
            return no();
        }
        Ok(a)
    }
}

#[derive(Debug, Default)]
pub struct Outcome {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
    pub asked: usize,
    ///a question that was not expected, or one that was not asked
    pub wrong: Option<String>,
    ///what was asked
    pub talk: Vec<(J, J)>,
}

fn tool(program: &Path, port: u16, home: &Path, args: &[String]) -> Command {
    let mut c = Command::new(program);
    c.env_clear().env("LD_PRELOAD", &scratch().lib).env("E2E_TO", port.to_string()).env("HOME", home).env("PATH", "/usr/bin:/bin");
    c.arg("127.0.0.1").args(args).current_dir(home);
    if unsafe { libc::geteuid() } == 0 {
        c.uid(NOBODY).gid(NOBODY);
    }
    c
}

///Runs the tool; `quit` ends the answers at that question.
pub fn session(d: &mut Real, args: &[String], steps: &[Step], quit: Option<usize>) -> Result<Outcome, String> {
    let machinery = |e: std::io::Error| format!("machinery: {e}");
    let home = d.home.clone();
    let mut fds = [0; 2];
    if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
        return Err(machinery(std::io::Error::last_os_error()));
    }
    let (questions, theirs) = unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
    let (so, se) = (home.join("mouse-out"), home.join("mouse-err"));
    let mut c = tool(&scratch().mouse, d.port, &home, args);
    c.env("DIALOG_FD", "198").stdin(Stdio::piped()).stdout(std::fs::File::create(&so).map_err(machinery)?).stderr(std::fs::File::create(&se).map_err(machinery)?);
    let fd = theirs.as_raw_fd();
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::dup2(fd, 198) < 0 || libc::fcntl(198, libc::F_SETFD, 0) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(machinery)?;
    drop(theirs);
    let mut stdin = child.stdin.take().unwrap();
    let mut q = BufReader::new(std::fs::File::from(questions));
    let mut o = Outcome::default();
    let mut at = 0;
    loop {
        let mut line = String::new();
        if q.read_line(&mut line).map_err(machinery)? == 0 {
            break;
        }
        let asked: J = serde_json::from_str(&line).map_err(|e| format!("machinery: {e}"))?;
        let mut a = json!({"end": true});
        if quit != Some(o.asked) && o.wrong.is_none() {
            if let Some(Step::MaybePick(..)) = steps.get(at) {
                if steps[at].answer(&asked).is_err() {
                    at += 1;
                }
            }
            match steps.get(at).map(|s| s.answer(&asked)) {
                None => o.wrong = Some(format!("{:?} is asked after everything else was", trunc(&asked.to_string(), 200))),
                Some(Err(e)) => o.wrong = Some(e),
                Some(Ok(x)) => {
                    a = x;
                    at += 1;
                }
            }
        }
        o.asked += 1;
        //it may not wait for an answer any more
        let _ = stdin.write_all(format!("{a}\n").as_bytes());
        o.talk.push((asked, a));
    }
    drop(stdin);
    o.code = child.wait().map_err(machinery)?.code();
    o.out = std::fs::read_to_string(&so).unwrap_or_default();
    o.err = std::fs::read_to_string(&se).unwrap_or_default();
    while let Some(Step::MaybePick(..)) = steps.get(at) {
        at += 1;
    }
    if quit.is_none() && o.wrong.is_none() && at < steps.len() {
        o.wrong = Some(format!("{:?} is not asked; it ends with {:?}: {}{}", steps[at], o.code, trunc(&o.out, 200), trunc(&o.err, 200)));
    }
    Ok(o)
}

///The same questions and answers at a terminal, with the tool as it is. Gives its exit code and what is on the screen.
pub fn terminal(d: &mut Real, args: &[String], talk: &[(J, J)]) -> Result<(Option<i32>, String), String> {
    let last = || format!("machinery: {}", std::io::Error::last_os_error());
    let home = d.home.clone();
    let (master, slave) = unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 || libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 {
            return Err(last());
        }
        let mut name = [0; 128];
        if libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return Err(last());
        }
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if s < 0 {
            return Err(last());
        }
        let size = libc::winsize { ws_row: 1000, ws_col: 400, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(m, libc::TIOCSWINSZ, &size);
        libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
        (OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(s))
    };
    let dup = || slave.try_clone().map(Stdio::from).map_err(|e| format!("machinery: {e}"));
    let mut c = tool(&scratch().real_mouse, d.port, &home, args);
    c.env("TERM", "xterm-256color").env("LANG", "C.UTF-8").stdin(dup()?).stdout(dup()?).stderr(dup()?);
    //whoever it belongs to
    if unsafe { libc::geteuid() } == 0 {
        unsafe { libc::fchown(slave.as_raw_fd(), NOBODY, NOBODY) };
    }
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::setsid();
            libc::ioctl(0, libc::TIOCSCTTY, 0);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| format!("machinery: {e}"))?;
    drop(slave);
    drop(c);
    let mut m = std::fs::File::from(master);
    let mut screen: Vec<u8> = vec![];
    let mut from = 0;
    let t0 = Instant::now();
    let read = |screen: &mut Vec<u8>, m: &mut std::fs::File| -> Result<bool, String> {
        let mut b = [0; 65536];
        match m.read(&mut b) {
            Ok(0) => Ok(false),
            Ok(n) => {
                screen.extend(&b[..n]);
                Ok(true)
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                if t0.elapsed() > Duration::from_secs(25) {
                    return Err(format!("nothing more happens on the terminal after {}", trunc(&plain(&screen[screen.len().saturating_sub(600)..]), 400)));
                }
                std::thread::sleep(Duration::from_micros(300));
                Ok(true)
            }
            Err(_) => Ok(false),
        }
    };
    let r = (|| {
        for (q, a) in talk {
            //a question, or, of those without one, the last of what there is to pick from
            let prompt = match q["prompt"].as_str() {
                Some("") | None => q["items"].as_array().and_then(|i| i.last()).and_then(J::as_str).unwrap_or_default().to_string(),
                Some(p) => p.to_string(),
            };
            loop {
                if let Some(n) = find(&screen[from..], prompt.as_bytes()) {
                    from += n + prompt.len();
                    break;
                }
                if !read(&mut screen, &mut m)? {
                    return Err(format!("the terminal ends where {prompt:?} is to be asked; {}", trunc(&plain(&screen[from..]), 300)));
                }
            }
            let keys = if let Some(y) = a.get("yes") {
                if y == true { "y".to_string() } else { "n".to_string() }
            } else if let Some(t) = a["text"].as_str() {
                format!("{t}\r")
            } else if let Some(n) = a["pick"].as_u64() {
                let p = prompt.to_lowercase();
                if p.contains("key") || p.contains("database") {
                    //these come in any order, and are found by what they are called
                    format!("{}\x1b[B\r", q["items"][n as usize].as_str().unwrap_or_default())
                } else {
                    format!("{}\r", "\x1b[B".repeat(n as usize + 1))
                }
            } else {
                "\x03".to_string()
            };
            if q["kind"] == "select" {
                //the list is redrawn at every key, with the question
                for k in if keys == "\x03" { vec![keys.as_str()] } else { keys.split_inclusive("\x1b[B").collect() } {
                    std::thread::sleep(Duration::from_millis(3));
                    m.write_all(k.as_bytes()).map_err(|e| format!("machinery: {e}"))?;
                }
            } else {
                std::thread::sleep(Duration::from_millis(3));
                m.write_all(keys.as_bytes()).map_err(|e| format!("machinery: {e}"))?;
            }
            //what is typed may be shown again, and what was asked is, with the answer
            let before = screen.len();
            let t = Instant::now();
            while screen.len() == before && t.elapsed() < Duration::from_millis(500) {
                if !read(&mut screen, &mut m)? {
                    break;
                }
            }
            from = from.max(before);
        }
        while read(&mut screen, &mut m)? {}
        Ok(())
    })();
    if r.is_err() {
        let _ = child.kill();
    }
    let code = child.wait().map_err(|e| format!("machinery: {e}"))?.code();
    r.map(|()| (code, plain(&screen)))
}
fn find(b: &[u8], what: &[u8]) -> Option<usize> {
    if what.is_empty() {
        return Some(0);
    }
    b.windows(what.len()).position(|w| w == what)
}
///Without what moves the cursor and sets colours.
fn plain(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = String::new();
    let mut c = s.chars().peekable();
    while let Some(x) = c.next() {
        if x == '\x1b' {
            if c.peek() == Some(&'[') {
                c.next();
                for y in c.by_ref() {
                    if ('@'..='~').contains(&y) {
                        break;
                    }
                }
            }
        } else if x != '\r' {
            o.push(x);
        }
    }
    o
}
