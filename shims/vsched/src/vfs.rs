//! A file system in memory, with a log of everything that changes it.
use std::{collections::BTreeMap, sync::Arc};

pub type Ino = usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
    ///no longer there
    Gone,
}

///A change to the file system.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Create { dir: Ino, name: Vec<u8>, ino: Ino },
    Mkdir { dir: Ino, name: Vec<u8>, ino: Ino },
    Write { ino: Ino, at: usize, data: Arc<[u8]> },
    Truncate { ino: Ino, len: usize },
    Sync { ino: Ino },
    Rename { from_dir: Ino, from: Vec<u8>, to_dir: Ino, to: Vec<u8>, ino: Ino },
    Unlink { dir: Ino, name: Vec<u8>, ino: Ino },
    Rmdir { dir: Ino, name: Vec<u8>, ino: Ino },
    Link { dir: Ino, name: Vec<u8>, ino: Ino },
    Symlink { dir: Ino, name: Vec<u8>, ino: Ino, to: Vec<u8> },
    ///a call that did nothing but fail, because it was made to
    Failed { what: &'static str, path: String, errno: i32 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Vfs {
    pub nodes: Vec<Node>,
    fds: BTreeMap<i32, Open>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Open {
    pub ino: Ino,
    pub pos: usize,
    pub append: bool,
    pub read: bool,
    pub write: bool,
    pub path: String,
}
pub type R<T> = Result<T, i32>;

pub const FIRST_FD: i32 = 1 << 20;
const NAME_MAX: usize = 255;
const PATH_MAX: usize = 4096;

impl Default for Vfs {
    fn default() -> Self {
        Self { nodes: vec![Node::Dir(BTreeMap::new())], fds: BTreeMap::new() }
    }
}

impl Vfs {
    pub fn dir(&self, i: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match &self.nodes[i] {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    pub fn dir_mut(&mut self, i: Ino) -> R<&mut BTreeMap<Vec<u8>, Ino>> {
        match &mut self.nodes[i] {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    pub fn file(&self, i: Ino) -> R<&Vec<u8>> {
        match &self.nodes[i] {
            Node::File(d) => Ok(d),
            Node::Dir(_) => Err(libc::EISDIR),
            _ => Err(libc::EINVAL),
        }
    }
    pub fn file_mut(&mut self, i: Ino) -> R<&mut Vec<u8>> {
        match &mut self.nodes[i] {
            Node::File(d) => Ok(d),
            Node::Dir(_) => Err(libc::EISDIR),
            _ => Err(libc::EINVAL),
        }
    }
    pub fn add(&mut self, n: Node) -> Ino {
        self.nodes.push(n);
        self.nodes.len() - 1
    }

    ///The directory and last name of a path, and what the name is now.
    ///
    /// The last name is empty when the path ends in a directory by way of `/`, `.` or `..`.
    pub fn walk(&self, at: Ino, path: &[u8], follow: bool) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        self.walk_from(at, path, follow, 0)
    }
    fn walk_from(&self, at: Ino, path: &[u8], follow: bool, depth: u32) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        if depth > 16 {
            return Err(libc::ELOOP);
        }
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= PATH_MAX {
            return Err(libc::ENAMETOOLONG);
        }
        let mut dirs: Vec<Ino> = vec![if path[0] == b'/' { 0 } else { at }];
        let parts: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|p| !p.is_empty()).collect();
        let slash = path.last() == Some(&b'/');
        for (i, p) in parts.iter().enumerate() {
            let here = *dirs.last().unwrap();
            let last = i + 1 == parts.len();
            self.dir(here)?;
            if *p == b"." {
                if last {
                    return Ok((here, vec![], Some(here)));
                }
                continue;
            }
            if *p == b".." {
                if dirs.len() > 1 {
                    dirs.pop();
                } else if here != 0 {
                    //relative to an open directory: find the parent
                    let up = (0..self.nodes.len()).find(|d| self.dir(*d).is_ok_and(|e| e.values().any(|v| *v == here))).unwrap_or(0);
                    dirs[0] = up;
                }
                if last {
                    let h = *dirs.last().unwrap();
                    return Ok((h, vec![], Some(h)));
                }
                continue;
            }
            if p.len() > NAME_MAX {
                return Err(libc::ENAMETOOLONG);
            }
            let found = self.dir(here)?.get(*p).copied();
            if let Some(Node::Link(to)) = found.map(|f| &self.nodes[f]) {
                if !last || follow || slash {
                    let mut rest = to.clone();
                    for r in &parts[i + 1..] {
                        rest.push(b'/');
                        rest.extend_from_slice(r);
                    }
                    return self.walk_from(here, &rest, follow, depth + 1);
                }
            }
            if last {
                if slash {
                    match found {
                        Some(f) if self.dir(f).is_err() => return Err(libc::ENOTDIR),
                        _ => {}
                    }
                }
                return Ok((here, p.to_vec(), found));
            }
            match found {
                Some(f) => {
                    self.dir(f)?;
                    dirs.push(f);
                }
                None => return Err(libc::ENOENT),
            }
        }
        let h = *dirs.last().unwrap();
        Ok((h, vec![], Some(h)))
    }
    pub fn lookup(&self, path: &str) -> Option<Ino> {
        self.walk(0, path.as_bytes(), true).ok().and_then(|w| w.2)
    }
    ///Where something is, for messages.
    pub fn path_of(&self, ino: Ino) -> String {
        fn go(v: &Vfs, d: Ino, want: Ino, at: &mut String) -> bool {
            if d == want {
                return true;
            }
            if let Ok(e) = v.dir(d) {
                for (n, i) in e {
                    let l = at.len();
                    at.push('/');
                    at.push_str(&String::from_utf8_lossy(n));
                    if go(v, *i, want, at) {
                        return true;
                    }
                    at.truncate(l);
                }
            }
            false
        }
        let mut s = String::new();
        if go(self, 0, ino, &mut s) {
            if s.is_empty() {
                s.push('/');
            }
            s
        } else {
            format!("(unlinked #{ino})")
        }
    }
    ///Every file with its contents, by path.
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn go(v: &Vfs, d: Ino, at: &str, out: &mut BTreeMap<String, Vec<u8>>) {
            match &v.nodes[d] {
                Node::Dir(e) => {
                    for (n, i) in e {
                        go(v, *i, &format!("{at}/{}", String::from_utf8_lossy(n)), out);
                    }
                }
                Node::File(c) => {
                    out.insert(at.to_string(), c.clone());
                }
                _ => {}
            }
        }
        let mut out = BTreeMap::new();
        go(self, 0, "", &mut out);
        out
    }
    ///Without anything open, and with nothing that cannot be reached: equal for equal contents.
    pub fn at_rest(&self) -> Vfs {
        fn go(v: &Vfs, i: Ino, out: &mut Vfs, seen: &mut BTreeMap<Ino, Ino>) -> Ino {
            if let Some(n) = seen.get(&i) {
                return *n;
            }
            match &v.nodes[i] {
                Node::Dir(e) => {
                    let n = if i == 0 { 0 } else { out.add(Node::Dir(BTreeMap::new())) };
                    seen.insert(i, n);
                    let mut d = BTreeMap::new();
                    for (k, c) in e {
                        let c = go(v, *c, out, seen);
                        d.insert(k.clone(), c);
                    }
                    out.nodes[n] = Node::Dir(d);
                    n
                }
                x => {
                    let n = out.add(x.clone());
                    seen.insert(i, n);
                    n
                }
            }
        }
        let mut out = Vfs::default();
        go(self, 0, &mut out, &mut BTreeMap::new());
        out
    }
    pub fn mkdir_all(&mut self, path: &str) -> Ino {
        let mut at = 0;
        for p in path.split('/').filter(|p| !p.is_empty()) {
            let found = self.dir(at).unwrap().get(p.as_bytes()).copied();
            at = match found {
                Some(f) => f,
                None => {
                    let n = self.add(Node::Dir(BTreeMap::new()));
                    self.dir_mut(at).unwrap().insert(p.as_bytes().to_vec(), n);
                    n
                }
            };
        }
        at
    }
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let (dir, name) = path.rsplit_once('/').unwrap();
        let d = self.mkdir_all(dir);
        let n = self.add(Node::File(data.to_vec()));
        self.dir_mut(d).unwrap().insert(name.as_bytes().to_vec(), n);
    }

    pub fn open_fd(&mut self, o: Open) -> R<i32> {
        //like the real thing, the lowest one that is free
        let fd = (FIRST_FD..).find(|f| !self.fds.contains_key(f)).unwrap();
        self.fds.insert(fd, o);
        Ok(fd)
    }
    pub fn fd(&mut self, fd: i32) -> R<&mut Open> {
        self.fds.get_mut(&fd).ok_or(libc::EBADF)
    }
    pub fn close(&mut self, fd: i32) -> R<()> {
        self.fds.remove(&fd).map(|_| ()).ok_or(libc::EBADF)
    }
    pub fn open_count(&self) -> usize {
        self.fds.len()
    }
    pub fn close_all(&mut self) {
        self.fds.clear();
    }

    ///Makes a change; the log of an execution is exactly the calls of this.
    pub fn apply(&mut self, op: &Op) {
        //changes to things that are gone by now are lost, which only happens when replaying a part of a log
        match op {
            Op::Create { dir, name, ino } => {
                self.grow(*ino, || Node::File(vec![]));
                if let Ok(d) = self.dir_mut(*dir) {
                    d.insert(name.clone(), *ino);
                }
            }
            Op::Mkdir { dir, name, ino } => {
                self.grow(*ino, || Node::Dir(BTreeMap::new()));
                if let Ok(d) = self.dir_mut(*dir) {
                    d.insert(name.clone(), *ino);
                }
            }
            Op::Symlink { dir, name, ino, to } => {
                self.grow(*ino, || Node::Link(to.clone()));
                if let Ok(d) = self.dir_mut(*dir) {
                    d.insert(name.clone(), *ino);
                }
            }
            Op::Write { ino, at, data } => {
                if let Ok(f) = self.file_mut(*ino) {
                    if f.len() < at + data.len() {
                        f.resize(at + data.len(), 0);
                    }
                    f[*at..at + data.len()].copy_from_slice(data);
                }
            }
            Op::Truncate { ino, len } => {
                if let Ok(f) = self.file_mut(*ino) {
                    f.resize(*len, 0);
                }
            }
            Op::Sync { .. } | Op::Failed { .. } => {}
            Op::Rename { from_dir, from, to_dir, to, ino } => {
                if let Ok(d) = self.dir_mut(*from_dir) {
                    if d.get(from) == Some(ino) {
                        d.remove(from);
                    }
                }
                if let Ok(d) = self.dir_mut(*to_dir) {
                    d.insert(to.clone(), *ino);
                }
            }
            Op::Unlink { dir, name, .. } | Op::Rmdir { dir, name, .. } => {
                if let Ok(d) = self.dir_mut(*dir) {
                    d.remove(name);
                }
            }
            Op::Link { dir, name, ino } => {
                if let Ok(d) = self.dir_mut(*dir) {
                    d.insert(name.clone(), *ino);
                }
            }
        }
    }
    fn grow(&mut self, ino: Ino, n: impl FnOnce() -> Node) {
        while self.nodes.len() <= ino {
            self.nodes.push(Node::Gone);
        }
        if self.nodes[ino] == Node::Gone {
            self.nodes[ino] = n();
        }
    }
}
