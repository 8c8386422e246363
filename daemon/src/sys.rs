//! The system calls that std makes, answered from the file system of the execution when a task of one is running.
#![allow(clippy::missing_safety_doc, clippy::too_many_arguments, clippy::cast_possible_wrap, clippy::cast_sign_loss)]
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap},
    ffi::CStr,
    task::Waker,
};
use vsched::{
    vfs::{Ino, Node, Op, Open, Vfs, FIRST_FD},
    Entry,
};

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}
macro_rules! raw {
    ($n:ident $(, $a:expr)*) => { raw!(@ [$n] [$($a,)*] ) };
    (@ [$n:ident] []) => { ret(raw(libc::$n, 0, 0, 0, 0, 0, 0)) };
    (@ [$n:ident] [$a:expr,]) => { ret(raw(libc::$n, $a as usize, 0, 0, 0, 0, 0)) };
    (@ [$n:ident] [$a:expr,$b:expr,]) => { ret(raw(libc::$n, $a as usize, $b as usize, 0, 0, 0, 0)) };
    (@ [$n:ident] [$a:expr,$b:expr,$c:expr,]) => { ret(raw(libc::$n, $a as usize, $b as usize, $c as usize, 0, 0, 0)) };
    (@ [$n:ident] [$a:expr,$b:expr,$c:expr,$d:expr,]) => { ret(raw(libc::$n, $a as usize, $b as usize, $c as usize, $d as usize, 0, 0)) };
    (@ [$n:ident] [$a:expr,$b:expr,$c:expr,$d:expr,$e:expr,]) => { ret(raw(libc::$n, $a as usize, $b as usize, $c as usize, $d as usize, $e as usize, 0)) };
}
fn on() -> bool {
    vsched::active()
}
fn virt(fd: c_int) -> bool {
    fd >= FIRST_FD && on()
}
unsafe fn done<T: TryInto<isize>>(r: Result<T, c_int>) -> isize {
    match r {
        Ok(v) => v.try_into().unwrap_or(0),
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
fn show(p: &[u8]) -> String {
    String::from_utf8_lossy(p).into_owned()
}

///A place where others may go first, and where the environment may make the call fail.
fn gate(what: &'static str, path: impl FnOnce() -> String, errs: &[c_int]) -> Result<(), c_int> {
    vsched::point_below(what);
    fault(what, path, errs)
}
fn fault(what: &'static str, path: impl FnOnce() -> String, errs: &[c_int]) -> Result<(), c_int> {
    let Some(c) = vsched::config() else { return Ok(()) };
    if vsched::killed() {
        return Ok(());
    }
    let e = if let Some(e) = BROKEN.with(Cell::get).filter(|e| errs.contains(e)) {
        e
    } else {
        if c.faults == 0 {
            return Ok(());
        }
        let n = vsched::choose(errs.len() + 1);
        if n == 0 {
            return Ok(());
        }
        failed_with(errs[n - 1]);
        errs[n - 1]
    };
    vsched::log(Entry::Fs(Op::Failed { what, path: path(), errno: e }));
    Err(e)
}
fn failed_with(e: c_int) {
    if let Some(c) = vsched::config() {
        c.faults -= 1;
    }
    if STAYS.with(Cell::get) {
        BROKEN.with(|b| b.set(Some(e)));
    }
}
///From now on this many operations may fail. When `stays`, whatever fails first goes on failing.
pub fn may_fail(n: u32, stays: bool) {
    FULL.with(|f| f.set(false));
    BROKEN.with(|b| b.set(None));
    STAYS.with(|s| s.set(stays));
    if let Some(c) = vsched::config() {
        c.faults = n;
    }
}
///What has been looked at of the files there are.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Asked {
    Path(Vec<u8>, bool),
    All,
}
impl Asked {
    ///What there is to see in these files.
    pub fn view(&self, v: &vsched::vfs::Vfs) -> u64 {
        use vsched::vfs::Node;
        match self {
            Asked::All => crate::ck::h64(v),
            Asked::Path(p, follow) => crate::ck::h64(&match v.walk(0, p, *follow) {
                Err(e) => (0, e as u64),
                Ok((_, _, None)) => (1, 0),
                Ok((_, _, Some(i))) => match &v.nodes[i] {
                    Node::File(c) => (2, crate::ck::h64(c)),
                    Node::Dir(_) => (3, 0),
                    Node::Link(l) => (4, crate::ck::h64(l)),
                    Node::Gone => (5, 0),
                },
            }),
        }
    }
}
///Notes from now on what is looked at.
pub fn ask() {
    ASKED.with(|a| *a.borrow_mut() = Some(vec![]));
}
pub fn asked_for() -> Vec<Asked> {
    ASKED.with(|a| a.borrow_mut().take().unwrap_or_default())
}
fn asked(f: impl FnOnce() -> Asked) {
    ASKED.with(|a| {
        if let Some(a) = &mut *a.borrow_mut() {
            let f = f();
            if !a.contains(&f) {
                a.push(f);
            }
        }
    });
}
fn change(op: Op) {
    if vsched::killed() {
        return;
    }
    //what comes of it could be looked at in many ways
    asked(|| Asked::All);
    vsched::fs().apply(&op);
    vsched::log(Entry::Fs(op));
}

thread_local! {
    static DIRS: RefCell<BTreeMap<usize, Box<VDir>>> = const { RefCell::new(BTreeMap::new()) };
    ///the next write fails, as the disk is full
    static FULL: Cell<bool> = const { Cell::new(false) };
    static STAYS: Cell<bool> = const { Cell::new(false) };
    ///what fails from now on
    static BROKEN: Cell<Option<c_int>> = const { Cell::new(None) };
    static ENV: RefCell<Vec<(&'static CStr, std::ffi::CString)>> = const { RefCell::new(vec![]) };
    static ASKED: RefCell<Option<Vec<Asked>>> = const { RefCell::new(None) };
    static UID: Cell<u32> = const { Cell::new(0) };
    static OUT: Cell<bool> = const { Cell::new(false) };
    static FUTEX: RefCell<Option<HashMap<usize, Vec<(Waker, u32)>>>> = const { RefCell::new(None) };
}
///What the daemon of this execution finds in its environment.
pub fn set_env(vars: &[(&'static CStr, &str)]) {
    ENV.with(|e| *e.borrow_mut() = vars.iter().map(|(k, v)| (*k, std::ffi::CString::new(*v).unwrap())).collect());
}
pub fn set_uid(uid: u32) {
    UID.with(|u| u.set(uid));
}
struct VDir {
    entries: Vec<(Vec<u8>, Ino)>,
    at: usize,
    current: Box<libc::dirent64>,
    fd: c_int,
}

fn dir_of(fd: c_int) -> Result<Ino, c_int> {
    if fd == libc::AT_FDCWD {
        return Ok(0);
    }
    if fd >= FIRST_FD {
        return Ok(vsched::fs().fd(fd)?.ino);
    }
    Err(libc::EBADF)
}
fn walk(dirfd: c_int, path: &[u8], follow: bool) -> Result<(Ino, Vec<u8>, Option<Ino>), c_int> {
    let at = if path.first() == Some(&b'/') { 0 } else { dir_of(dirfd)? };
    if at == 0 {
        asked(|| Asked::Path(path.to_vec(), follow));
    } else {
        asked(|| Asked::All);
    }
    vsched::fs().walk(at, path, follow)
}
fn v_open(dirfd: c_int, path: &[u8], flags: c_int) -> Result<c_int, c_int> {
    let acc = flags & libc::O_ACCMODE;
    let (read, write) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
    let creat = flags & libc::O_CREAT != 0;
    let errs: &[c_int] = if creat { &[libc::EACCES, libc::ENOSPC] } else { &[libc::EACCES, libc::EMFILE] };
    gate(if creat { "create" } else { "open" }, || show(path), errs)?;
    if flags & libc::O_TMPFILE == libc::O_TMPFILE {
        vsched::unsupported("O_TMPFILE");
        return Err(libc::EOPNOTSUPP);
    }
    let excl = creat && flags & libc::O_EXCL != 0;
    let (dir, name, found) = walk(dirfd, path, flags & libc::O_NOFOLLOW == 0 && !excl)?;
    let ino = match found {
        Some(_) if excl => return Err(libc::EEXIST),
        Some(i) => {
            match &vsched::fs().nodes[i] {
                Node::Dir(_) if write || creat => return Err(libc::EISDIR),
                Node::File(_) if flags & libc::O_DIRECTORY != 0 => return Err(libc::ENOTDIR),
                Node::Link(_) => return Err(libc::ELOOP),
                _ => {}
            }
            if flags & libc::O_TRUNC != 0 && vsched::fs().file(i).is_ok_and(|f| !f.is_empty()) {
                change(Op::Truncate { ino: i, len: 0 });
            }
            i
        }
        None if creat => {
            if name.is_empty() {
                return Err(libc::EISDIR);
            }
            if path.last() == Some(&b'/') {
                return Err(libc::EISDIR);
            }
            let ino = vsched::fs().nodes.len();
            change(Op::Create { dir, name, ino });
            ino
        }
        None => return Err(libc::ENOENT),
    };
    vsched::fs().open_fd(Open { ino, pos: 0, append: flags & libc::O_APPEND != 0, read, write, path: show(path) })
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(fd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if on() {
        return done(v_open(fd, bytes(path), flags)) as c_int;
    }
    raw!(SYS_openat, fd, path, flags | libc::O_LARGEFILE, mode) as c_int
}

fn v_read(fd: c_int, buf: &mut [u8], at: Option<usize>) -> Result<usize, c_int> {
    let o = vsched::fs().fd(fd)?.clone();
    gate("read", || o.path.clone(), &[libc::EIO])?;
    let o = vsched::fs().fd(fd)?.clone();
    if !o.read {
        return Err(libc::EBADF);
    }
    let f = vsched::fs().file(o.ino)?;
    let pos = at.unwrap_or(o.pos);
    let n = f.len().saturating_sub(pos).min(buf.len());
    if n > 0 {
        buf[..n].copy_from_slice(&f[pos..pos + n]);
    }
    if at.is_none() {
        vsched::fs().fd(fd)?.pos += n;
    }
    Ok(n)
}
fn v_write(fd: c_int, data: &[u8], at: Option<usize>) -> Result<usize, c_int> {
    let o = vsched::fs().fd(fd)?.clone();
    vsched::point_below("write");
    if FULL.with(Cell::take) {
        vsched::log(Entry::Fs(Op::Failed { what: "write", path: o.path, errno: libc::ENOSPC }));
        return Err(libc::ENOSPC);
    }
    let mut n = data.len();
    if let Some(errno) = BROKEN.with(Cell::get).filter(|e| [libc::ENOSPC, libc::EIO].contains(e) && !vsched::killed()) {
        vsched::log(Entry::Fs(Op::Failed { what: "write", path: o.path, errno }));
        return Err(errno);
    }
    if vsched::config().is_some_and(|c| c.faults > 0) && !vsched::killed() {
        //full at once, full after a part, broken
        let options = if n > 1 { 4 } else { 3 };
        match vsched::choose(options) {
            0 => {}
            c => {
                let errno = if c == 2 { libc::EIO } else { libc::ENOSPC };
                failed_with(errno);
                if c == 3 {
                    n /= 2;
                    FULL.with(|f| f.set(true));
                } else {
                    vsched::log(Entry::Fs(Op::Failed { what: "write", path: o.path, errno }));
                    return Err(errno);
                }
            }
        }
    }
    let o = vsched::fs().fd(fd)?.clone();
    if !o.write {
        return Err(libc::EBADF);
    }
    let len = vsched::fs().file(o.ino)?.len();
    let pos = at.unwrap_or(if o.append { len } else { o.pos });
    if n > 0 {
        change(Op::Write { ino: o.ino, at: pos, data: data[..n].into() });
    }
    if at.is_none() {
        vsched::fs().fd(fd)?.pos = pos + n;
    }
    Ok(n)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if virt(fd) {
        return done(v_read(fd, std::slice::from_raw_parts_mut(buf.cast(), n), None));
    }
    raw!(SYS_read, fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, at: off64_t) -> ssize_t {
    if virt(fd) {
        return done(v_read(fd, std::slice::from_raw_parts_mut(buf.cast(), n), Some(at as usize)));
    }
    raw!(SYS_pread64, fd, buf, n, at)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if virt(fd) {
        for i in 0..n {
            let v = &*v.offset(i as isize);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    raw!(SYS_readv, fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if virt(fd) {
        return done(v_write(fd, std::slice::from_raw_parts(buf.cast(), n), None));
    }
    raw!(SYS_write, fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, at: off64_t) -> ssize_t {
    if virt(fd) {
        return done(v_write(fd, std::slice::from_raw_parts(buf.cast(), n), Some(at as usize)));
    }
    raw!(SYS_pwrite64, fd, buf, n, at)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if virt(fd) {
        let mut all = vec![];
        for i in 0..n {
            let v = &*v.offset(i as isize);
            if v.iov_len > 0 {
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base.cast::<u8>(), v.iov_len));
            }
        }
        return done(v_write(fd, &all, None));
    }
    raw!(SYS_writev, fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if virt(fd) {
        return done((|| {
            let o = vsched::fs().fd(fd)?.clone();
            let len = vsched::fs().file(o.ino)?.len();
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => o.pos as i64,
                libc::SEEK_END => len as i64,
                _ => return Err(libc::EINVAL),
            };
            let p = base.checked_add(off).filter(|p| *p >= 0).ok_or(libc::EINVAL)?;
            vsched::fs().fd(fd)?.pos = p as usize;
            Ok(p as isize)
        })()) as off64_t;
    }
    raw!(SYS_lseek, fd, off, whence) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FIRST_FD {
        //also while an execution is being torn down
        if on() {
            let _ = vsched::fs().close(fd);
        }
        return 0;
    }
    raw!(SYS_close, fd) as c_int
}
fn v_sync(fd: c_int) -> Result<isize, c_int> {
    let o = vsched::fs().fd(fd)?.clone();
    gate("fsync", || o.path.clone(), &[libc::EIO])?;
    change(Op::Sync { ino: o.ino });
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if virt(fd) {
        return done(v_sync(fd)) as c_int;
    }
    raw!(SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if virt(fd) {
        return done(v_sync(fd)) as c_int;
    }
    raw!(SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if on() {
        for i in 0..vsched::fs().nodes.len() {
            change(Op::Sync { ino: i });
        }
        return;
    }
    raw!(SYS_sync);
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if virt(fd) {
        sync();
        return 0;
    }
    raw!(SYS_syncfs, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if virt(fd) {
        return done((|| {
            let o = vsched::fs().fd(fd)?.clone();
            gate("truncate", || o.path.clone(), &[libc::EIO, libc::ENOSPC])?;
            if !o.write {
                return Err(libc::EINVAL);
            }
            change(Op::Truncate { ino: o.ino, len: len as usize });
            Ok(0_isize)
        })()) as c_int;
    }
    raw!(SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off64_t) -> c_int {
    if on() {
        return done((|| {
            gate("truncate", || show(bytes(path)), &[libc::EIO, libc::ENOSPC])?;
            let ino = walk(libc::AT_FDCWD, bytes(path), true)?.2.ok_or(libc::ENOENT)?;
            vsched::fs().file(ino)?;
            change(Op::Truncate { ino, len: len as usize });
            Ok(0_isize)
        })()) as c_int;
    }
    raw!(SYS_truncate, path, len) as c_int
}

fn v_rename(fd_a: c_int, a: &[u8], fd_b: c_int, b: &[u8], flags: c_uint) -> Result<isize, c_int> {
    gate("rename", || format!("{} -> {}", show(a), show(b)), &[libc::EIO, libc::ENOSPC, libc::EACCES])?;
    let (from_dir, from, ino) = walk(fd_a, a, false)?;
    let ino = ino.ok_or(libc::ENOENT)?;
    let (to_dir, to, there) = walk(fd_b, b, false)?;
    if from.is_empty() || to.is_empty() {
        return Err(libc::EBUSY);
    }
    let fs = vsched::fs();
    if flags & libc::RENAME_NOREPLACE != 0 && there.is_some() {
        return Err(libc::EEXIST);
    }
    if flags & !libc::RENAME_NOREPLACE != 0 {
        vsched::unsupported("renameat2 flags");
        return Err(libc::EINVAL);
    }
    let is_dir = fs.dir(ino).is_ok();
    if let Some(t) = there {
        if t == ino {
            return Ok(0);
        }
        match (&fs.nodes[t], is_dir) {
            (Node::Dir(d), true) if !d.is_empty() => return Err(libc::ENOTEMPTY),
            (Node::Dir(_), false) => return Err(libc::EISDIR),
            (Node::File(_) | Node::Link(_), true) => return Err(libc::ENOTDIR),
            _ => {}
        }
    }
    if is_dir {
        fn within(fs: &Vfs, d: Ino, x: Ino) -> bool {
            d == x || fs.dir(d).is_ok_and(|e| e.values().any(|v| within(fs, *v, x)))
        }
        if within(fs, ino, to_dir) {
            return Err(libc::EINVAL);
        }
    } else if a.last() == Some(&b'/') || b.last() == Some(&b'/') {
        return Err(libc::ENOTDIR);
    }
    change(Op::Rename { from_dir, from, to_dir, to, ino });
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char) -> c_int {
    renameat2(fa, a, fb, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char, flags: c_uint) -> c_int {
    if on() {
        return done(v_rename(fa, bytes(a), fb, bytes(b), flags)) as c_int;
    }
    raw!(SYS_renameat2, fa, a, fb, b, flags) as c_int
}
fn v_unlink(fd: c_int, path: &[u8], flags: c_int) -> Result<isize, c_int> {
    let rmdir = flags & libc::AT_REMOVEDIR != 0;
    gate(if rmdir { "rmdir" } else { "unlink" }, || show(path), &[libc::EACCES, libc::EIO])?;
    let (dir, name, ino) = walk(fd, path, false)?;
    let ino = ino.ok_or(libc::ENOENT)?;
    if name.is_empty() {
        return Err(if rmdir { libc::EBUSY } else { libc::EISDIR });
    }
    match (&vsched::fs().nodes[ino], rmdir) {
        (Node::Dir(d), true) => {
            if !d.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
            change(Op::Rmdir { dir, name, ino });
        }
        (Node::Dir(_), false) => return Err(libc::EISDIR),
        (_, true) => return Err(libc::ENOTDIR),
        (_, false) => change(Op::Unlink { dir, name, ino }),
    }
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, path: *const c_char, flags: c_int) -> c_int {
    if on() {
        return done(v_unlink(fd, bytes(path), flags)) as c_int;
    }
    raw!(SYS_unlinkat, fd, path, flags) as c_int
}
fn v_mkdir(fd: c_int, path: &[u8]) -> Result<isize, c_int> {
    gate("mkdir", || show(path), &[libc::EACCES, libc::ENOSPC])?;
    let (dir, name, found) = walk(fd, path, true)?;
    if found.is_some() || name.is_empty() {
        return Err(libc::EEXIST);
    }
    let ino = vsched::fs().nodes.len();
    change(Op::Mkdir { dir, name, ino });
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if on() {
        return done(v_mkdir(libc::AT_FDCWD, bytes(path))) as c_int;
    }
    raw!(SYS_mkdir, path, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(fd: c_int, path: *const c_char, mode: mode_t) -> c_int {
    if on() {
        return done(v_mkdir(fd, bytes(path))) as c_int;
    }
    raw!(SYS_mkdirat, fd, path, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char, flags: c_int) -> c_int {
    if on() {
        return done((|| {
            gate("link", || show(bytes(b)), &[libc::EIO, libc::EACCES])?;
            let ino = walk(fa, bytes(a), flags & libc::AT_SYMLINK_FOLLOW != 0)?.2.ok_or(libc::ENOENT)?;
            if vsched::fs().dir(ino).is_ok() {
                return Err(libc::EPERM);
            }
            let (dir, name, there) = walk(fb, bytes(b), false)?;
            if there.is_some() {
                return Err(libc::EEXIST);
            }
            change(Op::Link { dir, name, ino });
            Ok(0_isize)
        })()) as c_int;
    }
    raw!(SYS_linkat, fa, a, fb, b, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(to: *const c_char, at: *const c_char) -> c_int {
    if on() {
        return done((|| {
            gate("symlink", || show(bytes(at)), &[libc::EIO, libc::EACCES])?;
            let (dir, name, there) = walk(libc::AT_FDCWD, bytes(at), false)?;
            if there.is_some() {
                return Err(libc::EEXIST);
            }
            let ino = vsched::fs().nodes.len();
            change(Op::Symlink { dir, name, ino, to: bytes(to).to_vec() });
            Ok(0_isize)
        })()) as c_int;
    }
    raw!(SYS_symlink, to, at) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if on() {
        return done((|| {
            let ino = walk(libc::AT_FDCWD, bytes(path), false)?.2.ok_or(libc::ENOENT)?;
            let Node::Link(to) = &vsched::fs().nodes[ino] else { return Err(libc::EINVAL) };
            let n = n.min(to.len());
            std::ptr::copy_nonoverlapping(to.as_ptr(), buf.cast(), n);
            Ok(n)
        })());
    }
    raw!(SYS_readlink, path, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if on() {
        let r = (|| {
            let ino = walk(libc::AT_FDCWD, bytes(path), true)?.2.ok_or(libc::ENOENT)?;
            Ok::<_, c_int>(vsched::fs().path_of(ino))
        })();
        return match r {
            Ok(p) => {
                let out = if out.is_null() { libc::malloc(libc::PATH_MAX as usize).cast() } else { out };
                std::ptr::copy_nonoverlapping(p.as_ptr(), out.cast(), p.len());
                *out.add(p.len()) = 0;
                out
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = next(c"realpath");
    f(path, out)
}
unsafe fn next<T: Copy>(name: &CStr) -> T {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    std::mem::transmute_copy(&p)
}

struct Info {
    mode: u32,
    size: usize,
    ino: Ino,
}
fn info(ino: Ino) -> Result<Info, c_int> {
    Ok(match &vsched::fs().nodes[ino] {
        Node::File(f) => Info { mode: libc::S_IFREG | 0o644, size: f.len(), ino },
        Node::Dir(d) => Info { mode: libc::S_IFDIR | 0o755, size: d.len(), ino },
        Node::Link(l) => Info { mode: libc::S_IFLNK | 0o777, size: l.len(), ino },
        Node::Gone => return Err(libc::ENOENT),
    })
}
fn info_at(fd: c_int, path: &[u8], flags: c_int) -> Result<Info, c_int> {
    gate("stat", || show(path), &[])?;
    if path.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
        return info(dir_of(fd)?);
    }
    info(walk(fd, path, flags & libc::AT_SYMLINK_NOFOLLOW == 0)?.2.ok_or(libc::ENOENT)?)
}
unsafe fn v_stat(fd: c_int, path: &[u8], flags: c_int, out: *mut libc::stat64) -> c_int {
    match info_at(fd, path, flags) {
        Ok(i) => {
            *out = std::mem::zeroed();
            (*out).st_mode = i.mode;
            (*out).st_size = i.size as i64;
            (*out).st_ino = i.ino as u64 + 1;
            (*out).st_nlink = 1;
            (*out).st_blksize = 4096;
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    fstatat64(libc::AT_FDCWD, path, out, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    fstatat64(libc::AT_FDCWD, path, out, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    if virt(fd) {
        return v_stat(fd, b"", libc::AT_EMPTY_PATH, out);
    }
    raw!(SYS_fstat, fd, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, path: *const c_char, out: *mut libc::stat64, flags: c_int) -> c_int {
    if on() && (fd >= FIRST_FD || fd == libc::AT_FDCWD) {
        return v_stat(fd, bytes(path), flags, out);
    }
    raw!(SYS_newfstatat, fd, path, out, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if on() && (fd >= FIRST_FD || fd == libc::AT_FDCWD) && !out.is_null() {
        let p: &[u8] = if path.is_null() { b"" } else { bytes(path) };
        return match info_at(fd, p, flags) {
            Ok(i) => {
                *out = std::mem::zeroed();
                (*out).stx_mask = mask & (libc::STATX_BASIC_STATS | libc::STATX_BTIME);
                (*out).stx_mode = i.mode as u16;
                (*out).stx_size = i.size as u64;
                (*out).stx_ino = i.ino as u64 + 1;
                (*out).stx_nlink = 1;
                (*out).stx_blksize = 4096;
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    raw!(SYS_statx, fd, path, flags, mask, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    faccessat(libc::AT_FDCWD, path, mode, 0)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(fd: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if on() && (fd >= FIRST_FD || fd == libc::AT_FDCWD) {
        return done(info_at(fd, bytes(path), flags & libc::AT_SYMLINK_NOFOLLOW).map(|_| 0_isize)) as c_int;
    }
    raw!(SYS_faccessat, fd, path, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if on() {
        return done(info_at(libc::AT_FDCWD, bytes(path), 0).map(|_| 0_isize)) as c_int;
    }
    raw!(SYS_chmod, path, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if virt(fd) {
        return 0;
    }
    raw!(SYS_fchmod, fd, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if virt(fd) {
        return 0;
    }
    raw!(SYS_flock, fd, op) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, _: off64_t, _: off64_t, _: c_int) -> c_int {
    let _ = fd;
    0
}
unsafe fn v_fcntl(fd: c_int, cmd: c_int) -> c_int {
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => done((|| {
            let o = vsched::fs().fd(fd)?.clone();
            vsched::fs().open_fd(o)
        })()) as c_int,
        libc::F_GETFD => libc::FD_CLOEXEC,
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if virt(fd) {
        return v_fcntl(fd, cmd);
    }
    raw!(SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, flags: c_uint) -> ssize_t {
    if virt(a) || virt(b) {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(raw(libc::SYS_copy_file_range, a as usize, oa as usize, b as usize, ob as usize, n, flags as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if virt(a) || virt(b) {
        set_errno(libc::EINVAL);
        return -1;
    }
    raw!(SYS_sendfile, a, b, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, flags: c_uint) -> ssize_t {
    if virt(a) || virt(b) {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw(libc::SYS_splice, a as usize, oa as usize, b as usize, ob as usize, n, flags as usize))
}

unsafe fn v_opendir(fd: c_int) -> Result<*mut libc::DIR, c_int> {
    asked(|| Asked::All);
    let ino = vsched::fs().fd(fd)?.ino;
    let entries = vsched::fs().dir(ino)?.iter().map(|(n, i)| (n.clone(), *i)).collect();
    let d = Box::new(VDir { entries, at: 0, current: Box::new(std::mem::zeroed()), fd });
    let p = std::ptr::from_ref(&*d) as usize;
    DIRS.with(|x| x.borrow_mut().insert(p, d));
    Ok(p as *mut libc::DIR)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if on() {
        return match v_open(libc::AT_FDCWD, bytes(path), libc::O_RDONLY | libc::O_DIRECTORY).and_then(|fd| v_opendir(fd)) {
            Ok(d) => d,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = next(c"opendir");
    f(path)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if virt(fd) {
        return match v_opendir(fd) {
            Ok(d) => d,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: unsafe extern "C" fn(c_int) -> *mut libc::DIR = next(c"fdopendir");
    f(fd)
}
fn with_dir<T>(d: *mut libc::DIR, f: impl FnOnce(&mut VDir) -> T) -> Option<T> {
    DIRS.try_with(|x| x.borrow_mut().get_mut(&(d as usize)).map(|v| f(v))).ok().flatten()
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Some(r) = with_dir(d, |v| {
        let Some((name, ino)) = v.entries.get(v.at) else { return std::ptr::null_mut() };
        v.at += 1;
        v.current.d_ino = *ino as u64 + 1;
        v.current.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        v.current.d_type = match vsched::fs().nodes[*ino] {
            Node::Dir(_) => libc::DT_DIR,
            Node::Link(_) => libc::DT_LNK,
            _ => libc::DT_REG,
        };
        for (i, b) in name.iter().chain([&0]).enumerate() {
            v.current.d_name[i] = *b as c_char;
        }
        std::ptr::from_mut(&mut *v.current)
    }) {
        return r;
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = next(c"readdir64");
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if let Ok(Some(v)) = DIRS.try_with(|x| x.borrow_mut().remove(&(d as usize))) {
        close(v.fd);
        return 0;
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = next(c"closedir");
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if let Some(fd) = with_dir(d, |v| v.fd) {
        return fd;
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = next(c"dirfd");
    f(d)
}

fn fill(buf: &mut [u8], seed: u64) {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def0;
    for b in buf {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *b = (x >> 24) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if let (true, Some(seed)) = (on(), vsched::hash_seed()) {
        fill(std::slice::from_raw_parts_mut(buf.cast(), n), seed);
        return n as ssize_t;
    }
    raw!(SYS_getrandom, buf, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, out: *mut libc::timespec) -> c_int {
    if on() {
        let ns = vsched::time::now();
        (*out).tv_sec = 1_700_000_000 + (ns / 1_000_000_000) as i64;
        (*out).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    raw!(SYS_clock_gettime, clock, out) as c_int
}
fn v_sleep(ns: u64) {
    let mut timer = None;
    vsched::wait_below("sleep", |w| match timer {
        None => {
            timer = Some(vsched::time::set_timer(vsched::time::now().saturating_add(ns), Some(w.clone())));
            false
        }
        Some(t) => {
            vsched::time::rewake(t, w.clone());
            vsched::time::gone_off(t)
        }
    });
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if on() && !vsched::in_job() {
        v_sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
        return 0;
    }
    raw!(SYS_nanosleep, t, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: libc::clockid_t, flags: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if on() && !vsched::in_job() {
        let mut ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            ns = ns.saturating_sub(1_700_000_000 * 1_000_000_000).saturating_sub(vsched::time::now());
        }
        v_sleep(ns);
        return 0;
    }
    //gives the error back
    -(raw(libc::SYS_clock_nanosleep, clock as usize, flags as usize, t as usize, rem as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn geteuid() -> libc::uid_t {
    if on() {
        return UID.with(Cell::get);
    }
    raw!(SYS_geteuid) as libc::uid_t
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let name = CStr::from_ptr(name);
    if on() {
        return ENV.with(|e| e.borrow().iter().find(|(k, _)| *k == name).map_or(std::ptr::null_mut(), |(_, v)| v.as_ptr().cast_mut()));
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut c_char = next(c"getenv");
    f(name.as_ptr())
}

fn futex_wait(addr: usize, val: u32) -> isize {
    let word = unsafe { &*(addr as *const std::sync::atomic::AtomicU32) };
    let load = || word.load(std::sync::atomic::Ordering::SeqCst);
    //another thread of the operating system could hold it for a moment
    for _ in 0..40 {
        if load() != val {
            return 0;
        }
        let t = libc::timespec { tv_sec: 0, tv_nsec: 1_000_000 };
        unsafe {
            raw(libc::SYS_futex, addr, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, std::ptr::from_ref(&t) as usize, 0, 0);
        }
    }
    if vsched::in_job() {
        return 0;
    }
    //then it is another task
    vsched::wait_below("std lock", |w| {
        if load() != val {
            return true;
        }
        FUTEX.with(|f| f.borrow_mut().get_or_insert_with(HashMap::new).entry(addr).or_default().push((w.clone(), val)));
        false
    });
    if vsched::killed() && load() == val {
        vsched::give_up();
    }
    0
}
///All tasks wait, some of them perhaps for a lock that another execution has, whose thread does not get to run.
pub fn foreign_locks() {
    for _ in 0..10_000 {
        let Some((addr, val)) = FUTEX.with(|f| f.borrow().as_ref().and_then(|f| f.iter().find_map(|(a, w)| w.first().map(|w| (*a, w.1))))) else { return };
        let t = libc::timespec { tv_sec: 0, tv_nsec: 1_000_000 };
        let woken = unsafe { raw(libc::SYS_futex, addr, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, std::ptr::from_ref(&t) as usize, 0, 0) } == 0;
        let word = unsafe { &*(addr as *const std::sync::atomic::AtomicU32) };
        if woken || word.load(std::sync::atomic::Ordering::SeqCst) != val {
            for (w, _) in FUTEX.with(|f| f.borrow_mut().as_mut().and_then(|f| f.remove(&addr))).into_iter().flatten() {
                w.wake();
            }
            return;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if on() {
        match n {
            libc::SYS_futex => {
                let op = b as c_int & 0x7f & !libc::FUTEX_CLOCK_REALTIME;
                if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && d == 0 {
                    return futex_wait(a, c as u32) as c_long;
                }
                if op == libc::FUTEX_WAKE {
                    let w = FUTEX.with(|f| f.borrow_mut().as_mut().and_then(|f| f.remove(&a)));
                    for (w, _) in w.into_iter().flatten() {
                        w.wake();
                    }
                }
            }
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b, c as c_uint) as c_long,
            libc::SYS_statx => return c_long::from(statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx)),
            libc::SYS_copy_file_range => return copy_file_range(a as c_int, b as *mut off64_t, c as c_int, d as *mut off64_t, e, f as c_uint) as c_long,
            libc::SYS_renameat2 => return c_long::from(renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint)),
            _ => {}
        }
    }
    ret(raw(n, a, b, c, d, e, f)) as c_long
}

///What an execution's log has when the daemon made the process exit.
pub const EXITED: u32 = 0xE817;
pub fn exited() -> bool {
    OUT.with(Cell::get)
}
pub fn started() {
    OUT.with(|o| o.set(false));
}
fn leave(code: u32) {
    if on() && vsched::current().is_some() && !vsched::in_job() {
        OUT.with(|o| o.set(true));
        vsched::log(Entry::Mark(EXITED, code));
        vsched::give_up();
    }
}
static PARKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! {
    static FIRST: Cell<bool> = const { Cell::new(false) };
}
///`std::process::exit` calls `exit` for the first thread that gets there, and makes all others wait for that in `pause`: so that
///executions can exit one after another, a thread of ours is the first one.
pub fn allow_exits() {
    std::thread::spawn(|| {
        FIRST.with(|f| f.set(true));
        std::process::exit(0);
    });
    while !PARKED.load(std::sync::atomic::Ordering::Acquire) {
        std::thread::yield_now();
    }
}
///The process exits by its own doing: the task never goes on. What the others would do after that has to be disregarded.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    while FIRST.with(Cell::get) {
        PARKED.store(true, std::sync::atomic::Ordering::Release);
        raw!(SYS_pause);
    }
    leave(code as u32);
    let real: unsafe extern "C" fn(c_int) -> ! = next(c"exit");
    real(code)
}
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    leave(0);
    raw!(SYS_pause) as c_int
}
