//! Every operation is done by another thread at some later time, in one go, like the real blocking threads do.
pub use std::fs::Metadata;
use real::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};
use std::{
    fs::{File as StdFile, Permissions},
    future::Future,
    io::{self, Read, Seek, SeekFrom, Write},
    path::{Path, PathBuf},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{ready, Context, Poll},
};
use vsched::Job;

async fn go<T: 'static>(name: &'static str, f: impl FnOnce() -> io::Result<T> + 'static) -> io::Result<T> {
    if vsched::in_job() || vsched::current().is_none() {
        return f();
    }
    vsched::job(name, f).await
}
macro_rules! ops {
    ($($name:ident($($a:ident),*) -> $t:ty;)*) => { $(pub async fn $name($($a: impl AsRef<Path>),*) -> io::Result<$t> {
        $(let $a = $a.as_ref().to_owned();)*
        go(stringify!($name), move || std::fs::$name($($a),*)).await
    })* };
}
ops! {
    canonicalize(p) -> PathBuf;
    copy(a, b) -> u64;
    create_dir(p) -> ();
    create_dir_all(p) -> ();
    hard_link(a, b) -> ();
    metadata(p) -> Metadata;
    read(p) -> Vec<u8>;
    read_link(p) -> PathBuf;
    read_to_string(p) -> String;
    remove_dir(p) -> ();
    remove_dir_all(p) -> ();
    remove_file(p) -> ();
    rename(a, b) -> ();
    symlink_metadata(p) -> Metadata;
}
pub async fn symlink(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
    let (a, b) = (a.as_ref().to_owned(), b.as_ref().to_owned());
    go("symlink", move || std::os::unix::fs::symlink(a, b)).await
}
pub async fn try_exists(p: impl AsRef<Path>) -> io::Result<bool> {
    let p = p.as_ref().to_owned();
    go("try_exists", move || p.try_exists()).await
}
pub async fn write(p: impl AsRef<Path>, data: impl AsRef<[u8]>) -> io::Result<()> {
    let (p, d) = (p.as_ref().to_owned(), data.as_ref().to_vec());
    go("write", move || std::fs::write(p, d)).await
}
pub async fn set_permissions(p: impl AsRef<Path>, perm: Permissions) -> io::Result<()> {
    let p = p.as_ref().to_owned();
    go("set_permissions", move || std::fs::set_permissions(p, perm)).await
}

#[derive(Debug, Default)]
pub struct DirBuilder {
    recursive: bool,
}
impl DirBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn recursive(&mut self, r: bool) -> &mut Self {
        self.recursive = r;
        self
    }
    pub async fn create(&self, p: impl AsRef<Path>) -> io::Result<()> {
        if self.recursive {
            create_dir_all(p).await
        } else {
            create_dir(p).await
        }
    }
}

pub struct ReadDir(std::vec::IntoIter<std::fs::DirEntry>);
pub async fn read_dir(p: impl AsRef<Path>) -> io::Result<ReadDir> {
    let p = p.as_ref().to_owned();
    let v = go("read_dir", move || std::fs::read_dir(p)?.collect::<io::Result<Vec<_>>>()).await?;
    Ok(ReadDir(v.into_iter()))
}
impl ReadDir {
    pub async fn next_entry(&mut self) -> io::Result<Option<DirEntry>> {
        Ok(self.0.next().map(DirEntry))
    }
}
#[derive(Debug)]
pub struct DirEntry(std::fs::DirEntry);
impl DirEntry {
    pub fn path(&self) -> PathBuf {
        self.0.path()
    }
    pub fn file_name(&self) -> std::ffi::OsString {
        self.0.file_name()
    }
    pub async fn metadata(&self) -> io::Result<Metadata> {
        metadata(self.path()).await
    }
    pub async fn file_type(&self) -> io::Result<std::fs::FileType> {
        self.0.file_type()
    }
}

#[derive(Clone, Debug)]
pub struct OpenOptions(std::fs::OpenOptions);
impl Default for OpenOptions {
    fn default() -> Self {
        Self::new()
    }
}
macro_rules! flags {
    ($($n:ident),*) => { $(pub fn $n(&mut self, v: bool) -> &mut Self {
        self.0.$n(v);
        self
    })* };
}
impl OpenOptions {
    pub fn new() -> Self {
        Self(std::fs::OpenOptions::new())
    }
    flags!(read, write, append, truncate, create, create_new);
    pub fn mode(&mut self, m: u32) -> &mut Self {
        std::os::unix::fs::OpenOptionsExt::mode(&mut self.0, m);
        self
    }
    pub fn custom_flags(&mut self, f: i32) -> &mut Self {
        std::os::unix::fs::OpenOptionsExt::custom_flags(&mut self.0, f);
        self
    }
    pub async fn open(&self, p: impl AsRef<Path>) -> io::Result<File> {
        let (o, p) = (self.0.clone(), p.as_ref().to_owned());
        Ok(File::from_std(go("open", move || o.open(p)).await?))
    }
}
impl From<std::fs::OpenOptions> for OpenOptions {
    fn from(o: std::fs::OpenOptions) -> Self {
        Self(o)
    }
}

///At most one operation at a time; writes return before they have been done, and report their failure to whoever comes next.
pub struct File {
    std: Arc<StdFile>,
    inner: Mutex<Inner>,
}
struct Inner {
    write: Option<Job<io::Result<()>>>,
    read: Option<Job<io::Result<Vec<u8>>>>,
    seek: Option<Job<io::Result<u64>>>,
    ///read, but not asked for yet
    buf: Vec<u8>,
    failed: Option<io::Error>,
    max: usize,
}
impl std::fmt::Debug for File {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("tokio::fs::File").field("std", &self.std).finish()
    }
}
impl File {
    pub async fn open(p: impl AsRef<Path>) -> io::Result<File> {
        let p = p.as_ref().to_owned();
        Ok(Self::from_std(go("open", move || StdFile::open(p)).await?))
    }
    pub async fn create(p: impl AsRef<Path>) -> io::Result<File> {
        let p = p.as_ref().to_owned();
        Ok(Self::from_std(go("create", move || StdFile::create(p)).await?))
    }
    pub async fn create_new(p: impl AsRef<Path>) -> io::Result<File> {
        let p = p.as_ref().to_owned();
        Ok(Self::from_std(go("create_new", move || StdFile::create_new(p)).await?))
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn from_std(f: StdFile) -> Self {
        Self { std: Arc::new(f), inner: Mutex::new(Inner { write: None, read: None, seek: None, buf: vec![], failed: None, max: 2 << 20 }) }
    }
    async fn complete_inflight(&self) {
        std::future::poll_fn(|cx| {
            let mut i = self.inner.lock().unwrap();
            i.poll_inflight(cx)
        })
        .await;
    }
    pub async fn sync_all(&self) -> io::Result<()> {
        self.complete_inflight().await;
        let s = self.std.clone();
        go("fsync", move || s.sync_all()).await
    }
    pub async fn sync_data(&self) -> io::Result<()> {
        self.complete_inflight().await;
        let s = self.std.clone();
        go("fdatasync", move || s.sync_data()).await
    }
    pub async fn set_len(&self, n: u64) -> io::Result<()> {
        self.complete_inflight().await;
        let s = self.std.clone();
        go("set_len", move || s.set_len(n)).await
    }
    pub async fn metadata(&self) -> io::Result<Metadata> {
        let s = self.std.clone();
        go("metadata", move || s.metadata()).await
    }
    pub async fn try_clone(&self) -> io::Result<File> {
        self.complete_inflight().await;
        let s = self.std.clone();
        Ok(Self::from_std(go("dup", move || s.try_clone()).await?))
    }
    pub async fn into_std(self) -> StdFile {
        self.complete_inflight().await;
        Arc::try_unwrap(self.std).expect("Arc::try_unwrap failed")
    }
    pub async fn set_permissions(&self, p: Permissions) -> io::Result<()> {
        let s = self.std.clone();
        go("set_permissions", move || s.set_permissions(p)).await
    }
    pub fn set_max_buf_size(&mut self, n: usize) {
        self.inner.lock().unwrap().max = n;
    }
}
impl Inner {
    ///Waits for a write; a failure is kept for later.
    fn poll_inflight(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(w) = &mut self.write {
            let r = ready!(w.poll_done(cx));
            self.write = None;
            if let Err(e) = r {
                self.failed = Some(e);
            }
        }
        Poll::Ready(())
    }
    ///What flushing does: waits for a write and takes its failure.
    fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        ready!(self.poll_inflight(cx));
        match self.failed.take() {
            Some(e) => Poll::Ready(Err(e)),
            None => Poll::Ready(Ok(())),
        }
    }
}
impl From<StdFile> for File {
    fn from(f: StdFile) -> Self {
        Self::from_std(f)
    }
}
impl std::os::fd::AsRawFd for File {
    fn as_raw_fd(&self) -> i32 {
        std::os::fd::AsRawFd::as_raw_fd(&*self.std)
    }
}

impl AsyncWrite for File {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, src: &[u8]) -> Poll<io::Result<usize>> {
        let me = self.get_mut();
        let i = me.inner.get_mut().unwrap();
        if let Some(e) = i.failed.take() {
            return Poll::Ready(Err(e));
        }
        if i.write.is_some() {
            //the one before has to be done first
            ready!(i.poll_inflight(cx));
            if let Some(e) = i.failed.take() {
                return Poll::Ready(Err(e));
            }
        }
        let back = std::mem::take(&mut i.buf).len() as i64;
        let n = src.len().min(i.max);
        let data = src[..n].to_vec();
        let std = me.std.clone();
        i.write = Some(vsched::job("file write", move || {
            if back > 0 {
                (&*std).seek(SeekFrom::Current(-back))?;
            }
            (&*std).write_all(&data)
        }));
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.get_mut().inner.get_mut().unwrap().poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}
impl AsyncRead for File {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, dst: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        let i = me.inner.get_mut().unwrap();
        loop {
            if !i.buf.is_empty() || dst.remaining() == 0 {
                let n = i.buf.len().min(dst.remaining());
                dst.put_slice(&i.buf[..n]);
                i.buf.drain(..n);
                return Poll::Ready(Ok(()));
            }
            ready!(i.poll_inflight(cx));
            if let Some(e) = i.failed.take() {
                return Poll::Ready(Err(e));
            }
            if let Some(r) = &mut i.read {
                let r = ready!(r.poll_done(cx));
                i.read = None;
                match r {
                    Ok(b) if b.is_empty() => return Poll::Ready(Ok(())),
                    Ok(b) => i.buf = b,
                    Err(e) => return Poll::Ready(Err(e)),
                }
                continue;
            }
            let n = dst.remaining().min(i.max);
            let std = me.std.clone();
            i.read = Some(vsched::job("file read", move || {
                let mut b = vec![0; n];
                let n = loop {
                    match (&*std).read(&mut b) {
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                        x => break x?,
                    }
                };
                b.truncate(n);
                Ok(b)
            }));
        }
    }
}
impl AsyncSeek for File {
    fn start_seek(self: Pin<&mut Self>, pos: SeekFrom) -> io::Result<()> {
        let me = self.get_mut();
        let i = me.inner.get_mut().unwrap();
        let back = std::mem::take(&mut i.buf).len() as i64;
        let std = me.std.clone();
        let pos = match pos {
            SeekFrom::Current(n) => SeekFrom::Current(n - back),
            p => p,
        };
        //jobs of the same file go in order: wait for a write in here
        let mut w = i.write.take();
        i.seek = Some(vsched::job("file seek", move || {
            let _ = w.take();
            (&*std).seek(pos)
        }));
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        let me = self.get_mut();
        let i = me.inner.get_mut().unwrap();
        ready!(i.poll_inflight(cx));
        match &mut i.seek {
            Some(s) => {
                let r = ready!(s.poll_done(cx));
                i.seek = None;
                Poll::Ready(r)
            }
            None => Poll::Ready(Ok(0)),
        }
    }
}
#[allow(dead_code)]
fn is_future<F: Future>(f: F) -> F {
    f
}
