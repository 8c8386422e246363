//! Whatever a database is called: its file is directly in the data directory, its own, and not one that means something else.
use crate::{
    ck::{h64, Ck, L},
    d01::{names, read_all, word, words},
    model::{show, value, Ans, Db, Op, State},
    world::{boot, ended, execute, fresh, send, tick, Reply, BASE},
};
use std::collections::{BTreeMap, BTreeSet};
use vsched::{
    vfs::{Ino, Node, Op as FsOp, Vfs},
    Config, Entry,
};

///Looks at every change of a file: all of them are to happen in this directory, and to its files.
fn inside(start: &Vfs, log: &[Entry], base: &str) -> Result<BTreeSet<String>, String> {
    let mut v = start.clone();
    let mut touched = BTreeSet::new();
    let mut removed = BTreeSet::new();
    let name = |n: &[u8]| String::from_utf8_lossy(n).into_owned();
    for e in log {
        let Entry::Fs(o) = e else { continue };
        let dir = v.lookup(base);
        let is_dir = |i: Ino| matches!(v.nodes.get(i), Some(Node::Dir(_)));
        let place = |d: Ino, n: &[u8]| format!("{}/{}", v.path_of(d).trim_end_matches('/'), name(n));
        match o {
            FsOp::Create { dir: d, name: n, .. } | FsOp::Unlink { dir: d, name: n, .. } | FsOp::Link { dir: d, name: n, .. } | FsOp::Symlink { dir: d, name: n, .. } => {
                if Some(*d) != dir {
                    return Err(format!("{} is created or removed", place(*d, n)));
                }
                touched.insert(name(n));
                if matches!(o, FsOp::Unlink { .. }) {
                    removed.insert(name(n));
                }
            }
            FsOp::Rename { from_dir, from, to_dir, to, .. } => {
                if Some(*from_dir) != dir || Some(*to_dir) != dir {
                    return Err(format!("{} is renamed to {}", place(*from_dir, from), place(*to_dir, to)));
                }
                removed.insert(name(from));
                touched.insert(name(to));
            }
            FsOp::Mkdir { dir: d, name: n, .. } => {
                //only what leads to the directory
                let at = place(*d, n);
                if base != at && !base.starts_with(&format!("{at}/")) {
                    return Err(format!("the directory {at} is made"));
                }
            }
            FsOp::Rmdir { dir: d, name: n, .. } => return Err(format!("the directory {} is removed", place(*d, n))),
            FsOp::Write { ino, .. } | FsOp::Truncate { ino, .. } => {
                let ours = dir.and_then(|d| v.dir(d).ok()).is_some_and(|d| d.values().any(|i| i == ino));
                if !ours && v.path_of(*ino).starts_with('/') {
                    return Err(format!("{} is written", v.path_of(*ino)));
                }
            }
            FsOp::Sync { ino } => {
                let _ = is_dir(*ino);
            }
            FsOp::Failed { .. } => {}
        }
        v.apply(o);
    }
    if removed.contains("meta.sdb") {
        return Err("the list of databases is removed".into());
    }
    Ok(touched)
}

///Files that have nothing to do with the daemon, in places where names could lead.
fn world() -> Vfs {
    let mut v = fresh();
    for p in ["/a.sdb", "/souris/a.sdb", "/souris/x.sdb", "/souris/.sdb", "/souris/meta.sdb", "/etc/x.sdb", "/souris/data/a/b.sdb", "/souris/data/a/a.sdb", "/souris/data/a/.sdb", "/souris/data/m/a.sdb", "/souris/data/sub/meta.sdb", "/data/x.sdb", "/souris/data\\a.sdb"] {
        v.put(p, &sourisdb::store::Store::default().ser());
    }
    v
}
///What is not in the data directory, or not directly.
fn others(v: &Vfs) -> BTreeMap<String, Vec<u8>> {
    v.files().into_iter().filter(|(n, _)| n.strip_prefix(BASE).and_then(|n| n.strip_prefix('/')).is_none_or(|n| n.contains('/'))).collect()
}

#[derive(Default)]
struct Told {
    bad: Option<(String, String)>,
    accepted: Vec<bool>,
}
impl Told {
    fn fail(&mut self, key: &str, msg: impl Into<String>) {
        if self.bad.is_none() {
            self.bad = Some((key.into(), msg.into()));
        }
    }
}

fn made(n: &str, how: u8) -> (Op, Db) {
    let v = |k: &str, x: u8| [(k.to_string(), show(&value(x)))].into_iter().collect::<Db>();
    match how {
        0 => (Op::add(n, false), Db::new()),
        1 => (Op::content(n, true, 1), v("x", 1)),
        2 => (Op::content(n, false, 1), v("x", 1)),
        3 => (Op::add(n, true), Db::new()),
        _ => (Op::put(n, "k", 1), v("k", 1)),
    }
}
const WAYS: u8 = 5;

fn try_name(l: &mut L, fs: &Vfs, n: &str) {
    let victim: Db = [("k".to_string(), show(&value(0)))].into_iter().collect();
    let r = execute::<Told>(Config { evictions: 0, ..Config::default() }, &[], fs, |out| {
        let mut d = match boot() {
            Ok(d) => d,
            Err(e) => return out.fail("boot", e),
        };
        let ask = |o: &Op| o.read(&send(&o.req(), false));
        let mut state: State = [("victim".to_string(), victim.clone())].into();
        if ask(&Op::put("victim", "k", 0)) != Ans::Created("InsertedKeyIntoNewDB".into()) {
            return out.fail("victim", "an ordinary name is refused");
        }
        tick();
        for how in 0..WAYS {
            let (op, contents) = made(n, how);
            let ok = match ask(&op) {
                Ans::Status(201) => true,
                Ans::Created(c) if c == "InsertedKeyIntoNewDB" => true,
                Ans::Status(400) => false,
                a => return out.fail("answer", format!("{op:?} answers {a:?}")),
            };
            out.accepted.push(ok);
            if ok {
                state.insert(n.to_string(), contents);
            }
            for round in 0..2 {
                match read_all(&state) {
                    Ok(s) if s == state => {}
                    Ok(s) => return out.fail("contents", format!("after {op:?}{}, there is {s:?} instead of {state:?}", ["", ", a save and a restart"][round])),
                    Err(e) => return out.fail("contents", format!("after {op:?}{}: {e}", ["", ", a save and a restart"][round])),
                }
                if round == 0 {
                    tick();
                    if let Err(e) = d.stop() {
                        return out.fail("stop", format!("after {op:?}: {e}"));
                    }
                    d = match boot() {
                        Ok(d) => d,
                        Err(e) => return out.fail("boot", format!("after {op:?}: {e}")),
                    };
                }
            }
            //everything else there is to do with it
            for o in [Op::kv(n, "q", false, true, 2), Op::rmkv(n, "q"), Op::clear(n), Op::rm(n), Op::rm(n), Op::clear(n), Op::rmkv(n, "q"), Op::kv(n, "q", false, false, 1), Op::get(n), Op::getv(n, "q")] {
                let want = o.apply(&mut state);
                let got = ask(&o);
                if want != got {
                    return out.fail("use", format!("after {op:?}, {o:?} answers {got:?} instead of {want:?}"));
                }
            }
        }
        tick();
        if let Err(e) = d.stop() {
            return out.fail("stop", e);
        }
        if let Err(e) = boot() {
            return out.fail("boot", e);
        }
        match read_all(&state) {
            Ok(s) if s == state => {}
            s => out.fail("contents", format!("in the end there is {s:?} instead of {state:?}")),
        }
    });
    judge(l, fs, r, BASE, || format!("the name {n:?}"));
}
fn judge(l: &mut L, fs: &Vfs, r: Result<crate::world::Run<Told>, String>, base: &str, what: impl Fn() -> String) {
    let r = match r {
        Ok(r) => r,
        Err(e) => return l.fail("engine", e),
    };
    l.call(r.out.steps);
    l.run(0);
    l.saw(h64(&r.data.accepted));
    match inside(fs, &r.out.log, base) {
        Err(e) => l.fail("outside", format!("{}: {e}", what())),
        Ok(t) => {
            if base == BASE {
                let (was, is) = (others(fs), others(&r.out.fs));
                l.check(was == is, || "others".into(), || format!("{}: files that are none of the daemon's are not as they were: {:?}", what(), was.keys().chain(is.keys()).filter(|k| was.get(*k) != is.get(*k)).collect::<BTreeSet<_>>()));
            }
            l.sample(|| format!("{}: accepted {:?}, files {:?}", what(), r.data.accepted, t.iter().take(4).collect::<Vec<_>>()));
        }
    }
    if let Some((k, m)) = &r.data.bad {
        l.fail(k.clone(), format!("{}: {m}", what()));
    }
    if let Err(e) = ended(&r.out) {
        l.fail(if r.out.panics.is_empty() { "stuck" } else { "panic" }, format!("{}: {e}", what()));
    }
    if let Some(u) = r.out.unsupported.first() {
        l.fail("unsupported", format!("{}: {u}", what()));
    }
    let a = &r.data.accepted;
    l.check(a.iter().all(|x| *x) || a.iter().all(|x| !*x), || "differ".into(), || format!("{}: some requests make it, others refuse it: {a:?}", what()));
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let alphabet = ["a", ".", "/", "\\", "\0", "m", "é", " ", "%", "~", "\n"];
    let len = if t { 5 } else { 4 };
    let mut all: Vec<String> = vec![];
    for k in 0..=len {
        for i in 0..words(alphabet.len(), k) {
            all.push(word(&alphabet, k, i).concat());
        }
    }
    let fs = world();
    ck.section("short", &format!("every name of up to {len} out of {} characters ({}), in each of {WAYS} ways to make a database, then used, saved, found again and removed, with files of others all around", alphabet.len(), alphabet.concat().escape_debug()), all.len() as u64, |i, l| {
        let n = &all[i as usize];
        l.case(n, true);
        try_name(l, &fs, n);
    });
    let mut paths: Vec<String> = names();
    for pre in ["", "/", "./", "../", "../../", ".../", "a/", "a/../", "a/../../", "sub/", "//", "/etc/", "/souris/", "/souris/data/", "..\\", "~/", "file:", "C:\\", "a\0/", "%2e%2e/", "%2e%2e%2f"] {
        for post in ["x", "meta", "meta.sdb", "a", "..", ".", "", "data/x", "data/meta", "new", "victim", "\0", "meta\0"] {
            paths.push(format!("{pre}{post}"));
        }
    }
    let around: Vec<usize> = (225..=260).collect();
    for n in &around {
        paths.push("n".repeat(*n));
        paths.push("é".repeat(*n / 2));
        paths.push(format!("{}/x", "n".repeat(*n - 2)));
    }
    paths.sort();
    paths.dedup();
    paths.retain(|n| n != "victim");
    ck.section("paths", &format!("{} names that look like paths, or are of every length around the limits, in the same ways", paths.len()), paths.len() as u64, |i, l| {
        let n = &paths[i as usize];
        l.case(n, true);
        try_name(l, &fs, n);
    });
    //all at once: none of them is in another's place
    let both: Vec<String> = all.iter().filter(|n| n.chars().count() <= 3).chain(&paths).cloned().collect::<BTreeSet<_>>().into_iter().collect();
    ck.section("distinct", &format!("all {} names together, each with a value of its own, saved and found again, then every second one removed", both.len()), 3, |i, l| {
        l.case(&i, true);
        let r = execute::<Told>(Config { evictions: 0, max_steps: 2_000_000, ..Config::default() }, &[], &fs, |out| {
            let mut d = match boot() {
                Ok(d) => d,
                Err(e) => return out.fail("boot", e),
            };
            let mut state = State::new();
            for n in &both {
                let own = format!("its name is {n:?}");
                let req = crate::world::Req { method: "PUT", uri: format!("/v1/add_kv?db_name={}&key=k&create_new_database=true&overwrite_key=true", crate::model::enc(n)), body: sourisdb::values::Value::String(own.clone()).ser(None), content_type: None };
                match send(&req, false) {
                    Reply::Http(200, _) => {
                        state.insert(n.clone(), [("k".to_string(), format!("{own:?}"))].into_iter().collect());
                    }
                    Reply::Http(400, _) => {}
                    a => return out.fail("answer", format!("{n:?} answers {a:?}")),
                }
            }
            for round in 0..3 {
                match read_all(&state) {
                    Ok(s) if s == state => {}
                    Ok(s) => {
                        let wrong: Vec<_> = s.keys().chain(state.keys()).filter(|k| s.get(*k) != state.get(*k)).take(5).map(|k| (k, s.get(k), state.get(k))).collect();
                        return out.fail("mixed", format!("these are not what they were: {wrong:?}"));
                    }
                    Err(e) => return out.fail("reads", e),
                }
                let gone: Vec<String> = state.keys().enumerate().filter(|(j, _)| (*j as u64 + i) % 3 == round).map(|(_, n)| n.clone()).collect();
                if round > 0 {
                    for n in gone {
                        let a = Op::rm(&n).read(&send(&Op::rm(&n).req(), false));
                        if a != Ans::Status(200) {
                            return out.fail("answer", format!("removing {n:?} answers {a:?}"));
                        }
                        state.remove(&n);
                    }
                }
                tick();
                if let Err(e) = d.stop() {
                    return out.fail("stop", e);
                }
                d = match boot() {
                    Ok(d) => d,
                    Err(e) => return out.fail("boot", e),
                };
            }
        });
        judge(l, &fs, r, BASE, || "all names at once".into());
    });
    //where the data directory is
    type Env = (&'static [(&'static std::ffi::CStr, &'static str)], u32, &'static str);
    let envs: [Env; 12] = [
        (&[(c"BASE_LOCATION", "/souris/data"), (c"HOME", "/home/u")], 1000, "/souris/data"),
        (&[(c"BASE_LOCATION", "/souris/data/"), (c"HOME", "/home/u")], 0, "/souris/data"),
        (&[(c"BASE_LOCATION", "/souris/./new/deep"), (c"HOME", "/home/u")], 0, "/souris/new/deep"),
        (&[(c"BASE_LOCATION", "/souris/../other"), (c"HOME", "/home/u")], 0, "/other"),
        (&[(c"BASE_LOCATION", "relative/one"), (c"HOME", "/home/u")], 0, "/relative/one"),
        (&[(c"BASE_LOCATION", "/to"), (c"HOME", "/home/u")], 0, "/souris/elsewhere"),
        (&[(c"BASE_LOCATION", "/with space/é"), (c"HOME", "/home/u")], 1000, "/with space/é"),
        (&[(c"HOME", "/home/u")], 0, "/etc/souris"),
        (&[(c"HOME", "/home/u"), (c"XDG_DATA_HOME", "/xdg/share")], 0, "/etc/souris"),
        (&[(c"HOME", "/home/u")], 1000, "/home/u/.local/share/souris"),
        (&[(c"HOME", "/home/u"), (c"XDG_DATA_HOME", "/xdg/share")], 1000, "/xdg/share/souris"),
        (&[(c"HOME", "/home/u"), (c"XDG_DATA_HOME", "not/absolute")], 1000, "/home/u/.local/share/souris"),
    ];
    let few = ["a", "../a", "/etc/x", "meta", "a/b", "..", ".", ""];
    ck.section("where", "with the data directory given in different ways or by default, for the superuser and others: a few names, and everything stays in it", envs.len() as u64, |i, l| {
        let (env, uid, base) = envs[i as usize];
        l.case(&i, true);
        let mut fs = world();
        let e = fs.mkdir_all("/souris/elsewhere");
        let _ = e;
        let link = fs.add(Node::Link(b"/souris/elsewhere".to_vec()));
        fs.dir_mut(0).unwrap().insert(b"to".to_vec(), link);
        let r = execute::<Told>(Config { evictions: 0, ..Config::default() }, &[], &fs, |out| {
            crate::sys::set_env(env);
            crate::sys::set_uid(uid);
            let mut state = State::new();
            for round in 0..3 {
                let d = match boot() {
                    Ok(d) => d,
                    Err(e) => return out.fail("boot", e),
                };
                match read_all(&state) {
                    Ok(s) if s == state => {}
                    s => return out.fail("contents", format!("there is {s:?} instead of {state:?}")),
                }
                for n in few {
                    let (op, c) = made(n, 4);
                    match op.read(&send(&op.req(), false)) {
                        Ans::Created(_) => {
                            state.insert(n.into(), c);
                        }
                        Ans::Status(400) => {}
                        a => return out.fail("answer", format!("{op:?} answers {a:?}")),
                    }
                }
                if round == 1 {
                    let a = Op::rm("a").read(&send(&Op::rm("a").req(), false));
                    state.remove("a");
                    if a != Ans::Status(200) {
                        return out.fail("answer", format!("rm answers {a:?}"));
                    }
                }
                tick();
                if let Err(e) = d.stop() {
                    return out.fail("stop", e);
                }
            }
        });
        judge(l, &fs, r, base, || format!("{env:?} with user {uid}, which should be {base}"));
    });
}
