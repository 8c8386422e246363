//! D12: a daemon that cannot start, or cannot read all it finds, leaves what is there alone.
use crate::{
    ck::{h64, hex, Ck, L},
    corpus::map_of,
    crash::boots,
    d01::{sequence, word, words, Act},
    d09::starts,
    format::{read_file, write_file, Choice},
    sys::EXITED,
    model::{contents, show, value, Db, Op as Req, State},
    world::{ended, execute, explore, fresh, start, tick, Run, BASE},
};
use axum::serving;
use sourisdb::{store::Store, values::Value};
use std::collections::BTreeMap;
use vsched::{
    vfs::{Op, Vfs},
    Config, Entry,
};

///What came of an attempt to start.
#[derive(Default)]
struct Attempt {
    serves: bool,
    ///how it ended, and how much had been logged by then
    ended: Option<(usize, Option<String>)>,
    stuck: Vec<String>,
}
fn attempt(out: &mut Attempt) {
    let d = start();
    vsched::idle();
    out.serves = serving::server().borrow().accepting;
    if out.serves {
        return;
    }
    //perhaps it tries again for a while, which must not change anything either
    for _ in 0..3 {
        if crate::sys::exited() || d.gone() || vsched::time::pending() == 0 {
            break;
        }
        tick();
    }
    match d.ended_at.get().or(crate::sys::exited().then_some(usize::MAX)) {
        Some(n) => out.ended = Some((n, d.crashed.borrow().clone())),
        None => out.stuck = vsched::blocked(),
    }
}
type Files = BTreeMap<String, Vec<u8>>;
///What has become of the files by the time the daemon had ended: also if something else has been put into the same place, or
///the same thing written again. What its other tasks do after that they would not have come to do.
fn touched(fs: &Vfs, r: &Run<Attempt>) -> Option<String> {
    let n = r.data.ended.as_ref().map_or(usize::MAX, |e| e.0);
    let there: BTreeMap<_, String> = fs.files().into_keys().filter_map(|p| Some((fs.lookup(&p)?, p))).collect();
    let mut v = fs.clone();
    for e in r.out.log.iter().take(n) {
        let o = match e {
            Entry::Fs(o) => o,
            Entry::Mark(EXITED, _) => break,
            _ => continue,
        };
        if let Op::Write { ino, .. } | Op::Truncate { ino, .. } = o {
            if let Some(p) = there.get(ino) {
                return Some(format!("{p} is written to"));
            }
        }
        v.apply(o);
    }
    there.iter().find(|(i, p)| v.lookup(p) != Some(**i)).map(|(_, p)| format!("{p} is gone or another file"))
}
fn untouched(l: &mut L, fs: &Vfs, r: &Run<Attempt>, key: &dyn Fn() -> String) -> bool {
    if let Some(u) = r.out.unsupported.first() {
        l.fail(format!("unsupported:{}", key()), u.clone());
        return false;
    }
    let d = touched(fs, r);
    l.check(d.is_none(), || format!("{}:changed", key()), || format!("did not serve ({:?}), but {}", r.data.ended, d.unwrap_or_default()))
}
///Each way a file could have been damaged.
fn spoiled(b: &[u8], t: bool) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = (0..b.len()).map(|n| (format!("cut{n}"), b[..n].to_vec())).collect();
    for at in 0..b.len() {
        let xs: Vec<u8> = if t { (1..=255).map(|x| b[at] ^ x).collect() } else { vec![0, 0x0F, 0x7F, 0xF0, 0xFF, b[at] ^ 1, b[at] ^ 0x10, b[at] ^ 0x80] };
        for x in xs {
            if x != b[at] {
                let mut c = b.to_vec();
                c[at] = x;
                v.push((format!("byte{at}={x:02x}"), c));
            }
        }
        let mut c = b.to_vec();
        c[at..].fill(0);
        v.push((format!("zeros{at}"), c));
    }
    v.push(("other".into(), b"this is no database".to_vec()));
    v.push(("long".into(), vec![0xFF; 5000]));
    v
}
fn content(n: u8) -> Value {
    map_of(contents(n).into_iter().map(|(k, v)| (k.to_string(), value(v))).collect())
}
fn db(n: u8) -> Db {
    let Value::Map(m) = content(n) else { unreachable!() };
    m.iter().map(|(k, v)| (k.clone(), show(v))).collect()
}
const HOW: Choice = Choice { binary: 0, signed: false, coded: 0, reverse: false };
fn file(v: &Value) -> Vec<u8> {
    write_file(v, 0, 0, HOW)
}
fn list(names: &[&str]) -> Value {
    map_of(vec![("existing_dbs".into(), Value::Array(names.iter().map(|n| Value::String((*n).into())).collect()))])
}
fn db_path(n: &str) -> String {
    format!("{BASE}/{n}.sdb")
}
///A directory with the databases a and b.
fn two() -> Vfs {
    let mut fs = fresh();
    fs.put(&db_path("a"), &file(&content(2)));
    fs.put(&db_path("b"), &file(&content(3)));
    fs.put(&db_path("meta"), &file(&list(&["a", "b"])));
    fs
}
///Whether the file of a database is there and stands for this.
fn holds(files: &Files, n: &str, want: &Db) -> Result<(), String> {
    let p = db_path(n);
    let b = files.get(&p).ok_or_else(|| format!("{p} is gone"))?;
    match read_file(b) {
        Ok(Value::Map(m)) => {
            let got: Db = m.iter().map(|(k, v)| (k.clone(), show(v))).collect();
            if got == *want { Ok(()) } else { Err(format!("{p} stands for {got:?} instead of {want:?}")) }
        }
        x => Err(format!("{p} holds {x:?}")),
    }
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let cfg = Config { preemptions: 2, delays: if t { 3 } else { 2 }, evictions: 0, ..Config::default() };

    //another daemon has the port
    let al: Vec<Act> = [Req::put("a", "x", 4), Req::content("", true, 2), Req::content("b", false, 3), Req::rm("a"), Req::clear("a"), Req::rmkv("b", "x")].into_iter().map(Act::Do).chain([Act::Tick, Act::Restart]).collect();
    let len = if t { 4 } else { 3 };
    ck.section("port-taken", &format!("a second daemon beside what every history of {len} out of 6 changes, saves and restarts has left on disk, from three states: every schedule of its start with at most two preemptions and delays (thorough: three)"), words(al.len(), len) * 3, |i, l| {
        let st = starts();
        let (fs, s) = &st[(i % 3) as usize];
        let acts = word(&al, len, i / 3);
        l.case(&i, true);
        let Some(fs) = sequence(l, fs, s, &acts) else { return };
        explore::<Attempt>(l, 100_000, &cfg, &fs, |out| {
            tokio::net::taken();
            attempt(out);
        }, |l, r| {
            let ok = untouched(l, &fs, &r, &|| format!("{i}"));
            ok & l.check(!r.data.serves, || format!("{i}:serves"), || "serves without a port".into())
        });
    });

    //damaged
    let metas: Vec<(String, Vec<u8>)> = {
        let one = |v: Vec<Value>| map_of(vec![("existing_dbs".into(), Value::Array(v))]);
        let s = |s: &str| Value::String(s.into());
        let mut v = spoiled(&file(&list(&["a", "b"])), t);
        v.extend(
            [
                ("no-list", map_of(vec![])),
                ("other-key", map_of(vec![("existing".into(), Value::Array(vec![s("a")]))])),
                ("no-array", map_of(vec![("existing_dbs".into(), s("a"))])),
                ("empty-list", one(vec![])),
                ("numbers", one(vec![value(0), s("a"), Value::Null(())])),
                ("nested", one(vec![Value::Array(vec![s("a"), s("b")])])),
                ("twice", one(vec![s("a"), s("a"), s("b")])),
                ("missing", one(vec![s("c"), s("a"), s("b")])),
            ]
            .map(|(n, v)| (n.to_string(), file(&v))),
        );
        v
    };
    let (a, b) = (db(2), db(3));
    ck.section("damaged-list", "the list of databases cut anywhere, with every byte replaced by eight (thorough: all) others or all zeros from there, and well-formed ones with something else in them: the databases' files stay as they were through a start, two saves and a stop", metas.len() as u64, |i, l| {
        let (n, bytes) = &metas[i as usize];
        l.case(n, true);
        let mut fs = two();
        fs.put(&db_path("meta"), bytes);
        let Ok(r) = execute::<Attempt>(Config { evictions: 0, ..Config::default() }, &[], &fs, attempt) else { return l.fail(n.clone(), "the exploration itself failed") };
        l.call(r.out.steps);
        l.run(h64(&r.data.serves));
        l.saw(u64::from(r.data.serves));
        if !r.data.serves {
            untouched(l, &fs, &r, &|| n.clone());
            l.check(r.data.ended.is_some(), || format!("{n}:stuck"), || format!("neither serves nor exits: {:?}", r.data.stuck));
            return;
        }
        let Ok(s) = boots(l, &fs) else { return l.fail(format!("{n}:start"), "started, and then did not") };
        //whatever it has taken over is not stored as something else
        for (x, want) in [("a", &a), ("b", &b)] {
            if let Some(got) = s.get(x) {
                l.check(got == want, || format!("{n}:{x}"), || format!("starts with {got:?} as {x} instead of {want:?}"));
            }
        }
        let Some(fs) = sequence(l, &fs, &s, &[Act::Tick, Act::Tick, Act::Restart]) else { return };
        let files = fs.files();
        for (x, want) in [("a", &a), ("b", &b)] {
            let h = holds(&files, x, want);
            l.check(h.is_ok(), || format!("{n}:{x}:file"), || h.unwrap_err());
        }
        if Store::deser(bytes).is_err() {
            l.check(files.values().any(|f| f == bytes), || format!("{n}:list"), || "started with a list that cannot be read, and replaced it".into());
        }
    });
    let bads = spoiled(&file(&content(2)), t);
    let others: Vec<Vec<Act>> = vec![
        vec![Act::Tick],
        vec![Act::Do(Req::put("b", "x", 4)), Act::Tick, Act::Restart],
        vec![Act::Do(Req::rm("b")), Act::Do(Req::put("c", "x", 0)), Act::Restart, Act::Tick],
    ];
    ck.section("damaged-database", "the file of one of two databases damaged likewise: the daemon starts and serves the other, and the file stays as it was through changes of others, saves and restarts, until there is a new database of its name", bads.len() as u64 * others.len() as u64, |i, l| {
        let (n, bytes) = &bads[(i / 3) as usize];
        l.case(&i, true);
        let mut fs = two();
        fs.put(&db_path("a"), bytes);
        let s = match boots(l, &fs) {
            Ok(s) => s,
            Err(e) => return l.fail(format!("{n}:start"), e),
        };
        l.saw(u64::from(s.contains_key("a")));
        l.check(s.get("b") == Some(&b), || format!("{n}:b"), || format!("starts with {s:?}"));
        let Some(after) = sequence(l, &fs, &s, &others[(i % 3) as usize]) else { return };
        match s.get("a") {
            //what it stands for now is what it is
            Some(a) => {
                let h = holds(&after.files(), "a", a);
                l.check(h.is_ok(), || format!("{n}:a:{}", i % 3), || h.unwrap_err());
            }
            None => {
                let now = after.files().get(&db_path("a")).cloned();
                l.check(now.as_ref() == Some(bytes), || format!("{n}:a:{}", i % 3), || format!("the file is {:?} instead of {}", now.map(|b| hex(&b)), hex(bytes)));
                let mut s = s.clone();
                for a in &others[(i % 3) as usize] {
                    if let Act::Do(o) = a {
                        o.apply(&mut s);
                    }
                }
                let Some(after) = sequence(l, &after, &s, &[Act::Do(Req::add("a", false)), Act::Do(Req::put("a", "x", 4)), Act::Restart]) else { return };
                let h = holds(&after.files(), "a", &[("x".to_string(), show(&value(4)))].into_iter().collect());
                l.check(h.is_ok(), || format!("{n}:anew:{}", i % 3), || h.unwrap_err());
            }
        }
    });
    ck.section("unreadable", "every operation on files failing in every way while starting with two databases, once or for good: it exits without changing anything, or serves, and the files of the databases stay as they were through two saves and a stop", 4, |i, l| {
        l.case(&i, true);
        let mut fs = two();
        if i / 2 == 1 {
            fs = Vfs::default();
        }
        let before = fs.files();
        explore::<(Attempt, bool, State)>(l, 100_000, &Config { preemptions: 0, delays: 0, evictions: 0, ..Config::default() }, &fs, |(out, failed, s)| {
            crate::sys::may_fail(1, i % 2 == 1);
            let d = start();
            vsched::idle();
            *failed = vsched::config().unwrap().faults == 0;
            crate::sys::may_fail(0, false);
            out.serves = serving::server().borrow().accepting;
            if out.serves {
                match crate::d01::read_all(&State::new()) {
                    Ok(x) => *s = x,
                    Err(e) => out.stuck.push(e),
                }
                tick();
                tick();
                if let Err(e) = d.stop() {
                    out.stuck.push(e);
                }
            } else {
                match d.ended_at.get().or(crate::sys::exited().then_some(usize::MAX)) {
                    Some(n) => out.ended = Some((n, d.crashed.borrow().clone())),
                    None => out.stuck = vsched::blocked(),
                }
            }
        }, |l, r| {
            let (x, failed, s) = r.data;
            let which: Vec<String> = r.out.log.iter().filter_map(|e| if let Entry::Fs(o @ Op::Failed { .. }) = e { Some(format!("{o:?}")) } else { None }).take(2).collect();
            let k = || format!("{i}:{}", which.first().cloned().unwrap_or_default().replace(' ', ""));
            l.saw(h64(&(&which, x.serves)));
            let mut ok = l.check(x.stuck.is_empty(), || format!("{}:stuck", k()), || format!("{:?}", x.stuck));
            if x.serves {
                ok &= l.check(ended(&r.out).is_ok(), || format!("{}:end", k()), || format!("{:?}", ended(&r.out)));
                if !before.is_empty() {
                    let files = r.out.fs.at_rest().files();
                    for (n, want) in [("a", &a), ("b", &b)] {
                        let h = holds(&files, n, want);
                        ok &= l.check(h.is_ok(), || format!("{}:{n}:file", k()), || h.unwrap_err());
                        ok &= l.check(s.get(n).is_none_or(|d| d == want), || format!("{}:{n}", k()), || format!("starts with {s:?}"));
                        //what does not concern it does not take it away, not even later
                        let own = which.iter().any(|w| w.contains(&db_path(n)));
                        ok &= l.check(own || s.contains_key(n), || format!("{}:{n}:lost", k()), || format!("starts with {s:?} after {which:?}"));
                        if !own {
                            let later = boots(l, &r.out.fs.at_rest());
                            ok &= l.check(later.as_ref().is_ok_and(|s| s.get(n) == Some(want)), || format!("{}:{n}:later", k()), || format!("starts with {later:?} after {which:?}"));
                        }
                    }
                }
            } else {
                let r = Run { out: r.out, data: x };
                ok &= untouched(l, &fs, &r, &k);
                ok &= l.check(failed, || format!("{}:start", k()), || format!("does not start: {:?}", r.data.ended));
            }
            ok
        });
    });

    //what is not the daemon's
    let strays: [(&str, &str); 8] = [("notes.txt", "notes"), ("a.sdb.bak", "backup"), ("c.sdb", ""), ("meta.old", "x"), ("sub/a.sdb", "nested"), ("sub/meta.sdb", "nested"), (".hidden", "h"), ("meta.sdb.bak", "b")];
    let acts: Vec<Act> = [Req::put("a", "x", 4), Req::content("d", true, 2), Req::rm("a"), Req::clear("b")].into_iter().map(Act::Do).chain([Act::Tick, Act::Restart]).collect();
    ck.section("strays", "eight kinds of other files in the directory stay as they are through every history of three changes, saves and restarts", words(acts.len(), 3), |i, l| {
        l.case(&i, true);
        let mut fs = two();
        fs.mkdir_all(&format!("{BASE}/sub"));
        for (n, c) in strays {
            let c = if n == "c.sdb" { file(&content(1)) } else { c.as_bytes().to_vec() };
            fs.put(&format!("{BASE}/{n}"), &c);
        }
        let s: State = [("a".to_string(), a.clone()), ("b".to_string(), b.clone())].into_iter().collect();
        let w: Vec<Act> = word(&acts, 3, i).into_iter().chain([Act::Restart]).collect();
        let before = fs.files();
        let Some(after) = sequence(l, &fs, &s, &w) else { return };
        let after = after.files();
        for (n, _) in strays {
            let p = format!("{BASE}/{n}");
            l.check(after.get(&p) == before.get(&p), || format!("{i}:{n}"), || format!("{p} is {:?} after {w:?}", after.get(&p).map(|b| hex(b))));
        }
    });
}
