//! Any sequence of requests gets the answers a map of maps would give.
use crate::{
    ck::{h64, Ck, L},
    model::{Ans, Db, Op, State},
    world::{boot, ended, execute, fresh, send, tick, Reply, Req},
};
use vsched::{vfs::Vfs, Config};

#[derive(Clone, Debug)]
pub enum Act {
    Do(Op),
    ///time passes, the daemon saves
    Tick,
    ///the cache loses everything it has
    Forget,
    Restart,
}

///Reads all there is to read, both through the whole databases and key by key.
pub fn read_all(known: &State) -> Result<State, String> {
    let names = match Op::Names.read(&send(&Op::Names.req(), false)) {
        Ans::Names(n) => n,
        a => return Err(format!("get_all_db_names answers {a:?}")),
    };
    let mut s = State::new();
    for n in &names {
        match Op::get(n).read(&send(&Op::get(n).req(), false)) {
            Ans::Db(d) => {
                if s.insert(n.clone(), d).is_some() {
                    return Err(format!("{n:?} is listed more than once: {names:?}"));
                }
            }
            a => return Err(format!("{n:?} is listed, but get_db answers {a:?}")),
        }
    }
    for (n, d) in known {
        for k in d.keys() {
            let o = Op::getv(n, k);
            let a = o.read(&send(&o.req(), false));
            let b = s.get(n).and_then(|d| d.get(k)).cloned().map_or(Ans::Status(if s.contains_key(n) { 400 } else { 410 }), Ans::Value);
            if a != b {
                return Err(format!("get_value({n:?}, {k:?}) answers {a:?}, but by get_db and get_all_db_names it should be {b:?}"));
            }
        }
    }
    Ok(s)
}

#[derive(Default)]
struct Told {
    bad: Option<(String, String)>,
    answers: u64,
    last: u64,
}

fn kind(o: &Op) -> &'static str {
    match o {
        Op::Health => "healthcheck",
        Op::Names => "get_all_db_names",
        Op::Get(_) => "get_db",
        Op::GetV(..) => "get_value",
        Op::Add { .. } => "add_db",
        Op::Content { .. } => "add_db_with_content",
        Op::Rm(_) => "rm_db",
        Op::Clear(_) => "clear_db",
        Op::AddKv { .. } => "add_kv",
        Op::RmKv(..) => "rm_kv",
        Op::Raw(..) => "raw",
    }
}

///Runs these one after another, from this file system and what it stands for.
///
/// Gives what is on disk then, without stopping anything.
pub fn sequence(l: &mut L, fs: &Vfs, start: &State, acts: &[Act]) -> Option<Vfs> {
    let cfg = Config { evictions: 0, ..Config::default() };
    let r = execute::<Told>(cfg, &[], fs, |out| {
        let fail = |out: &mut Told, key: &str, msg: String| out.bad = Some((key.into(), msg));
        let mut d = match boot() {
            Ok(d) => d,
            Err(e) => return fail(out, "boot", e),
        };
        let mut s = start.clone();
        let mut h = 0;
        for (i, a) in acts.iter().enumerate() {
            match a {
                Act::Do(o) => {
                    let got = o.read(&send(&o.req(), false));
                    let want = o.apply(&mut s);
                    out.answers += 1;
                    h = h64(&(h, &got));
                    if got != want {
                        return fail(out, kind(o), format!("after {:?}, {o:?} answers {got:?} instead of {want:?}", &acts[..i]));
                    }
                }
                Act::Tick => tick(),
                Act::Forget => moka::control::forget_all(),
                Act::Restart => {
                    if let Err(e) = d.stop() {
                        return fail(out, "stop", format!("after {:?}: {e}", &acts[..i]));
                    }
                    d = match boot() {
                        Ok(d) => d,
                        Err(e) => return fail(out, "boot", format!("after {:?}: {e}", &acts[..i])),
                    };
                }
            }
        }
        match read_all(&s) {
            Ok(r) if r == s => {}
            Ok(r) => return fail(out, "contents", format!("after {acts:?} there is {r:?} instead of {s:?}")),
            Err(e) => return fail(out, "reads", format!("after {acts:?}: {e}")),
        }
        out.last = h64(&(h, &s));
    });
    finish(l, r.map(|r| (r.out, r.data)), || format!("{acts:?}"))
}
fn finish(l: &mut L, r: Result<(vsched::Outcome, Told), String>, what: impl Fn() -> String) -> Option<Vfs> {
    let (out, told) = match r {
        Ok(r) => r,
        Err(e) => {
            l.fail("engine", e);
            return None;
        }
    };
    l.call(out.steps);
    l.run(0);
    l.saw(told.last);
    let n = told.answers;
    for _ in 0..n {
        l.check(true, String::new, String::new);
    }
    if let Err(e) = ended(&out) {
        let key = if out.panics.is_empty() { "stuck" } else { "panic" };
        l.fail(key, format!("{}: {e}", what()));
        return None;
    }
    if let Some(u) = out.unsupported.first() {
        l.fail("unsupported", format!("{}: {u}", what()));
        return None;
    }
    if let Some((k, m)) = told.bad {
        l.fail(k, m);
        return None;
    }
    l.check(true, String::new, String::new);
    l.sample(what);
    Some(out.fs.at_rest())
}

///Every word of this length over an alphabet, by number.
pub fn word<T: Clone>(alphabet: &[T], len: usize, mut i: u64) -> Vec<T> {
    (0..len)
        .map(|_| {
            let c = alphabet[(i % alphabet.len() as u64) as usize].clone();
            i /= alphabet.len() as u64;
            c
        })
        .collect()
}
pub fn words(n: usize, len: usize) -> u64 {
    (n as u64).pow(len as u32)
}

///The files a daemon leaves behind when these were done, and what they stand for.
pub fn files_after(ops: &[Op]) -> (Vfs, State) {
    let r = execute::<(State, Vec<String>)>(Config::default(), &[], &fresh(), |out| match boot() {
        Ok(d) => {
            for o in ops {
                send(&o.req(), false);
                o.apply(&mut out.0);
            }
            if let Err(e) = d.stop() {
                out.1.push(e);
            }
        }
        Err(e) => out.1.push(e),
    });
    let r = r.expect("cannot prepare");
    assert!(r.data.1.is_empty(), "cannot prepare: {:?}", r.data.1);
    (r.out.fs.at_rest(), r.data.0)
}

fn alphabet() -> Vec<Act> {
    use Act::Do;
    vec![
        Do(Op::add("a", false)),
        Do(Op::add("a", true)),
        Do(Op::add("b", false)),
        Do(Op::content("a", false, 2)),
        Do(Op::content("a", true, 1)),
        Do(Op::rm("a")),
        Do(Op::rm("b")),
        Do(Op::clear("a")),
        Do(Op::put("a", "x", 0)),
        Do(Op::kv("a", "x", false, true, 1)),
        Do(Op::kv("a", "y", true, false, 4)),
        Do(Op::kv("a", "x", false, false, 2)),
        Do(Op::put("b", "x", 3)),
        Do(Op::rmkv("a", "x")),
        Do(Op::rmkv("a", "y")),
        Do(Op::get("a")),
        Do(Op::getv("a", "x")),
        Act::Tick,
        Act::Restart,
    ]
}
fn wide() -> Vec<Act> {
    use Act::Do;
    let mut v = alphabet();
    for over in [false, true] {
        v.push(Do(Op::add("b", over)));
        for s in 0..4 {
            v.push(Do(Op::content("b", over, s)));
        }
        v.push(Do(Op::content("a", over, 0)));
        v.push(Do(Op::content("a", over, 3)));
        for create in [false, true] {
            v.push(Do(Op::kv("b", "z", create, over, 5)));
            v.push(Do(Op::kv("meta", "z", create, over, 1)));
            v.push(Do(Op::kv("", "", create, over, 1)));
        }
        v.push(Do(Op::add("meta", over)));
        v.push(Do(Op::content("meta", over, 1)));
        v.push(Do(Op::add("", over)));
    }
    v.extend([
        Do(Op::Health),
        Do(Op::Names),
        Do(Op::get("b")),
        Do(Op::get("")),
        Do(Op::get("meta")),
        Do(Op::getv("a", "y")),
        Do(Op::getv("b", "x")),
        Do(Op::getv("nowhere", "x")),
        Do(Op::getv("meta", "x")),
        Do(Op::rm("nowhere")),
        Do(Op::rm("meta")),
        Do(Op::rm("")),
        Do(Op::clear("b")),
        Do(Op::clear("meta")),
        Do(Op::rmkv("b", "x")),
        Do(Op::rmkv("", "")),
        Do(Op::rmkv("meta", "x")),
        Act::Forget,
    ]);
    v
}

pub fn run(ck: &Ck) {
    let al = alphabet();
    let (empty, none) = (fresh(), State::new());
    let len = if ck.thorough { 5 } else { 4 };
    ck.section("sequences", &format!("every sequence of {len} out of {} requests on two databases, saves and restarts, from nothing", al.len()), words(al.len(), len), |i, l| {
        l.case(&i, true);
        sequence(l, &empty, &none, &word(&al, len, i));
    });
    let starts: Vec<(Vfs, State)> = [vec![], vec![Op::put("a", "x", 1), Op::put("a", "y", 0)], vec![Op::put("a", "x", 0), Op::put("b", "x", 5), Op::add("", false)]].iter().map(|o| if o.is_empty() { (fresh(), State::new()) } else { files_after(o) }).collect();
    let w = wide();
    let len = if ck.thorough { 3 } else { 2 };
    ck.section("all-requests", &format!("every sequence of {len} out of {} requests, from three states found on disk", w.len()), words(w.len(), len) * 3, |i, l| {
        l.case(&i, true);
        let (fs, s) = &starts[(i % 3) as usize];
        sequence(l, fs, s, &word(&w, len, i / 3));
    });
    //bigger ones: many keys, many databases
    let sizes = [0_usize, 1, 2, 3, 14, 15, 16, 17, 31, 100, 257];
    ck.section("sizes", "n keys in one database and n databases, n out of 11 sizes; then every second one is removed", sizes.len() as u64 * 2, |i, l| {
        l.case(&i, true);
        let n = sizes[i as usize / 2];
        let mut v = vec![Act::Do(Op::add("a", false))];
        let kv = |j: usize| if i % 2 == 0 { Op::put("a", &format!("k{j}"), (j % 6) as u8) } else { Op::put(&format!("d{j}"), "k", (j % 6) as u8) };
        v.extend((0..n).map(|j| Act::Do(kv(j))));
        v.push(Act::Do(Op::Names));
        v.push(Act::Do(Op::get("a")));
        v.extend((0..n).filter(|j| j % 2 == 0).map(|j| Act::Do(if i % 2 == 0 { Op::rmkv("a", &format!("k{j}")) } else { Op::rm(&format!("d{j}")) })));
        v.push(Act::Restart);
        v.push(Act::Do(Op::Names));
        sequence(l, &empty, &none, &v);
    });
    strange(ck);
    malformed(ck, &starts);
    values(ck);
}

///Names and keys with any characters, through every route.
fn strange(ck: &Ck) {
    let names = names();
    let keys: Vec<String> = ["", "a", " ", "%", "%41", "+", "&", "=", "&key=b", "?", "#", "/", "..", "\0", "\n", "é", "日本", "😀", "\u{0}x", "\u{301}", "true", "a b", "a+b", "a%20b", "\"", "\\"].iter().map(|s| (*s).to_string()).chain([1000, 10_000, 60_000].iter().map(|n| "k".repeat(*n))).collect();
    let near: Vec<(String, String)> = [("a", "A"), ("a", "a "), ("a", " a"), ("a", "a+"), ("a%20b", "a b"), ("a+b", "a b"), ("", " "), ("é", "e"), ("e\u{301}", "é"), ("k", "K"), ("0", "00"), ("a\0", "a")].iter().map(|(a, b)| ((*a).to_string(), (*b).to_string())).collect();
    ck.section("names", &format!("{} database names, each made in three ways, read, changed and removed", names.len()), names.len() as u64 * 3, |i, l| {
        let n = &names[i as usize / 3];
        l.case(&(n, i % 3), true);
        let v = vec![
            Op::put("other", "k", 0),
            match i % 3 {
                0 => Op::add(n, false),
                1 => Op::content(n, false, 2),
                _ => Op::put(n, "k", 1),
            },
            Op::Names,
            Op::get(n),
            Op::kv(n, "k", false, true, 2),
            Op::getv(n, "k"),
            Op::rmkv(n, "k"),
            Op::clear(n),
            Op::get(n),
            Op::rm(n),
            Op::get(n),
            Op::rm(n),
            Op::Names,
        ];
        sequence(l, &fresh(), &State::new(), &v.into_iter().map(Act::Do).collect::<Vec<_>>());
    });
    ck.section("keys", &format!("{} keys, each added, found, kept, replaced and removed", keys.len()), keys.len() as u64, |i, l| {
        let k = &keys[i as usize];
        l.case(k, true);
        let v = vec![Act::Do(Op::put("a", "other", 0)), Act::Do(Op::kv("a", k, false, false, 1)), Act::Do(Op::kv("a", k, false, false, 2)), Act::Do(Op::getv("a", k)), Act::Do(Op::put("a", k, 2)), Act::Restart, Act::Do(Op::getv("a", k)), Act::Do(Op::get("a")), Act::Do(Op::rmkv("a", k)), Act::Do(Op::getv("a", k)), Act::Do(Op::rmkv("a", k))];
        sequence(l, &fresh(), &State::new(), &v);
    });
    ck.section("near", "pairs of names and of keys that are nearly the same are told apart", near.len() as u64 * 2, |i, l| {
        let (a, b) = &near[i as usize / 2];
        l.case(&i, true);
        let v = if i % 2 == 0 {
            vec![Op::put(a, "k", 0), Op::put(b, "k", 1), Op::getv(a, "k"), Op::getv(b, "k"), Op::rm(a), Op::getv(b, "k"), Op::get(a)]
        } else {
            vec![Op::put("d", a, 0), Op::put("d", b, 1), Op::getv("d", a), Op::getv("d", b), Op::rmkv("d", a), Op::getv("d", b), Op::getv("d", a)]
        };
        sequence(l, &fresh(), &State::new(), &v.into_iter().map(Act::Do).collect::<Vec<_>>());
    });
}
///Of all lengths around what is allowed, and with all kinds of characters.
pub fn names() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", ".", "..", "...", "/", "a/b", "../x", "/etc/x", "a/", "\\", "\0", "a\0b", "\0a", "m", "me", "met", "meta", "META", "Meta", "meta.sdb", "meta ", " meta", "metaa", "xmeta", "meta\0", "./meta", "a.sdb", "a.tmp", "meta.tmp", "meta.sdb.tmp", ".sdb", "~", "-", " ", "a b", "%", "%2e", "%2F", "+", "&", "=", "a&overwrite_existing=true", "?", "#", "\n", "\t", "\r\n", "\"", "'", "$HOME", "*", "é", "日", "\u{7f}", "\u{80}", "\u{feff}", "CON", "a:b", "null", "true", "0",
    ]
    .iter()
    .map(|s| (*s).to_string())
    .collect();
    v.extend([100, 235, 239, 240, 241, 242, 246, 247, 248, 250, 251, 252, 254, 255, 256, 300, 1000, 5000].iter().map(|n| "n".repeat(*n)));
    v.push("é".repeat(120));
    v
}

fn values(ck: &Ck) {
    let vals = crate::corpus::leaves().into_iter().chain(crate::corpus::trees(3, &crate::corpus::tiny_leaves())).collect::<Vec<_>>();
    ck.section("values", &format!("{} values of every kind, put, read back alone and with their database, and once more after a restart", vals.len()), vals.len() as u64, |i, l| {
        use crate::model::show;
        use sourisdb::{store::Store, utilities::cursor::Cursor, values::Value};
        let v = &vals[i as usize];
        let b = v.ser(None);
        let want = show(v);
        l.case(&want, true);
        let r = execute::<Told>(Config::default(), &[], &fresh(), |out| {
            let mut d = match boot() {
                Ok(d) => d,
                Err(e) => return out.bad = Some(("boot".into(), e)),
            };
            let req = |method, uri: &str, body: Vec<u8>| Req { method, uri: uri.into(), body, content_type: None };
            let put = send(&req("PUT", "/v1/add_kv?db_name=a&key=k&create_new_database=true&overwrite_key=true", b.clone()), false);
            if !matches!(put, Reply::Http(200, _)) {
                return out.bad = Some(("put".into(), format!("putting {want} answers {put:?}")));
            }
            for round in 0..2 {
                if round == 1 {
                    if let Err(e) = d.stop() {
                        return out.bad = Some(("stop".into(), e));
                    }
                    d = match boot() {
                        Ok(d) => d,
                        Err(e) => return out.bad = Some(("boot".into(), e)),
                    };
                }
                let one = match send(&req("GET", "/v1/get_value?db_name=a&key=k", vec![]), false) {
                    Reply::Http(200, b) => Value::deser(&mut Cursor::new(&b), None).map_err(|e| format!("{e:?}")),
                    r => Err(format!("{r:?}")),
                };
                let all = match send(&req("GET", "/v1/get_db?db_name=a", vec![]), false) {
                    Reply::Http(200, b) => Store::deser(&b).map_err(|e| format!("{e:?}")).and_then(|s| s.iter().next().map(|(_, v)| v.clone()).ok_or("nothing".to_string())),
                    r => Err(format!("{r:?}")),
                };
                out.answers += 2;
                if ![&one, &all].iter().all(|g| g.as_ref().is_ok_and(|g| crate::corpus::exact(v, g))) {
                    let (one, all) = (one.as_ref().map(show), all.as_ref().map(show));
                    return out.bad = Some(("value".into(), format!("{want} put, get_value gives {one:?}, get_db gives {all:?}{}", if round == 1 { " after a restart" } else { "" })));
                }
            }
        });
        finish(l, r.map(|r| (r.out, r.data)), || want.clone());
    });
}

///Requests that are no requests: refused in the right way, and nothing happens.
fn malformed(ck: &Ck, starts: &[(Vfs, State)]) {
    let mut v: Vec<(&'static str, String, Vec<u8>, &[u16])> = vec![];
    let routes: &[(&str, &str, &[(&str, &str)], bool)] = &[
        ("GET", "/v1/get_db", &[("db_name", "a")], false),
        ("GET", "/v1/get_all_db_names", &[], false),
        ("POST", "/v1/add_db", &[("db_name", "n"), ("overwrite_existing", "true")], false),
        ("PUT", "/v1/add_db_with_content", &[("overwrite_existing", "true"), ("db_name", "n")], true),
        ("POST", "/v1/rm_db", &[("db_name", "a")], false),
        ("POST", "/v1/clear_db", &[("db_name", "a")], false),
        ("PUT", "/v1/add_kv", &[("db_name", "a"), ("key", "x"), ("create_new_database", "true"), ("overwrite_key", "true")], true),
        ("POST", "/v1/rm_kv", &[("key", "x"), ("db_name", "a")], false),
        ("GET", "/v1/get_value", &[("db_name", "a"), ("key", "x")], false),
    ];
    let store = Op::content("n", true, 2).req().body;
    let value = crate::model::body(2);
    for (m, path, params, body) in routes {
        let good = if !body { vec![] } else if path.ends_with("kv") { value.clone() } else { store.clone() };
        let uri = |p: &[(String, String)]| format!("{path}?{}", p.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("&"));
        let all: Vec<(String, String)> = params.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
        for other in ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"] {
            if other != *m {
                v.push((other, uri(&all), good.clone(), &[405]));
            }
        }
        for i in 0..all.len() {
            //left out, twice, misnamed
            let mut p = all.clone();
            p.remove(i);
            v.push((m, uri(&p), good.clone(), &[400]));
            let mut p = all.clone();
            let q = p[i].clone();
            p.push(q);
            v.push((m, uri(&p), good.clone(), &[400]));
            let mut p = all.clone();
            p[i].0 = p[i].0.to_uppercase();
            v.push((m, uri(&p), good.clone(), &[400]));
            if all[i].1 == "true" {
                for bad in ["", "1", "0", "yes", "True", "TRUE", "+true", "true%20", "tru", "null"] {
                    let mut p = all.clone();
                    p[i].1 = bad.into();
                    v.push((m, uri(&p), good.clone(), &[400]));
                }
            }
        }
        if !all.is_empty() {
            v.push((m, (*path).to_string(), good.clone(), &[400]));
            v.push((m, format!("{path}?"), good.clone(), &[400]));
        }
        if *body {
            let mut bad: Vec<Vec<u8>> = (0..good.len()).map(|n| good[..n].to_vec()).collect();
            if !path.ends_with("kv") {
                bad.push(vec![0xff; 12]);
            }
            bad.push(vec![]);
            for b in bad {
                v.push((m, uri(&all), b, &[400]));
            }
        }
        for p in [format!("{path}/"), format!("{path}x"), path.replace("/v1", ""), path.replace("/v1", "/v2"), format!("/{path}"), path.to_uppercase()] {
            let q = uri(&all);
            v.push((m, format!("{p}{}", &q[path.len()..]), good.clone(), &[404]));
        }
    }
    for p in ["/", "/v1", "/v1/", "/healthcheck/", "/HEALTHCHECK", "/v1/healthcheck", "/favicon.ico", "/v1/../healthcheck", "/v1/get_db/a"] {
        v.push(("GET", p.to_string(), vec![], &[404]));
    }
    for m in ["POST", "PUT", "DELETE"] {
        v.push((m, "/healthcheck".into(), vec![], &[405]));
    }
    let n = v.len() as u64;
    ck.section("malformed", &format!("{n} malformed requests (wrong method, path, missing, repeated or bad parameters, every truncation of a body), from three states: the right status, and nothing changes"), n * 3, |i, l| {
        let (fs, s) = &starts[(i % 3) as usize];
        let (m, uri, body, st) = &v[(i / 3) as usize];
        l.case(&i, true);
        sequence(l, fs, s, &[Act::Do(Op::Raw(m, uri.clone(), body.clone(), st[0])), Act::Restart]);
    });
    let _ = Db::new();
}
