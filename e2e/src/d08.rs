//! The clients and the daemon, over a network: any sequence of calls, any names, any values, and servers that misbehave.
use crate::{
    ck::{h64, Ck, L},
    clients::{error, says, should, store_of, wait, Client, Said},
    model::{enc, show, show_store, Ans, Db, Op, State},
    world::{drop_daemon, scratch, with_daemon, Real, Reply, Req},
};
use sourisdb::{
    client::DEFAULT_SOURISD_PORT,
    store::Store,
    values::Value,
};
use std::{
    io::{BufRead, BufReader, Read, Write},
    net::TcpListener,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    cell::RefCell,
};

fn word<T: Clone>(alphabet: &[T], len: usize, mut i: u64) -> Vec<T> {
    (0..len)
        .map(|_| {
            let c = alphabet[(i % alphabet.len() as u64) as usize].clone();
            i /= alphabet.len() as u64;
            c
        })
        .collect()
}
fn words(n: usize, len: usize) -> u64 {
    (n as u64).pow(len as u32)
}

///Everything there is, asked for without a client.
pub fn read_all(d: &mut Real) -> Result<State, String> {
    let names = match Op::Names.read(&d.send(&Op::Names.req())) {
        Ans::Names(n) => n,
        a => return Err(format!("get_all_db_names answers {a:?}")),
    };
    let mut s = State::new();
    for n in names {
        match Op::get(&n).read(&d.send(&Op::get(&n).req())) {
            Ans::Db(c) => {
                s.insert(n, c);
            }
            a => return Err(format!("{n:?} is listed, but get_db answers {a:?}")),
        }
    }
    Ok(s)
}

///Calls one after another, each by the client that the bit of `who` says.
fn calls(l: &mut L, ops: &[Op], who: u64) {
    let r = with_daemon(|d| -> Result<(), (String, String)> {
        let mut s = State::new();
        let [a, b] = d.clients().map_err(|e| ("connect".to_string(), e))?;
        for (i, o) in ops.iter().enumerate() {
            let c = if who >> (i % 64) & 1 == 0 { &a } else { &b };
            let got = c.call(o);
            let want = should(o, &mut s, c.is_sync());
            l.call(1);
            let kind = if c.is_sync() { "sync" } else { "async" };
            if !l.check(got == want, || format!("{kind}:{}", name(o)), || format!("after {:?}, the {kind} client's {o:?} gives {got:?} instead of {want:?}", &ops[..i])) {
                return Ok(());
            }
            l.saw(h64(&got));
        }
        match read_all(d) {
            Ok(t) if t == s => l.check(true, String::new, String::new),
            t => return Err(("contents".into(), format!("after {ops:?} by clients {who:b}, the daemon has {t:?} instead of {s:?}"))),
        };
        //and both see it
        for c in [&a, &b] {
            let mut all = vec![Op::Names];
            all.extend(s.keys().map(|n| Op::get(n)));
            for o in all {
                let (got, want) = (c.call(&o), should(&o, &mut s.clone(), c.is_sync()));
                l.call(1);
                l.check(got == want, || format!("{}:{}", if c.is_sync() { "sync" } else { "async" }, name(&o)), || format!("after {ops:?} by clients {who:b}, {o:?} gives {got:?} instead of {want:?}"));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err((k, m))) => l.fail(k, m),
        Err(e) => l.fail("start", e),
    }
    l.sample(|| format!("{ops:?} by clients {who:b}"));
}
fn name(o: &Op) -> &'static str {
    match o {
        Op::Names => "get_all_dbs",
        Op::Get(_) => "get_store",
        Op::Add { .. } => "create_new_db",
        Op::Content { .. } => "add_db_with_contents",
        Op::Rm(_) => "remove_db",
        Op::AddKv { .. } => "add_entry_to_db",
        Op::RmKv(..) => "remove_entry_from_db",
        _ => "other",
    }
}

fn names() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "A", ".", "..", "a/b", "../x", "\\", "\0", "a\0b", "meta", "META", "meta ", "meta.sdb", "a.sdb", "~", "-", " ", "  ", "a b", "a  b", " a", "a ", "%", "%2e", "%2F", "%00", "%zz", "+", "a+b", "&", "a&db_name=b", "a&overwrite_existing=true", "=", "?", "a?b", "#", "a#b", ";", ",", ":", "@", "!", "$", "'", "\"", "(", ")", "*", "[", "]", "{", "}", "|", "^", "`", "<", ">", "\n", "\r", "\t", "\r\n", "é", "日本語", "😀", "\u{7f}", "\u{80}", "\u{feff}", "\u{301}", "null", "true", "0"]
        .iter()
        .map(|s| (*s).to_string())
        .collect();
    v.extend((0..128_u8).map(|c| format!("n{}", c as char)));
    v.extend([100, 239, 240, 241, 255, 256, 1000, 8192, 20_000, 60_000].iter().map(|n| "n".repeat(*n)));
    v.sort();
    v.dedup();
    v
}

///A server that answers healthchecks well at first, and everything else with the same bytes.
struct Fake {
    port: u16,
    done: Arc<AtomicBool>,
    answers: Arc<Mutex<(Vec<u8>, Vec<u8>)>>,
    clients: Option<[Client; 2]>,
    thread: Option<std::thread::JoinHandle<()>>,
}
impl Fake {
    fn new() -> std::io::Result<Self> {
        let l = TcpListener::bind("127.0.0.1:0")?;
        let port = l.local_addr()?.port();
        let done = Arc::new(AtomicBool::new(false));
        let answers = Arc::new(Mutex::new((answer(200, b""), vec![])));
        let (d, a) = (done.clone(), answers.clone());
        let thread = std::thread::spawn(move || {
            for c in l.incoming() {
                if d.load(Ordering::Relaxed) {
                    return;
                }
                let Ok(c) = c else { continue };
                let (health, other) = a.lock().unwrap().clone();
                let _ = serve(c, &health, &other);
            }
        });
        Ok(Self { port, done, answers, clients: None, thread: Some(thread) })
    }
    ///With this thread's server, answering like that.
    fn with<T>(health: Vec<u8>, other: Vec<u8>, f: impl FnOnce(&mut Self) -> T) -> std::io::Result<T> {
        MINE.with(|m| {
            let mut m = m.borrow_mut();
            if m.is_none() {
                *m = Some(Self::new()?);
            }
            let fake = m.as_mut().unwrap();
            *fake.answers.lock().unwrap() = (health, other);
            Ok(f(fake))
        })
    }
    ///Clients made while it was healthy.
    fn clients(&mut self) -> Result<[Client; 2], Said> {
        if self.clients.is_none() {
            let now = std::mem::replace(&mut *self.answers.lock().unwrap(), (answer(200, b""), vec![]));
            let c = Client::new(self.port, true).and_then(|s| Ok([s, Client::new(self.port, false)?]));
            *self.answers.lock().unwrap() = now;
            self.clients = Some(c?);
        }
        Ok(self.clients.clone().unwrap())
    }
}
thread_local! {
    static MINE: RefCell<Option<Fake>> = const { RefCell::new(None) };
}
fn serve(c: std::net::TcpStream, health: &[u8], other: &[u8]) -> std::io::Result<()> {
    c.set_read_timeout(Some(std::time::Duration::from_secs(5)))?;
    let mut c = BufReader::new(c);
    let mut first = String::new();
    if c.read_line(&mut first)? == 0 {
        return Ok(());
    }
    let mut len = 0;
    loop {
        let mut h = String::new();
        if c.read_line(&mut h)? == 0 || h.trim().is_empty() {
            break;
        }
        if let Some(n) = h.to_ascii_lowercase().strip_prefix("content-length:") {
            len = n.trim().parse().unwrap_or(0);
        }
    }
    let mut body = vec![0; len];
    c.read_exact(&mut body)?;
    c.get_mut().write_all(if first.contains("/healthcheck") { health } else { other })?;
    c.get_mut().flush()
}
impl Drop for Fake {
    fn drop(&mut self) {
        self.done.store(true, Ordering::Relaxed);
        let _ = std::net::TcpStream::connect(("127.0.0.1", self.port));
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}
fn answer(status: u16, body: &[u8]) -> Vec<u8> {
    let mut v = format!("HTTP/1.1 {status} Whatever\r\nconnection: close\r\ncontent-length: {}\r\n\r\n", body.len()).into_bytes();
    v.extend(body);
    v
}

fn every_call() -> Vec<Op> {
    vec![Op::Names, Op::get("a"), Op::add("a", true), Op::content("a", true, 2), Op::rm("a"), Op::put("a", "x", 1), Op::rmkv("a", "x")]
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    if ck.only.is_none() {
        //so that all is in place before there are threads
        scratch();
    }
    let al = vec![
        Op::add("a", false),
        Op::add("a", true),
        Op::content("a", false, 2),
        Op::content("a", true, 1),
        Op::content("b", true, 3),
        Op::rm("a"),
        Op::put("a", "x", 0),
        Op::kv("a", "x", false, false, 1),
        Op::kv("a", "y", false, true, 4),
        Op::kv("b", "x", true, false, 2),
        Op::rmkv("a", "x"),
        Op::rmkv("b", "x"),
        Op::get("a"),
        Op::Names,
    ];
    let len = if t { 5 } else { 4 };
    ck.section("sequences", &format!("every sequence of {len} out of {} calls, all by the blocking client, all by the asynchronous one, and by both in turn; what each call says, and what the daemon has in the end", al.len()), words(al.len(), len) * 3, |i, l| {
        let who = [0, !0, 0b01010][(i % 3) as usize];
        l.case(&i, true);
        calls(l, &word(&al, len, i / 3), who);
    });
    //all there is to ask for
    let mut every = vec![Op::Names];
    for n in ["a", "b"] {
        every.extend([Op::get(n), Op::rm(n)]);
        for f in [false, true] {
            every.push(Op::add(n, f));
            every.extend((0..4).map(|c| Op::content(n, f, c)));
            for g in [false, true] {
                every.extend([("x", 0), ("x", 1), ("", 2)].map(|(k, v)| Op::kv(n, k, f, g, v)));
            }
        }
        every.extend(["x", "y", ""].map(|k| Op::rmkv(n, k)));
    }
    let before: Vec<Vec<Op>> = vec![vec![], vec![Op::add("a", false)], vec![Op::put("a", "x", 3)], vec![Op::content("a", false, 3), Op::put("a", "", 1)], vec![Op::content("a", false, 2), Op::content("b", false, 1)]];
    let per = (every.len() * every.len()) as u64;
    ck.section("all-calls", &format!("every pair out of {} calls with every combination of flags, from each of {} states, by each client", every.len(), before.len()), per * before.len() as u64 * 2, |i, l| {
        l.case(&i, true);
        let mut ops = before[(i / 2 / per) as usize].clone();
        ops.extend(word(&every, 2, i / 2 % per));
        calls(l, &ops, if i & 1 == 0 { 0 } else { !0 });
    });
    let ns = names();
    ck.section("names", &format!("{} names of databases and of keys, with each client", ns.len()), ns.len() as u64 * 4, |i, l| {
        let n = &ns[(i / 4) as usize];
        let who = if i & 1 == 0 { 0 } else { !0 };
        l.case(&i, true);
        let ops = if i & 2 == 0 {
            vec![Op::add(n, false), Op::put("other", "x", 0), Op::put(n, "x", 1), Op::Names, Op::get(n), Op::content(n, false, 2), Op::rmkv(n, "x"), Op::get(n), Op::rm(n), Op::get(n), Op::rm(n), Op::put(n, "y", 2), Op::Names]
        } else {
            vec![Op::put("a", "other", 0), Op::put("a", n, 1), Op::kv("a", n, false, false, 2), Op::get("a"), Op::put("a", n, 2), Op::get("a"), Op::rmkv("a", n), Op::get("a"), Op::rmkv("a", n)]
        };
        calls(l, &ops, who);
    });
    ck.section("together", "databases of all of these names at once, and entries of all of these keys, by each client", 4, |i, l| {
        l.case(&i, true);
        let ops: Vec<Op> = ns.iter().map(|n| if i & 2 == 0 { Op::add(n, false) } else { Op::put("a", n, (n.len() % 6) as u8) }).collect();
        calls(l, &ops, if i & 1 == 0 { 0 } else { !0 });
    });
    //values
    let mut vals: Vec<Value> = crate::corpus::leaves();
    vals.extend(crate::corpus::trees(3, &crate::corpus::tiny_leaves()));
    for n in (0..=300).chain([1000, 4095, 4096, 4097, 65_535, 65_536, 65_537, 1_000_000, 3_000_000]) {
        vals.push(Value::Binary(sourisdb::types::binary::BinaryData((0..n).map(|i: u32| (i.wrapping_mul(2_654_435_761) >> 24) as u8).collect())));
    }
    ck.section("values", &format!("{} values of every kind, and binary data of sizes up to 3 MB, sent alone and within a store by each client, and gotten back by each", vals.len()), vals.len() as u64 * 2, |i, l| {
        let v = &vals[(i / 2) as usize];
        let whole = i % 2 == 1;
        l.case(&i, true);
        let r = with_daemon(|d| -> Result<(), (String, String)> {
            let got = |k: &str, e: Said| (k.to_string(), format!("{}: {e:?}", crate::ck::trunc(&show(v), 200)));
            let [s, a] = d.clients().map_err(|e| ("connect".to_string(), e))?;
            let (Client::Sync(s), Client::Async(a)) = (s, a) else { unreachable!() };
            let store = Store::new([("k".to_string(), v.clone()), ("é /&".to_string(), Value::Null(()))]);
            for by in ["sync", "async"] {
                let r = match (by, whole) {
                    ("sync", true) => s.add_db_with_contents(true, by, &store).map(drop),
                    ("sync", false) => s.add_entry_to_db(by, true, true, "k", v).map(drop),
                    (_, true) => wait(a.add_db_with_contents(true, by, &store)).map(drop),
                    (_, false) => wait(a.add_entry_to_db(by, true, true, "k", v)).map(drop),
                };
                r.map_err(|e| got(&format!("{by}:put"), error(e)))?;
                l.call(1);
                for back in ["sync", "async"] {
                    let g = if back == "sync" { s.get_store(by) } else { wait(a.get_store(by)).map(Option::unwrap_or_default) }.map_err(|e| got(&format!("{back}:get_store"), error(e)))?;
                    l.call(1);
                    let same = g.get("k").is_some_and(|g| crate::corpus::exact(v, g)) && (!whole || g.get("é /&") == Some(&Value::Null(()))) && g.len() == if whole { 2 } else { 1 };
                    l.check(same, || format!("{by}-{back}"), || format!("{} put by the {by} client, the {back} one gets {}", crate::ck::trunc(&show(v), 200), crate::ck::trunc(&format!("{:?}", show_store(&g)), 300)));
                }
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err((k, m))) => l.fail(k, m),
            Err(e) => l.fail("start", e),
        }
    });
    //stores of many entries
    let sizes = [0_usize, 1, 2, 15, 16, 17, 100, 255, 256, 1000, if t { 100_000 } else { 5000 }];
    ck.section("stores", "stores of eleven sizes and databases of as many, by each client", sizes.len() as u64 * 2, |i, l| {
        let n = sizes[(i / 2) as usize];
        let sync = i % 2 == 0;
        l.case(&i, true);
        let r = with_daemon(|d| {
            let store = Store::new((0..n).map(|j| (format!("key {j}"), crate::model::value((j % 6) as u8))));
            let want = show_store(&store);
            let [c, a] = d.clients()?;
            let (Client::Sync(c), Client::Async(a)) = (c, a) else { unreachable!() };
            let made = if sync { c.add_db_with_contents(false, "s", &store) } else { wait(a.add_db_with_contents(false, "s", &store)) }.map_err(|e| format!("{e:?}"))?;
            l.check(made, || "made".into(), || format!("{n} entries: not said to be new"));
            let back = if sync { c.get_store("s") } else { wait(a.get_store("s")).map(Option::unwrap_or_default) }.map_err(|e| format!("{e:?}"))?;
            l.check(show_store(&back) == want, || "store".into(), || format!("a store of {n} entries comes back with {}", back.len()));
            let m = n.min(300);
            for j in 0..m {
                if sync { c.create_new_db(false, &format!("d{j}")) } else { wait(a.create_new_db(false, &format!("d{j}"))) }.map_err(|e| format!("{e:?}"))?;
            }
            let mut names = if sync { c.get_all_dbs() } else { wait(a.get_all_dbs()) }.map_err(|e| format!("{e:?}"))?;
            names.sort();
            let mut all: Vec<String> = (0..m).map(|j| format!("d{j}")).chain(["s".to_string()]).collect();
            all.sort();
            l.call(m as u64 + 3);
            l.check(names == all, || "names".into(), || format!("{m} databases made, and these are there: {}", crate::ck::trunc(&format!("{names:?}"), 200)));
            Ok::<(), String>(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => l.fail("error", format!("{n}: {e}")),
        }
    });
    //statuses
    let statuses: Vec<u16> = (400..600).collect();
    let ec = every_call();
    ck.section("statuses", &format!("every status from 400 to 599 in answer to each of the {} calls, and to the first healthcheck, by each client: reported as it is documented", ec.len()), statuses.len() as u64 * 2, |i, l| {
        let st = statuses[(i / 2) as usize];
        let sync = i % 2 == 0;
        l.case(&i, true);
        let kind = if sync { "sync" } else { "async" };
        let run = |l: &mut L| -> std::io::Result<()> {
            Fake::with(answer(200, b""), answer(st, b"[]"), |f| match f.clients() {
                Err(e) => l.fail("connect", format!("healthy, but {e:?}")),
                Ok(c) => {
                    for o in &ec {
                        let want = says(o, &Ans::Status(st), sync);
                        let got = c[usize::from(!sync)].call(o);
                        l.call(1);
                        l.check(got == want, || format!("{kind}:{}", name(o)), || format!("answered with {st}, the {kind} client's {o:?} gives {got:?} instead of {want:?}"));
                    }
                }
            })?;
            let got = Fake::with(answer(st, b""), answer(200, b"[]"), |f| Client::new(f.port, sync).err())?;
            l.call(1);
            l.check(got == Some(Said::NotHealthy(st)), || format!("{kind}:new"), || format!("with a healthcheck answered with {st}, the {kind} client says {got:?}"));
            Ok(())
        };
        if let Err(e) = run(l) {
            l.fail("machinery", format!("{e}"));
        }
    });
    broken(ck);
    //without a server
    ck.section("absent", "no server at all, one that goes away, and the port both agree on", 6, |i, l| {
        l.case(&i, true);
        let sync = i % 2 == 0;
        match i / 2 {
            0 => {
                let free = TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map(|a| a.port()).unwrap_or(1);
                let got = Client::new(free, sync).err();
                l.check(matches!(got, Some(Said::Error(_))), || "nobody".into(), || format!("with nobody there: {got:?}"));
            }
            1 => {
                let r = with_daemon(|d| {
                    let c = Client::new(d.port, sync);
                    d.kill();
                    c
                });
                drop_daemon();
                match r {
                    Ok(Ok(c)) => {
                        for o in every_call() {
                            let got = c.call(&o);
                            l.call(1);
                            l.check(matches!(got, Said::Error(_)), || "gone".into(), || format!("the daemon is gone, and {o:?} gives {got:?}"));
                        }
                    }
                    r => l.fail("connect", format!("{:?}", r.map(|r| r.err()))),
                }
            }
            _ => match with_daemon(|d| d.asked) {
                Ok(p) => {
                    l.check(u32::from(p) == DEFAULT_SOURISD_PORT, || "port".into(), || format!("the daemon listens at {p}, the clients' default is {DEFAULT_SOURISD_PORT}"));
                }
                Err(e) => l.fail("start", e),
            },
        }
    });
}

///Answers that break off.
fn broken(ck: &Ck) {
    let store = store_of(3).ser();
    let want: Db = show_store(&store_of(3));
    let names = br#"["a","b","a longer name"]"#;
    let mut cases: Vec<(Op, Vec<u8>, Said)> = vec![];
    for (o, body, said) in [(Op::get("a"), store.clone(), Said::Store(want)), (Op::Names, names.to_vec(), Said::Names(vec!["a".into(), "a longer name".into(), "b".into()])), (Op::put("a", "x", 0), br#""InsertedKeyIntoNewDB""#.to_vec(), Said::Created("InsertedKeyIntoNewDB".into()))] {
        cases.push((o, answer(200, &body), said));
    }
    let all: Vec<(usize, usize)> = cases.iter().enumerate().flat_map(|(c, (_, a, _))| (0..=a.len()).map(move |n| (c, n))).collect();
    ck.section("broken", "answers to get_store, get_all_dbs and add_entry_to_db that end after any number of bytes, with each client: never taken for a whole one", all.len() as u64 * 2, |i, l| {
        let (c, n) = all[(i / 2) as usize];
        let sync = i % 2 == 0;
        let (o, a, said) = &cases[c];
        l.case(&i, true);
        let r = Fake::with(answer(200, b""), a[..n].to_vec(), |f| match f.clients() {
            Err(e) => l.fail("connect", format!("healthy, but {e:?}")),
            Ok(c) => {
                let got = c[usize::from(!sync)].call(o);
                l.call(1);
                let ok = if n == a.len() { got == *said } else { matches!(got, Said::Error(_)) };
                l.check(ok, || format!("{}:{}", if sync { "sync" } else { "async" }, name(o)), || format!("with only {n} of {} bytes of the answer, {o:?} gives {got:?}", a.len()));
            }
        });
        if let Err(e) = r {
            l.fail("machinery", e.to_string());
        }
    });
    //which database comes first is up to the daemon, and may be any
    let some = ["", "a", "A", "a ", "\"\\é", "meta.sdb", "b"];
    ck.section("lists", "every list of up to four different names out of 7, in every order, as the answer to get_all_dbs, with each client: all of them and no other", words(some.len() + 1, 4) * 2, |i, l| {
        let mut names: Vec<String> = vec![];
        let at = word(&(0..=some.len()).collect::<Vec<_>>(), 4, i / 2);
        let mut over = false;
        for x in &at {
            over |= *x == some.len();
            if *x < some.len() {
                if over || names.iter().any(|n| n == some[*x]) {
                    return l.case(&i, false);
                }
                names.push(some[*x].into());
            }
        }
        l.case(&i, true);
        let sync = i % 2 == 0;
        let body = serde_json::to_vec(&names).unwrap();
        let r = Fake::with(answer(200, b""), answer(200, &body), |f| match f.clients() {
            Err(e) => l.fail("connect", format!("healthy, but {e:?}")),
            Ok(c) => {
                let got = c[usize::from(!sync)].call(&Op::Names);
                let mut want = names.clone();
                want.sort();
                l.call(1);
                l.check(got == Said::Names(want), || if sync { "sync" } else { "async" }.into(), || format!("answered with {names:?}, it gives {got:?}"));
            }
        });
        if let Err(e) = r {
            l.fail("machinery", e.to_string());
        }
    });
    let _ = (enc, Reply::Refused, Req { method: "", uri: String::new(), body: vec![], content_type: None });
}
