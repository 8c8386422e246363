//! The command line tool: what it does for every way of answering what it asks.
use crate::{
    ck::{h64, trunc, Ck, L},
    corpus::exact,
    model::enc,
    mouse::{session, terminal, Outcome, Step},
    world::{drop_daemon, scratch, with_daemon, Real, Reply, Req},
};
use serde_json::{json, Value as J};
use sourisdb::{
    chrono::{NaiveDate, NaiveDateTime},
    chrono_tz::TZ_VARIANTS,
    hashbrown::HashMap,
    store::Store,
    types::{binary::BinaryData, imaginary::Imaginary, integer::Integer},
    values::Value,
};
use std::collections::BTreeMap;

type Dbs = BTreeMap<String, HashMap<String, Value>>;

///What somebody wants, in words of the tool.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Target {
    ///one of those there are
    Existing(&'static str),
    ///names that are tried one after another; for those that exist, whether that is fine
    New(Vec<(&'static str, bool)>),
}
#[derive(Clone, Debug)]
enum Want {
    Create { db: &'static str, clear: bool },
    Remove(&'static str),
    View(&'static str),
    Add { to: Target, key: &'static str, entry: Entry, sure: bool },
    RemoveEntry { db: &'static str, key: &'static str, sure: bool },
    Update { db: &'static str, key: &'static str, entry: Entry, sure: bool },
    Import { to: Target, doc: Vec<u8> },
    ///whether with tags
    Export { db: &'static str, tags: bool, out: &'static str },
}
///A value, and the answers that make it.
#[derive(Clone, Debug)]
struct Entry {
    value: Option<Value>,
    steps: Vec<Step>,
}
fn inp(about: &'static str, t: impl ToString) -> Step {
    Step::Input(about, t.to_string())
}
fn ty(name: &str) -> Step {
    Step::Pick("type", None, name.into())
}
fn entry(value: Value, name: &str, more: Vec<Step>) -> Entry {
    let mut steps = vec![ty(name)];
    steps.extend(more);
    Entry { value: Some(value), steps }
}
fn text(s: &str) -> Entry {
    entry(Value::String(s.into()), "String", vec![inp("text", s)])
}
fn int(i: i128) -> Entry {
    entry(Value::Integer(Integer::from(i)), "Integer", vec![inp("number", i)])
}
fn array(items: &[Entry], known: bool) -> Entry {
    let mut s = vec![Step::Confirm("how long", known)];
    if known {
        s.push(inp("how long", items.len()));
    }
    for (i, e) in items.iter().enumerate() {
        s.extend(e.steps.iter().cloned());
        if !known {
            s.push(Step::Confirm("everything", i + 1 == items.len()));
        }
    }
    entry(Value::Array(items.iter().map(|e| e.value.clone().unwrap()).collect()), "Array", s)
}
fn map(items: &[(&str, Entry)], known: bool) -> Entry {
    let mut s = vec![Step::Confirm("how long", known)];
    if known {
        s.push(inp("length", items.len()));
    }
    for (k, e) in items {
        if !known {
            s.push(Step::Confirm("all", false));
        }
        s.push(inp("key", k));
        s.extend(e.steps.iter().cloned());
    }
    if !known {
        s.push(Step::Confirm("all", true));
    }
    entry(Value::Map(items.iter().map(|(k, e)| ((*k).to_string(), e.value.clone().unwrap())).collect()), "Map", s)
}
fn time(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32, ms: u32) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(y, mo, d).unwrap().and_hms_milli_opt(h, mi, s, ms).unwrap()
}
fn by_fields(f: [i64; 7], wrong_date: Option<[i64; 3]>, wrong_time: Option<[i64; 4]>) -> Entry {
    let mut s = vec![Step::Confirm("now", false), Step::Confirm("format", false)];
    let d = ["year", "month", "date"];
    let t = ["hour", "minute", "second", "milli"];
    for x in wrong_date.iter() {
        s.extend(d.iter().zip(x).map(|(n, v)| inp(n, v)));
    }
    s.extend(d.iter().zip(&f).map(|(n, v)| inp(n, v)));
    for x in wrong_time.iter() {
        s.extend(t.iter().zip(x).map(|(n, v)| inp(n, v)));
    }
    s.extend(t.iter().zip(&f[3..]).map(|(n, v)| inp(n, v)));
    entry(Value::Timestamp(time(f[0] as i32, f[1] as u32, f[2] as u32, f[3] as u32, f[4] as u32, f[5] as u32, f[6] as u32)), "Timestamp", s)
}

///Values of all kinds, each with the answers for it.
fn entries() -> Vec<Entry> {
    let mut v = vec![];
    for c in ['a', 'é', '0', ' ', '😀', '"'] {
        v.push(entry(Value::Character(c), "Character", vec![inp("character", c)]));
    }
    v.push(entry(Value::Character('x'), "Character", vec![inp("character", ""), inp("character", "xy"), inp("character", "x")]));
    for s in ["a", "two words", " leading", "trailing ", "é日本😀", "\"quoted\\", "{}", "null", "y", "e".repeat(300).as_str(), "a=b&c%20"] {
        v.push(text(s));
    }
    v.push(entry(Value::String("later".into()), "String", vec![inp("text", ""), inp("text", "later")]));
    for (name, len) in [("empty", 0_usize), ("one", 1), ("127", 127), ("128", 128), ("129", 129), ("256", 256), ("1000", 1000), ("70000", 70_000)] {
        v.push(entry(Value::Binary(BinaryData(file_of(len))), "Binary", vec![inp("file", format!("bin-{name}"))]));
    }
    v.push(entry(Value::Binary(BinaryData(file_of(128))), "Binary", vec![inp("file", "none-such"), inp("file", "."), inp("file", "bin-128")]));
    for b in [false, true] {
        v.push(entry(Value::Boolean(b), "Boolean", vec![Step::Pick("", Some(vec!["False".into(), "True".into()]), if b { "True" } else { "False" }.into())]));
    }
    for i in [0, 1, -1, 239, 240, -128, 255, 65536, i128::from(i64::MIN), i128::from(u64::MAX), i128::MAX, i128::MIN] {
        v.push(int(i));
    }
    v.push(entry(Value::Integer(Integer::from(u128::MAX)), "Integer", vec![inp("number", u128::MAX)]));
    v.push(entry(Value::Integer(Integer::from(7_u8)), "Integer", vec![inp("number", "x"), inp("number", "1.5"), inp("number", "340282366920938463463374607431768211456"), inp("number", "7")]));
    let form = |i: usize| Step::Pick("form", None, ["Polar (re^(θi)) Form", "Cartesian (a+bi) Form"][i].into());
    for (m, a) in [(1.5, -2.25), (0.0, 0.0), (1e300, 3.0)] {
        v.push(entry(Value::Imaginary(Imaginary::PolarForm { modulus: m, argument: a }), "Imaginary", vec![form(0), inp("modulus", m), inp("argument", a)]));
    }
    for (r, i) in [(1, -2), (0, 0), (i128::MAX, i128::MIN)] {
        v.push(entry(Value::Imaginary(Imaginary::CartesianForm { real: Integer::from(r), imaginary: Integer::from(i) }), "Imaginary", vec![form(1), inp("real", r), inp("imaginary", i)]));
    }
    let ts = |t: &str, x: NaiveDateTime| entry(Value::Timestamp(x), "Timestamp", vec![Step::Confirm("now", false), Step::Confirm("format", true), inp("%y-%m-%dt%h:%m:%s", t)]);
    v.push(ts("2024-02-29T23:59:58.123", time(2024, 2, 29, 23, 59, 58, 123)));
    v.push(ts("1969-12-31T00:00:00", time(1969, 12, 31, 0, 0, 0, 0)));
    v.push(by_fields([2023, 12, 31, 1, 2, 3, 4], None, None));
    v.push(by_fields([-5, 1, 2, 23, 59, 59, 999], None, None));
    v.push(by_fields([2000, 2, 29, 0, 0, 0, 0], Some([2001, 2, 29]), Some([24, 0, 0, 0])));
    v.push(Entry { value: None, steps: vec![ty("Timestamp"), Step::Confirm("now", true)] });
    for j in [json!(null), json!({"a": [1, 2.5, "x"]}), json!("text"), json!([])] {
        v.push(entry(Value::JSON(j.clone()), "JSON", vec![inp("json", j)]));
    }
    v.push(entry(Value::JSON(json!([1])), "JSON", vec![inp("json", "{"), inp("json", "[1]")]));
    v.push(entry(Value::Null(()), "Null", vec![]));
    for f in [0.0, -0.0, 1.5, -1e300, f64::INFINITY, f64::MIN_POSITIVE, 0.1] {
        v.push(entry(Value::DoubleFloat(f), "DoubleFloat", vec![inp("value", f)]));
    }
    for f in [0.0_f32, -2.5, f32::MAX, 0.1, f32::NEG_INFINITY] {
        v.push(entry(Value::SingleFloat(f), "SingleFloat", vec![inp("value", f)]));
    }
    //rounded once, not twice
    for (x, s) in [(1.0_f32 + f32::EPSILON, "1.000000059604644775390625000001"), (16_777_218.0, "16777217.00000000001")] {
        v.push(entry(Value::SingleFloat(x), "SingleFloat", vec![inp("value", s)]));
    }
    for i in [0, 1, 2, 100, TZ_VARIANTS.len() - 1] {
        v.push(entry(Value::Timezone(TZ_VARIANTS[i]), "Timezone", vec![Step::Pick("timezone", None, TZ_VARIANTS[i].to_string())]));
    }
    for a in ["0.0.0.0", "127.0.0.1", "1.2.3.4", "255.255.255.255"] {
        v.push(entry(Value::Ipv4Addr(a.parse().unwrap()), "Ipv4Addr", vec![inp("ipv4", a)]));
    }
    for a in ["::", "::1", "1:2:3:4:5:6:7:8", "ff02::1:ff00:42"] {
        v.push(entry(Value::Ipv6Addr(a.parse().unwrap()), "Ipv6Addr", vec![inp("ipv6", "1.2.3.4.5"), inp("ipv6", a)]));
    }
    //containers, of up to two levels
    let some = [text("a"), int(-3), entry(Value::Null(()), "Null", vec![])];
    let mut inner = vec![array(&[], true), map(&[], true), map(&[], false)];
    for known in [true, false] {
        for a in &some {
            inner.push(array(std::slice::from_ref(a), known));
            inner.push(map(&[("k", a.clone())], known));
            for b in &some {
                inner.push(array(&[a.clone(), b.clone()], known));
                inner.push(map(&[("k", a.clone()), ("l", b.clone())], known));
            }
        }
    }
    //the later one of a key counts
    let mut twice = map(&[("k", text("first")), ("k", text("second"))], true);
    twice.value = Some(Value::Map([("k".to_string(), Value::String("second".into()))].into_iter().collect()));
    inner.push(twice);
    let mut twice = map(&[("k", text("first")), ("l", int(1)), ("k", text("second"))], false);
    twice.value = Some(Value::Map([("k".to_string(), Value::String("second".into())), ("l".to_string(), Value::Integer(Integer::from(1)))].into_iter().collect()));
    inner.push(twice);
    //longer ones
    for known in [true, false] {
        for n in [11, 20, 150] {
            let items: Vec<Entry> = (0..n).map(int).collect();
            v.push(array(&items, known));
            let keys: Vec<String> = (0..n).map(|i| format!("key {i}")).collect();
            v.push(map(&keys.iter().map(String::as_str).zip(items).collect::<Vec<_>>(), known));
        }
    }
    for known in [true, false] {
        for a in &inner {
            v.push(array(&[a.clone(), text("after")], known));
            v.push(map(&[("in", a.clone()), ("after", int(1))], known));
        }
    }
    v.extend(inner);
    v
}
fn file_of(n: usize) -> Vec<u8> {
    (0..n as u32).map(|i| (i.wrapping_mul(2_654_435_761) >> 23) as u8).collect()
}

///Databases to begin with.
fn starts() -> Vec<Dbs> {
    let v = |items: &[(&str, Value)]| items.iter().map(|(k, v)| ((*k).to_string(), v.clone())).collect::<HashMap<_, _>>();
    let num = |i: i64| Value::Integer(Integer::from(i));
    let a = || ("a".to_string(), v(&[("x", num(1)), ("y", Value::String("two".into()))]));
    let b = || ("b".to_string(), v(&[("x", Value::Null(()))]));
    let e = || ("e".to_string(), v(&[]));
    vec![
        Dbs::new(),
        [e()].into(),
        [a()].into(),
        [a(), b()].into(),
        [a(), b(), e()].into(),
    ]
}

fn get(d: &mut Real, r: Req) -> Result<Vec<u8>, String> {
    match d.send(&r) {
        Reply::Http(200 | 201, b) => Ok(b),
        x => Err(format!("{} {} answers {x:?}", r.method, r.uri)),
    }
}
fn req(method: &'static str, uri: String, body: Vec<u8>) -> Req {
    Req { method, uri, body, content_type: None }
}
fn put(d: &mut Real, s: &Dbs) -> Result<(), String> {
    for (n, c) in s {
        get(d, req("PUT", format!("/v1/add_db_with_content?db_name={}&overwrite_existing=true", enc(n)), Store::new(c.iter().map(|(k, v)| (k.clone(), v.clone()))).ser()))?;
    }
    Ok(())
}
fn reset(d: &mut Real, s: &Dbs) -> Result<(), String> {
    for n in all(d)?.keys() {
        get(d, req("POST", format!("/v1/rm_db?db_name={}", enc(n)), vec![]))?;
    }
    put(d, s)
}
fn all(d: &mut Real) -> Result<Dbs, String> {
    let names: Vec<String> = serde_json::from_slice(&get(d, req("GET", "/v1/get_all_db_names".into(), vec![]))?).map_err(|e| e.to_string())?;
    names
        .into_iter()
        .map(|n| {
            let b = get(d, req("GET", format!("/v1/get_db?db_name={}", enc(&n)), vec![]))?;
            let s = Store::deser(&b).map_err(|e| e.to_string())?;
            Ok((n, (*s).clone()))
        })
        .collect()
}
fn same(a: &Dbs, b: &Dbs) -> bool {
    a.len() == b.len() && a.iter().all(|(n, x)| b.get(n).is_some_and(|y| exact(&Value::Map(x.clone()), &Value::Map(y.clone()))))
}
fn tell(s: &Dbs) -> String {
    let s: BTreeMap<_, BTreeMap<_, _>> = s.iter().map(|(n, c)| (n, c.iter().map(|(k, v)| (k, trunc(&if let Value::Integer(i) = v { i.to_string() } else { format!("{v:?}") }, 60))).collect())).collect();
    trunc(&format!("{s:?}"), 300)
}

///What is to be asked and to happen.
struct Should {
    args: Vec<String>,
    steps: Vec<Step>,
    ///how it may be afterwards
    after: Vec<Dbs>,
    ok: bool,
    ///words of which one is to be said
    says: &'static [&'static str],
    ///the lines of the table
    shows: Option<HashMap<String, Value>>,
    ///the file that is written
    writes: Option<Option<J>>,
}

///The steps to pick one of the databases there are; nothing if that cannot be done.
fn pick(s: &Dbs, db: &str, steps: &mut Vec<Step>) -> bool {
    let names: Vec<String> = s.keys().cloned().collect();
    if s.is_empty() {
        return false;
    }
    //of one there is nothing to pick
    steps.push(if s.len() == 1 { Step::MaybePick("database", Some(names), db.into()) } else { Step::Pick("database", Some(names), db.into()) });
    true
}
fn target(s: &Dbs, to: &Target, steps: &mut Vec<Step>) -> Option<String> {
    match to {
        Target::Existing(n) => {
            steps.push(Step::Confirm("new database", false));
            pick(s, n, steps).then(|| (*n).to_string())
        }
        Target::New(names) => {
            steps.push(Step::Confirm("new database", true));
            for (n, fine) in names {
                steps.push(inp("database name", n));
                if n.is_empty() || *n == "meta" {
                    continue;
                }
                if !s.contains_key(*n) {
                    return Some((*n).to_string());
                }
                steps.push(Step::Confirm("exists", *fine));
                if *fine {
                    return Some((*n).to_string());
                }
            }
            None
        }
    }
}
fn refused(name: &str) -> bool {
    !crate::model::valid(name)
}

///Which databases, keys and names can be meant by it; whether it makes sense at all.
fn should(s: &Dbs, w: &Want) -> Option<Should> {
    let mut r = Should { args: vec![], steps: vec![], after: vec![s.clone()], ok: true, says: &[], shows: None, writes: None };
    let mut arg = |a: &[&str]| r.args = a.iter().map(|a| (*a).to_string()).collect();
    let there = |db: &str| s.is_empty() || s.contains_key(db);
    match w {
        Want::Create { db, clear } => {
            arg(&["create-new", "--", db]);
            if s.contains_key(*db) {
                r.steps.push(Step::Confirm("exists", *clear));
                if *clear {
                    r.after[0].get_mut(*db).unwrap().clear();
                    r.says = &["clear"];
                } else {
                    r.says = &["cancel"];
                }
            } else if !clear {
                return None;
            } else if refused(db) {
                r.ok = false;
            } else {
                r.after[0].insert((*db).to_string(), HashMap::new());
                r.says = &["creat"];
            }
        }
        Want::Remove(db) => {
            if !there(db) {
                return None;
            }
            arg(&["remove-database"]);
            r.ok = pick(s, db, &mut r.steps);
            if r.ok {
                r.after[0].remove(*db);
                r.says = &["remov"];
            }
        }
        Want::View(db) => {
            if !there(db) {
                return None;
            }
            arg(&["view-all"]);
            r.ok = pick(s, db, &mut r.steps);
            r.shows = s.get(*db).cloned();
        }
        Want::Add { to, key, entry, sure } => {
            if matches!(to, Target::Existing(n) if !there(n)) {
                return None;
            }
            arg(&["add-entry"]);
            match target(s, to, &mut r.steps) {
                None => r.ok = false,
                Some(db) => {
                    r.steps.push(inp("key", key));
                    r.steps.extend(entry.steps.iter().cloned());
                    r.steps.push(Step::Confirm("confirm", *sure));
                    if !sure {
                        r.says = &["cancel"];
                    } else if refused(&db) {
                        r.ok = false;
                    } else {
                        let v = entry.value.clone().unwrap_or(Value::Null(()));
                        let mut to_all = r.after[0].clone();
                        to_all.entry(db.clone()).or_default().insert((*key).to_string(), v.clone());
                        //having said that it may be overwritten, it may be
                        if matches!(to, Target::New(_)) && s.contains_key(&db) {
                            let mut only = s.clone();
                            only.insert(db, [((*key).to_string(), v)].into_iter().collect());
                            r.after = vec![to_all, only];
                        } else {
                            r.after = vec![to_all];
                        }
                    }
                }
            }
        }
        Want::RemoveEntry { db, key, sure } | Want::Update { db, key, sure, .. } => {
            if !there(db) || !s.get(*db).map_or(true, |c| c.is_empty() || c.contains_key(*key)) {
                return None;
            }
            arg(&[if matches!(w, Want::Update { .. }) { "update-entry" } else { "remove-entry" }]);
            r.ok = pick(s, db, &mut r.steps);
            if let Some(c) = s.get(*db).filter(|c| !c.is_empty()) {
                r.steps.push(Step::Pick("key", Some(c.keys().cloned().collect()), (*key).into()));
                if let Want::Update { entry, .. } = w {
                    r.steps.extend(entry.steps.iter().cloned());
                }
                r.steps.push(Step::Confirm("confirm", *sure));
                let c = r.after[0].get_mut(*db).unwrap();
                match w {
                    _ if !sure => r.says = &["cancel"],
                    Want::Update { entry, .. } => {
                        c.insert((*key).to_string(), entry.value.clone().unwrap_or(Value::Null(())));
                    }
                    _ => {
                        c.remove(*key);
                        r.says = &["remov"];
                    }
                }
            } else if r.ok {
                r.says = &["empty"];
            }
        }
        Want::Import { to, doc } => {
            if matches!(to, Target::Existing(n) if !there(n)) {
                return None;
            }
            arg(&["import-from-json", "doc.json"]);
            match serde_json::from_slice(doc).ok().and_then(|j: J| Store::from_json(j).ok()) {
                None => r.ok = false,
                Some(store) => match target(s, to, &mut r.steps) {
                    Some(db) if !refused(&db) => {
                        r.says = if s.contains_key(&db) { &["overwrote", "overwritten"] } else { &["creat"] };
                        r.after[0].insert(db, (*store).clone());
                    }
                    _ => r.ok = false,
                },
            }
        }
        Want::Export { db, tags, out } => {
            if !there(db) {
                return None;
            }
            arg(&["export-to-json", out, "--add-souris-types"][..if *tags { 3 } else { 2 }]);
            r.ok = pick(s, db, &mut r.steps);
            let j = s.get(*db).and_then(|c| Store::new(c.iter().map(|(k, v)| (k.clone(), v.clone()))).to_json(*tags));
            r.ok &= *out == "out.json" && j.is_some();
            if *out == "out.json" {
                r.writes = Some(j);
            }
        }
    }
    Some(r)
}
///The cells of a table.
fn cells(out: &str) -> Vec<Vec<String>> {
    out.lines().filter(|l| l.contains('┆')).map(|l| l.trim_matches(|c| c == '│' || c == ' ').split('┆').map(|c| c.trim().to_string()).collect()).collect()
}
fn shown(v: &Value) -> Option<String> {
    Some(match v {
        Value::String(s) if s.is_ascii() => format!("{s:?}"),
        Value::Integer(i) => i.to_string(),
        Value::Boolean(b) => b.to_string(),
        Value::Null(()) => "null".into(),
        Value::Array(a) => format!("[{}]", a.iter().map(shown).collect::<Option<Vec<_>>>()?.join(", ")),
        _ => return None,
    })
}

const OLD: &str = "x";
fn old(f: &[u8]) -> bool {
    f.len() == 40_000 && f.iter().all(|b| *b == b'x')
}
fn files(d: &Real, doc: Option<&[u8]>) {
    for n in [0, 1, 127, 128, 129, 256, 1000, 70_000] {
        let name = match n {
            0 => "empty".to_string(),
            1 => "one".to_string(),
            n => n.to_string(),
        };
        let p = d.home.join(format!("bin-{name}"));
        if !p.exists() {
            let _ = std::fs::write(p, file_of(n));
        }
    }
    //what was there before is longer
    let out = d.home.join("out.json");
    let _ = std::fs::write(&out, OLD.repeat(40_000));
    let _ = std::fs::set_permissions(&out, std::os::unix::fs::PermissionsExt::from_mode(0o666));
    let _ = std::fs::remove_file(d.home.join("doc.json"));
    if let Some(doc) = doc {
        let _ = std::fs::write(d.home.join("doc.json"), doc);
    }
}

fn judge(d: &mut Real, s: &Dbs, w: &Want, r: &Should, o: &Outcome) -> Result<Dbs, (String, String)> {
    let at = || format!("with {} {}, answered {}", tell(s), r.args.join(" "), trunc(&o.talk.iter().map(|(q, a)| format!("{}: {a}", q["prompt"])).collect::<Vec<_>>().join("; "), 700));
    let bad = |k: &str, m: String| Err((format!("{}:{k}", name(w)), format!("{}: {m}", at())));
    if let Some(x) = &o.wrong {
        return bad("asks", x.clone());
    }
    if o.code != Some(i32::from(!r.ok)) {
        return bad("exit", format!("it ends with {:?} instead of {}: {} {}", o.code, i32::from(!r.ok), trunc(&o.out, 200), trunc(&o.err, 300)));
    }
    if !matches!(w, Want::Export { .. }) && !std::fs::read(d.home.join("out.json")).is_ok_and(|f| old(&f)) {
        return bad("writes", "a file changes".into());
    }
    let now = match all(d) {
        Ok(n) => n,
        Err(e) => return bad("after", e),
    };
    //the time it was is not known
    let mut seen = now.clone();
    if let Want::Add { entry, key, .. } | Want::Update { entry, key, .. } = w {
        if entry.value.is_none() {
            let t = sourisdb::chrono::Local::now().naive_local();
            for c in seen.values_mut() {
                if let Some(Value::Timestamp(x)) = c.get(*key) {
                    if (t - *x).num_seconds().abs() < 60 {
                        c.insert((*key).to_string(), Value::Null(()));
                    }
                }
            }
        }
    }
    if !r.after.iter().any(|a| same(a, &seen)) {
        return bad("contents", format!("there is {} instead of {}", tell(&now), tell(&r.after[0])));
    }
    let out = o.out.to_lowercase();
    if r.ok && !r.says.is_empty() && !r.says.iter().any(|w| out.contains(w)) {
        return bad("says", format!("it says {:?}, nothing of {:?}", trunc(&o.out, 200), r.says));
    }
    if !r.ok && o.err.trim().is_empty() {
        return bad("silent", "it fails without a word".into());
    }
    if let Some(c) = r.shows.as_ref().filter(|_| r.ok) {
        let c: Option<Vec<Vec<String>>> = c.iter().map(|(k, v)| Some(vec![k.trim().to_string(), shown(v)?])).collect();
        if let Some(mut want) = c {
            let mut got = cells(&o.out);
            if !got.is_empty() && got[0] == ["Key", "Value"] {
                got.remove(0);
            }
            want.sort();
            got.sort();
            if want != got {
                return bad("shows", format!("it shows {got:?} instead of {want:?}"));
            }
        }
    }
    if let Some(j) = &r.writes {
        let f = std::fs::read(d.home.join("out.json")).ok();
        match (j, f) {
            (None, Some(f)) if old(&f) => {}
            (Some(j), Some(f)) if reread(&f).is_some_and(|x| Some(x) == reread(j.to_string().as_bytes())) => {}
            (j, f) => return bad("writes", format!("it writes {:?} instead of {:?}", f.map(|f| trunc(&String::from_utf8_lossy(&f), 300)), j.as_ref().map(|j| trunc(&j.to_string(), 300)))),
        }
    }
    Ok(now)
}
///Reading a number back may give the one next to it.
fn reread(f: &[u8]) -> Option<J> {
    serde_json::from_slice(f).ok()
}
fn name(w: &Want) -> &'static str {
    match w {
        Want::Create { .. } => "create-new",
        Want::Remove(_) => "remove-database",
        Want::View(_) => "view-all",
        Want::Add { .. } => "add-entry",
        Want::RemoveEntry { .. } => "remove-entry",
        Want::Update { .. } => "update-entry",
        Want::Import { .. } => "import-from-json",
        Want::Export { .. } => "export-to-json",
    }
}
fn doc(w: &Want) -> Option<&[u8]> {
    match w {
        Want::Import { doc, .. } if !doc.is_empty() => Some(doc),
        _ => None,
    }
}

///Does that, one after another, and compares. With `quits`, the answers also end at every question of the last one.
fn commands(l: &mut L, s: &Dbs, ws: &[&Want], quits: bool, term: bool) {
    let r = with_daemon(|d| -> Result<(), (String, String)> {
        let m = |e: String| ("machinery".to_string(), e);
        put(d, s).map_err(m)?;
        let mut now = s.clone();
        for (i, w) in ws.iter().enumerate() {
            let Some(r) = should(&now, w) else { return Ok(()) };
            files(d, doc(w));
            if quits && i + 1 == ws.len() {
                for q in 0..r.steps.len() {
                    let o = session(d, &r.args, &r.steps, Some(q)).map_err(m)?;
                    l.call(1 + o.asked as u64);
                    if o.asked <= q {
                        //it had nothing more to ask, and did it
                        reset(d, &now).map_err(m)?;
                        files(d, doc(w));
                        break;
                    }
                    let t = all(d).map_err(|e| ("quit:after".to_string(), e))?;
                    let at = || format!("with {} {}, whose answers end at question {q} of {:?}", tell(&now), r.args.join(" "), r.steps);
                    l.check(same(&t, &now), || format!("{}:quit", name(w)), || format!("{}: there is {}", at(), tell(&t)));
                    l.check(o.code.is_some_and(|c| c != 0), || format!("{}:quit-exit", name(w)), || format!("{}: it ends with {:?}", at(), o.code));
                    l.check(std::fs::read(d.home.join("out.json")).is_ok_and(|f| old(&f)), || format!("{}:quit-file", name(w)), at);
                }
            }
            let o = session(d, &r.args, &r.steps, None).map_err(m)?;
            l.call(1 + o.asked as u64);
            let before = now.clone();
            now = judge(d, &now, w, &r, &o)?;
            l.check(true, String::new, String::new);
            l.saw(h64(&(tell(&now), o.code)));
            if term {
                //all the same at a terminal
                reset(d, &before).map_err(m)?;
                files(d, doc(w));
                let (code, screen) = terminal(d, &r.args, &o.talk).map_err(|e| (format!("{}:terminal", name(w)), e))?;
                l.call(1 + o.asked as u64);
                let t = all(d).map_err(|e| ("terminal:after".to_string(), e))?;
                l.check(code == o.code && (same(&t, &now) || matches!(w, Want::Add { entry, .. } if entry.value.is_none())), || format!("{}:terminal", name(w)), || {
                    format!("with {} {}: at a terminal, it ends with {code:?} instead of {:?}, and there is {} instead of {}; {}", tell(&before), r.args.join(" "), o.code, tell(&t), tell(&now), trunc(&screen, 300))
                });
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err((k, m))) => {
            drop_daemon();
            l.fail(k, m);
        }
        Err(e) => l.fail("start", e),
    }
    l.sample(|| trunc(&format!("{ws:?} with {}", tell(s)), 400));
}

///Commands of all kinds, on the databases of `starts`.
fn wants() -> Vec<Want> {
    let mut v = vec![];
    for db in ["a", "b", "e", "n", "meta", "../x", "a/b", "é", "a b", "-", "%2e&x=1", "A"] {
        for clear in [true, false] {
            v.push(Want::Create { db, clear });
        }
    }
    for db in ["a", "b", "e"] {
        v.push(Want::Remove(db));
        v.push(Want::View(db));
        for tags in [true, false] {
            for out in ["out.json", "no/such/out.json", "."] {
                v.push(Want::Export { db, tags, out });
            }
        }
        for key in ["x", "y"] {
            for sure in [true, false] {
                v.push(Want::RemoveEntry { db, key, sure });
                for e in [int(42), text("new text")] {
                    v.push(Want::Update { db, key, entry: e, sure });
                }
            }
        }
    }
    for to in targets() {
        for key in ["x", "new", "a b/é"] {
            for sure in [true, false] {
                v.push(Want::Add { to: to.clone(), key, entry: int(42), sure });
            }
        }
        for doc in [json!({"k": 1, "l": {"m": [1, "x", null, true, 2.5]}}), json!({}), json!([1, 2])] {
            v.push(Want::Import { to: to.clone(), doc: doc.to_string().into_bytes() });
        }
        v.push(Want::Import { to: to.clone(), doc: b"{\"k\": 1".to_vec() });
        //there is no such file
        v.push(Want::Import { to: to.clone(), doc: vec![] });
        v.push(Want::Import { to, doc: b"{\"k\": {\"souris_type\": \"Ipv4Addr\", \"octets\": 5}}".to_vec() });
    }
    v
}
fn targets() -> Vec<Target> {
    let mut v: Vec<Target> = ["a", "b", "e"].into_iter().map(Target::Existing).collect();
    for names in [vec![("n", true)], vec![("a", true)], vec![("a", false), ("n", true)], vec![("a", false), ("b", true)], vec![("meta", true), ("n", true)], vec![("", true), ("e", true)], vec![("../x", true)], vec![("a b&c", true)], vec![("a", false), ("meta", false), ("b", false), ("e", false), ("m", true)]] {
        v.push(Target::New(names));
    }
    v
}
///A few, for sequences.
fn few() -> Vec<Want> {
    vec![
        Want::Create { db: "a", clear: true },
        Want::Create { db: "c", clear: true },
        Want::Remove("a"),
        Want::Add { to: Target::Existing("a"), key: "x", entry: text("one"), sure: true },
        Want::Add { to: Target::New(vec![("c", true)]), key: "y", entry: int(5), sure: true },
        Want::RemoveEntry { db: "a", key: "x", sure: true },
        Want::Update { db: "a", key: "x", entry: entry(Value::Boolean(true), "Boolean", vec![Step::Pick("", None, "True".into())]), sure: true },
        Want::Import { to: Target::New(vec![("a", true)]), doc: b"{\"x\": [1, {\"z\": null}]}".to_vec() },
        Want::Export { db: "a", tags: false, out: "out.json" },
        Want::View("a"),
    ]
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    if ck.only.is_none() {
        scratch();
    }
    let (st, ws) = (starts(), wants());
    ck.section("commands", &format!("{} commands with their answers, on each of {} sets of databases, and with the answers ending at every question", ws.len(), st.len()), (st.len() * ws.len()) as u64, |i, l| {
        let (s, w) = (&st[i as usize % st.len()], &ws[i as usize / st.len()]);
        l.case(&i, should(s, w).is_some());
        commands(l, s, &[w], true, false);
    });
    let es = entries();
    ck.section("values", &format!("{} values of all sixteen kinds, put in one question at a time, with wrong answers before: added, and put in the place of another", es.len()), es.len() as u64 * 2, |i, l| {
        let e = es[i as usize / 2].clone();
        l.case(&i, true);
        let w = if i % 2 == 0 { Want::Add { to: Target::Existing("a"), key: "v", entry: e, sure: true } } else { Want::Update { db: "a", key: "x", entry: e, sure: true } };
        commands(l, &st[3], &[&w], t, false);
    });
    //documents and values through files
    let docs: Vec<J> = vec![
        json!({}), json!([]), json!(null), json!(5), json!("text"), json!({"a": 1}), json!({"JSON": [1]}), json!({"JSON": {"a": 1}}), json!({"a": {"b": {"c": [[], {}, [{}]]}}}),
        json!([1, [2, [3]]]), json!({"": ""}), json!({"é": "日本😀\n\t\"\\"}), json!({"n": [0, -1, 1.5, 1e300, u64::MAX, i64::MIN]}), json!((0..500).map(|i| json!({"id": i, "name": format!("n{i}")})).collect::<Vec<_>>()),
    ];
    ck.section("documents", &format!("{} documents, imported and exported again with and without tags, in files of up to a few hundred blocks", docs.len()), docs.len() as u64 * 4, |i, l| {
        let j = &docs[i as usize / 4];
        let tags = i & 1 == 1;
        l.case(&i, true);
        let doc = if i & 2 == 0 { j.to_string() } else { serde_json::to_string_pretty(j).unwrap() }.into_bytes();
        let w = [Want::Import { to: Target::New(vec![("n", true)]), doc }, Want::Export { db: "n", tags, out: "out.json" }];
        commands(l, &st[2], &[&w[0], &w[1]], false, false);
        if !tags {
            //as it came
            let r = with_daemon(|d| -> Result<(), String> {
                put(d, &Dbs::new())?;
                for (w, s) in w.iter().zip([Dbs::new(), [("n".to_string(), HashMap::new())].into()]) {
                    let Some(r) = should(&s, w) else { return Ok(()) };
                    if let Want::Import { doc, .. } = w {
                        files(d, Some(doc));
                    }
                    let o = session(d, &r.args, &r.steps, None)?;
                    l.call(1);
                    l.check(o.code == Some(0), || "exit".into(), || format!("{}: {}", r.args.join(" "), o.err));
                }
                let f = std::fs::read(d.home.join("out.json")).map_err(|e| e.to_string())?;
                l.check(reread(&f).is_some_and(|x| x == *j), || "document".into(), || format!("{} is exported as {}", trunc(&j.to_string(), 300), trunc(&String::from_utf8_lossy(&f), 300)));
                Ok(())
            });
            if let Err(e) | Ok(Err(e)) = r {
                l.fail("document", format!("{}: {e}", trunc(&j.to_string(), 300)));
            }
        }
    });
    let kinds: Vec<Entry> = es.iter().filter(|e| e.value.is_some()).cloned().collect();
    ck.section("exports", "a database with each of the values, exported with and without tags: the file has it, or there is none and that is said", kinds.len() as u64 * 2, |i, l| {
        let v = kinds[i as usize / 2].value.clone().unwrap();
        l.case(&i, true);
        let s: Dbs = [("a".to_string(), [("x".to_string(), v)].into_iter().collect())].into();
        commands(l, &s, &[&Want::Export { db: "a", tags: i % 2 == 0, out: "out.json" }], false, false);
    });
    //picking one out of many
    const NAMES: [&str; 14] = ["a", "A", "aa", "b c", "x&y=1", "#1", "%41", "meta2", "0", "-", "Meta", "aa ", "+", "a'b"];
    const KEYS: [&str; 24] = ["k", "K", "", " ", "k ", "kk", "é", "日本", "😀", "a/b", "?q=1&r", "#", "%6b", "+", "\"", "'", "k\u{301}", "0", "-1", "null", "y", "db_name", "a=b", "KEY"];
    let num = |i: usize| Value::Integer(Integer::from(i));
    let mut many: Vec<(Dbs, Want)> = vec![];
    for n in 1..=KEYS.len() {
        let s: Dbs = [("a".to_string(), KEYS[..n].iter().enumerate().map(|(i, k)| ((*k).to_string(), num(i))).collect())].into();
        let mut at: Vec<usize> = if t { (0..n).collect() } else { vec![0, n / 2, n - 1] };
        at.dedup();
        for k in at {
            for sure in [true, false] {
                many.push((s.clone(), Want::RemoveEntry { db: "a", key: KEYS[k], sure }));
                many.push((s.clone(), Want::Update { db: "a", key: KEYS[k], entry: text("new"), sure }));
            }
            //(no empty answer is taken, nor blanks around it)
            if !KEYS[k].is_empty() && KEYS[k].trim() == KEYS[k] {
                many.push((s.clone(), Want::Add { to: Target::Existing("a"), key: KEYS[k], entry: int(-7), sure: true }));
            }
        }
        many.push((s.clone(), Want::View("a")));
        many.push((s, Want::Export { db: "a", tags: n % 2 == 0, out: "out.json" }));
    }
    for n in 2..=NAMES.len() {
        let s: Dbs = NAMES[..n].iter().enumerate().map(|(i, d)| ((*d).to_string(), [("k".to_string(), num(i))].into_iter().collect())).collect();
        for db in NAMES[..n].iter().enumerate().filter(|(i, _)| t || [0, n / 2, n - 1].contains(i)).map(|(_, d)| *d) {
            many.push((s.clone(), Want::Remove(db)));
            many.push((s.clone(), Want::View(db)));
            many.push((s.clone(), Want::Export { db, tags: false, out: "out.json" }));
            many.push((s.clone(), Want::Update { db, key: "k", entry: text("new"), sure: true }));
            many.push((s.clone(), Want::RemoveEntry { db, key: "k", sure: true }));
            many.push((s.clone(), Want::Create { db, clear: true }));
            many.push((s.clone(), Want::Import { to: Target::New(vec![(db, true)]), doc: b"{\"j\": 1}".to_vec() }));
            many.push((s.clone(), Want::Import { to: Target::Existing(db), doc: b"{\"j\": 1}".to_vec() }));
            many.push((s.clone(), Want::Add { to: Target::New(vec![(db, true)]), key: "new", entry: int(5), sure: true }));
        }
    }
    ck.section("many", "every command where there are up to 24 keys or up to 14 databases with similar and unusual names, on the first, a middle and the last one (thorough: each)", many.len() as u64, |i, l| {
        let (s, w) = &many[i as usize];
        l.case(&i, should(s, w).is_some());
        commands(l, s, &[w], false, false);
    });
    let fw = few();
    let len = if t { 5 } else { 4 };
    ck.section("sequences", &format!("every sequence of {len} out of {} commands on one database", fw.len()), (fw.len() as u64).pow(len), |i, l| {
        l.case(&i, true);
        let mut i = i;
        let ws: Vec<&Want> = (0..len)
            .map(|_| {
                let w = &fw[i as usize % fw.len()];
                i /= fw.len() as u64;
                w
            })
            .collect();
        commands(l, &st[2], &ws, false, false);
    });
    //at a terminal
    let mut tw: Vec<(usize, Want)> = vec![];
    for (i, w) in ws.iter().enumerate() {
        if t || i % 5 == 0 {
            tw.push((4, w.clone()));
        }
    }
    for (i, e) in es.iter().enumerate() {
        //what a terminal does with these is its own business
        let odd = e.steps.iter().any(|s| matches!(s, Step::Input(_, t) if t.is_empty() || t.len() > 200) || matches!(s, Step::Pick("timezone", _, t) if *t != TZ_VARIANTS[0].to_string() && *t != TZ_VARIANTS[2].to_string()));
        if !odd && (t || i % 3 == 0) {
            tw.push((3, Want::Add { to: Target::Existing("a"), key: "v", entry: e.clone(), sure: true }));
        }
    }
    ck.section("terminal", &format!("{} of these at a terminal, with the tool as it is: the same as with questions and answers", tw.len()), tw.len() as u64, |i, l| {
        let (s, w) = &tw[i as usize];
        l.case(&i, should(&st[*s], w).is_some());
        commands(l, &st[*s], &[w], false, true);
    });
    ck.section("nobody", "every kind of command where no daemon is: it ends with an error", fw.len() as u64, |i, l| {
        l.case(&i, true);
        let r = with_daemon(|d| -> Result<(), String> {
            let Some(r) = should(&st[2], &fw[i as usize]) else { return Ok(()) };
            files(d, doc(&fw[i as usize]));
            let port = d.port;
            d.port = {
                let free = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| format!("machinery: {e}"))?;
                free.local_addr().map_err(|e| format!("machinery: {e}"))?.port()
            };
            let o = session(d, &r.args, &r.steps, Some(0));
            d.port = port;
            let o = o?;
            l.call(1);
            l.check(o.code == Some(1) && !o.err.trim().is_empty() && o.asked == 0, || "nobody".into(), || format!("{} without a daemon ends with {:?} and {:?} after {} questions", r.args.join(" "), o.code, trunc(&o.err, 200), o.asked));
            Ok(())
        });
        if let Err(e) | Ok(Err(e)) = r {
            l.fail("nobody", e);
        }
    });
}
