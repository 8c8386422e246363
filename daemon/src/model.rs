//! What the daemon should do: a map of databases to maps, one request at a time.
use crate::{
    ck::{h64, hex, trunc},
    world::{Reply, Req},
};
use sourisdb::{store::Store, types::{imaginary::Imaginary, integer::Integer}, values::Value};
use std::collections::{BTreeMap, HashSet};

///Values in a form that has nothing to do with how the library compares them.
pub type Val = String;
pub type Db = BTreeMap<String, Val>;
pub type State = BTreeMap<String, Db>;

pub fn show(v: &Value) -> Val {
    match v {
        Value::String(s) => format!("{s:?}"),
        Value::Integer(i) => format!("{i}"),
        Value::Boolean(b) => format!("{b}"),
        Value::Null(()) => "null".into(),
        Value::Map(m) => {
            let m: BTreeMap<_, _> = m.iter().map(|(k, v)| (k.clone(), show(v))).collect();
            format!("{m:?}")
        }
        Value::Array(a) => format!("{:?}", a.iter().map(show).collect::<Vec<_>>()),
        Value::Binary(b) => format!("bin {:?}", b.0),
        Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => format!("{real} and {imaginary} i"),
        Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => format!("{:x} at {:x}", modulus.to_bits(), argument.to_bits()),
        Value::SingleFloat(f) => format!("{f:?} {:x}", f.to_bits()),
        Value::DoubleFloat(f) => format!("{f:?} {:x}", f.to_bits()),
        v => format!("{v:?}"),
    }
}
pub fn show_store(s: &Store) -> Db {
    s.iter().map(|(k, v)| (k.clone(), show(v))).collect()
}

///The values that requests carry, by number.
pub fn value(n: u8) -> Value {
    match n {
        0 => Value::Integer(Integer::from(1_u8)),
        1 => Value::String("two".into()),
        2 => Value::Array(vec![Value::Null(()), Value::Boolean(true), Value::String("x".into())]),
        3 => Value::Binary(sourisdb::types::binary::BinaryData((0..200_u32).map(|i| (i * 7) as u8).collect())),
        4 => Value::String("a longer text, so that the file it is in is longer as well: ".repeat(8)),
        //the files these two end up in are equally long
        6 => Value::Boolean(true),
        7 => Value::Boolean(false),
        _ => {
            let m: sourisdb::hashbrown::HashMap<String, Value> = [("k".to_string(), Value::Integer(Integer::from(-300_i32)))].into_iter().collect();
            Value::Map(m)
        }
    }
}
pub fn body(n: u8) -> Vec<u8> {
    value(n).ser(None)
}
///The stores that requests carry: which key has which value.
pub fn contents(n: u8) -> Vec<(&'static str, u8)> {
    match n {
        0 => vec![],
        1 => vec![("x", 1)],
        2 => vec![("y", 2), ("z", 0)],
        _ => vec![("x", 4), ("y", 3)],
    }
}
fn store(n: u8) -> Store {
    let mut s = Store::default();
    for (k, v) in contents(n) {
        s.insert(k.to_string(), value(v));
    }
    s
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Health,
    Names,
    Get(String),
    GetV(String, String),
    Add { db: String, over: bool },
    Content { db: String, over: bool, store: u8 },
    Rm(String),
    Clear(String),
    AddKv { db: String, key: String, create: bool, over: bool, val: u8 },
    RmKv(String, String),
    ///anything else: method, path and query, body, expected status
    Raw(&'static str, String, Vec<u8>, u16),
}
impl Op {
    pub fn get(db: &str) -> Self {
        Op::Get(db.into())
    }
    pub fn getv(db: &str, k: &str) -> Self {
        Op::GetV(db.into(), k.into())
    }
    pub fn add(db: &str, over: bool) -> Self {
        Op::Add { db: db.into(), over }
    }
    pub fn content(db: &str, over: bool, store: u8) -> Self {
        Op::Content { db: db.into(), over, store }
    }
    pub fn rm(db: &str) -> Self {
        Op::Rm(db.into())
    }
    pub fn clear(db: &str) -> Self {
        Op::Clear(db.into())
    }
    pub fn kv(db: &str, k: &str, create: bool, over: bool, val: u8) -> Self {
        Op::AddKv { db: db.into(), key: k.into(), create, over, val }
    }
    pub fn put(db: &str, k: &str, val: u8) -> Self {
        Op::kv(db, k, true, true, val)
    }
    pub fn rmkv(db: &str, k: &str) -> Self {
        Op::RmKv(db.into(), k.into())
    }
    pub fn writes(&self) -> bool {
        !matches!(self, Op::Health | Op::Names | Op::Get(_) | Op::GetV(..) | Op::Raw(..))
    }
}

pub fn enc(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ans {
    Status(u16),
    Names(Vec<String>),
    Db(Db),
    Value(Val),
    Created(String),
    ///not connected: nothing happened
    Refused,
    ///no answer: could have happened or not
    Unknown,
    Bad(String),
}

impl Op {
    pub fn req(&self) -> Req {
        let r = |method, uri: String, body: Vec<u8>| Req { method, uri, body, content_type: None };
        match self {
            Op::Health => r("GET", "/healthcheck".into(), vec![]),
            Op::Names => r("GET", "/v1/get_all_db_names".into(), vec![]),
            Op::Get(d) => r("GET", format!("/v1/get_db?db_name={}", enc(d)), vec![]),
            Op::GetV(d, k) => r("GET", format!("/v1/get_value?db_name={}&key={}", enc(d), enc(k)), vec![]),
            Op::Add { db, over } => r("POST", format!("/v1/add_db?db_name={}&overwrite_existing={over}", enc(db)), vec![]),
            Op::Content { db, over, store: s } => r("PUT", format!("/v1/add_db_with_content?overwrite_existing={over}&db_name={}", enc(db)), store(*s).ser()),
            Op::Rm(d) => r("POST", format!("/v1/rm_db?db_name={}", enc(d)), vec![]),
            Op::Clear(d) => r("POST", format!("/v1/clear_db?db_name={}", enc(d)), vec![]),
            Op::AddKv { db, key, create, over, val } => r("PUT", format!("/v1/add_kv?db_name={}&key={}&create_new_database={create}&overwrite_key={over}", enc(db), enc(key)), body(*val)),
            Op::RmKv(d, k) => r("POST", format!("/v1/rm_kv?key={}&db_name={}", enc(k), enc(d)), vec![]),
            Op::Raw(m, u, b, _) => r(m, u.clone(), b.clone()),
        }
    }
    ///What the answer says.
    pub fn read(&self, r: &Reply) -> Ans {
        let (status, body) = match r {
            Reply::Refused => return Ans::Refused,
            Reply::Gone => return Ans::Unknown,
            Reply::Broken(p) => return Ans::Bad(format!("no answer, the handler panicked: {p}")),
            Reply::Http(s, b) => (*s, b),
        };
        if status != 200 {
            return Ans::Status(status);
        }
        match self {
            Op::Names => match serde_json::from_slice::<Vec<String>>(body) {
                Ok(mut v) => {
                    v.sort();
                    Ans::Names(v)
                }
                Err(e) => Ans::Bad(format!("not a list of names ({e}): {}", hex(body))),
            },
            Op::Get(_) => match Store::deser(body) {
                Ok(s) => Ans::Db(show_store(&s)),
                Err(e) => Ans::Bad(format!("not a store ({e}): {}", hex(body))),
            },
            Op::GetV(..) => match Value::deser(&mut sourisdb::utilities::cursor::Cursor::new(body), None) {
                Ok(v) => Ans::Value(show(&v)),
                Err(e) => Ans::Bad(format!("not a value ({e:?}): {}", hex(body))),
            },
            Op::AddKv { .. } => match serde_json::from_slice::<String>(body) {
                Ok(v) => Ans::Created(v),
                Err(e) => Ans::Bad(format!("not a creation result ({e}): {}", trunc(&String::from_utf8_lossy(body), 80))),
            },
            _ => Ans::Status(200),
        }
    }
    ///What the answer has to be, and what happens.
    pub fn apply(&self, s: &mut State) -> Ans {
        match self {
            Op::Health => Ans::Status(200),
            Op::Names => Ans::Names(s.keys().cloned().collect()),
            Op::Get(d) => s.get(d).map_or(Ans::Status(410), |d| Ans::Db(d.clone())),
            Op::GetV(d, k) => match s.get(d) {
                None => Ans::Status(410),
                Some(d) => d.get(k).map_or(Ans::Status(400), |v| Ans::Value(v.clone())),
            },
            Op::Add { db, over } => {
                if !valid(db) {
                    return Ans::Status(400);
                }
                match s.get_mut(db) {
                    Some(d) => {
                        if *over {
                            d.clear();
                        }
                        Ans::Status(200)
                    }
                    None => {
                        s.insert(db.clone(), Db::new());
                        Ans::Status(201)
                    }
                }
            }
            Op::Content { db, over, store } => {
                if !valid(db) {
                    return Ans::Status(400);
                }
                let there = s.contains_key(db);
                let d = s.entry(db.clone()).or_default();
                if *over {
                    d.clear();
                }
                for (k, v) in contents(*store) {
                    d.insert(k.into(), show(&value(v)));
                }
                Ans::Status(if there { 200 } else { 201 })
            }
            Op::Rm(d) => Ans::Status(if s.remove(d).is_some() { 200 } else { 410 }),
            Op::Clear(d) => match s.get_mut(d) {
                Some(d) => {
                    d.clear();
                    Ans::Status(200)
                }
                None => Ans::Status(410),
            },
            Op::AddKv { db, key, create, over, val } => {
                let v = show(&value(*val));
                let r = match s.get_mut(db) {
                    Some(d) => {
                        if d.contains_key(key) {
                            if *over {
                                d.insert(key.clone(), v);
                                "OverwroteKeyInExistingDB"
                            } else {
                                "FoundExistingKey"
                            }
                        } else {
                            d.insert(key.clone(), v);
                            "InsertedKeyIntoExistingDB"
                        }
                    }
                    None if *create => {
                        if !valid(db) {
                            return Ans::Status(400);
                        }
                        s.insert(db.clone(), [(key.clone(), v)].into_iter().collect());
                        "InsertedKeyIntoNewDB"
                    }
                    None => "UnableToFindDB",
                };
                Ans::Created(r.into())
            }
            Op::RmKv(d, k) => match s.get_mut(d) {
                None => Ans::Status(410),
                Some(d) => Ans::Status(if d.remove(k).is_some() { 200 } else { 400 }),
            },
            Op::Raw(_, _, _, status) => Ans::Status(*status),
        }
    }
}
///Names which could be the name of a file next to others: what the daemon has to accept or refuse is enumerated elsewhere.
pub fn valid(name: &str) -> bool {
    name != "meta" && name.is_ascii() && name.len() <= 240 && !name.contains(['\0', '/'])
}

///One request of a history.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Event {
    pub op: Step,
    pub ans: Ans,
    ///when it was sent and answered
    pub from: usize,
    pub to: usize,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Op(Op),
    ///this database was saved like this, and is still there, or it is not there at all
    See(String, Option<Db>),
    ///all of it is seen like this
    SeeAll(State),
}

///Whether there is an order of the events that respects which was over before which began, and gives these answers.
///
/// Events without an answer may happen at any time after they were sent, or never.
pub fn linearizable(start: &State, h: &[Event]) -> bool {
    assert!(h.len() <= 32);
    fn go(h: &[Event], done: u32, s: &State, seen: &mut HashSet<(u32, u64)>) -> bool {
        if (0..h.len()).all(|i| done & (1 << i) != 0 || h[i].ans == Ans::Unknown) {
            return true;
        }
        if !seen.insert((done, h64(s))) {
            return false;
        }
        //whoever is next must have been sent before anyone left was answered
        let limit = (0..h.len()).filter(|i| done & (1 << i) == 0 && h[*i].ans != Ans::Unknown).map(|i| h[i].to).min().unwrap_or(usize::MAX);
        for i in 0..h.len() {
            if done & (1 << i) != 0 || h[i].from > limit {
                continue;
            }
            let e = &h[i];
            if e.ans == Ans::Refused {
                if go(h, done | 1 << i, s, seen) {
                    return true;
                }
                continue;
            }
            match &e.op {
                Step::Op(op) => {
                    let mut t = s.clone();
                    let a = op.apply(&mut t);
                    //removing it removes what had been saved as well
                    if let (Op::Rm(d), Ans::Status(200)) = (op, &a) {
                        if (0..h.len()).any(|i| done & (1 << i) != 0 && matches!(&h[i].op, Step::See(n, Some(_)) if n == d)) {
                            continue;
                        }
                    }
                    if (e.ans == Ans::Unknown || a == e.ans) && go(h, done | 1 << i, &t, seen) {
                        return true;
                    }
                }
                Step::See(d, what) => {
                    if s.get(d) == what.as_ref() && go(h, done | 1 << i, s, seen) {
                        return true;
                    }
                }
                Step::SeeAll(what) => {
                    if s == what && go(h, done | 1 << i, s, seen) {
                        return true;
                    }
                }
            }
        }
        false
    }
    go(h, 0, start, &mut HashSet::new())
}
pub fn tell(h: &[Event]) -> String {
    let mut h: Vec<&Event> = h.iter().collect();
    h.sort_by_key(|e| e.from);
    h.iter().map(|e| format!("[{}-{}] {:?} -> {:?}", e.from, e.to, e.op, e.ans)).collect::<Vec<_>>().join("; ")
}
