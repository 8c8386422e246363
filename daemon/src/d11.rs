//! D11: a data directory keeps its layout: what another version laid out is what the daemon starts with, and what it saves is laid out like that.
use crate::{
    ck::{Ck, L},
    corpus::{few_leaves, map_of, name},
    crash::boots,
    d01::{read_all, sequence, word, words, Act},
    format::{read_file, write_file, Choice},
    model::{contents, show, value, Db, Op, State},
    world::{boot, ended, execute, fresh, BASE},
};
use sourisdb::values::Value;
use vsched::{vfs::Vfs, Config};

fn how(i: u64) -> Choice {
    Choice { binary: i % 6, signed: i % 2 == 1, coded: i / 2 % 3, reverse: i % 5 == 0 }
}
fn db_of(v: &Value) -> Db {
    let Value::Map(m) = v else { unreachable!() };
    m.iter().map(|(k, v)| (k.clone(), show(v))).collect()
}
///The files of these databases, as the reference lays them out; which way to write them is up to the number.
fn lay_out(fs: &mut Vfs, base: &str, dbs: &[(String, Value)], way: u64) -> State {
    let mut s = State::new();
    for (i, (n, v)) in dbs.iter().enumerate() {
        let way = way + 5 * i as u64;
        fs.put(&format!("{base}/{n}.sdb"), &write_file(v, way % 6, way % 4, how(way)));
        s.insert(n.clone(), db_of(v));
    }
    let mut names: Vec<Value> = dbs.iter().map(|d| Value::String(d.0.clone())).collect();
    if way % 2 == 1 {
        names.reverse();
    }
    let meta = map_of(vec![("existing_dbs".into(), Value::Array(names))]);
    fs.put(&format!("{base}/meta.sdb"), &write_file(&meta, way % 6, way / 6 % 4, how(way)));
    s
}
///What these files stand for, as the reference reads them.
fn look(fs: &Vfs, base: &str) -> Result<State, String> {
    let files = fs.files();
    let file = |n: &str| -> Result<Value, String> {
        let p = format!("{base}/{n}.sdb");
        read_file(files.get(&p).ok_or_else(|| format!("no file {p}"))?).map_err(|e| format!("{p}: {e}"))
    };
    let Value::Map(meta) = file("meta")? else { return Err("the list is in no map".into()) };
    let Some(Value::Array(names)) = meta.get("existing_dbs") else { return Err(format!("no list of databases in {meta:?}")) };
    let mut s = State::new();
    for n in names {
        let Value::String(n) = n else { return Err(format!("{n:?} is listed")) };
        let v = file(n)?;
        if !matches!(v, Value::Map(_)) {
            return Err(format!("{n} is no map"));
        }
        if s.insert(n.clone(), db_of(&v)).is_some() {
            return Err(format!("{n} is listed twice"));
        }
    }
    Ok(s)
}
fn loaded(l: &mut L, fs: &Vfs, want: &State, key: &dyn Fn() -> String) {
    match boots(l, fs) {
        Ok(s) => drop(l.check(s == *want, key, || format!("starts with {s:?} instead of {want:?}"))),
        Err(e) => l.fail(key(), format!("does not start: {e}")),
    }
}
fn content(n: u8) -> Value {
    map_of(contents(n).into_iter().map(|(k, v)| (k.to_string(), value(v))).collect())
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let names: Vec<String> = ["a", "A", "", "a.sdb", "with space", "META", "meta.sdb", "-."].into_iter().map(String::from).chain(["n".repeat(240)]).collect();
    let n = names.len() as u64 + 1;
    let ways = if t { 24 } else { 8 };
    ck.section("loaded", &format!("every directory of up to three databases out of {} names with four contents each, written by the reference in {ways} ways", names.len()), n * n * n * 4 * ways, |i, l| {
        let (way, c, mut k) = (i % ways, i / ways % 4, i / ways / 4);
        let mut dbs: Vec<(String, Value)> = vec![];
        let mut last = n;
        for j in 0..3 {
            let x = k % n;
            k /= n;
            if x == n - 1 {
                last = 0;
            } else if x >= last {
                //the same ones in another order
                return l.case(&i, false);
            } else {
                last = x;
                dbs.push((names[x as usize].clone(), content(((c + j * (1 + c)) % 4) as u8)));
            }
        }
        l.case(&i, true);
        let mut fs = fresh();
        let want = lay_out(&mut fs, BASE, &dbs, way * if t { 1 } else { 3 } + c);
        loaded(l, &fs, &want, &|| format!("{:?}:{c}:{way}", dbs.iter().map(|d| &d.0).collect::<Vec<_>>()).replace(' ', ""));
    });
    let kinds = few_leaves();
    ck.section("kinds", "a database of one value of each of the kinds, written by the reference in 24 ways", kinds.len() as u64 * 24, |i, l| {
        l.case(&i, true);
        let v = &kinds[i as usize / 24];
        let db = map_of(vec![("k".into(), v.clone()), ("in".into(), Value::Array(vec![v.clone(), map_of(vec![("é".into(), v.clone())])]))]);
        let mut fs = fresh();
        let want = lay_out(&mut fs, BASE, &[("kinds".into(), db)], i % 24);
        loaded(l, &fs, &want, &|| format!("{}:{}", name(v), i % 24).replace(' ', "_"));
    });
    let counts = [0_usize, 5, 6, 7, 8, 20, 129, 240, 260, 400];
    ck.section("many", "directories of up to 400 databases, in 12 ways", counts.len() as u64 * 12, |i, l| {
        l.case(&i, true);
        let c = counts[i as usize / 12];
        let dbs: Vec<_> = (0..c).map(|j| (format!("db{j}"), content((j % 4) as u8))).collect();
        let mut fs = fresh();
        let want = lay_out(&mut fs, BASE, &dbs, i % 12);
        loaded(l, &fs, &want, &|| format!("{c}:{}", i % 12));
    });

    let al: Vec<Act> = [Op::put("a", "x", 4), Op::put("a", "é", 3), Op::content("", true, 2), Op::content("a.sdb", false, 3), Op::put("B", "x", 5), Op::rm("a"), Op::clear("a"), Op::rmkv("a", "x"), Op::add("b", true)].into_iter().map(Act::Do).chain([Act::Tick, Act::Restart]).collect();
    let len = if t { 5 } else { 4 };
    ck.section("saved", &format!("the files after every history of {len} out of 9 changes, a save and a restart, and then a save, by the reference"), words(al.len(), len), |i, l| {
        l.case(&i, true);
        let mut acts = word(&al, len, i);
        acts.push(if i % 2 == 0 { Act::Tick } else { Act::Restart });
        let mut want = State::new();
        for a in &acts {
            if let Act::Do(o) = a {
                o.apply(&mut want);
            }
        }
        //whether it answers as it should is for D01
        let Some(fs) = sequence(l, &fresh(), &State::new(), &acts) else { return };
        match look(&fs, BASE) {
            Ok(s) => drop(l.check(s == want, || format!("{i}"), || format!("after {acts:?} the files stand for {s:?} instead of {want:?}"))),
            Err(e) => l.fail(format!("{i}"), format!("after {acts:?}: {e}")),
        }
    });
    ck.section("kept", "directories laid out by the reference, then changed and saved by the daemon, by the reference again: 4 contents in 24 ways, 9 changes", 4 * 24 * 9, |i, l| {
        l.case(&i, true);
        let (way, c, which) = (i % 24, i / 24 % 4, (i / 96) as usize);
        let mut fs = fresh();
        let start = lay_out(&mut fs, BASE, &[("a".into(), content(c as u8)), ("".into(), content(1)), ("n".repeat(240), content(3))], way);
        let mut want = start.clone();
        let acts = vec![al[which].clone(), Act::Restart];
        if let Act::Do(o) = &acts[0] {
            o.apply(&mut want);
        }
        let Some(fs) = sequence(l, &fs, &start, &acts) else { return };
        match look(&fs, BASE) {
            Ok(s) => drop(l.check(s == want, || format!("{i}"), || format!("after {acts:?} the files stand for {s:?} instead of {want:?}"))),
            Err(e) => l.fail(format!("{i}"), format!("after {acts:?}: {e}")),
        }
    });

    //where the directory is
    type Env = (&'static [(&'static std::ffi::CStr, &'static str)], u32, &'static str);
    let envs: [Env; 6] = [
        (&[(c"BASE_LOCATION", "/souris/data"), (c"HOME", "/home/u")], 1000, "/souris/data"),
        (&[(c"BASE_LOCATION", "/with space/é"), (c"HOME", "/home/u"), (c"XDG_DATA_HOME", "/xdg/share")], 0, "/with space/é"),
        (&[(c"HOME", "/home/u")], 0, "/etc/souris"),
        (&[(c"HOME", "/home/u"), (c"XDG_DATA_HOME", "/xdg/share")], 0, "/etc/souris"),
        (&[(c"HOME", "/home/u")], 1000, "/home/u/.local/share/souris"),
        (&[(c"HOME", "/home/u"), (c"XDG_DATA_HOME", "/xdg/share")], 1000, "/xdg/share/souris"),
    ];
    ck.section("where", "a directory laid out by the reference at each place the daemon has its data, given or by default, for the superuser and others; another one at every other place", envs.len() as u64 * 12, |i, l| {
        l.case(&i, true);
        let (env, uid, base) = envs[i as usize / 12];
        let way = i % 12;
        let mut fs = Vfs::default();
        for e in envs.iter().map(|e| e.2) {
            if e != base {
                lay_out(&mut fs, e, &[("wrong".into(), content(0))], 0);
            }
        }
        let want = lay_out(&mut fs, base, &[("a".into(), content((way % 4) as u8)), ("b".into(), content(1))], way);
        let r = execute::<Option<Result<State, String>>>(Config { evictions: 0, ..Config::default() }, &[], &fs, |out| {
            crate::sys::set_env(env);
            crate::sys::set_uid(uid);
            *out = Some(boot().and_then(|_| read_all(&State::new())));
        });
        let r = match r {
            Err(e) => Err(e),
            Ok(r) => {
                l.call(r.out.steps);
                ended(&r.out).and_then(|()| r.data.unwrap_or(Err("nothing happened".into())))
            }
        };
        l.run(0);
        match r {
            Ok(s) => drop(l.check(s == want, || format!("{i}"), || format!("{env:?} with user {uid} starts with {s:?} instead of {want:?} from {base}"))),
            Err(e) => l.fail(format!("{i}"), format!("{env:?} with user {uid}: {e}")),
        }
    });
}
