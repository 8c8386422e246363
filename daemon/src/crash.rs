//! What could be on disk after a crash, and what the daemon makes of it.
use crate::{
    ck::{h64, L},
    d01::read_all,
    model::State,
    sys::Asked,
    world::{boot, ended, execute},
};
use std::{
    collections::{BTreeMap, HashMap},
    sync::{
        atomic::{AtomicU64, Ordering},
        RwLock,
    },
};
use vsched::{
    vfs::{Ino, Node, Op, Vfs},
    Config, Entry,
};

pub static BOOTS: AtomicU64 = AtomicU64::new(0);
///What the daemon has after a start, by what it looked at to come to that.
///
/// A start is determined by what it sees of the files: what it looks at next depends on nothing but what it saw before.
enum Known {
    Unknown,
    Looks(Asked, HashMap<u64, Known>),
    Has(Result<State, String>),
}
fn known() -> &'static RwLock<Known> {
    static K: RwLock<Known> = RwLock::new(Known::Unknown);
    &K
}
fn recall(image: &Vfs) -> Option<Result<State, String>> {
    let k = known().read().unwrap();
    let mut k = &*k;
    loop {
        match k {
            Known::Unknown => return None,
            Known::Has(r) => return Some(r.clone()),
            Known::Looks(at, saw) => k = saw.get(&at.view(image))?,
        }
    }
}
fn remember(image: &Vfs, asked: &[Asked], r: &Result<State, String>) -> Result<(), String> {
    let mut k = known().write().unwrap();
    let mut k = &mut *k;
    for a in asked {
        if matches!(k, Known::Unknown) {
            *k = Known::Looks(a.clone(), HashMap::new());
        }
        match k {
            Known::Looks(at, saw) if at == a => k = saw.entry(at.view(image)).or_insert(Known::Unknown),
            _ => return Err("the same files are not looked at in the same way".into()),
        }
    }
    match k {
        Known::Unknown => *k = Known::Has(r.clone()),
        Known::Has(s) if s == r => {}
        _ => return Err("starting twice from the same files gives different things".into()),
    }
    Ok(())
}

///What the daemon has when started with these files. They have to be at rest.
pub fn boots(l: &mut L, image: &Vfs) -> Result<State, String> {
    l.alive();
    if let Some(r) = recall(image) {
        return r;
    }
    BOOTS.fetch_add(1, Ordering::Relaxed);
    let r = execute::<(Option<Result<State, String>>, Vec<Asked>)>(Config::default(), &[], image, |out| {
        crate::sys::ask();
        let r = boot().and_then(|_| read_all(&State::new()));
        *out = (Some(r), crate::sys::asked_for());
    });
    let (r, asked) = match r {
        Err(e) => (Err(e), vec![]),
        Ok(r) => {
            l.call(r.out.steps);
            match (ended(&r.out), r.data) {
                (Err(e), (_, a)) => (Err(e), a),
                (_, (Some(d), a)) => (d, a),
                _ => (Err("nothing happened".into()), vec![]),
            }
        }
    };
    if asked.is_empty() {
        return r;
    }
    l.run(h64(image));
    match remember(image, &asked, &r) {
        Ok(()) => r,
        Err(e) => Err(e),
    }
}

///The changes of an execution, in order, and where among the log's entries each is.
pub fn changes(log: &[Entry]) -> Vec<(usize, &Op)> {
    log.iter()
        .enumerate()
        .filter_map(|(i, e)| match e {
            Entry::Fs(o) => Some((i, o)),
            _ => None,
        })
        .collect()
}

///All that could be on disk when the process dies having made these changes, the last of them perhaps only in part.
pub fn killed(start: &Vfs, done: &[&Op]) -> Vec<(Vfs, String)> {
    let mut v = start.clone();
    for o in done {
        v.apply(o);
    }
    let mut out = vec![(v.at_rest(), "all".to_string())];
    if let Some((Op::Write { ino, at, data }, before)) = done.split_last().map(|(l, b)| (*l, b)) {
        for n in [1, data.len() / 2, data.len().saturating_sub(1)] {
            if n > 0 && n < data.len() {
                let mut v = start.clone();
                for o in before {
                    v.apply(o);
                }
                v.apply(&Op::Write { ino: *ino, at: *at, data: data[..n].into() });
                out.push((v.at_rest(), format!("{n} bytes of the last write")));
            }
        }
    }
    out
}

///All that could be on disk when the machine loses power having made these changes: what was not synced may be there in
///any part. What was there at first is, and so are new directories.
pub fn power_lost(start: &Vfs, done: &[&Op]) -> Vec<(Vfs, String)> {
    let mut now = start.clone();
    let mut synced: BTreeMap<Ino, Vec<u8>> = start.nodes.iter().enumerate().filter_map(|(i, n)| if let Node::File(c) = n { Some((i, c.clone())) } else { None }).collect();
    //entries of directories that are not synced yet, in order
    let mut pending: Vec<&Op> = vec![];
    //the directories as they are on disk for certain
    let mut sure = start.clone();
    for o in done {
        now.apply(o);
        match o {
            Op::Sync { ino } => match &now.nodes[*ino] {
                Node::File(c) => {
                    synced.insert(*ino, c.clone());
                }
                Node::Dir(_) => {
                    pending.retain(|p| {
                        let mine = match p {
                            Op::Create { dir, .. } | Op::Unlink { dir, .. } | Op::Rmdir { dir, .. } | Op::Link { dir, .. } | Op::Symlink { dir, .. } => dir == ino,
                            Op::Rename { from_dir, to_dir, .. } => from_dir == ino || to_dir == ino,
                            _ => false,
                        };
                        if mine {
                            sure.apply(p);
                        }
                        !mine
                    });
                }
                _ => {}
            },
            Op::Create { .. } | Op::Rename { .. } | Op::Unlink { .. } | Op::Rmdir { .. } | Op::Link { .. } | Op::Symlink { .. } => pending.push(o),
            Op::Mkdir { .. } => sure.apply(o),
            Op::Write { .. } | Op::Truncate { .. } | Op::Failed { .. } => {}
        }
    }
    //every subset of them, unless that is too many: then all but any two, and any two
    let n = pending.len();
    let mut subsets: Vec<u64> = vec![];
    if n <= 7 {
        subsets.extend(0..1 << n);
    } else {
        let all = (1_u64 << n) - 1;
        for i in 0..n {
            subsets.push((1 << i) - 1);
            for j in i..n {
                let two = 1 << i | 1 << j;
                subsets.extend([two, all & !two]);
            }
        }
        subsets.extend([0, all]);
    }
    let mut out = vec![];
    for s in subsets {
        let mut v = sure.clone();
        //files exist whether or not anything leads to them
        while v.nodes.len() < now.nodes.len() {
            v.nodes.push(Node::Gone);
        }
        for (i, x) in now.nodes.iter().enumerate() {
            if matches!(x, Node::File(_) | Node::Link(_)) {
                v.nodes[i] = x.clone();
            }
        }
        for (i, p) in pending.iter().enumerate() {
            if s & 1 << i != 0 {
                v.apply(p);
            }
        }
        //those of the files that are there and differ from what was synced
        let there: Vec<Ino> = v.nodes.iter().filter_map(|n| if let Node::Dir(d) = n { Some(d.values().copied()) } else { None }).flatten().collect();
        let open: Vec<(Ino, Vec<Vec<u8>>)> = there
            .iter()
            .filter_map(|i| {
                let Node::File(now) = &now.nodes[*i] else { return None };
                let old = synced.get(i).cloned().unwrap_or_default();
                if old == *now {
                    return None;
                }
                let mut w = vec![now.clone(), old.clone(), now[..now.len() / 2].to_vec(), vec![0; now.len()]];
                //the new length, with some of the new contents
                let mut half = now.clone();
                let h = half.len() / 2;
                half[h..].fill(0);
                w.push(half);
                w.sort();
                w.dedup();
                Some((*i, w))
            })
            .collect();
        let total: usize = open.iter().map(|(_, w)| w.len()).product();
        for k in 0..total.min(625) {
            let mut k = k;
            let mut v = v.clone();
            for (i, w) in &open {
                v.nodes[*i] = Node::File(w[k % w.len()].clone());
                k /= w.len();
            }
            out.push((v.at_rest(), format!("of {n} unsynced directory entries {s:b}, of {} unsynced files some part", open.len())));
        }
    }
    out
}
pub fn listing(v: &Vfs) -> String {
    v.files().iter().map(|(n, c)| format!("{n} ({} bytes, {:x})", c.len(), h64(c) & 0xffff)).collect::<Vec<_>>().join(", ")
}
