//! What the clients of the library say, in one form, and what they should.
use crate::model::{contents, show_store, value, Ans, Db, Op, State};
use sourisdb::{
    client::{AsyncClient, ClientError, CreationResult, SyncClient},
    store::Store,
};
use std::{cell::RefCell, future::Future};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Said {
    Names(Vec<String>),
    ///whether something was made, or removed
    Did(bool),
    Store(Db),
    NoStore,
    Created(String),
    Nothing,
    Status(u16),
    NotHealthy(u16),
    Error(String),
}

pub fn error(e: ClientError) -> Said {
    match e {
        ClientError::HttpErrorCode(s) => Said::Status(s.as_u16()),
        ClientError::ServerNotHealthy(s) => Said::NotHealthy(s.as_u16()),
        e => Said::Error(format!("{e:?}")),
    }
}
fn created(c: &CreationResult) -> Said {
    Said::Created(serde_json::to_value(c).ok().and_then(|v| v.as_str().map(str::to_string)).unwrap_or_default())
}
fn sorted(mut v: Vec<String>) -> Said {
    v.sort();
    Said::Names(v)
}
pub fn store_of(n: u8) -> Store {
    let mut s = Store::default();
    for (k, v) in contents(n) {
        s.insert(k.to_string(), value(v));
    }
    s
}

thread_local! {
    static RT: RefCell<Option<tokio::runtime::Runtime>> = const { RefCell::new(None) };
}
pub fn wait<F: Future>(f: F) -> F::Output {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        let rt = r.get_or_insert_with(|| tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime"));
        rt.block_on(f)
    })
}

#[derive(Clone)]
pub enum Client {
    Sync(SyncClient),
    Async(AsyncClient),
}
impl Client {
    pub fn new(port: u16, sync: bool) -> Result<Self, Said> {
        if sync {
            SyncClient::new("127.0.0.1", u32::from(port)).map(Client::Sync).map_err(error)
        } else {
            wait(AsyncClient::new("127.0.0.1", Some(u32::from(port)))).map(Client::Async).map_err(error)
        }
    }
    pub fn call(&self, o: &Op) -> Said {
        match self {
            Client::Sync(c) => match o {
                Op::Names => c.get_all_dbs().map(sorted),
                Op::Get(d) => c.get_store(d).map(|s| Said::Store(show_store(&s))),
                Op::Add { db, over } => c.create_new_db(*over, db).map(Said::Did),
                Op::Content { db, over, store } => c.add_db_with_contents(*over, db, &store_of(*store)).map(Said::Did),
                Op::Rm(d) => c.remove_db(d).map(|()| Said::Nothing),
                Op::AddKv { db, key, create, over, val } => c.add_entry_to_db(db, *create, *over, key, &value(*val)).map(|c| created(&c)),
                Op::RmKv(d, k) => c.remove_entry_from_db(d, k).map(|()| Said::Nothing),
                o => panic!("clients do not {o:?}"),
            },
            Client::Async(c) => wait(async {
                match o {
                    Op::Names => c.get_all_dbs().await.map(sorted),
                    Op::Get(d) => c.get_store(d).await.map(|s| s.map_or(Said::NoStore, |s| Said::Store(show_store(&s)))),
                    Op::Add { db, over } => c.create_new_db(*over, db).await.map(Said::Did),
                    Op::Content { db, over, store } => c.add_db_with_contents(*over, db, &store_of(*store)).await.map(Said::Did),
                    Op::Rm(d) => c.remove_db(d).await.map(Said::Did),
                    Op::AddKv { db, key, create, over, val } => c.add_entry_to_db(db, *create, *over, key, &value(*val)).await.map(|c| created(&c)),
                    Op::RmKv(d, k) => c.remove_entry_from_db(d, k).await.map(|()| Said::Nothing),
                    o => panic!("clients do not {o:?}"),
                }
            }),
        }
        .unwrap_or_else(error)
    }
    pub fn is_sync(&self) -> bool {
        matches!(self, Client::Sync(_))
    }
}

///What a client should say to what the daemon answers.
pub fn says(o: &Op, a: &Ans, sync: bool) -> Said {
    match (o, a) {
        (_, Ans::Names(n)) => Said::Names(n.clone()),
        (_, Ans::Db(d)) => Said::Store(d.clone()),
        (_, Ans::Created(c)) => Said::Created(c.clone()),
        (Op::Get(_), Ans::Status(410)) if !sync => Said::NoStore,
        (Op::Rm(_), Ans::Status(200)) => {
            if sync {
                Said::Nothing
            } else {
                Said::Did(true)
            }
        }
        (Op::Rm(_), Ans::Status(410)) if !sync => Said::Did(false),
        (Op::RmKv(..), Ans::Status(200)) => Said::Nothing,
        //to the asynchronous one it is enough that it is gone
        (Op::RmKv(..), Ans::Status(400 | 410)) if !sync => Said::Nothing,
        (Op::Add { .. } | Op::Content { .. }, Ans::Status(s @ (200 | 201))) => Said::Did(*s == 201),
        (_, Ans::Status(s)) => Said::Status(*s),
        (_, a) => Said::Error(format!("{a:?}")),
    }
}
///What the reference makes of it.
pub fn should(o: &Op, s: &mut State, sync: bool) -> Said {
    let a = o.apply(s);
    says(o, &a, sync)
}
