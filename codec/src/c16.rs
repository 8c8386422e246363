//! C16: values and stores go through extractors and responses of a web server unchanged, however their bytes arrive, and nothing else gets through.
use crate::{
    ck::{h64, hex, Ck, L},
    corpus::*,
};
use axum::{
    body::{Body, Bytes},
    extract::{DefaultBodyLimit, FromRequest, Request},
    http::{header, StatusCode},
    response::{IntoResponse, Response},
    routing::post,
    Router,
};
use http_body::{Body as HttpBody, Frame, SizeHint};
use sourisdb::{
    axum::SourisRejection,
    store::Store,
    types::binary::BinaryData,
    utilities::cursor::Cursor,
    values::Value,
};
use std::{
    collections::VecDeque,
    future::Future,
    pin::{pin, Pin},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};
use tower_service::Service;

///What happens to a body at a poll.
#[derive(Clone, Debug)]
enum Step {
    Data(Vec<u8>),
    ///nothing yet
    Later,
    Fails,
    Trailers,
}
struct Slow {
    steps: VecDeque<Step>,
    ///how much there is going to be, if that is told
    told: Option<u64>,
}
impl HttpBody for Slow {
    type Data = Bytes;
    type Error = std::io::Error;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Bytes>, Self::Error>>> {
        match self.steps.pop_front() {
            None => Poll::Ready(None),
            Some(Step::Data(d)) => Poll::Ready(Some(Ok(Frame::data(Bytes::from(d))))),
            Some(Step::Later) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(Step::Fails) => Poll::Ready(Some(Err(std::io::Error::other("connection reset")))),
            Some(Step::Trailers) => Poll::Ready(Some(Ok(Frame::trailers(axum::http::HeaderMap::new())))),
        }
    }
    fn size_hint(&self) -> SizeHint {
        self.told.map_or_else(SizeHint::default, SizeHint::with_exact)
    }
}
fn slow(steps: Vec<Step>) -> Body {
    Body::new(Slow { steps: steps.into(), told: None })
}
fn told(steps: Vec<Step>) -> Body {
    let n = steps.iter().map(|s| if let Step::Data(d) = s { d.len() as u64 } else { 0 }).sum();
    Body::new(Slow { steps: steps.into(), told: Some(n) })
}

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}
///Polls to the end. What waits without having been woken would wait forever.
fn finish<F: Future>(f: F) -> F::Output {
    let woken = Arc::new(Count(AtomicUsize::new(1)));
    let waker = Waker::from(woken.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    loop {
        assert!(woken.0.swap(0, Ordering::Relaxed) > 0, "waits without anybody to wake it");
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}
struct Answer {
    status: StatusCode,
    kind: Option<String>,
    body: Vec<u8>,
}
fn answer(r: Response) -> Answer {
    let (p, b) = r.into_parts();
    let body = finish(axum::body::to_bytes(b, usize::MAX)).expect("a response could not be read").to_vec();
    Answer { status: p.status, kind: p.headers.get(header::CONTENT_TYPE).and_then(|k| k.to_str().ok()).map(str::to_string), body }
}
fn request(b: Body) -> Request {
    Request::builder().method("POST").uri("/").body(b).unwrap()
}

///What goes through: a value or a store.
trait Goods: FromRequest<(), Rejection = SourisRejection> + IntoResponse + Send + 'static {
    const KIND: &'static str;
    ///the kind of rejection for bytes which are not one
    fn refused(r: &SourisRejection) -> bool;
    fn of(v: &Value) -> Self;
    fn is(&self, v: &Value) -> bool;
    fn bytes(&self) -> Vec<u8>;
    fn parse(b: &[u8]) -> Option<Self>;
    fn text(&self) -> String;
}
impl Goods for Value {
    const KIND: &'static str = "value";
    fn refused(r: &SourisRejection) -> bool {
        matches!(r, SourisRejection::Value(_))
    }
    fn of(v: &Value) -> Self {
        v.clone()
    }
    fn is(&self, v: &Value) -> bool {
        exact(self, v)
    }
    fn bytes(&self) -> Vec<u8> {
        self.ser(None)
    }
    fn parse(b: &[u8]) -> Option<Self> {
        Value::deser(&mut Cursor::new(&b), None).ok()
    }
    fn text(&self) -> String {
        name(self)
    }
}
fn as_map(s: &Store) -> Value {
    Value::Map((**s).clone())
}
impl Goods for Store {
    const KIND: &'static str = "store";
    fn refused(r: &SourisRejection) -> bool {
        matches!(r, SourisRejection::Store(_))
    }
    fn of(v: &Value) -> Self {
        let m = match v {
            Value::Map(m) => m.clone(),
            v => {
                let Value::Map(m) = map_of(vec![("k".to_string(), v.clone())]) else { unreachable!() };
                m
            }
        };
        Store::new(m)
    }
    fn is(&self, v: &Value) -> bool {
        exact(&as_map(self), &as_map(&Self::of(v)))
    }
    fn bytes(&self) -> Vec<u8> {
        self.ser()
    }
    fn parse(b: &[u8]) -> Option<Self> {
        Store::deser(b).ok()
    }
    fn text(&self) -> String {
        name(&as_map(self))
    }
}

fn extract<T: Goods>(b: Body) -> Result<T, SourisRejection> {
    finish(T::from_request(request(b), &()))
}
///What else a request may say about itself, none of which changes what its body is.
fn said(b: &[u8]) -> Vec<Request> {
    let kinds = [None, Some("application/octet-stream"), Some("application/json"), Some("text/plain; charset=utf-8"), Some("application/x-www-form-urlencoded"), Some("*/*")];
    let others: [&[(header::HeaderName, &str)]; 5] =
        [&[], &[(header::ACCEPT, "application/json")], &[(header::ACCEPT_ENCODING, "gzip, br")], &[(header::EXPECT, "100-continue")], &[(header::USER_AGENT, "x"), (header::CACHE_CONTROL, "no-cache")]];
    let mut v = Vec::new();
    for method in ["POST", "PUT", "PATCH", "GET", "DELETE"] {
        for kind in kinds {
            for length in [false, true] {
                for more in others {
                    for uri in ["/", "/add_kv?db_name=a&key=%00"] {
                        let body = if length { told(vec![Step::Data(b.to_vec())]) } else { slow(vec![Step::Data(b.to_vec())]) };
                        let mut r = Request::builder().method(method).uri(uri);
                        if let Some(kind) = kind {
                            r = r.header(header::CONTENT_TYPE, kind);
                        }
                        if length {
                            r = r.header(header::CONTENT_LENGTH, b.len());
                        }
                        for (k, x) in more {
                            r = r.header(k.clone(), *x);
                        }
                        v.push(r.body(body).unwrap());
                    }
                }
            }
        }
    }
    v
}
fn spoken<T: Goods>(l: &mut L, v: &Value, key: &dyn Fn() -> String) {
    let b = T::of(v).bytes();
    for r in said(&b) {
        let what = format!("{} {:?}", r.method(), r.headers());
        l.call(1);
        match finish(T::from_request(r, &())) {
            Ok(x) => drop(l.check(x.is(v), || format!("{}:{}:said", T::KIND, key()), || format!("{} with {what}", x.text()))),
            Err(e) => l.fail(format!("{}:{}:said", T::KIND, key()), format!("{e} with {what}")),
        }
    }
    //nothing a request says makes something of what is nothing
    for b in [&b[..b.len() - 1], b"", b"null", b"{}"] {
        let want = T::parse(b);
        for r in said(b) {
            let what = format!("{} {:?}", r.method(), r.headers());
            l.call(1);
            match (finish(T::from_request(r, &())), &want) {
                (Ok(x), Some(w)) => drop(l.check(x.text() == w.text(), || format!("{}:{}:said", T::KIND, hex(b)), || format!("{} with {what}", x.text()))),
                (Ok(x), None) => l.fail(format!("{}:{}:said", T::KIND, hex(b)), format!("{} with {what}", x.text())),
                (Err(e), None) => drop(l.check(T::refused(&e) && e.status() == StatusCode::BAD_REQUEST, || format!("{}:{}:said", T::KIND, hex(b)), || format!("{} {e} with {what}", e.status()))),
                (Err(e), Some(_)) => l.fail(format!("{}:{}:said", T::KIND, hex(b)), format!("{e} with {what}")),
            }
        }
    }
}
///A server which gives back what it got.
fn server<T: Goods>(limit: Option<DefaultBodyLimit>) -> Router {
    let r = Router::new().route("/", post(|t: T| async move { t }));
    match limit {
        Some(l) => r.layer(l),
        None => r,
    }
}
fn ask(r: &Router, b: Body) -> Answer {
    let mut r = r.clone();
    answer(finish(Service::call(&mut r, request(b))).unwrap())
}

///All the ways a body may arrive: in one to three parts, with pauses, empty parts and trailers.
fn arrivals(b: &[u8], all: bool) -> Vec<Vec<Step>> {
    use Step::{Data, Later, Trailers};
    let mut v = vec![
        vec![Data(b.to_vec())],
        vec![Later, Data(b.to_vec())],
        vec![Data(b.to_vec()), Later],
        vec![Data(vec![]), Data(b.to_vec()), Data(vec![])],
        vec![Data(b.to_vec()), Trailers],
        b.iter().map(|x| Data(vec![*x])).collect(),
        b.iter().flat_map(|x| [Later, Data(vec![*x]), Later]).collect(),
    ];
    if b.is_empty() {
        v.push(vec![]);
    }
    let n = b.len();
    let firsts: Vec<usize> = if n <= 400 { (1..n).collect() } else { vec![1, 2, n / 2, n - 1] };
    for i in firsts {
        v.push(vec![Data(b[..i].to_vec()), Data(b[i..].to_vec())]);
        v.push(vec![Data(b[..i].to_vec()), Later, Data(b[i..].to_vec())]);
        v.push(vec![Data(b[..i].to_vec()), Data(vec![]), Data(b[i..].to_vec())]);
        if all && n <= 40 {
            for j in i + 1..n {
                v.push(vec![Data(b[..i].to_vec()), Data(b[i..j].to_vec()), Data(b[j..].to_vec())]);
                v.push(vec![Data(b[..i].to_vec()), Later, Data(b[i..j].to_vec()), Later, Data(b[j..].to_vec())]);
            }
        }
    }
    v
}

fn through<T: Goods>(l: &mut L, v: &Value, all: bool, key: &dyn Fn() -> String) {
    let k = || format!("{}:{}", T::KIND, key());
    //out
    let a = answer(T::of(v).into_response());
    l.call(1);
    l.saw(h64(&a.body[..a.body.len().min(16)]));
    l.check(a.status == StatusCode::OK, || format!("{}:status", k()), || a.status.to_string());
    l.check(a.kind.as_deref() == Some("application/octet-stream"), || format!("{}:type", k()), || format!("{:?}", a.kind));
    match T::parse(&a.body) {
        Some(x) => drop(l.check(x.is(v), || format!("{}:response", k()), || format!("{} from {}", x.text(), hex(&a.body)))),
        None => l.fail(format!("{}:response", k()), format!("cannot be read: {}", hex(&a.body))),
    }
    //in, in every way
    let s = server::<T>(None);
    for (i, steps) in arrivals(&a.body, all).into_iter().enumerate() {
        for b in [slow(steps.clone()), told(steps.clone())] {
            l.call(1);
            match extract::<T>(b) {
                Ok(x) => drop(l.check(x.is(v), || format!("{}:arrival{i}", k()), || format!("{} from {steps:?}", x.text()))),
                Err(e) => l.fail(format!("{}:arrival{i}", k()), format!("{e} from {steps:?}")),
            }
        }
        if i < 7 {
            l.call(1);
            let r = ask(&s, slow(steps.clone()));
            l.check(r.status == StatusCode::OK && T::parse(&r.body).is_some_and(|x| x.is(v)), || format!("{}:served{i}", k()), || format!("{} {} from {steps:?}", r.status, hex(&r.body)));
        }
    }
}
///Whatever the bytes are: what the decoder makes of them, or a refusal which says so.
fn bytes_in<T: Goods>(l: &mut L, s: &Router, b: &[u8]) {
    let k = || format!("{}:{}", T::KIND, hex(b));
    l.call(2);
    let want = T::parse(b);
    l.saw(u64::from(want.is_some()));
    let got = extract::<T>(slow(vec![Step::Data(b.to_vec())]));
    match (&want, got) {
        (Some(w), Ok(g)) => drop(l.check(w.text() == g.text(), || format!("{}:other", k()), || g.text())),
        (None, Ok(g)) => l.fail(format!("{}:accepted", k()), g.text()),
        (Some(_), Err(e)) => l.fail(format!("{}:refused", k()), e.to_string()),
        (None, Err(e)) => {
            l.check(T::refused(&e), || format!("{}:rejection", k()), || e.to_string());
            l.check(e.status() == StatusCode::BAD_REQUEST, || format!("{}:status", k()), || e.status().to_string());
            let (text, shown) = (e.body_text(), e.to_string());
            l.check(!text.is_empty() && text == shown, || format!("{}:text", k()), || format!("{text:?} {shown:?}"));
            let a = answer(e.into_response());
            l.check(a.status == StatusCode::BAD_REQUEST && a.body == text.as_bytes(), || format!("{}:answer", k()), || format!("{} {:?}", a.status, String::from_utf8_lossy(&a.body)));
        }
    }
    let a = ask(s, slow(vec![Step::Data(b.to_vec())]));
    match want {
        Some(w) => drop(l.check(a.status == StatusCode::OK && T::parse(&a.body).is_some_and(|x| x.text() == w.text()), || format!("{}:served", k()), || format!("{} {}", a.status, hex(&a.body)))),
        None => drop(l.check(a.status == StatusCode::BAD_REQUEST, || format!("{}:served", k()), || format!("{} {}", a.status, hex(&a.body)))),
    }
}
///A body that ends in a failure is refused wherever that is, even if everything had arrived by then.
fn broken<T: Goods>(l: &mut L, v: &Value, key: &dyn Fn() -> String) {
    let b = T::of(v).bytes();
    let s = server::<T>(None);
    let at: Vec<usize> = if b.len() <= 400 { (0..=b.len()).collect() } else { vec![0, 1, b.len() / 2, b.len() - 1, b.len()] };
    for i in at {
        for later in [false, true] {
            let mut steps = vec![Step::Data(b[..i].to_vec())];
            if later {
                steps.push(Step::Later);
            }
            steps.push(Step::Fails);
            let k = || format!("{}:{}:{i}:{later}", T::KIND, key());
            l.call(2);
            match extract::<T>(slow(steps.clone())) {
                Ok(x) => l.fail(format!("{}:accepted", k()), x.text()),
                Err(e) => {
                    l.check(matches!(e, SourisRejection::CouldNotGetBytes(_)), || format!("{}:rejection", k()), || e.to_string());
                    l.check(e.status() == StatusCode::BAD_REQUEST, || format!("{}:status", k()), || e.status().to_string());
                    l.check(e.body_text() == e.to_string() && !e.body_text().is_empty(), || format!("{}:text", k()), || e.body_text());
                }
            }
            let a = ask(&s, slow(steps));
            l.check(a.status == StatusCode::BAD_REQUEST, || format!("{}:served", k()), || a.status.to_string());
        }
    }
}
///A server's limit for bodies is kept to the byte, and said so.
fn limited<T: Goods>(l: &mut L, v: &Value, limits: &[Option<usize>], key: &dyn Fn() -> String) {
    let b = T::of(v).bytes();
    for limit in limits {
        let s = server::<T>(limit.map(DefaultBodyLimit::max));
        let fits = b.len() <= limit.unwrap_or(2 << 20);
        let half = b.len() / 2;
        for steps in [vec![Step::Data(b.clone())], vec![Step::Data(b[..half].to_vec()), Step::Later, Step::Data(b[half..].to_vec())]] {
            l.call(1);
            let a = ask(&s, slow(steps));
            let k = || format!("{}:{}:{limit:?}", T::KIND, key());
            if fits {
                l.check(a.status == StatusCode::OK && T::parse(&a.body).is_some_and(|x| x.is(v)), || format!("{}:fits", k()), || format!("{} {}", a.status, hex(&a.body)));
            } else {
                l.check(a.status == StatusCode::PAYLOAD_TOO_LARGE, || format!("{}:too-large", k()), || a.status.to_string());
            }
        }
    }
    let s = server::<T>(Some(DefaultBodyLimit::disable()));
    let a = ask(&s, slow(vec![Step::Data(b)]));
    l.check(a.status == StatusCode::OK && T::parse(&a.body).is_some_and(|x| x.is(v)), || format!("{}:{}:unlimited", T::KIND, key()), || a.status.to_string());
}

fn key_of(v: &Value) -> String {
    name(v).replace(' ', "_")
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let ls = leaves();
    ck.section("leaves", "every boundary leaf as a value and in a store: as a response, and arriving whole, in every two parts, byte by byte, with pauses, empty parts and trailers", ls.len() as u64, |i, l| {
        let v = &ls[i as usize];
        l.case(&i, true);
        through::<Value>(l, v, t, &|| key_of(v));
        through::<Store>(l, v, t, &|| key_of(v));
    });
    let ts = trees(if t { 4 } else { 3 }, &tiny_leaves());
    ck.section("trees", "every tree up to the depth bound, likewise, in every two and three parts", ts.len() as u64, |i, l| {
        let v = &ts[i as usize];
        l.case(&i, true);
        through::<Value>(l, v, true, &|| format!("{i}"));
        through::<Store>(l, v, true, &|| format!("{i}"));
    });

    let n = if t { 3 } else { 2 };
    let (sv, ss) = (server::<Value>(None), server::<Store>(None));
    ck.section("short-bodies", "every body up to the length bound: what the decoder says, or a refusal of the documented kind, status and text", string_count(256, n), |i, l| {
        let b = nth_string(i, 256);
        l.case(&i, true);
        bytes_in::<Value>(l, &sv, &b);
        bytes_in::<Store>(l, &ss, &b);
    });
    let fs = few_leaves();
    ck.section("spoiled-bodies", "encodings of values and stores cut anywhere, continued, and with any byte replaced by boundary ones, likewise", fs.len() as u64, |i, l| {
        let v = &fs[i as usize];
        l.case(&i, true);
        fn each<T: Goods>(l: &mut L, s: &Router, b: Vec<u8>) {
            for cut in 0..b.len() {
                bytes_in::<T>(l, s, &b[..cut]);
            }
            for more in [0_u8, 1, 0x7F, 0xFF] {
                bytes_in::<T>(l, s, &[&b[..], &[more]].concat());
            }
            for at in 0..b.len().min(40) {
                for x in [0_u8, 1, 0x0F, 0x7F, 0x80, 0xF0, 0xFF, b[at] ^ 0x10] {
                    let mut b = b.clone();
                    b[at] = x;
                    bytes_in::<T>(l, s, &b);
                }
            }
        }
        each::<Value>(l, &sv, Value::of(v).bytes());
        each::<Store>(l, &ss, Store::of(v).bytes());
    });

    ck.section("headers", "every combination of method, target, type, length and other headers, around whole, cut and foreign bodies", fs.len() as u64, |i, l| {
        let v = &fs[i as usize];
        l.case(&i, true);
        spoken::<Value>(l, v, &|| key_of(v));
        spoken::<Store>(l, v, &|| key_of(v));
    });
    ck.section("broken-bodies", "bodies which fail after every number of bytes, the whole encoding included", fs.len() as u64, |i, l| {
        let v = &fs[i as usize];
        l.case(&i, true);
        broken::<Value>(l, v, &|| key_of(v));
        broken::<Store>(l, v, &|| key_of(v));
    });
    ck.section("limits", "every limit from 0 to beyond the length of the encoding", fs.len() as u64, |i, l| {
        let v = &fs[i as usize];
        l.case(&i, true);
        let limits = |n: usize| (0..=n + 2).map(Some).collect::<Vec<_>>();
        limited::<Value>(l, v, &limits(Value::of(v).bytes().len()), &|| key_of(v));
        limited::<Store>(l, v, &limits(Store::of(v).bytes().len()), &|| key_of(v));
    });
    //incompressible
    let noise = |n: usize| {
        let mut x = 0x9E37_79B9_7F4A_7C15_u64;
        Value::Binary(BinaryData(
            (0..n)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 32) as u8
                })
                .collect(),
        ))
    };
    let over = if t { 40 } else { 12 };
    ck.section("large-bodies", "values around the usual limit of two megabytes, with that limit, higher ones and none", over * 2, |i, l| {
        l.case(&i, true);
        let v = noise((2 << 20) - over as usize + i as usize);
        let limits = [None, Some((2 << 20) + 64)];
        limited::<Value>(l, &v, &limits, &|| format!("large{i}"));
        if i % 6 == 0 || t {
            limited::<Store>(l, &v, &limits, &|| format!("large{i}"));
        }
    });
}
