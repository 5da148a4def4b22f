//! The simulated network.
//!
//! One RPC: the request (all frames the caller has ready; later frames of a
//! stream follow as they are produced) travels for `simrt::LATENCY`, then a
//! task on the destination node runs the real service, then the response
//! travels back. Requests and responses are lost when the link is cut, when the
//! destination is down, or when the explorer decides so.

use crate::body::BoxBody;
use bytes::Bytes;
pub use http::Uri;
use http_body::{Body, Frame};
use http_body_util::BodyExt;
use simrt::{oneshot, sim, Class, SendFut, Sim};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub struct Error {
    msg: String,
}
impl Error {
    fn new(m: impl Into<String>) -> Self {
        Error { msg: m.into() }
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "transport::Error({})", self.msg)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "transport error: {}", self.msg)
    }
}
impl std::error::Error for Error {}

#[derive(Clone)]
pub struct Endpoint {
    uri: Uri,
    timeout: Option<Duration>,
}
impl fmt::Debug for Endpoint {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Endpoint({})", self.uri)
    }
}
impl Endpoint {
    pub fn new<D>(dst: D) -> Result<Self, Error>
    where
        D: TryInto<Self>,
        D::Error: Into<Box<dyn std::error::Error + Send + Sync>>,
    {
        dst.try_into().map_err(|e| Error::new(e.into().to_string()))
    }
    pub fn from_static(s: &'static str) -> Self {
        Endpoint { uri: Uri::from_static(s), timeout: None }
    }
    pub fn from_shared(s: impl Into<Bytes>) -> Result<Self, Error> {
        let uri = Uri::from_maybe_shared(s.into()).map_err(|e| Error::new(e.to_string()))?;
        Ok(Endpoint { uri, timeout: None })
    }
    pub fn uri(&self) -> &Uri {
        &self.uri
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.timeout = Some(d);
        self
    }
    pub fn http2_keep_alive_interval(self, _: Duration) -> Self {
        self
    }
    pub fn keep_alive_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn keep_alive_while_idle(self, _: bool) -> Self {
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn tcp_keepalive(self, _: Option<Duration>) -> Self {
        self
    }
    pub fn tcp_nodelay(self, _: bool) -> Self {
        self
    }
    pub fn concurrency_limit(self, _: usize) -> Self {
        self
    }
    pub fn buffer_size(self, _: impl Into<Option<usize>>) -> Self {
        self
    }
    pub fn initial_stream_window_size(self, _: impl Into<Option<u32>>) -> Self {
        self
    }
    pub fn initial_connection_window_size(self, _: impl Into<Option<u32>>) -> Self {
        self
    }
    pub fn connect_lazy(&self) -> Channel {
        Channel { dst: Arc::from(self.uri.to_string().as_str()), timeout: self.timeout }
    }
    pub async fn connect(&self) -> Result<Channel, Error> {
        Ok(self.connect_lazy())
    }
}
impl From<Uri> for Endpoint {
    fn from(uri: Uri) -> Self {
        Endpoint { uri, timeout: None }
    }
}
impl TryFrom<Bytes> for Endpoint {
    type Error = http::uri::InvalidUri;
    fn try_from(t: Bytes) -> Result<Self, Self::Error> {
        Ok(Uri::from_maybe_shared(t)?.into())
    }
}
impl TryFrom<String> for Endpoint {
    type Error = http::uri::InvalidUri;
    fn try_from(t: String) -> Result<Self, Self::Error> {
        Ok(t.parse::<Uri>()?.into())
    }
}
impl<'a> TryFrom<&'a str> for Endpoint {
    type Error = http::uri::InvalidUri;
    fn try_from(t: &'a str) -> Result<Self, Self::Error> {
        Ok(t.parse::<Uri>()?.into())
    }
}

pub mod channel {
    pub use super::{Channel, Endpoint};
}
pub use channel::Channel as _Channel;

#[derive(Clone)]
pub struct Channel {
    dst: Arc<str>,
    timeout: Option<Duration>,
}
impl Channel {
    pub fn from_static(s: &'static str) -> Endpoint {
        Endpoint::from_static(s)
    }
    pub fn from_shared(s: impl Into<Bytes>) -> Result<Endpoint, Error> {
        Endpoint::from_shared(s)
    }
    pub fn builder(uri: Uri) -> Endpoint {
        Endpoint::from(uri)
    }
}
impl fmt::Debug for Channel {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Channel({})", self.dst)
    }
}

// ---- the registry of servers ------------------------------------------------

pub type HandlerFut = Pin<Box<dyn Future<Output = http::Response<BoxBody>>>>;
pub type Handler = Rc<dyn Fn(http::Request<BoxBody>) -> HandlerFut>;

/// What the network shows to the harness.
pub enum Event<'a> {
    /// unary request, or one frame of a streaming request, as it leaves
    Sent { src: u32, dst: u32, path: &'a str, frame: &'a [u8] },
    /// the request reaches the service
    Delivered { src: u32, dst: u32, path: &'a str, frame: &'a [u8] },
    /// a response leaves the destination (`req`: first frame of the request)
    Answered { src: u32, dst: u32, path: &'a str, req: &'a [u8], frame: &'a [u8] },
    /// the response reaches the caller
    Returned { src: u32, dst: u32, path: &'a str, req: &'a [u8], frame: &'a [u8] },
}
pub type Observer = Rc<dyn Fn(&Event)>;

thread_local! {
    static SERVERS: RefCell<BTreeMap<String, (u32, Handler)>> = const { RefCell::new(BTreeMap::new()) };
    static NAMES: RefCell<BTreeMap<String, u32>> = const { RefCell::new(BTreeMap::new()) };
    static OBSERVER: RefCell<Option<Observer>> = const { RefCell::new(None) };
}
fn key(s: &str) -> String {
    let s = s.split("//").last().unwrap();
    s.trim_end_matches('/').to_string()
}
pub fn set_name(uri: &str, node: u32) {
    NAMES.with(|n| n.borrow_mut().insert(key(uri), node));
}
pub fn set_server(uri: &str, node: u32, h: Option<Handler>) {
    set_name(uri, node);
    let old = SERVERS.with(|s| match h {
        Some(h) => s.borrow_mut().insert(key(uri), (node, h)),
        None => s.borrow_mut().remove(&key(uri)),
    });
    drop(old);
}
pub fn set_observer(o: Option<Observer>) {
    OBSERVER.with(|c| *c.borrow_mut() = o);
}
pub fn reset_network() {
    let a = SERVERS.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let b = NAMES.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let c = OBSERVER.with(|s| s.borrow_mut().take());
    drop((a, b, c));
}
fn observe(e: Event) {
    let o = OBSERVER.with(|o| o.borrow().clone());
    if let Some(o) = o {
        o(&e)
    }
}

/// Make a real tonic service reachable.
pub fn serve<S, B>(svc: S) -> Handler
where
    S: tower_service::Service<
            http::Request<BoxBody>,
            Response = http::Response<B>,
            Error = std::convert::Infallible,
        > + Clone
        + 'static,
    S::Future: 'static,
    B: Body<Data = Bytes> + Send + 'static,
    B::Error: Into<Box<dyn std::error::Error + Send + Sync>>,
{
    Rc::new(move |req| {
        let mut svc = svc.clone();
        Box::pin(async move {
            let fut = svc.call(req);
            let r = match fut.await {
                Ok(r) => r,
                Err(e) => match e {},
            };
            r.map(|b| {
                b.map_err(|e| real_tonic::Status::from_error(e.into())).boxed_unsync()
            })
        })
    })
}

// ---- bodies -----------------------------------------------------------------

type Item = Result<Frame<Bytes>, real_tonic::Status>;
struct PipeInner {
    q: VecDeque<Item>,
    eof: bool,
    waker: Option<Waker>,
}
#[derive(Clone)]
struct Pipe(Arc<Mutex<PipeInner>>);
impl Pipe {
    fn new() -> Self {
        Pipe(Arc::new(Mutex::new(PipeInner { q: VecDeque::new(), eof: false, waker: None })))
    }
    fn push(&self, it: Item) {
        let w = {
            let mut i = self.0.lock().unwrap();
            i.q.push_back(it);
            i.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    fn close(&self) {
        let w = {
            let mut i = self.0.lock().unwrap();
            i.eof = true;
            i.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}
/// The writing end; if it goes away early the reader sees a broken stream.
struct PipeWriter(Pipe);
impl Drop for PipeWriter {
    fn drop(&mut self) {
        let open = !self.0 .0.lock().unwrap().eof;
        if open {
            self.0.push(Err(real_tonic::Status::cancelled("stream reset")));
            self.0.close();
        }
    }
}
struct PipeBody(Pipe);
impl Body for PipeBody {
    type Data = Bytes;
    type Error = real_tonic::Status;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Item>> {
        let mut i = self.0 .0.lock().unwrap();
        if let Some(f) = i.q.pop_front() {
            return Poll::Ready(Some(f));
        }
        if i.eof {
            return Poll::Ready(None);
        }
        i.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
/// A body made of frames that are already there.
pub fn ready_body(frames: Vec<Item>) -> BoxBody {
    let p = Pipe::new();
    for f in frames {
        p.push(f);
    }
    p.close();
    PipeBody(p).boxed_unsync()
}

struct AbortOnDrop(Option<usize>);
impl Drop for AbortOnDrop {
    fn drop(&mut self) {
        if let Some(id) = self.0.take() {
            if simrt::active() {
                sim().abort(id)
            }
        }
    }
}

struct CloseOnDrop<T>(Rc<Cell<Option<T>>>);
impl<T> Drop for CloseOnDrop<T> {
    fn drop(&mut self) {
        drop(self.0.take());
    }
}

async fn link_wait(s: &Rc<Sim>, from: u32, to: u32) -> bool {
    simrt::sleep_ns(simrt::LATENCY).await;
    s.is_alive(to) && !s.link_down(from, to)
}

fn is_request_stream(path: &str) -> bool {
    path.ends_with("/SendReplicationStream")
}

async fn call(dst_uri: Arc<str>, req: http::Request<BoxBody>, ep_timeout: Option<Duration>) -> Result<http::Response<BoxBody>, Error> {
    let s = sim();
    let path = req.uri().path().to_string();
    let hdr_timeout = req.headers().get("grpc-timeout").and_then(|v| v.to_str().ok()).and_then(parse_timeout);
    let limit = match (hdr_timeout, ep_timeout) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, b) => a.or(b),
    };
    let fut = call_inner(s, dst_uri, req, path);
    match limit {
        None => fut.await,
        Some(d) => {
            let mut fut = Box::pin(fut);
            let mut sl = simrt::sleep_ns(d.as_nanos() as u64);
            std::future::poll_fn(move |cx| {
                if let Poll::Ready(r) = fut.as_mut().poll(cx) {
                    return Poll::Ready(r);
                }
                match Pin::new(&mut sl).poll(cx) {
                    Poll::Ready(()) => Poll::Ready(Err(Error::new("timeout expired"))),
                    Poll::Pending => Poll::Pending,
                }
            })
            .await
        }
    }
}
fn parse_timeout(s: &str) -> Option<Duration> {
    if s.len() < 2 {
        return None;
    }
    let (n, u) = s.split_at(s.len() - 1);
    let n: u64 = n.parse().ok()?;
    Some(match u {
        "H" => Duration::from_secs(n * 3600),
        "M" => Duration::from_secs(n * 60),
        "S" => Duration::from_secs(n),
        "m" => Duration::from_millis(n),
        "u" => Duration::from_micros(n),
        "n" => Duration::from_nanos(n),
        _ => return None,
    })
}

async fn call_inner(s: Rc<Sim>, dst_uri: Arc<str>, req: http::Request<BoxBody>, path: String) -> Result<http::Response<BoxBody>, Error> {
    let src = s.cur_node();
    let k = key(&dst_uri);
    let dst = NAMES.with(|n| n.borrow().get(&k).copied());
    let Some(dst) = dst else {
        simrt::sleep_ns(s.fail_delay.get()).await;
        return Err(Error::new(format!("unknown host {k}")));
    };
    s.msgs.set(s.msgs.get() + 1);
    let fail = |m: &'static str| {
        let s = s.clone();
        async move {
            simrt::sleep_ns(s.fail_delay.get()).await;
            Err(Error::new(m))
        }
    };
    if s.link_down(src, dst) {
        return fail("unreachable").await;
    }
    let short = path.rsplit('/').next().unwrap_or("").to_string();
    let fate = if src < 64 && dst < 64 && src != dst {
        let streamed = short == "GetSnapshot" || is_request_stream(&path);
        s.choose(Class::Drop, if streamed { 4 } else { 3 }, || format!("{short} n{src}->n{dst}"))
    } else {
        0
    };

    // Collect the request.
    let (parts, mut body) = req.into_parts();
    let pipe = Pipe::new();
    let mut pump_guard = AbortOnDrop(None);
    if is_request_stream(&path) {
        let p2 = PipeWriter(pipe.clone());
        let path2 = path.clone();
        let s2 = s.clone();
        let id = s.spawn_with(src, PipeWriter(pipe.clone()), async move {
            let mut n_frames = 0;
            loop {
                if fate == 3 && n_frames == 2 {
                    // the stream breaks after the header and the first entry
                    p2.0.push(Err(real_tonic::Status::unavailable("stream cut")));
                    break;
                }
                n_frames += 1;
                match body.frame().await {
                    None => break,
                    Some(Ok(f)) => {
                        if let Some(d) = f.data_ref() {
                            observe(Event::Sent { src, dst, path: &path2, frame: d });
                        }
                        if s2.link_down(src, dst) || !s2.is_alive(dst) {
                            p2.0.push(Err(real_tonic::Status::unavailable("link cut")));
                            break;
                        }
                        p2.0.push(Ok(f));
                    }
                    Some(Err(e)) => {
                        p2.0.push(Err(e));
                        break;
                    }
                }
            }
            p2.0.close();
        });
        pump_guard.0 = Some(id);
    } else {
        while let Some(f) = body.frame().await {
            let f = f.map_err(|e| Error::new(e.to_string()))?;
            if let Some(d) = f.data_ref() {
                observe(Event::Sent { src, dst, path: &path, frame: d });
            }
            pipe.push(Ok(f));
        }
        pipe.close();
    }
    s.log(|| format!("-> n{dst} {short}{}", ["", " (request lost)", " (response lost)", " (stream cut)"][fate as usize]));
    if fate == 1 {
        return fail("request lost").await;
    }
    if !link_wait(&s, src, dst).await {
        return fail("unreachable").await;
    }
    let h = SERVERS.with(|n| n.borrow().get(&k).map(|x| x.1.clone()));
    let Some(h) = h else {
        return fail("connection refused").await;
    };
    let (tx, rx) = oneshot::channel::<(http::response::Parts, Vec<Item>)>();
    let frames: Vec<Bytes> = pipe.0.lock().unwrap().q.iter().flatten().filter_map(|f| f.data_ref().cloned()).collect();
    for d in &frames {
        observe(Event::Delivered { src, dst, path: &path, frame: d });
    }
    let req0 = frames.first().cloned().unwrap_or_default();
    let req1 = req0.clone();
    let req = http::Request::from_parts(parts, PipeBody(pipe).boxed_unsync());
    let path2 = path.clone();
    let tx = Rc::new(Cell::new(Some(tx)));
    let id = s.spawn_with(dst, CloseOnDrop(tx.clone()), async move {
        if src < 64 {
            simrt::point(point_tag(&path2)).await;
        }
        let resp = h(req).await;
        let (parts, mut body) = resp.into_parts();
        let mut frames = vec![];
        while let Some(f) = body.frame().await {
            let end = f.is_err();
            if let Ok(f) = &f {
                if let Some(d) = f.data_ref() {
                    observe(Event::Answered { src, dst, path: &path2, req: &req1, frame: d });
                }
            }
            frames.push(f);
            if end {
                break;
            }
        }
        if let Some(tx) = tx.take() {
            tx.send((parts, frames));
        }
    });
    let mut guard = AbortOnDrop(Some(id));
    let out = rx.await;
    guard.0 = None;
    drop(pump_guard);
    let Some((parts, mut frames)) = out else {
        return fail("connection reset").await;
    };
    if fate == 2 {
        return fail("response lost").await;
    }
    if !link_wait(&s, dst, src).await {
        return fail("unreachable").await;
    }
    // it is on its way, whatever happens to the link now
    if src < 64 && src != dst && s.reply_points.get() {
        simrt::point(reply_tag(&path)).await;
    }
    if fate == 3 && !is_request_stream(&path) && !frames.is_empty() {
        // the stream breaks after its first frame
        frames.truncate(1);
        frames.push(Err(real_tonic::Status::unavailable("stream cut")));
    }
    for f in frames.iter().flatten() {
        if let Some(d) = f.data_ref() {
            observe(Event::Returned { src, dst, path: &path, req: &req0, frame: d });
        }
    }
    s.log(|| format!("<- n{dst} {short}"));
    Ok(http::Response::from_parts(parts, ready_body(frames)))
}

fn point_tag(path: &str) -> &'static str {
    match path.rsplit('/').next().unwrap_or("") {
        "RequestVote" => "rx:RequestVote",
        "SendReplicationStream" => "rx:SendReplicationStream",
        "SendHeartbeat" => "rx:SendHeartbeat",
        "GetSnapshot" => "rx:GetSnapshot",
        "SendTimeoutNow" => "rx:SendTimeoutNow",
        "ProcessKernRequest" => "rx:ProcessKernRequest",
        "Write" => "rx:Write",
        "Read" => "rx:Read",
        _ => "rx:other",
    }
}

fn reply_tag(path: &str) -> &'static str {
    match path.rsplit('/').next().unwrap_or("") {
        "RequestVote" => "reply:RequestVote",
        "SendReplicationStream" => "reply:SendReplicationStream",
        "SendHeartbeat" => "reply:SendHeartbeat",
        "GetSnapshot" => "reply:GetSnapshot",
        _ => "reply:other",
    }
}

impl tower_service::Service<http::Request<BoxBody>> for Channel {
    type Response = http::Response<BoxBody>;
    type Error = Error;
    type Future = Pin<Box<dyn Future<Output = Result<Self::Response, Error>> + Send>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: http::Request<BoxBody>) -> Self::Future {
        Box::pin(SendFut(call(self.dst.clone(), req, self.timeout)))
    }
}

/// Stand-in so that code which builds a server still compiles; never used here.
#[derive(Clone, Debug, Default)]
pub struct Server;
impl Server {
    pub fn builder() -> Self {
        Server
    }
}
