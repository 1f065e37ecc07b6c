//! An in-memory network: servers register their endpoint handlers with a
//! recording [`HttpServer`], and an [`HttpClient`] calls them.

use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::net::{SocketAddr, ToSocketAddrs};
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

use hyperborealib::http::client::Response as HttpResponse;
use hyperborealib::prelude::*;
use serde_json::Value as Json;

pub type BoxError = Box<dyn std::error::Error + Send + Sync>;
type Answer = Pin<Box<dyn Future<Output = Result<Json, String>> + Send>>;
type Handler = Arc<dyn Fn(SocketAddr, Json) -> Answer + Send + Sync>;

/// Endpoints registered by a server, by method and path.
#[derive(Clone, Default)]
pub struct Routes(Arc<Mutex<HashMap<(String, String), Handler>>>);

fn peer() -> SocketAddr { SocketAddr::from(([127, 0, 0, 1], 4000)) }

impl Routes {
    pub async fn call(&self, method: &str, path: &str, body: &Json) -> Result<Json, String> {
        let handler = self.0.lock().unwrap().get(&(method.to_string(), path.to_string())).cloned();
        let Some(handler) = handler else { return Err(format!("no endpoint {method} {path}")) };
        handler(peer(), body.clone()).await
    }
}

#[async_trait::async_trait]
impl HttpServer for Routes {
    async fn get<T: AsJson, F: Future<Output = T> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr) -> F + Clone + Send + Sync + 'static
    ) {
        let handler: Handler = Arc::new(move |peer, _| {
            let callback = callback.clone();
            let answer = async move { callback(peer).await.to_json().map_err(|err| err.to_string()) };
            // The callback is 'static, and so is what it returns.
            let answer: Pin<Box<dyn Future<Output = Result<Json, String>> + Send + '_>> = Box::pin(answer);
            unsafe { std::mem::transmute::<_, Answer>(answer) }
        });
        self.0.lock().unwrap().insert(("GET".into(), path.as_ref().to_string()), handler);
    }

    async fn post<T: AsJson, F: AsJson, R: Future<Output = F> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr, T) -> R + Clone + Send + Sync + 'static
    ) {
        let handler: Handler = Arc::new(move |peer, body| {
            let callback = callback.clone();
            let answer = async move {
                let answer = {
                    let request = T::from_json(&body).map_err(|err| format!("bad request: {err}"))?;
                    callback(peer, request)
                };
                answer.await.to_json().map_err(|err| err.to_string())
            };
            let answer: Pin<Box<dyn Future<Output = Result<Json, String>> + Send + '_>> = Box::pin(answer);
            unsafe { std::mem::transmute::<_, Answer>(answer) }
        });
        self.0.lock().unwrap().insert(("POST".into(), path.as_ref().to_string()), handler);
    }

    async fn serve(self, _: impl ToSocketAddrs + Send) -> Result<(), Box<dyn std::error::Error>> { Ok(()) }
}

/// An error with this text stands for an answer without a body.
pub const NO_BODY: &str = "(no body)";

#[derive(Debug, Clone)]
pub struct Exchange {
    pub method: &'static str,
    pub url: String,
    pub host: String,
    pub path: String,
    pub body: Json,
    pub answer: Option<Json>
}

type Hook = Arc<dyn Fn(&Exchange) -> Option<Result<Json, String>> + Send + Sync>;

#[derive(Default)]
struct Inner {
    servers: BTreeMap<String, Routes>,
    log: Vec<Exchange>,
    hook: Option<Hook>,
    limit: Option<usize>,
    over: bool
}

/// The client side of the network; all clones share it.
#[derive(Clone, Default)]
pub struct Net(Arc<Mutex<Inner>>);

impl Net {
    pub fn attach(&self, host: &str, routes: Routes) { self.0.lock().unwrap().servers.insert(host.to_string(), routes); }
    pub fn detach(&self, host: &str) { self.0.lock().unwrap().servers.remove(host); }

    /// Answer requests by a function instead; `None` passes them on.
    pub fn hook(&self, f: impl Fn(&Exchange) -> Option<Result<Json, String>> + Send + Sync + 'static) {
        self.0.lock().unwrap().hook = Some(Arc::new(f));
    }

    /// Fail every request after this many.
    pub fn limit(&self, n: usize) { self.0.lock().unwrap().limit = Some(n); }

    pub fn unhook(&self) { self.0.lock().unwrap().hook = None; }

    pub fn over(&self) -> bool { self.0.lock().unwrap().over }
    pub fn log(&self) -> Vec<Exchange> { self.0.lock().unwrap().log.clone() }
    pub fn take_log(&self) -> Vec<Exchange> { std::mem::take(&mut self.0.lock().unwrap().log) }

    async fn request(&self, method: &'static str, url: &str, body: Json) -> Result<HttpResponse, BoxError> {
        let rest = url.strip_prefix("http://").or_else(|| url.strip_prefix("https://")).ok_or_else(|| BoxError::from("builder error: relative URL without a base"));
        let (host, path) = match &rest {
            Ok(rest) => rest.find('/').map(|n| (rest[..n].to_string(), rest[n..].to_string())).unwrap_or((rest.to_string(), "/".into())),
            Err(_) => (String::new(), String::new())
        };
        // What goes over the wire is text.
        let body: Json = serde_json::from_str(&body.to_string())?;
        let mut exchange = Exchange { method, url: url.to_string(), host: host.clone(), path: path.clone(), body, answer: None };
        let (number, hook, routes, over) = {
            let mut inner = self.0.lock().unwrap();
            inner.log.push(exchange.clone());
            let number = inner.log.len() - 1;
            let over = inner.limit.is_some_and(|limit| inner.log.len() > limit);
            inner.over |= over;
            (number, inner.hook.clone(), inner.servers.get(&host).cloned(), over)
        };
        rest?;
        if over { return Err("too many requests".into()); }
        let answer = match hook.and_then(|hook| hook(&exchange)) {
            Some(answer) => answer,
            None => match routes {
                Some(routes) => routes.call(method, &path, &exchange.body).await,
                None => Err(format!("connection refused by {host}"))
            }
        };
        if answer.as_ref().err().map(String::as_str) == Some(NO_BODY) { return Ok(HttpResponse { status: 204, body: None }); }
        let answer: Json = serde_json::from_str(&answer.map_err(BoxError::from)?.to_string())?;
        exchange.answer = Some(answer.clone());
        if let Some(entry) = self.0.lock().unwrap().log.get_mut(number) { *entry = exchange; }
        Ok(HttpResponse { status: 200, body: Some(answer) })
    }
}

#[async_trait::async_trait]
impl HttpClient for Net {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, BoxError> {
        self.request("GET", url.as_ref(), Json::Null).await
    }

    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, BoxError> {
        self.request("POST", url.as_ref(), body).await
    }
}

pub type Driver = hyperborealib::drivers::ServerDriver<GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;
pub type Middleware = ServerMiddleware<Net, Routes, GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;

/// A server with its storage in a folder.
pub struct TestServer {
    pub key: SecretKey,
    pub host: String,
    pub folder: String,
    pub routes: Routes,
    pub middleware: Middleware
}

impl TestServer {
    /// Start (or restart) a server on a storage folder and attach it.
    pub async fn start(net: &Net, key: &SecretKey, host: &str, folder: &str) -> TestServer {
        let routes = Routes::default();
        let driver = hyperborealib::drivers::ServerDriver::new(
            GlobalTableRouter::new(PathBuf::from(folder).join("router")).await.unwrap(),
            BfsRecursionTraversal,
            StoredQueueMessagesInbox::new(PathBuf::from(folder).join("inbox")).await.unwrap(),
            ServerParams { secret_key: key.clone(), address: host.to_string() }
        );
        let middleware = ServerMiddleware::new(net.clone(), routes.clone(), driver).await;
        net.attach(host, routes.clone());
        TestServer { key: key.clone(), host: host.to_string(), folder: folder.to_string(), routes, middleware }
    }

    pub fn record(&self) -> hyperborealib::rest_api::prelude::Server {
        hyperborealib::rest_api::prelude::Server::new(self.key.public_key(), &self.host)
    }

    /// Call an endpoint with a request and parse the answer.
    pub async fn post<Q: AsJson, A: AsJson>(&self, path: &str, request: &Q) -> Result<A, String> {
        let body = request.to_json().map_err(|err| err.to_string())?;
        let answer = self.routes.call("POST", path, &body).await?;
        A::from_json(&answer).map_err(|err| err.to_string())
    }

    pub async fn get<A: AsJson>(&self, path: &str) -> Result<A, String> {
        let answer = self.routes.call("GET", path, &Json::Null).await?;
        A::from_json(&answer).map_err(|err| err.to_string())
    }
}
