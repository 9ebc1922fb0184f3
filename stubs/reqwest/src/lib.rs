//! Stand-in for `reqwest` (the HTTP transport).  Requests are validated the way
//! reqwest validates them (URL parse, header name/value conversion) and handed
//! to the responder that the harness installed, whose answer is arbitrary.
use std::sync::Mutex;
pub use http::{header, Method, StatusCode, Version};
pub use http::header::{HeaderMap, HeaderName, HeaderValue};
pub use url::Url;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug)]
pub struct Error { kind: &'static str }
impl Error {
    pub fn stub(kind: &'static str) -> Self { Error { kind } }
    pub fn is_timeout(&self) -> bool { false }
    pub fn is_connect(&self) -> bool { self.kind == "connect" }
    pub fn is_status(&self) -> bool { self.kind == "status" }
    pub fn is_builder(&self) -> bool { self.kind == "builder" }
    pub fn is_body(&self) -> bool { self.kind == "body" }
    pub fn status(&self) -> Option<StatusCode> { None }
    pub fn without_url(self) -> Self { self }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.kind) }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug, Default)]
pub struct Body(Vec<u8>);
impl Body { pub fn as_bytes(&self) -> Option<&[u8]> { Some(&self.0) } }
impl From<String> for Body { fn from(s: String) -> Self { Body(s.into_bytes()) } }
impl From<&'static str> for Body { fn from(s: &'static str) -> Self { Body(s.as_bytes().to_vec()) } }
impl From<Vec<u8>> for Body { fn from(s: Vec<u8>) -> Self { Body(s) } }
impl From<&'static [u8]> for Body { fn from(s: &'static [u8]) -> Self { Body(s.to_vec()) } }
impl From<bytes::Bytes> for Body { fn from(s: bytes::Bytes) -> Self { Body(s.to_vec()) } }

pub trait IntoUrl { fn into_url(self) -> Result<Url>; }
impl IntoUrl for Url { fn into_url(self) -> Result<Url> { if self.has_host() { Ok(self) } else { Err(Error::stub("builder")) } } }
impl IntoUrl for &str { fn into_url(self) -> Result<Url> { Url::parse(self).map_err(|_| Error::stub("builder"))?.into_url() } }
impl IntoUrl for &String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }

#[derive(Debug)]
pub struct Request { method: Method, url: Url, headers: HeaderMap, body: Option<Body> }
impl Request {
    pub fn new(method: Method, url: Url) -> Self { Request { method, url, headers: HeaderMap::new(), body: None } }
    pub fn method(&self) -> &Method { &self.method }
    pub fn url(&self) -> &Url { &self.url }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers }
    pub fn body(&self) -> Option<&Body> { self.body.as_ref() }
    pub fn body_mut(&mut self) -> &mut Option<Body> { &mut self.body }
}

/// What the transport does with one request.
pub enum Outcome {
    /// status, body; the body read fails when `None`
    Response(u16, Option<String>),
    /// the connection fails
    Fail,
}
pub type Responder = fn(&Request) -> (Outcome, u32);
/// `u32`: how many times `execute` returns `Pending` before it completes.
pub static RESPONDER: Mutex<Option<Responder>> = Mutex::new(None);
pub fn set_responder(r: Responder) { *RESPONDER.lock().unwrap() = Some(r); }

struct YieldTimes(u32);
impl std::future::Future for YieldTimes {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 { return std::task::Poll::Ready(()); }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client { default_headers: HeaderMap }
#[derive(Debug, Default)]
pub struct ClientBuilder { default_headers: HeaderMap }
impl ClientBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn default_headers(mut self, h: HeaderMap) -> Self { self.default_headers = h; self }
    pub fn timeout(self, _: std::time::Duration) -> Self { self }
    pub fn connect_timeout(self, _: std::time::Duration) -> Self { self }
    pub fn no_proxy(self) -> Self { self }
    pub fn build(self) -> Result<Client> { Ok(Client { default_headers: self.default_headers }) }
}
impl Client {
    pub fn new() -> Self { Self::default() }
    pub fn builder() -> ClientBuilder { ClientBuilder::default() }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder { client: self.clone(), request: url.into_url().map(|u| Request::new(method, u)) }
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::GET, url) }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::POST, url) }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::PUT, url) }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::DELETE, url) }
    pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::HEAD, url) }
    pub async fn execute(&self, mut request: Request) -> Result<Response> {
        for (k, v) in self.default_headers.iter() {
            if !request.headers.contains_key(k) { request.headers.insert(k.clone(), v.clone()); }
        }
        let r = RESPONDER.lock().unwrap().expect("no responder installed");
        let (o, pending) = r(&request);
        YieldTimes(pending).await;
        match o {
            Outcome::Fail => Err(Error::stub("connect")),
            Outcome::Response(status, body) => Ok(Response {
                status: StatusCode::from_u16(status).expect("status"), headers: HeaderMap::new(), body, url: request.url,
            }),
        }
    }
}
#[derive(Debug)]
pub struct RequestBuilder { client: Client, request: Result<Request> }
impl RequestBuilder {
    pub fn header<K, V>(mut self, key: K, value: V) -> Self
    where HeaderName: TryFrom<K>, <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
          HeaderValue: TryFrom<V>, <HeaderValue as TryFrom<V>>::Error: Into<http::Error> {
        let r = match (<HeaderName as TryFrom<K>>::try_from(key), <HeaderValue as TryFrom<V>>::try_from(value)) {
            (Ok(k), Ok(v)) => { if let Ok(r) = self.request.as_mut() { r.headers.append(k, v); } true }
            _ => false,
        };
        if !r && self.request.is_ok() { self.request = Err(Error::stub("builder")); }
        self
    }
    pub fn headers(mut self, h: HeaderMap) -> Self {
        if let Ok(r) = self.request.as_mut() { for (k, v) in h.iter() { r.headers.insert(k.clone(), v.clone()); } }
        self
    }
    pub fn bearer_auth<T: std::fmt::Display>(self, token: T) -> Self { self.header(header::AUTHORIZATION, format!("Bearer {token}")) }
    pub fn timeout(self, _: std::time::Duration) -> Self { self }
    pub fn body<T: Into<Body>>(mut self, body: T) -> Self {
        if let Ok(r) = self.request.as_mut() { r.body = Some(body.into()); }
        self
    }
    pub fn build(self) -> Result<Request> { self.request }
    pub async fn send(self) -> Result<Response> { let r = self.request?; self.client.execute(r).await }
}
#[derive(Debug)]
pub struct Response { status: StatusCode, headers: HeaderMap, body: Option<String>, url: Url }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub fn url(&self) -> &Url { &self.url }
    pub fn content_length(&self) -> Option<u64> { self.body.as_ref().map(|b| b.len() as u64) }
    pub async fn text(self) -> Result<String> { self.body.ok_or(Error::stub("body")) }
    pub async fn bytes(self) -> Result<bytes::Bytes> { self.body.map(|b| bytes::Bytes::from(b.into_bytes())).ok_or(Error::stub("body")) }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() { Err(Error::stub("status")) } else { Ok(self) }
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.status.is_client_error() || self.status.is_server_error() { Err(Error::stub("status")) } else { Ok(self) }
    }
}
