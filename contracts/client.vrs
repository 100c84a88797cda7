//! needs
use alloc::vec::Vec;
use alloc::vec;
use alloc::string::String;
global size_of usize == 8;

// ---- what is assumed of the types of other crates
// Stores and values: their bytes are what P10 to P12 are about.
#[verifier::external_body]
#[derive(Debug)]
pub struct Store;
#[verifier::external_body]
#[derive(Debug)]
pub struct Value;
#[verifier::external_body]
#[derive(Debug)]
pub struct StoreSerError;
#[verifier::external_body]
#[derive(Debug)]
pub struct ValueSerError;
#[verifier::external_body]
pub struct Tree;
pub uninterp spec fn store_bytes(s: Store) -> Seq<u8>;
pub uninterp spec fn store_of(b: Seq<u8>) -> Option<Store>;
pub uninterp spec fn value_bytes(v: Value) -> Seq<u8>;
impl Store {
    #[verifier::external_body]
    pub fn ser(&self) -> (r: Vec<u8>) ensures r@ == store_bytes(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn deser(b: &[u8]) -> (r: Result<Store, StoreSerError>) ensures r is Ok == store_of(b@) is Some, r is Ok ==> r->Ok_0 == store_of(b@)->0 { unimplemented!() }
}
impl Value {
    // (the daemon reads values without a tree)
    #[verifier::external_body]
    pub fn ser(&self, t: Option<&Tree>) -> (r: Vec<u8>) ensures t is None ==> r@ == value_bytes(*self) { unimplemented!() }
}
// texts
pub uninterp spec fn decimal(n: u32) -> Seq<char>;
pub trait AsText { spec fn text(&self) -> Seq<char>; fn as_text(&self) -> (r: String) ensures r@ == self.text(); }
impl AsText for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_text(&self) -> (r: String) { unimplemented!() } }
impl<'a> AsText for &'a String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_text(&self) -> (r: String) { unimplemented!() } }
impl<'a> AsText for &'a str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_text(&self) -> (r: String) { unimplemented!() } }
pub fn text_of<T: AsText>(t: T) -> (r: String) ensures r@ == t.text() { t.as_text() }
impl AsText for u32 { open spec fn text(&self) -> Seq<char> { decimal(*self) } #[verifier::external_body] fn as_text(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn text_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
// http's StatusCode
#[derive(PartialEq, Eq, Structural, Clone, Copy, Debug)]
pub enum StatusCode { OK, CREATED, ACCEPTED, NO_CONTENT, BAD_REQUEST, NOT_FOUND, CONFLICT, GONE, INTERNAL_SERVER_ERROR, Of(u16) }
pub open spec fn code(s: StatusCode) -> u16 {
    match s { StatusCode::OK => 200, StatusCode::CREATED => 201, StatusCode::ACCEPTED => 202, StatusCode::NO_CONTENT => 204, StatusCode::BAD_REQUEST => 400, StatusCode::NOT_FOUND => 404,
        StatusCode::CONFLICT => 409, StatusCode::GONE => 410, StatusCode::INTERNAL_SERVER_ERROR => 500, StatusCode::Of(n) => n }
}
/// the status with a number
pub open spec fn sc(n: u16) -> StatusCode {
    if n == 200 { StatusCode::OK } else if n == 201 { StatusCode::CREATED } else if n == 202 { StatusCode::ACCEPTED } else if n == 204 { StatusCode::NO_CONTENT } else if n == 400 { StatusCode::BAD_REQUEST }
    else if n == 404 { StatusCode::NOT_FOUND } else if n == 409 { StatusCode::CONFLICT } else if n == 410 { StatusCode::GONE } else if n == 500 { StatusCode::INTERNAL_SERVER_ERROR } else { StatusCode::Of(n) }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct InvalidStatusCode;
pub uninterp spec fn invalid(n: u16) -> InvalidStatusCode;
impl StatusCode {
    #[verifier::external_body]
    pub fn try_from(n: u16) -> (r: Result<StatusCode, InvalidStatusCode>) ensures r is Ok == (100 <= n <= 999), r is Ok ==> r->Ok_0 == sc(n), r is Err ==> r->Err_0 == invalid(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u16(n: u16) -> (r: Result<StatusCode, InvalidStatusCode>) ensures r is Ok == (100 <= n <= 999), r is Ok ==> r->Ok_0 == sc(n), r is Err ==> r->Err_0 == invalid(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u16(&self) -> (r: u16) ensures r == code(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= code(*self) < 300) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_client_error(&self) -> (r: bool) ensures r == (400 <= code(*self) < 500) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_server_error(&self) -> (r: bool) ensures r == (500 <= code(*self) < 600) { unimplemented!() }
}

// ---- requests, and what came back
pub ghost enum Method { GET, POST, PUT, DELETE }
pub ghost struct Req { pub method: Method, pub url: Seq<char>, pub query: Map<Seq<char>, Seq<char>>, pub body: Seq<u8> }
/// `whole`: the body arrives completely
pub ghost struct Answer { pub status: u16, pub body: Seq<u8>, pub whole: bool }
/// a request which was sent, and its answer, if there was one
pub ghost struct Exchange { pub req: Req, pub answer: Option<Answer> }
pub open spec fn asks(m: Method, url: Seq<char>) -> Req { Req { method: m, url, query: Map::empty(), body: Seq::empty() } }
impl Req {
    pub open spec fn with(self, k: Seq<char>, v: Seq<char>) -> Req { Req { query: self.query.insert(k, v), ..self } }
    pub open spec fn holding(self, b: Seq<u8>) -> Req { Req { body: b, ..self } }
}
// What the daemon answers with (P16): errors from 400, and 200 or 201 otherwise.
pub open spec fn api(a: Answer) -> bool { a.status == 200 || a.status == 201 || 400 <= a.status < 600 }
// What was sent: one more request, which is q
pub open spec fn sent(was: Seq<Exchange>, now: Seq<Exchange>, q: Req) -> bool {
    now.len() == was.len() + 1 && now.take(was.len() as int) == was && now.last().req.method == q.method && now.last().req.url == q.url && now.last().req.query =~= q.query && now.last().req.body == q.body
}
// JSON of names, and of a CreationResult
pub uninterp spec fn json_names(b: Seq<u8>) -> Option<Seq<Seq<char>>>;
pub uninterp spec fn json_created(b: Seq<u8>) -> Option<CreationResult>;
pub open spec fn names(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::external_body]
#[derive(Debug)]
pub struct JsonError;
pub trait FromJson: Sized { spec fn reads(b: Seq<u8>) -> bool; spec fn read_as(&self, b: Seq<u8>) -> bool; }
impl FromJson for Vec<String> { open spec fn reads(b: Seq<u8>) -> bool { json_names(b) is Some } open spec fn read_as(&self, b: Seq<u8>) -> bool { json_names(b) == Some(names(self@)) } }
impl FromJson for CreationResult { open spec fn reads(b: Seq<u8>) -> bool { json_created(b) is Some } open spec fn read_as(&self, b: Seq<u8>) -> bool { json_created(b) == Some(*self) } }
#[verifier::external_body]
pub fn json_from_slice<T: FromJson>(b: &[u8]) -> (r: Result<T, JsonError>) ensures r is Ok == T::reads(b@), r is Ok ==> r->Ok_0.read_as(b@) { unimplemented!() }
#[verifier::external_body]
#[derive(Debug)]
pub struct IOError;

// ---- ureq
#[verifier::external_body]
#[derive(Debug)]
pub struct UreqTransport;
#[verifier::external_body]
#[derive(Debug)]
pub struct UreqResponse;
impl View for UreqResponse { type V = Answer; uninterp spec fn view(&self) -> Answer; }
#[derive(Debug)]
pub enum UreqError { Status(u16, UreqResponse), Transport(UreqTransport) }
#[verifier::external_body]
#[derive(Debug)]
pub struct UreqRequest;
impl View for UreqRequest { type V = Req; uninterp spec fn view(&self) -> Req; }
// what was sent with an agent
#[verifier::external_body]
#[derive(Debug)]
pub struct Agent;
impl View for Agent { type V = Seq<Exchange>; uninterp spec fn view(&self) -> Seq<Exchange>; }
pub open spec fn ureq_sent(was: Seq<Exchange>, now: Seq<Exchange>, q: Req, r: Result<UreqResponse, UreqError>) -> bool {
    now == was.push(Exchange { req: q, answer: match r { Ok(a) => Some(a@), Err(UreqError::Status(_, a)) => Some(a@), Err(UreqError::Transport(_)) => None } })
        && match r { Ok(a) => api(a@) && a@.status < 400, Err(UreqError::Status(n, a)) => api(a@) && n == a@.status && n >= 400, Err(UreqError::Transport(_)) => true }
}
impl Agent {
    #[verifier::external_body]
    pub fn new() -> (r: Agent) ensures r@ == Seq::<Exchange>::empty() { unimplemented!() }
//@each f=get,m=GET | f=post,m=POST | f=put,m=PUT | f=delete,m=DELETE
    #[verifier::external_body]
    pub fn ${f}<U: AsText>(&self, url: U) -> (r: UreqRequest) ensures r@ == asks(Method::${m}, url.text()) { unimplemented!() }
//@endeach
}
impl UreqRequest {
    // the same key twice would be refused by the daemon
    #[verifier::external_body]
    pub fn query(self, k: &str, v: &str) -> (r: UreqRequest) ensures r@ == (Req { query: if self@.query.contains_key(k@) { arbitrary() } else { self@.query.insert(k@, v@) }, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn call(self, agent: &mut Agent) -> (r: Result<UreqResponse, UreqError>) ensures ureq_sent(old(agent)@, final(agent)@, self@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn send_bytes(self, agent: &mut Agent, b: &[u8]) -> (r: Result<UreqResponse, UreqError>) ensures ureq_sent(old(agent)@, final(agent)@, self@.holding(b@), r) { unimplemented!() }
}
#[verifier::external_body]
pub struct Reader;
pub ghost struct Rest { pub rest: Seq<u8>, pub whole: bool }
impl View for Reader { type V = Rest; uninterp spec fn view(&self) -> Rest; }
impl Reader {
    #[verifier::external_body]
    pub fn read<const N: usize>(&mut self, b: &mut [u8; N]) -> (r: Result<usize, IOError>)
        ensures match r {
            Ok(n) => n <= N && n <= old(self)@.rest.len() && (n == 0 ==> N == 0 || old(self)@.rest.len() == 0 && old(self)@.whole)
                && final(b)@.take(n as int) == old(self)@.rest.take(n as int) && final(self)@ == (Rest { rest: old(self)@.rest.skip(n as int), whole: old(self)@.whole }),
            Err(_) => !old(self)@.whole,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, IOError>)
        ensures match r { Ok(n) => final(b)@ == old(b)@ + old(self)@.rest && old(self)@.whole, Err(_) => !old(self)@.whole }
    { unimplemented!() }
}
impl UreqResponse {
    #[verifier::external_body]
    pub fn status(&self) -> (r: u16) ensures r == self@.status { unimplemented!() }
    #[verifier::external_body]
    pub fn into_reader(self) -> (r: Reader) ensures r@ == (Rest { rest: self@.body, whole: self@.whole }) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_json<T: FromJson>(self) -> (r: Result<T, IOError>) ensures r is Ok ==> T::reads(self@.body) && r->Ok_0.read_as(self@.body), self@.whole && T::reads(self@.body) ==> r is Ok { unimplemented!() }
}
#[verifier::external_body]
pub fn extend_bytes(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }

// ---- reqwest
#[verifier::external_body]
#[derive(Debug)]
pub struct ReqwestError;
impl ReqwestError {
    // sending fails without an answer, and so without a status
    #[verifier::external_body]
    pub fn status(&self) -> (r: Option<StatusCode>) ensures self.unanswered() ==> r is None { unimplemented!() }
    pub uninterp spec fn unanswered(&self) -> bool;
}
#[verifier::external_body]
#[derive(Debug)]
pub struct ReqwestResponse;
impl View for ReqwestResponse { type V = Answer; uninterp spec fn view(&self) -> Answer; }
#[verifier::external_body]
#[derive(Debug)]
pub struct ReqwestRequest;
impl View for ReqwestRequest { type V = Req; uninterp spec fn view(&self) -> Req; }
#[verifier::external_body]
#[derive(Debug)]
pub struct Client;
impl View for Client { type V = Seq<Exchange>; uninterp spec fn view(&self) -> Seq<Exchange>; }
impl Client {
    #[verifier::external_body]
    pub fn new() -> (r: Client) ensures r@ == Seq::<Exchange>::empty() { unimplemented!() }
//@each f=get,m=GET | f=post,m=POST | f=put,m=PUT | f=delete,m=DELETE
    #[verifier::external_body]
    pub fn ${f}<U: AsText>(&self, url: U) -> (r: ReqwestRequest) ensures r@ == asks(Method::${m}, url.text()) { unimplemented!() }
//@endeach
}
pub open spec fn with_all(q: Map<Seq<char>, Seq<char>>, p: Seq<(&str, &str)>, n: nat) -> Map<Seq<char>, Seq<char>> decreases n {
    if n == 0 { q } else { let m = with_all(q, p, (n - 1) as nat); let k = p[n - 1].0@; if m.contains_key(k) { arbitrary() } else { m.insert(k, p[n - 1].1@) } }
}
pub proof fn lemma_with_all() ensures forall|q: Map<Seq<char>, Seq<char>>, p: Seq<(&str, &str)>, n: nat| n > 0 ==> #[trigger] with_all(q, p, n) == { let m = with_all(q, p, (n - 1) as nat); let k = p[n - 1].0@; if m.contains_key(k) { arbitrary() } else { m.insert(k, p[n - 1].1@) } },
    forall|q: Map<Seq<char>, Seq<char>>, p: Seq<(&str, &str)>| #[trigger] with_all(q, p, 0) == q {}
impl ReqwestRequest {
    // the same key twice would be refused by the daemon
    #[verifier::external_body]
    pub fn query<const N: usize>(self, p: &[(&str, &str); N]) -> (r: ReqwestRequest) ensures r@ == (Req { query: with_all(self@.query, p@, N as nat), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn body(self, b: Vec<u8>) -> (r: ReqwestRequest) ensures r@ == self@.holding(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn send(self, client: &mut Client) -> (r: Result<ReqwestResponse, ReqwestError>)
        ensures final(client)@ == old(client)@.push(Exchange { req: self@, answer: match r { Ok(a) => Some(a@), Err(_) => None } }), match r { Ok(a) => api(a@), Err(e) => e.unanswered() }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Bytes;
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl ReqwestResponse {
    #[verifier::external_body]
    pub fn status(&self) -> (r: StatusCode) ensures r == sc(self@.status) { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes(self) -> (r: Result<Bytes, ReqwestError>) ensures r is Ok == self@.whole, r is Ok ==> r->Ok_0@ == self@.body { unimplemented!() }
    #[verifier::external_body]
    pub fn json<T: FromJson>(self) -> (r: Result<T, ReqwestError>) ensures r is Ok ==> T::reads(self@.body) && r->Ok_0.read_as(self@.body), self@.whole && T::reads(self@.body) ==> r is Ok { unimplemented!() }
}

// ---- what the clients answer with
#[derive(Debug)]
pub enum ClientError { Ureq(UreqTransport), Reqwest(ReqwestError), Store(StoreSerError), Value(ValueSerError), HttpErrorCode(StatusCode), IO(IOError), InvalidStatusCode(InvalidStatusCode), ServerNotHealthy(StatusCode), SerdeJson(JsonError) }
//@src crates/sourisdb/src/client.rs
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item - | enum CreationResult
//@always `ureq::Transport` => `UreqTransport` -- a type
//@always `ureq::Error` => `UreqError` -- a type
//@always `reqwest::Error` => `ReqwestError` -- a type
//@always `std::io::Error` => `IOError` -- a type
//@always `http::status::InvalidStatusCode` => `InvalidStatusCode` -- a type
//@always `serde_json::Error` => `JsonError` -- a type
//@each t=UreqTransport,s=ureq::Transport,c=Ureq | t=ReqwestError,s=reqwest::Error,c=Reqwest | t=StoreSerError,s=StoreSerError,c=Store | t=IOError,s=std::io::Error,c=IO | t=InvalidStatusCode,s=http::status::InvalidStatusCode,c=InvalidStatusCode | t=JsonError,s=serde_json::Error,c=SerdeJson | t=ValueSerError,s=ValueSerError,c=Value
impl vstd::std_specs::convert::FromSpecImpl<${t}> for ClientError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ${t}) -> Self { ClientError::${c}(v) }
}
impl From<${t}> for ClientError {
//@fn impl From<${s}> for ClientError | from nopub id client::from_${c}
//@end
}
//@endeach
// an error with a status is the answer
impl vstd::std_specs::convert::FromSpecImpl<UreqError> for ClientError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: UreqError) -> Self {
        match v { UreqError::Status(n, _) => if 100 <= n <= 999 { ClientError::HttpErrorCode(sc(n)) } else { ClientError::InvalidStatusCode(invalid(n)) }, UreqError::Transport(t) => ClientError::Ureq(t) }
    }
}
impl From<UreqError> for ClientError {
//@fn impl From<ureq::Error> for ClientError | from nopub id client::from_ureq
//@end
}
// `?` converts errors with From::from
#[verifier::external_body]
pub proof fn axiom_question_mark() ensures forall|v: UreqError, e: ClientError| #[trigger] vstd::std_specs::control_flow::spec_from::<ClientError, UreqError>(v, e) ==> e == <ClientError as vstd::std_specs::convert::FromSpec<UreqError>>::from_spec(v) {}
//@fn - | bool_to_string
    ensures r@ == truth(b),
//@end
pub open spec fn truth(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
pub open spec fn at(path: Seq<char>, port: u32, end: Seq<char>) -> Seq<char> { (("http://"@ + path) + ":"@) + decimal(port) + end }
/// an answer which is an error, or none at all
pub open spec fn refused(x: Exchange) -> bool { x.answer is None || x.answer->0.status >= 400 }
/// what is returned then
pub open spec fn refusal<T>(x: Exchange, r: Result<T, ClientError>) -> bool { r is Err && (x.answer is Some ==> r->Err_0 == ClientError::HttpErrorCode(sc(x.answer->0.status))) }
// which requests the operations are
pub open spec fn q_names(p: Seq<char>, n: u32) -> Req { asks(Method::GET, at(p, n, "/v1/get_all_db_names"@)) }
pub open spec fn q_new(p: Seq<char>, n: u32, over: bool, name: Seq<char>) -> Req { asks(Method::POST, at(p, n, "/v1/add_db"@)).with("overwrite_existing"@, truth(over)).with("db_name"@, name) }
pub open spec fn q_get(p: Seq<char>, n: u32, name: Seq<char>) -> Req { asks(Method::GET, at(p, n, "/v1/get_db"@)).with("db_name"@, name) }
pub open spec fn q_with(p: Seq<char>, n: u32, over: bool, name: Seq<char>, s: Store) -> Req { asks(Method::PUT, at(p, n, "/v1/add_db_with_content"@)).with("overwrite_existing"@, truth(over)).with("db_name"@, name).holding(store_bytes(s)) }
pub open spec fn q_add(p: Seq<char>, n: u32, name: Seq<char>, new: bool, over: bool, key: Seq<char>, v: Value) -> Req {
    asks(Method::PUT, at(p, n, "/v1/add_kv"@)).with("db_name"@, name).with("key"@, key).with("create_new_database"@, truth(new)).with("overwrite_key"@, truth(over)).holding(value_bytes(v))
}
pub open spec fn q_rm(p: Seq<char>, n: u32, name: Seq<char>, key: Seq<char>) -> Req { asks(Method::POST, at(p, n, "/v1/rm_kv"@)).with("db_name"@, name).with("key"@, key) }
pub open spec fn q_rm_db(p: Seq<char>, n: u32, name: Seq<char>) -> Req { asks(Method::POST, at(p, n, "/v1/rm_db"@)).with("db_name"@, name) }
pub proof fn lemma_texts()
    ensures "overwrite_existing"@ != "db_name"@, "db_name"@ != "key"@, "db_name"@ != "create_new_database"@, "db_name"@ != "overwrite_key"@, "key"@ != "create_new_database"@, "key"@ != "overwrite_key"@, "create_new_database"@ != "overwrite_key"@,
{
    reveal_strlit("overwrite_existing"); reveal_strlit("db_name"); reveal_strlit("key"); reveal_strlit("create_new_database"); reveal_strlit("overwrite_key");
    assert("db_name"@.len() == 7 && "key"@.len() == 3 && "overwrite_existing"@.len() == 18 && "create_new_database"@.len() == 19 && "overwrite_key"@.len() == 13);
}
pub proof fn lemma_sent(s: Seq<Exchange>) ensures forall|x: Exchange| (#[trigger] s.push(x)).take(s.len() as int) == s { assert forall|x: Exchange| (#[trigger] s.push(x)).take(s.len() as int) == s by { assert(s.push(x).take(s.len() as int) =~= s); } }
#[verifier::external_body]
pub fn never<T>() -> T requires false { unimplemented!() }
