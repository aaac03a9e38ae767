//! Offline stand-in for `tonic` 0.8: the in-process part of the API only (no network).
pub use tonic_async::async_trait;
#[macro_export]
macro_rules! include_proto { ($package:tt) => { include!(concat!(env!("OUT_DIR"), concat!("/", $package, ".rs"))); }; }
#[derive(Debug, Clone, Default)] pub struct Request<T> { message: T }
impl<T> Request<T> {
    pub fn new(message: T) -> Self { Request { message } }
    pub fn get_ref(&self) -> &T { &self.message }
    pub fn get_mut(&mut self) -> &mut T { &mut self.message }
    pub fn into_inner(self) -> T { self.message }
    pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> Request<U> { Request { message: f(self.message) } }
}
#[derive(Debug, Clone, Default)] pub struct Response<T> { message: T }
impl<T> Response<T> {
    pub fn new(message: T) -> Self { Response { message } }
    pub fn get_ref(&self) -> &T { &self.message }
    pub fn get_mut(&mut self) -> &mut T { &mut self.message }
    pub fn into_inner(self) -> T { self.message }
    pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> Response<U> { Response { message: f(self.message) } }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Code { Ok = 0, Cancelled, Unknown, InvalidArgument, DeadlineExceeded, NotFound, AlreadyExists, PermissionDenied,
  ResourceExhausted, FailedPrecondition, Aborted, OutOfRange, Unimplemented, Internal, Unavailable, DataLoss, Unauthenticated }
#[derive(Clone, PartialEq, Eq)] pub struct Status { code: Code, message: String }
macro_rules! ctors { ($($f:ident $c:ident),*) => { $( pub fn $f(m: impl Into<String>) -> Status { Status::new(Code::$c, m) } )* } }
impl Status {
    pub fn new(code: Code, m: impl Into<String>) -> Status { Status { code, message: m.into() } }
    pub fn code(&self) -> Code { self.code }
    pub fn message(&self) -> &str { &self.message }
    ctors!(ok Ok, cancelled Cancelled, unknown Unknown, invalid_argument InvalidArgument, deadline_exceeded DeadlineExceeded,
      not_found NotFound, already_exists AlreadyExists, permission_denied PermissionDenied, resource_exhausted ResourceExhausted,
      failed_precondition FailedPrecondition, aborted Aborted, out_of_range OutOfRange, unimplemented Unimplemented, internal Internal,
      unavailable Unavailable, data_loss DataLoss, unauthenticated Unauthenticated);
}
impl std::fmt::Debug for Status { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Status {{ code: {:?}, message: {:?} }}", self.code, self.message) } }
impl std::fmt::Display for Status { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "status: {:?}, message: {:?}", self.code, self.message) } }
impl std::error::Error for Status {}
pub mod transport {
    #[derive(Debug)] pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("transport not available offline") } }
    impl std::error::Error for Error {}
    #[derive(Default)] pub struct Server;
    impl Server {
        pub fn builder() -> Self { Server }
        pub fn http2_keepalive_interval(self, _: Option<std::time::Duration>) -> Self { self }
        pub fn http2_keepalive_timeout(self, _: Option<std::time::Duration>) -> Self { self }
        pub fn timeout(self, _: std::time::Duration) -> Self { self }
        pub fn add_service<S>(&mut self, _: S) -> Self { Server }
        pub async fn serve(self, _: std::net::SocketAddr) -> Result<(), Error> { Err(Error) }
    }
}
