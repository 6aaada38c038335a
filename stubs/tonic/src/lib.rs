//! Stand-in for tonic 0.8: requests, responses and statuses, without the network.
pub use tonic_attr::async_trait;
use std::fmt;

#[macro_export]
macro_rules! include_proto {
    ($package:tt) => {
        include!(concat!(env!("OUT_DIR"), "/", $package, ".rs"));
    };
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Request<T> {
    message: T,
}
impl<T> Request<T> {
    pub fn new(message: T) -> Self {
        Request { message }
    }
    pub fn into_inner(self) -> T {
        self.message
    }
    pub fn get_ref(&self) -> &T {
        &self.message
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.message
    }
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Response<T> {
    message: T,
}
impl<T> Response<T> {
    pub fn new(message: T) -> Self {
        Response { message }
    }
    pub fn into_inner(self) -> T {
        self.message
    }
    pub fn get_ref(&self) -> &T {
        &self.message
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.message
    }
    pub fn map<F, U>(self, f: F) -> Response<U>
    where
        F: FnOnce(T) -> U,
    {
        Response { message: f(self.message) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Code {
    Ok = 0,
    Cancelled = 1,
    Unknown = 2,
    InvalidArgument = 3,
    DeadlineExceeded = 4,
    NotFound = 5,
    AlreadyExists = 6,
    PermissionDenied = 7,
    ResourceExhausted = 8,
    FailedPrecondition = 9,
    Aborted = 10,
    OutOfRange = 11,
    Unimplemented = 12,
    Internal = 13,
    Unavailable = 14,
    DataLoss = 15,
    Unauthenticated = 16,
}

#[derive(Clone, Debug)]
pub struct Status {
    code: Code,
    message: String,
}
macro_rules! ctor {
    ($($name:ident = $code:ident),*) => { $(
        pub fn $name(message: impl Into<String>) -> Status { Status::new(Code::$code, message) }
    )* };
}
impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Status {
        Status { code, message: message.into() }
    }
    ctor!(ok = Ok, cancelled = Cancelled, unknown = Unknown, invalid_argument = InvalidArgument,
        deadline_exceeded = DeadlineExceeded, not_found = NotFound, already_exists = AlreadyExists,
        permission_denied = PermissionDenied, resource_exhausted = ResourceExhausted,
        failed_precondition = FailedPrecondition, aborted = Aborted, out_of_range = OutOfRange,
        unimplemented = Unimplemented, internal = Internal, unavailable = Unavailable,
        data_loss = DataLoss, unauthenticated = Unauthenticated);
    pub fn code(&self) -> Code {
        self.code
    }
    pub fn message(&self) -> &str {
        &self.message
    }
}
impl fmt::Display for Status {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "status: {:?}, message: {:?}", self.code, self.message)
    }
}
impl std::error::Error for Status {}

pub mod transport {
    use std::fmt;
    use std::net::SocketAddr;
    use std::time::Duration;

    #[derive(Debug)]
    pub struct Error;
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "transport is not available in this build")
        }
    }
    impl std::error::Error for Error {}

    #[derive(Default)]
    pub struct Server;
    impl Server {
        pub fn builder() -> Server {
            Server
        }
        pub fn http2_keepalive_interval(self, _: Option<Duration>) -> Server {
            self
        }
        pub fn add_service<S>(&mut self, service: S) -> Router<S> {
            Router { _service: service }
        }
    }
    pub struct Router<S> {
        _service: S,
    }
    impl<S> Router<S> {
        pub async fn serve(self, _addr: SocketAddr) -> Result<(), Error> {
            Err(Error)
        }
    }
}
