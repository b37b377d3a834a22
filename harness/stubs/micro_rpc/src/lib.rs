//! Stand-in for micro_rpc.
#![no_std]
extern crate alloc;
#[derive(Clone, Debug, PartialEq)]
pub struct Status {
    pub code: i32,
    pub message: alloc::string::String,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(i32)]
pub enum StatusCode {
    Ok = 0,
    Cancelled = 1,
    Unknown = 2,
    InvalidArgument = 3,
    DeadlineExceeded = 4,
    NotFound = 5,
    AlreadyExists = 6,
    PermissionDenied = 7,
    ResourceExhausted = 8,
    FailedPrecondition = 9,
    Aborted = 10,
    OutOfRange = 11,
    Unimplemented = 12,
    Internal = 13,
    Unavailable = 14,
    DataLoss = 15,
    Unauthenticated = 16,
}
impl Status {
    pub fn new(code: StatusCode) -> Self {
        Status { code: code as i32, message: alloc::string::String::new() }
    }
    pub fn new_with_message(code: StatusCode, message: impl Into<alloc::string::String>) -> Self {
        Status { code: code as i32, message: message.into() }
    }
}
