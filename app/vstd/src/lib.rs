//! `std` with threads, channels, locks, atomics, files and process exit under the control of a scheduler, so that
//! every interleaving (and every crash point) of the application is an enumerated choice.
pub use std::*;
pub mod cli;
pub mod fs;
pub mod process;
pub mod rt;
pub mod sync;
pub mod thread;

pub mod env {
    pub use std::env::*;
    pub fn args() -> std::vec::IntoIter<String> {
        crate::rt::args().into_iter()
    }
    pub fn args_os() -> std::vec::IntoIter<std::ffi::OsString> {
        crate::rt::args().into_iter().map(Into::into).collect::<Vec<_>>().into_iter()
    }
}
