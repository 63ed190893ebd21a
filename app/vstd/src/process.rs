pub use std::process::*;
pub fn exit(code: i32) -> ! {
    crate::rt::point();
    crate::rt::end_process(crate::rt::End::Exit(code));
}
pub fn abort() -> ! {
    crate::rt::point();
    crate::rt::end_process(crate::rt::End::Exit(134));
}
