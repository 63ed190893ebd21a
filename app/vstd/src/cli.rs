/// `T::parse()` on the controlled command line.
pub fn parse<T: clap::Parser>() -> T {
    match T::try_parse_from(crate::rt::args()) {
        Ok(a) => a,
        Err(e) => {
            if e.use_stderr() {
                crate::rt::note_usage();
            } else {
                vhook::out(e.to_string());
            }
            crate::process::exit(e.exit_code())
        }
    }
}
