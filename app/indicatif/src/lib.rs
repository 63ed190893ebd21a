//! indicatif 0.16.2 without a terminal: what matters is when bars finish and that MultiProgress::join waits for all.
use std::borrow::Cow;
use std::sync::{Arc, Mutex, Weak};
use std::time::Duration;
use vstd::rt;

struct Bar {
    pos: u64,
    len: u64,
    done: bool,
    multi: Option<Arc<MultiSt>>,
}
struct MultiSt {
    key: usize,
    bars: Mutex<Vec<Weak<Mutex<Bar>>>>,
}
impl Drop for Bar {
    fn drop(&mut self) {
        // a bar whose handles are all gone counts as abandoned
        if let Some(m) = &self.multi {
            rt::wake(m.key);
        }
    }
}
#[derive(Clone)]
pub struct ProgressBar {
    b: Arc<Mutex<Bar>>,
}
#[derive(Clone, Debug)]
pub enum ProgressFinish {
    AndLeave,
    AtCurrentPos,
    WithMessage(Cow<'static, str>),
    AndClear,
    Abandon,
    AbandonWithMessage(Cow<'static, str>),
}
#[derive(Clone, Debug, Default)]
pub struct ProgressStyle;
impl ProgressStyle {
    pub fn default_bar() -> Self {
        ProgressStyle
    }
    pub fn default_spinner() -> Self {
        ProgressStyle
    }
    pub fn tick_chars(self, _s: &str) -> Self {
        self
    }
    pub fn tick_strings(self, _s: &[&str]) -> Self {
        self
    }
    pub fn progress_chars(self, _s: &str) -> Self {
        self
    }
    pub fn template(self, _s: &str) -> Self {
        self
    }
    pub fn on_finish(self, _f: ProgressFinish) -> Self {
        self
    }
}
#[derive(Debug)]
pub struct ProgressDrawTarget;
impl ProgressDrawTarget {
    pub fn stdout() -> Self {
        ProgressDrawTarget
    }
    pub fn stderr() -> Self {
        ProgressDrawTarget
    }
    pub fn hidden() -> Self {
        ProgressDrawTarget
    }
    pub fn stderr_with_hz(_h: impl Into<Option<u64>>) -> Self {
        ProgressDrawTarget
    }
    pub fn stdout_with_hz(_h: impl Into<Option<u64>>) -> Self {
        ProgressDrawTarget
    }
}
type Msg = Cow<'static, str>;
impl ProgressBar {
    pub fn new(len: u64) -> Self {
        ProgressBar { b: Arc::new(Mutex::new(Bar { pos: 0, len, done: false, multi: None })) }
    }
    pub fn hidden() -> Self {
        Self::new(!0)
    }
    pub fn new_spinner() -> Self {
        Self::new(!0)
    }
    pub fn with_draw_target(len: u64, _t: ProgressDrawTarget) -> Self {
        Self::new(len)
    }
    pub fn with_style(self, _s: ProgressStyle) -> Self {
        self
    }
    pub fn with_prefix(self, _m: impl Into<Msg>) -> Self {
        self
    }
    pub fn with_message(self, _m: impl Into<Msg>) -> Self {
        self
    }
    pub fn with_position(self, p: u64) -> Self {
        self.b.lock().unwrap().pos = p;
        self
    }
    pub fn set_style(&self, _s: ProgressStyle) {}
    pub fn enable_steady_tick(&self, _ms: u64) {}
    pub fn disable_steady_tick(&self) {}
    pub fn set_draw_delta(&self, _n: u64) {}
    pub fn set_draw_rate(&self, _n: u64) {}
    pub fn set_draw_target(&self, _t: ProgressDrawTarget) {}
    pub fn tick(&self) {}
    pub fn inc(&self, d: u64) {
        vhook::touch();
        self.b.lock().unwrap().pos += d;
    }
    pub fn set_position(&self, p: u64) {
        self.b.lock().unwrap().pos = p;
    }
    pub fn set_length(&self, l: u64) {
        self.b.lock().unwrap().len = l;
    }
    pub fn inc_length(&self, l: u64) {
        self.b.lock().unwrap().len += l;
    }
    pub fn set_prefix(&self, _m: impl Into<Msg>) {}
    pub fn set_message(&self, _m: impl Into<Msg>) {}
    pub fn println<I: AsRef<str>>(&self, _m: I) {}
    pub fn reset_eta(&self) {}
    pub fn reset_elapsed(&self) {}
    pub fn reset(&self) {
        let mut b = self.b.lock().unwrap();
        b.pos = 0;
        b.done = false;
    }
    pub fn is_hidden(&self) -> bool {
        true
    }
    pub fn is_finished(&self) -> bool {
        rt::yield_point();
        self.b.lock().unwrap().done
    }
    pub fn position(&self) -> u64 {
        self.b.lock().unwrap().pos
    }
    pub fn length(&self) -> u64 {
        self.b.lock().unwrap().len
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_secs(0)
    }
    pub fn eta(&self) -> Duration {
        Duration::from_secs(0)
    }
    pub fn per_sec(&self) -> u64 {
        0
    }
    fn done(&self) {
        vhook::touch();
        let k = {
            let mut b = self.b.lock().unwrap();
            b.done = true;
            b.multi.as_ref().map(|m| m.key)
        };
        if let Some(k) = k {
            rt::wake(k);
            // whoever waits for this bar may go on before anything that follows here
            rt::point();
        }
    }
    pub fn finish(&self) {
        self.done()
    }
    pub fn finish_at_current_pos(&self) {
        self.done()
    }
    pub fn finish_with_message(&self, _m: impl Into<Msg>) {
        self.done()
    }
    pub fn finish_and_clear(&self) {
        self.done()
    }
    pub fn abandon(&self) {
        self.done()
    }
    pub fn abandon_with_message(&self, _m: impl Into<Msg>) {
        self.done()
    }
    pub fn finish_using_style(&self) {
        self.done()
    }
    pub fn wrap_iter<It: Iterator>(&self, it: It) -> It {
        it
    }
}
pub struct MultiProgress {
    m: Arc<MultiSt>,
}
impl Default for MultiProgress {
    fn default() -> Self {
        Self::new()
    }
}
impl MultiProgress {
    pub fn new() -> Self {
        MultiProgress { m: Arc::new(MultiSt { key: rt::new_key(), bars: Mutex::new(vec![]) }) }
    }
    pub fn with_draw_target(_t: ProgressDrawTarget) -> Self {
        Self::new()
    }
    pub fn set_draw_target(&self, _t: ProgressDrawTarget) {}
    pub fn set_move_cursor(&self, _m: bool) {}
    pub fn add(&self, pb: ProgressBar) -> ProgressBar {
        pb.b.lock().unwrap().multi = Some(self.m.clone());
        self.m.bars.lock().unwrap().push(Arc::downgrade(&pb.b));
        pb
    }
    pub fn insert(&self, _i: usize, pb: ProgressBar) -> ProgressBar {
        self.add(pb)
    }
    pub fn remove(&self, pb: &ProgressBar) {
        let p = Arc::downgrade(&pb.b);
        self.m.bars.lock().unwrap().retain(|b| !b.ptr_eq(&p));
    }
    pub fn join(&self) -> std::io::Result<()> {
        loop {
            let busy = self.m.bars.lock().unwrap().iter().any(|w| match w.upgrade() {
                Some(b) => !b.lock().unwrap().done,
                None => false,
            });
            if !busy {
                return Ok(());
            }
            if !rt::block(self.m.key, "waiting for the progress bars") {
                return Ok(());
            }
        }
    }
    pub fn join_and_clear(&self) -> std::io::Result<()> {
        self.join()
    }
}
pub trait ProgressIterator: Iterator + Sized {
    fn progress(self) -> Self {
        self
    }
    fn progress_count(self, _n: u64) -> Self {
        self
    }
    fn progress_with(self, _p: ProgressBar) -> Self {
        self
    }
}
impl<T: Iterator> ProgressIterator for T {}
