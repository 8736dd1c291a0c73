//! A subscriber that formats every enabled event (a log sink is part of a real
//! deployment, and formatting runs repository code) and throws the text away.
use std::cell::RefCell;
use std::fmt::{Debug, Write};
use tracing_core::{field::*, span, Event, Interest, Metadata, Subscriber};

pub struct Sub;
thread_local! { static BUF: RefCell<String> = const { RefCell::new(String::new()) }; }

struct V<'a>(&'a mut String);
impl Visit for V<'_> {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
        let _ = write!(self.0, "{}={:?} ", f.name(), v);
    }
}
fn lvl(m: &Metadata<'_>) -> u8 {
    use tracing_core::Level;
    match *m.level() {
        Level::ERROR => 1,
        Level::WARN => 2,
        Level::INFO => 3,
        Level::DEBUG => 4,
        Level::TRACE => 5,
    }
}
fn buf(f: impl FnOnce(&mut String)) {
    let _o = simrt::mem::outside();
    let mut s = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
    s.clear();
    f(&mut s);
    BUF.with(|b| *b.borrow_mut() = s);
}
impl Subscriber for Sub {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        lvl(m) <= simrt::log_level()
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        buf(|s| a.record(&mut V(s)));
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, v: &span::Record<'_>) {
        buf(|s| v.record(&mut V(s)));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        buf(|s| e.record(&mut V(s)));
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
