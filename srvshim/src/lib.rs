//! The server library, unchanged, except that the simulator gets to know the broker the program starts.
pub use real::*;
use std::cell::RefCell;
use std::ops::Deref;
use std::sync::{Arc, Weak};
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct Slot {
    /// the broker, or why there is none
    state: Option<Result<Weak<real::MqttServer>, String>>,
    waker: Option<Waker>,
}
thread_local! {
    static SLOT: RefCell<Slot> = RefCell::default();
}

/// before a run
pub fn reset() {
    SLOT.with(|s| *s.borrow_mut() = Slot::default());
}
/// what became of the program's first call of `MqttServer::new`
pub fn poll_started(cx: &mut Context<'_>) -> Poll<Result<Weak<real::MqttServer>, String>> {
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        match &s.state {
            Some(r) => Poll::Ready(r.clone()),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    })
}

pub struct MqttServer(Arc<real::MqttServer>);

impl MqttServer {
    pub async fn new(cfg: MqttServerConfig) -> Result<Self, error::ServerError> {
        let r = real::MqttServer::new(cfg).await.map(|s| MqttServer(Arc::new(s)));
        let told = r.as_ref().map(|s| Arc::downgrade(&s.0)).map_err(|e| format!("{:?}", e));
        let w = SLOT.with(|s| {
            let mut s = s.borrow_mut();
            s.state.get_or_insert(told);
            s.waker.take()
        });
        if let Some(w) = w {
            w.wake();
        }
        r
    }
    pub async fn shutdown(self) {
        let mut s = self.0;
        loop {
            match Arc::try_unwrap(s) {
                Ok(s) => return s.shutdown().await,
                // the simulator is looking at it
                Err(back) => s = back,
            }
            let mut first = true;
            std::future::poll_fn(|cx| match std::mem::take(&mut first) {
                true => {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
                false => Poll::Ready(()),
            })
            .await;
        }
    }
}
impl Deref for MqttServer {
    type Target = real::MqttServer;
    fn deref(&self) -> &real::MqttServer {
        &self.0
    }
}
