//! `event-listener` with the documented semantics, run under the deterministic scheduler.
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Entry {
    id: u64,
    notified: bool,
    additional: bool,
    waker: Option<Waker>,
}
#[derive(Default)]
struct Inner {
    q: Mutex<VecDeque<Entry>>,
}
impl Inner {
    fn notify(&self, n: usize, additional: bool) {
        let mut wake = vec![];
        {
            let mut q = self.q.lock().unwrap();
            let mut n = n;
            if !additional {
                n = n.saturating_sub(q.iter().filter(|e| e.notified).count());
            }
            for e in q.iter_mut().filter(|e| !e.notified).take(n) {
                e.notified = true;
                e.additional = additional;
                wake.push(e.id);
                if let Some(w) = e.waker.take() {
                    w.wake()
                }
            }
        }
        for w in wake {
            vrt::wake(w)
        }
    }
}
pub struct Event {
    inner: once::Lazy,
}
mod once {
    use super::*;
    pub struct Lazy(pub std::sync::OnceLock<Arc<Inner>>);
    impl Lazy {
        pub(super) fn get(&self) -> &Arc<Inner> {
            self.0.get_or_init(Default::default)
        }
    }
}
impl Default for Event {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Event {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Event")
    }
}
impl Event {
    pub const fn new() -> Self {
        Event { inner: once::Lazy(std::sync::OnceLock::new()) }
    }
    pub fn listen(&self) -> Pin<Box<EventListener>> {
        let mut l = Box::pin(EventListener::new(self));
        l.as_mut().listen();
        l
    }
    fn go(&self, n: usize, additional: bool) -> usize {
        vrt::point("notify");
        self.inner.get().notify(n, additional);
        if let Some(t) = vrt::me() {
            vrt::log(format!(
                "{{\"e\":\"notify\",\"t\":{},\"all\":{}}}",
                t + 1,
                n >= 1_000_000
            ));
        }
        n
    }
    pub fn notify(&self, n: impl IntoN) -> usize {
        self.go(n.n(), false)
    }
    pub fn notify_relaxed(&self, n: usize) {
        self.go(n, false);
    }
    pub fn notify_additional(&self, n: usize) {
        self.go(n, true);
    }
    pub fn notify_additional_relaxed(&self, n: usize) {
        self.go(n, true);
    }
    pub fn is_notified(&self) -> bool {
        self.inner.get().q.lock().unwrap().iter().any(|e| e.notified)
    }
    pub fn total_listeners(&self) -> usize {
        self.inner.get().q.lock().unwrap().len()
    }
}
pub trait IntoN {
    fn n(self) -> usize;
}
impl IntoN for usize {
    fn n(self) -> usize {
        self
    }
}
impl IntoN for i32 {
    fn n(self) -> usize {
        self as usize
    }
}
pub struct EventListener {
    inner: Arc<Inner>,
    id: u64,
    listening: bool,
}
impl EventListener {
    pub fn new(e: &Event) -> Self {
        EventListener { inner: e.inner.get().clone(), id: vrt::fresh_id(), listening: false }
    }
    fn add(&mut self) {
        if self.listening {
            return;
        }
        vrt::point("listen");
        self.inner.q.lock().unwrap().push_back(Entry { id: self.id, ..Default::default() });
        self.listening = true;
        if let Some(t) = vrt::me() {
            vrt::log(format!("{{\"e\":\"listen\",\"t\":{}}}", t + 1));
        }
    }
    pub fn listen(mut self: Pin<&mut Self>) {
        self.as_mut().get_mut().add()
    }
    pub fn is_listening(&self) -> bool {
        self.listening
    }
    fn take(&mut self) -> bool {
        let mut q = self.inner.q.lock().unwrap();
        if let Some(i) = q.iter().position(|e| e.id == self.id && e.notified) {
            q.remove(i);
            self.listening = false;
            return true;
        }
        false
    }
    pub fn wait(mut self: Pin<&mut Self>) {
        let me = self.as_mut().get_mut();
        assert!(me.listening, "wait without listen");
        while !me.take() {
            vrt::block(me.id, "wait");
        }
    }
    pub fn wait_timeout(self: Pin<&mut Self>, d: Duration) -> Option<()> {
        self.wait_deadline(Instant::now() + d)
    }
    pub fn wait_deadline(mut self: Pin<&mut Self>, d: Instant) -> Option<()> {
        let me = self.as_mut().get_mut();
        assert!(me.listening, "wait without listen");
        loop {
            if me.take() {
                return Some(());
            }
            // a deadline in the past has expired; any other one expires when the environment says
            if d <= Instant::now() || EXPIRED.with_id(me.id) {
                if let Some(t) = vrt::me() {
                    vrt::log(format!("{{\"e\":\"expired\",\"t\":{}}}", t + 1));
                }
                let mut q = me.inner.q.lock().unwrap();
                q.retain(|e| e.id != me.id);
                me.listening = false;
                return None;
            }
            DEADLINES.add(me.id);
            vrt::block(me.id, "wait_deadline");
            DEADLINES.remove(me.id);
        }
    }
    pub fn discard(mut self: Pin<&mut Self>) -> bool {
        self.as_mut().get_mut().take()
    }
    pub fn listens_to(&self, e: &Event) -> bool {
        Arc::ptr_eq(&self.inner, e.inner.get())
    }
}
impl Drop for EventListener {
    fn drop(&mut self) {
        if !self.listening {
            return;
        }
        let mut again = None;
        {
            let mut q = self.inner.q.lock().unwrap();
            if let Some(i) = q.iter().position(|e| e.id == self.id) {
                let e = q.remove(i).unwrap();
                if e.notified {
                    again = Some(e.additional)
                }
            }
        }
        // a notification that was not used is passed on
        if let Some(a) = again {
            self.inner.notify(1, a)
        }
    }
}
impl Future for EventListener {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = self.as_mut().get_mut();
        assert!(me.listening, "poll without listen");
        if me.take() {
            return Poll::Ready(());
        }
        let mut q = me.inner.q.lock().unwrap();
        if let Some(e) = q.iter_mut().find(|e| e.id == me.id) {
            e.waker = Some(cx.waker().clone());
        }
        Poll::Pending
    }
}
/// Virtual deadlines: which listeners wait with one, and which of those have expired.
pub struct IdSet(Mutex<Vec<u64>>);
impl IdSet {
    pub fn add(&self, id: u64) {
        self.0.lock().unwrap().push(id)
    }
    pub fn remove(&self, id: u64) {
        self.0.lock().unwrap().retain(|x| *x != id)
    }
    pub fn with_id(&self, id: u64) -> bool {
        self.0.lock().unwrap().contains(&id)
    }
    pub fn all(&self) -> Vec<u64> {
        self.0.lock().unwrap().clone()
    }
    pub fn clear(&self) {
        self.0.lock().unwrap().clear()
    }
}
pub static DEADLINES: IdSet = IdSet(Mutex::new(vec![]));
pub static EXPIRED: IdSet = IdSet(Mutex::new(vec![]));
