//! Stand-in for the traits of `async_executors` the runtime names.
use futures::future::BoxFuture;
use std::time::Duration;
pub trait Timer {
    fn sleep(&self, dur: Duration) -> BoxFuture<'static, ()>;
}
impl<T: Timer + ?Sized> Timer for std::rc::Rc<T> {
    fn sleep(&self, dur: Duration) -> BoxFuture<'static, ()> {
        (**self).sleep(dur)
    }
}
impl Timer for futures::executor::LocalSpawner {
    fn sleep(&self, dur: Duration) -> BoxFuture<'static, ()> {
        Box::pin(async move { std::thread::sleep(dur) })
    }
}
pub trait TimerExt: Timer {}
impl<T: Timer + ?Sized> TimerExt for T {}
