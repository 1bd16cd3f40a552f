//! flume itself, with a preemption point before every channel operation.
pub use flume_real::{r#async, Drain, IntoIter, Iter, RecvError, RecvTimeoutError, SendError, SendTimeoutError, TryIter, TryRecvError, TrySendError};
use std::ops::Deref;

pub struct Sender<T>(flume_real::Sender<T>);
pub struct Receiver<T>(flume_real::Receiver<T>);
pub struct WeakSender<T>(flume_real::WeakSender<T>);

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let (a, b) = flume_real::unbounded();
    (Sender(a), Receiver(b))
}
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let (a, b) = flume_real::bounded(n);
    (Sender(a), Receiver(b))
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        Receiver(self.0.clone())
    }
}
impl<T> Deref for Sender<T> {
    type Target = flume_real::Sender<T>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<T> Deref for Receiver<T> {
    type Target = flume_real::Receiver<T>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<T> std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Sender").finish()
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Receiver").finish()
    }
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        vxrt::yield_point("chan.send");
        self.0.send(t)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        vxrt::yield_point("chan.send");
        self.0.try_send(t)
    }
    pub fn same_channel(&self, o: &Sender<T>) -> bool {
        self.0.same_channel(&o.0)
    }
    pub fn downgrade(&self) -> WeakSender<T> {
        WeakSender(self.0.downgrade())
    }
    pub fn into_send_async<'a>(self, t: T) -> r#async::SendFut<'a, T> {
        self.0.into_send_async(t)
    }
    pub fn into_sink<'a>(self) -> r#async::SendSink<'a, T> {
        self.0.into_sink()
    }
}
impl<T> WeakSender<T> {
    pub fn upgrade(&self) -> Option<Sender<T>> {
        self.0.upgrade().map(Sender)
    }
}
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        vxrt::yield_point("chan.recv");
        self.0.try_recv()
    }
    pub fn recv_async(&self) -> r#async::RecvFut<'_, T> {
        vxrt::yield_point("chan.recv");
        self.0.recv_async()
    }
    pub fn into_recv_async<'a>(self) -> r#async::RecvFut<'a, T> {
        vxrt::yield_point("chan.recv");
        self.0.into_recv_async()
    }
    pub fn into_stream<'a>(self) -> r#async::RecvStream<'a, T> {
        self.0.into_stream()
    }
    pub fn drain(&self) -> Drain<'_, T> {
        vxrt::yield_point("chan.drain");
        self.0.drain()
    }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool {
        self.0.same_channel(&o.0)
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        self.0.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.0.iter()
    }
}
