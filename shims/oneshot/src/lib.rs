//! Stand-in for `oneshot` (not in the offline cargo cache).
use std::sync::mpsc;

pub struct Sender<T>(mpsc::SyncSender<T>);
pub struct Receiver<T>(mpsc::Receiver<T>);
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct RecvError;
pub struct SendError<T>(pub T);
impl<T> std::fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SendError")
    }
}
impl<T> std::fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("sending on a closed channel")
    }
}
impl<T> std::error::Error for SendError<T> {}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
impl std::fmt::Display for RecvError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "channel closed")
    }
}
impl std::error::Error for RecvError {}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let (a, b) = mpsc::sync_channel(1);
    (Sender(a), Receiver(b))
}
impl<T> Sender<T> {
    pub fn send(self, x: T) -> Result<(), SendError<T>> {
        self.0.send(x).map_err(|e| SendError(e.0))
    }
}
impl<T> Receiver<T> {
    pub fn recv(self) -> Result<T, RecvError> {
        self.0.recv().map_err(|_| RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.try_recv().map_err(|e| match e {
            mpsc::TryRecvError::Empty => TryRecvError::Empty,
            mpsc::TryRecvError::Disconnected => TryRecvError::Disconnected,
        })
    }
}
