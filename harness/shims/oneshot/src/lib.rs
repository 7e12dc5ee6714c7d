//! Offline stand-in for oneshot, over a std channel (blocking receive only).
use std::sync::mpsc;
#[derive(Debug)]
pub struct Sender<T>(mpsc::SyncSender<T>);
#[derive(Debug)]
pub struct Receiver<T>(mpsc::Receiver<T>);
pub struct SendError<T>(pub T);
impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sending on a closed channel") } }
impl<T> std::error::Error for SendError<T> {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct RecvError;
impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
impl std::error::Error for RecvError {}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let (a, b) = mpsc::sync_channel(1); (Sender(a), Receiver(b)) }
impl<T> Sender<T> { pub fn send(self, t: T) -> Result<(), SendError<T>> { self.0.send(t).map_err(|e| SendError(e.0)) } }
impl<T> Receiver<T> {
    pub fn recv(self) -> Result<T, RecvError> { self.0.recv().map_err(|_| RecvError) }
    pub fn try_recv(&self) -> Result<T, RecvError> { self.0.try_recv().map_err(|_| RecvError) }
}
