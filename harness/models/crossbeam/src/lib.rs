//! The receiving end of a channel the harness feeds.
pub struct Receiver<T>(pub fn() -> Option<T>);
#[derive(Debug)]
pub struct RecvError;
#[derive(Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
impl std::fmt::Display for RecvError {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for RecvError {}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        (self.0)().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        (self.0)().ok_or(TryRecvError::Disconnected)
    }
}
