//! Stand-in for the `snowstorm` crate (not in the offline cache): the same interface over the plain stream.
//! Nothing here encrypts, so no claim about secrecy rests on it.
use std::{
    fmt,
    io,
    pin::Pin,
    str::FromStr,
    task::{Context, Poll},
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("snowstorm stand-in")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub struct NoiseParams;
impl FromStr for NoiseParams {
    type Err = Error;
    fn from_str(_: &str) -> Result<Self, Error> {
        Ok(NoiseParams)
    }
}
pub struct Keypair {
    pub private: Vec<u8>,
    pub public: Vec<u8>,
}
pub struct Builder;
pub struct HandshakeState;
pub struct State;
impl State {
    pub fn get_remote_static(&self) -> Option<&[u8]> {
        Some(&[])
    }
}
impl Builder {
    pub fn new(_: NoiseParams) -> Self {
        Builder
    }
    pub fn generate_keypair(&self) -> Result<Keypair, Error> {
        Ok(Keypair { private: vec![0; 32], public: vec![0; 32] })
    }
    pub fn local_private_key(self, _: &[u8]) -> Self {
        self
    }
    pub fn build_initiator(self) -> Result<HandshakeState, Error> {
        Ok(HandshakeState)
    }
    pub fn build_responder(self) -> Result<HandshakeState, Error> {
        Ok(HandshakeState)
    }
}
pub struct NoiseStream<T>(T, State);
impl<T: AsyncRead + AsyncWrite + Unpin> NoiseStream<T> {
    pub async fn handshake(inner: T, _: HandshakeState) -> Result<Self, Error> {
        Ok(NoiseStream(inner, State))
    }
}
impl<T> NoiseStream<T> {
    pub fn get_inner(&self) -> &T {
        &self.0
    }
    pub fn get_state(&self) -> &State {
        &self.1
    }
}
impl<T: AsyncRead + Unpin> AsyncRead for NoiseStream<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for NoiseStream<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}
