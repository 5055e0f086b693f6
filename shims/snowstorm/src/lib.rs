//! Type-level stub: a pass-through stream without encryption (nothing here checks the noise transport).
use std::{io, pin::Pin, str::FromStr, task::{Context, Poll}};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Debug)]
pub struct NoiseParams;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("noise")
    }
}
impl FromStr for NoiseParams {
    type Err = Error;
    fn from_str(_: &str) -> Result<Self, Error> {
        Ok(Self)
    }
}
pub struct Keypair {
    pub private: Vec<u8>,
    pub public: Vec<u8>,
}
pub struct HandshakeState;
pub struct TransportState;
impl TransportState {
    pub fn get_remote_static(&self) -> Option<&[u8]> {
        Some(&[])
    }
}
pub struct Builder;
impl Builder {
    pub fn new(_: NoiseParams) -> Self {
        Self
    }
    pub fn generate_keypair(&self) -> Result<Keypair, Error> {
        Ok(Keypair { private: vec![0; 32], public: vec![0; 32] })
    }
    pub fn local_private_key(self, _: &[u8]) -> Self {
        self
    }
    pub fn build_initiator(self) -> Result<HandshakeState, Error> {
        Ok(HandshakeState)
    }
    pub fn build_responder(self) -> Result<HandshakeState, Error> {
        Ok(HandshakeState)
    }
}
pub struct NoiseStream<S>(S, TransportState);
impl<S> NoiseStream<S> {
    pub async fn handshake(s: S, _: HandshakeState) -> Result<Self, Error> {
        Ok(Self(s, TransportState))
    }
    pub fn get_state(&self) -> &TransportState {
        &self.1
    }
    pub fn get_inner(&self) -> &S {
        &self.0
    }
}
impl<S: AsyncRead + Unpin> AsyncRead for NoiseStream<S> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}
impl<S: AsyncWrite + Unpin> AsyncWrite for NoiseStream<S> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}
