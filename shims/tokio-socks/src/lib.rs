//! Type-level stub: connecting always fails.
pub mod tcp {
    use std::{io, net::SocketAddr, ops::Deref, pin::Pin, task::{Context, Poll}};
    use tokio::{io::{AsyncRead, AsyncWrite, ReadBuf}, net::TcpStream};

    pub struct Socks5Stream<S>(S);

    impl Socks5Stream<TcpStream> {
        pub async fn connect_with_socket(_s: TcpStream, _a: SocketAddr) -> io::Result<Self> {
            Err(io::ErrorKind::Unsupported.into())
        }
    }
    impl<S> Deref for Socks5Stream<S> {
        type Target = S;
        fn deref(&self) -> &S {
            &self.0
        }
    }
    impl<S: AsyncRead + Unpin> AsyncRead for Socks5Stream<S> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_read(cx, buf)
        }
    }
    impl<S: AsyncWrite + Unpin> AsyncWrite for Socks5Stream<S> {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            Pin::new(&mut self.0).poll_write(cx, b)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_flush(cx)
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_shutdown(cx)
        }
    }
}
