//! Stand-in for tokio: synchronisation primitives, I/O traits and macros are tokio's own; tasks,
//! sockets, timers and runtimes belong to the controlled world.

pub use tokio_real::{io, join, macros, main, pin, select, sync, try_join};
#[doc(hidden)]
pub use tokio_real::{fs, process, signal};

pub use task::spawn;

pub mod task {
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub struct JoinHandle<T> {
        id: usize,
        st: mcrt::Shared<T>,
    }

    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            mcrt::abort(self.id)
        }
        pub fn is_finished(&self) -> bool {
            mcrt::is_finished(&self.st)
        }
        pub fn abort_handle(&self) -> AbortHandle {
            AbortHandle { id: self.id }
        }
    }

    #[derive(Clone, Debug)]
    pub struct AbortHandle {
        id: usize,
    }

    impl AbortHandle {
        pub fn abort(&self) {
            mcrt::abort(self.id)
        }
    }

    impl<T> fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "JoinHandle({})", self.id)
        }
    }

    impl<T> Unpin for JoinHandle<T> {}

    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            mcrt::poll_join(&self.st, cx).map(|r| r.map_err(JoinError))
        }
    }

    pub struct JoinError(mcrt::Panic);

    impl JoinError {
        pub fn is_panic(&self) -> bool {
            matches!(self.0, mcrt::Panic::Payload(_))
        }
        pub fn is_cancelled(&self) -> bool {
            matches!(self.0, mcrt::Panic::Cancelled)
        }
        pub fn into_panic(self) -> Box<dyn std::any::Any + Send + 'static> {
            match self.0 {
                mcrt::Panic::Payload(p) => p,
                _ => panic!("not a panic"),
            }
        }
    }

    // The payload is never touched through a shared reference.
    unsafe impl Sync for JoinError {}

    impl fmt::Debug for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "JoinError({})", if self.is_panic() { "panic" } else { "cancelled" })
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(self, f)
        }
    }
    impl std::error::Error for JoinError {}

    #[track_caller]
    pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let (id, st) = mcrt::spawn(fut);
        JoinHandle { id, st }
    }

    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        spawn(async move { f() })
    }

    pub fn block_in_place<F, R>(f: F) -> R
    where
        F: FnOnce() -> R,
    {
        f()
    }

    pub async fn yield_now() {
        mcrt::yield_now().await
    }

    pub async fn unconstrained<F: Future>(f: F) -> F::Output {
        f.await
    }

    pub struct JoinSet<T> {
        v: Vec<JoinHandle<T>>,
    }

    impl<T> Default for JoinSet<T> {
        fn default() -> Self {
            JoinSet { v: vec![] }
        }
    }

    impl<T> JoinSet<T> {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn len(&self) -> usize {
            self.v.len()
        }
        pub fn is_empty(&self) -> bool {
            self.v.is_empty()
        }
        pub fn abort_all(&mut self) {
            for h in &self.v {
                h.abort()
            }
        }
        pub fn detach_all(&mut self) {
            self.v.clear()
        }
    }

    impl<T: Send + 'static> JoinSet<T> {
        pub fn spawn<F>(&mut self, f: F) -> AbortHandle
        where
            F: Future<Output = T> + Send + 'static,
        {
            let h = spawn(f);
            let a = h.abort_handle();
            self.v.push(h);
            a
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            if self.v.is_empty() {
                return None;
            }
            std::future::poll_fn(|cx| {
                // Completed tasks are handed out in an order chosen by the explorer.
                let ready: Vec<usize> = (0..self.v.len()).filter(|&i| self.v[i].is_finished()).collect();
                if !ready.is_empty() {
                    let k = mcrt::choose(mcrt::Kind::Select, ready.len());
                    let mut h = self.v.remove(ready[k]);
                    return match Pin::new(&mut h).poll(cx) {
                        Poll::Ready(r) => Poll::Ready(Some(r)),
                        Poll::Pending => unreachable!(),
                    };
                }
                for h in self.v.iter_mut() {
                    let _ = Pin::new(h).poll(cx).is_ready();
                }
                Poll::Pending
            })
            .await
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            self.v.clear();
        }
    }

    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            self.abort_all()
        }
    }
}

pub mod time {
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::Duration;
    use std::sync::OnceLock;

    fn base() -> std::time::Instant {
        static B: OnceLock<std::time::Instant> = OnceLock::new();
        *B.get_or_init(std::time::Instant::now)
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(u64);

    impl Instant {
        pub fn now() -> Instant {
            Instant(mcrt::now_ns())
        }
        pub fn elapsed(&self) -> Duration {
            Duration::from_nanos(mcrt::now_ns() - self.0)
        }
        pub fn duration_since(&self, e: Instant) -> Duration {
            Duration::from_nanos(self.0.saturating_sub(e.0))
        }
        pub fn into_std(self) -> std::time::Instant {
            base() + Duration::from_nanos(self.0)
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d.as_nanos() as u64)
        }
    }
    impl std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, d: Instant) -> Duration {
            self.duration_since(d)
        }
    }

    pub type Sleep = mcrt::Sleep;

    pub fn sleep(d: Duration) -> Sleep {
        mcrt::sleep_ns(d.as_nanos().min(u64::MAX as u128) as u64)
    }

    pub fn sleep_until(i: Instant) -> Sleep {
        mcrt::sleep_ns(i.0.saturating_sub(mcrt::now_ns()))
    }

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }

    pub struct Timeout<F> {
        f: Pin<Box<F>>,
        s: Sleep,
    }

    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if let Poll::Ready(v) = self.f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            match Pin::new(&mut self.s).poll(cx) {
                Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
                Poll::Pending => Poll::Pending,
            }
        }
    }

    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
        Timeout { f: Box::pin(f), s: sleep(d) }
    }

    pub fn timeout_at<F: Future>(i: Instant, f: F) -> Timeout<F> {
        Timeout { f: Box::pin(f), s: sleep_until(i) }
    }

    pub struct Interval {
        next: u64,
        period: u64,
    }

    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            let at = self.next;
            mcrt::sleep_ns(at.saturating_sub(mcrt::now_ns())).await;
            self.next = at + self.period;
            Instant(at)
        }
    }

    pub fn interval(d: Duration) -> Interval {
        Interval { next: mcrt::now_ns(), period: d.as_nanos() as u64 }
    }

    impl fmt::Debug for Interval {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Interval")
        }
    }
}

pub mod net {
    use std::io::Result;
    use std::net::{IpAddr, Ipv4Addr, SocketAddr};
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll};
    use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

    pub trait ToSocketAddrs: std::net::ToSocketAddrs {}
    impl<T: std::net::ToSocketAddrs + ?Sized> ToSocketAddrs for T {}

    fn addr(port: u16) -> SocketAddr {
        SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), port)
    }

    pub struct TcpListener {
        port: u16,
        l: Arc<Mutex<mcrt::net::Listener>>,
    }

    impl TcpListener {
        pub async fn bind<A: ToSocketAddrs>(a: A) -> Result<TcpListener> {
            let p = first(a)?;
            mcrt::yield_now().await;
            let (port, l) = mcrt::net::listen(p)?;
            Ok(TcpListener { port, l })
        }
        pub async fn accept(&self) -> Result<(TcpStream, SocketAddr)> {
            std::future::poll_fn(|cx| self.poll_accept(cx)).await
        }
        pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<Result<(TcpStream, SocketAddr)>> {
            mcrt::net::poll_accept(&self.l, cx).map(|s| {
                let p = s.peer;
                Ok((TcpStream::new(s), addr(p)))
            })
        }
        pub fn local_addr(&self) -> Result<SocketAddr> {
            Ok(addr(self.port))
        }
    }

    impl Drop for TcpListener {
        fn drop(&mut self) {
            mcrt::net::close_listener(&self.l)
        }
    }

    impl std::fmt::Debug for TcpListener {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "TcpListener({})", self.port)
        }
    }

    fn first<A: ToSocketAddrs>(a: A) -> Result<SocketAddr> {
        a.to_socket_addrs()?.next().ok_or_else(|| std::io::ErrorKind::InvalidInput.into())
    }

    /// The socket itself: closed when the last handle goes.
    struct Fd {
        s: mcrt::net::Stream,
    }

    impl Drop for Fd {
        fn drop(&mut self) {
            mcrt::net::close_read(&self.s.rd);
            mcrt::net::close_write(&self.s.wr);
        }
    }

    pub struct TcpStream {
        fd: Arc<Fd>,
    }

    impl std::fmt::Debug for TcpStream {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "TcpStream({}->{})", self.fd.s.local, self.fd.s.peer)
        }
    }

    impl TcpStream {
        fn new(s: mcrt::net::Stream) -> Self {
            TcpStream { fd: Arc::new(Fd { s }) }
        }
        pub async fn connect<A: ToSocketAddrs>(a: A) -> Result<TcpStream> {
            let p = first(a)?;
            // The handshake takes time: other tasks may run in between.
            mcrt::yield_now().await;
            Ok(TcpStream::new(mcrt::net::connect(p)?))
        }
        pub fn set_nodelay(&self, _: bool) -> Result<()> {
            Ok(())
        }
        pub fn nodelay(&self) -> Result<bool> {
            Ok(true)
        }
        pub fn set_linger(&self, _: Option<std::time::Duration>) -> Result<()> {
            Ok(())
        }
        pub fn peer_addr(&self) -> Result<SocketAddr> {
            Ok(addr(self.fd.s.peer))
        }
        pub fn local_addr(&self) -> Result<SocketAddr> {
            Ok(addr(self.fd.s.local))
        }
        pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
            (
                tcp::OwnedReadHalf { fd: self.fd.clone() },
                tcp::OwnedWriteHalf { fd: self.fd, shut: true },
            )
        }
        pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
            (tcp::ReadHalf { fd: &self.fd }, tcp::WriteHalf { fd: &self.fd })
        }
    }

    fn rd(fd: &Arc<Fd>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let dst = buf.initialize_unfilled();
        match mcrt::net::poll_read(&fd.s.rd, cx, dst) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(k)) => {
                buf.advance(k);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        }
    }

    macro_rules! reader {
        ($t:ty) => {
            impl AsyncRead for $t {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
                    rd(&self.fd, cx, buf)
                }
            }
        };
    }
    macro_rules! writer {
        ($t:ty) => {
            impl AsyncWrite for $t {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
                    mcrt::net::poll_write(&self.fd.s.wr, cx, buf)
                }
                fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
                    Poll::Ready(Ok(()))
                }
                fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
                    mcrt::net::close_write(&self.fd.s.wr);
                    Poll::Ready(Ok(()))
                }
            }
        };
    }
    reader!(TcpStream);
    writer!(TcpStream);

    pub mod tcp {
        use super::*;

        pub struct OwnedReadHalf {
            pub(super) fd: Arc<Fd>,
        }
        pub struct OwnedWriteHalf {
            pub(super) fd: Arc<Fd>,
            pub(super) shut: bool,
        }
        pub struct ReadHalf<'a> {
            pub(super) fd: &'a Arc<Fd>,
        }
        pub struct WriteHalf<'a> {
            pub(super) fd: &'a Arc<Fd>,
        }
        reader!(OwnedReadHalf);
        writer!(OwnedWriteHalf);
        reader!(ReadHalf<'_>);
        writer!(WriteHalf<'_>);

        impl std::fmt::Debug for OwnedReadHalf {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "OwnedReadHalf")
            }
        }
        impl std::fmt::Debug for OwnedWriteHalf {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "OwnedWriteHalf")
            }
        }
        #[derive(Debug)]
        pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);

        impl OwnedReadHalf {
            pub fn reunite(self, mut o: OwnedWriteHalf) -> std::result::Result<TcpStream, ReuniteError> {
                if Arc::ptr_eq(&self.fd, &o.fd) {
                    o.shut = false;
                    Ok(TcpStream { fd: self.fd.clone() })
                } else {
                    Err(ReuniteError(self, o))
                }
            }
            pub fn peer_addr(&self) -> Result<SocketAddr> {
                Ok(addr(self.fd.s.peer))
            }
            pub fn local_addr(&self) -> Result<SocketAddr> {
                Ok(addr(self.fd.s.local))
            }
        }
        impl OwnedWriteHalf {
            pub fn forget(mut self) {
                self.shut = false;
            }
            pub fn peer_addr(&self) -> Result<SocketAddr> {
                Ok(addr(self.fd.s.peer))
            }
            pub fn local_addr(&self) -> Result<SocketAddr> {
                Ok(addr(self.fd.s.local))
            }
        }
        impl Drop for OwnedWriteHalf {
            fn drop(&mut self) {
                if self.shut {
                    mcrt::net::close_write(&self.fd.s.wr);
                }
            }
        }
    }
}

pub mod runtime {
    use std::future::Future;
    use std::io::Result;

    pub struct Builder(());

    impl Builder {
        pub fn new_current_thread() -> Builder {
            Builder(())
        }
        pub fn new_multi_thread() -> Builder {
            Builder(())
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> Result<Runtime> {
            Ok(Runtime { h: Handle(()) })
        }
    }

    #[derive(Debug)]
    pub struct Runtime {
        h: Handle,
    }

    #[derive(Clone, Debug)]
    pub struct Handle(());

    pub struct EnterGuard<'a>(std::marker::PhantomData<&'a ()>);

    impl Handle {
        pub fn current() -> Handle {
            Handle(())
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::spawn(f)
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            mcrt::block_on(f)
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            EnterGuard(std::marker::PhantomData)
        }
    }

    impl Runtime {
        pub fn new() -> Result<Runtime> {
            Ok(Runtime { h: Handle(()) })
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            mcrt::block_on(f)
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::spawn(f)
        }
        pub fn handle(&self) -> &Handle {
            &self.h
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            EnterGuard(std::marker::PhantomData)
        }
        pub fn shutdown_timeout(self, _: std::time::Duration) {}
        pub fn shutdown_background(self) {}
    }

    impl Drop for Runtime {
        fn drop(&mut self) {
            mcrt::drop_runtime()
        }
    }
}
