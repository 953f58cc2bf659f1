//! Servers on real sockets of the loopback interface, in the same thread as the client.
use std::{
    future::Future,
    io,
    net::{IpAddr, SocketAddr},
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Arc,
    },
    time::Duration,
};

use mysql_connector::{ConnectionOptions, TcpStreamOptions};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::{TcpListener, TcpSocket, TcpStream},
    task::JoinHandle,
};

use crate::{mock::Peer, rt::Hang};

/// Runs `f` in real time; it does not end if it takes two minutes.
pub fn run<F: Future>(f: F) -> Result<F::Output, Hang> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .expect("runtime");
    rt.block_on(async { tokio::time::timeout(Duration::from_secs(120), f).await.map_err(|_| Hang) })
}

pub fn options(host: &str, port: u16, nodelay: bool) -> ConnectionOptions<TcpStream> {
    ConnectionOptions {
        user: "user".into(),
        password: "secret".into(),
        connection: TcpStreamOptions {
            host: host.into(),
            port,
            nodelay,
        },
        max_allowed_packet: Some(1 << 24),
        timeout: Duration::from_secs(600),
        auth_plugin: None,
        #[cfg(not(feature = "time"))]
        sleep: Some(&crate::drive::sleep),
        ..Default::default()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Manner {
    /// bytes sent at once
    pub seg: usize,
    /// bytes received at once
    pub read: usize,
    /// the connection ends after so many bytes, regularly or not
    pub cut: Option<(usize, bool)>,
}

impl Default for Manner {
    fn default() -> Self {
        Self {
            seg: usize::MAX,
            read: 1 << 16,
            cut: None,
        }
    }
}

/// A server for each connection.
pub struct Host {
    pub addr: SocketAddr,
    accepted: Arc<AtomicUsize>,
    ended: Arc<AtomicUsize>,
    task: JoinHandle<()>,
}

impl Drop for Host {
    fn drop(&mut self) {
        self.task.abort();
    }
}

async fn serve(mut sock: TcpStream, mut peer: Box<dyn Peer>, m: Manner) -> io::Result<()> {
    sock.set_nodelay(true)?;
    let mut left = m.cut.map_or(usize::MAX, |x| x.0);
    let mut out = Vec::new();
    let mut buf = vec![0; m.read];
    peer.open(&mut out);
    loop {
        for part in out.chunks(m.seg) {
            let n = part.len().min(left);
            sock.write_all(&part[..n]).await?;
            left -= n;
            if left == 0 {
                if matches!(m.cut, Some((_, true))) {
                    sock.set_zero_linger()?;
                }
                return Ok(());
            }
            if m.seg < out.len() {
                // the client gets it in pieces
                tokio::task::yield_now().await;
            }
        }
        out.clear();
        if peer.closed() {
            return Ok(());
        }
        let n = sock.read(&mut buf).await?;
        if n == 0 {
            return Ok(());
        }
        peer.recv(&buf[..n], &mut out);
    }
}

impl Host {
    pub async fn new(
        ip: IpAddr,
        port: u16,
        peers: impl Fn(usize) -> (Box<dyn Peer>, Manner) + Send + 'static,
    ) -> io::Result<Self> {
        let listener = TcpListener::bind((ip, port)).await?;
        let addr = listener.local_addr()?;
        let accepted = Arc::new(AtomicUsize::new(0));
        let ended = Arc::new(AtomicUsize::new(0));
        let (n, e) = (accepted.clone(), ended.clone());
        let task = tokio::spawn(async move {
            while let Ok((sock, _)) = listener.accept().await {
                let (peer, manner) = peers(n.fetch_add(1, SeqCst));
                let e = e.clone();
                tokio::spawn(async move {
                    // the client is told, or the connection ended anyway
                    let _ = serve(sock, peer, manner).await;
                    e.fetch_add(1, SeqCst);
                });
            }
        });
        Ok(Self {
            addr,
            accepted,
            ended,
            task,
        })
    }

    pub fn accepted(&self) -> usize {
        self.accepted.load(SeqCst)
    }

    /// Until all connections ended.
    pub async fn settle(&self) {
        while self.ended.load(SeqCst) < self.accepted() {
            tokio::task::yield_now().await;
        }
    }
}

/// An address that nothing listens on.
pub fn closed(ip: IpAddr) -> io::Result<(TcpSocket, u16)> {
    let s = if ip.is_ipv4() {
        TcpSocket::new_v4()?
    } else {
        TcpSocket::new_v6()?
    };
    s.bind((ip, 0).into())?;
    let port = s.local_addr()?.port();
    Ok((s, port))
}
