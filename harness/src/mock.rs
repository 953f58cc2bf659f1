//! The transport: a stream whose every read, write and flush is answered by a [`Plan`], connected
//! to a [`Peer`].
use std::{
    fmt, io,
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
    time::Duration,
};

use tokio::{
    io::{AsyncRead, AsyncWrite, ReadBuf},
    time::Sleep,
};

/// What is at the other end of a stream.
pub trait Peer: Send {
    /// The stream was opened.
    fn open(&mut self, out: &mut Vec<u8>);
    /// The client sent `bytes`.
    fn recv(&mut self, bytes: &[u8], out: &mut Vec<u8>);
    /// The client waits for more than it was sent.
    fn starved(&mut self, _out: &mut Vec<u8>) {}
    /// There won't be any more output.
    fn closed(&self) -> bool {
        false
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Act {
    /// The call ends here
    Split,
    /// The call has to be repeated
    Pend,
    /// The call has to be repeated after so many milliseconds
    Delay(u64),
    /// The call never ends
    Stall,
    /// End of stream, or nothing is accepted any more
    Eof,
    /// The call fails once
    Fail,
    /// Every call from now on fails
    Reset,
}

/// How the transport departs from the ideal one, which accepts and returns everything at once.
#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
pub struct Plan {
    /// by number of bytes read so far
    pub read: Vec<(usize, Act)>,
    /// by number of bytes written so far
    pub write: Vec<(usize, Act)>,
    /// by number of flushes so far
    pub flush: Vec<(usize, Act)>,
    /// at most so many bytes at once, if not 0
    pub read_chunk: usize,
    pub write_chunk: usize,
    /// every call is pending once
    pub pend_read: bool,
    pub pend_write: bool,
    pub pend_flush: bool,
    /// every call is delayed by so many milliseconds
    pub delay_read: u64,
    /// written data reaches the peer only when it is flushed
    pub buffered: bool,
}

#[derive(Default)]
struct Dir {
    acts: Vec<(usize, Act)>,
    delay: Option<Pin<Box<Sleep>>>,
    pended: bool,
    broken: bool,
}

enum Step {
    Go(usize),
    Pending,
    End,
    Fail,
}

impl Dir {
    fn step(&mut self, cx: &mut Context<'_>, pos: usize, pend_each: bool, delay_each: u64) -> Step {
        if self.broken {
            return Step::Fail;
        }
        if let Some(d) = &mut self.delay {
            match d.as_mut().poll(cx) {
                Poll::Ready(()) => self.delay = None,
                Poll::Pending => return Step::Pending,
            }
        }
        let mut split = false;
        while let Some(&(at, act)) = self.acts.first() {
            if at > pos {
                break;
            }
            if at < pos {
                // lies behind, this happens if several calls share a position
                self.acts.remove(0);
                continue;
            }
            match act {
                Act::Split => {
                    self.acts.remove(0);
                    split = true;
                }
                Act::Pend => {
                    self.acts.remove(0);
                    cx.waker().wake_by_ref();
                    return Step::Pending;
                }
                Act::Delay(ms) => {
                    self.acts.remove(0);
                    let mut d = Box::pin(tokio::time::sleep(Duration::from_millis(ms)));
                    if d.as_mut().poll(cx).is_pending() {
                        self.delay = Some(d);
                        return Step::Pending;
                    }
                }
                Act::Stall => return Step::Pending,
                Act::Eof => return Step::End,
                Act::Fail => {
                    self.acts.remove(0);
                    return Step::Fail;
                }
                Act::Reset => {
                    self.broken = true;
                    return Step::Fail;
                }
            }
        }
        let _ = split;
        if (pend_each || delay_each != 0) && !self.pended {
            self.pended = true;
            if delay_each != 0 {
                let mut d = Box::pin(tokio::time::sleep(Duration::from_millis(delay_each)));
                if d.as_mut().poll(cx).is_pending() {
                    self.delay = Some(d);
                    return Step::Pending;
                }
            } else {
                cx.waker().wake_by_ref();
            }
            return Step::Pending;
        }
        self.pended = false;
        Step::Go(
            self.acts
                .first()
                .map(|x| x.0 - pos)
                .unwrap_or(usize::MAX),
        )
    }
}

pub struct Pipe {
    peer: Box<dyn Peer>,
    plan: Plan,
    pub s2c: Vec<u8>,
    pub rpos: usize,
    pub c2s: Vec<u8>,
    delivered: usize,
    pub flushes: usize,
    pub calls: u64,
    rd: Dir,
    wr: Dir,
    fl: Dir,
    /// no bytes of the stream are recorded
    pub forget: bool,
}

impl Pipe {
    pub fn new(peer: Box<dyn Peer>, plan: Plan) -> Self {
        let mut this = Self {
            peer,
            s2c: Vec::new(),
            rpos: 0,
            c2s: Vec::new(),
            delivered: 0,
            flushes: 0,
            calls: 0,
            rd: Dir::default(),
            wr: Dir::default(),
            fl: Dir::default(),
            plan: Plan::default(),
            forget: false,
        };
        this.set_plan(plan);
        this.peer.open(&mut this.s2c);
        this
    }

    pub fn set_plan(&mut self, plan: Plan) {
        fn sorted(x: &[(usize, Act)]) -> Vec<(usize, Act)> {
            let mut x = x.to_vec();
            x.sort_by_key(|x| x.0);
            x
        }
        self.rd.acts = sorted(&plan.read);
        self.wr.acts = sorted(&plan.write);
        self.fl.acts = sorted(&plan.flush);
        self.plan = plan;
    }

    /// Lets the peer send something on its own.
    pub fn with_peer(&mut self, f: impl FnOnce(&mut dyn Peer, &mut Vec<u8>)) {
        f(&mut *self.peer, &mut self.s2c)
    }

    /// Every position of the plan was reached.
    pub fn all_happened(&self) -> bool {
        let passed = |d: &Dir, pos: usize| d.acts.iter().all(|x| x.0 < pos);
        passed(&self.rd, self.rpos) && passed(&self.wr, self.c2s.len()) && passed(&self.fl, self.flushes)
    }

    fn deliver(&mut self) {
        if self.delivered < self.c2s.len() {
            let bytes = self.c2s[self.delivered..].to_vec();
            self.delivered = self.c2s.len();
            self.peer.recv(&bytes, &mut self.s2c);
        }
    }

    fn read(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.calls += 1;
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        let (pend, delay) = (self.plan.pend_read, self.plan.delay_read);
        match self.rd.step(cx, self.rpos, pend, delay) {
            Step::Pending => Poll::Pending,
            Step::End => Poll::Ready(Ok(())),
            Step::Fail => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
            Step::Go(max) => {
                if self.rpos == self.s2c.len() {
                    self.peer.starved(&mut self.s2c);
                }
                let mut n = max
                    .min(buf.remaining())
                    .min(self.s2c.len() - self.rpos);
                if self.plan.read_chunk != 0 {
                    n = n.min(self.plan.read_chunk);
                }
                if n == 0 {
                    if self.peer.closed() {
                        return Poll::Ready(Ok(()));
                    }
                    // the peer waits for the client
                    return Poll::Pending;
                }
                buf.put_slice(&self.s2c[self.rpos..self.rpos + n]);
                self.rpos += n;
                Poll::Ready(Ok(()))
            }
        }
    }

    fn write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.calls += 1;
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        match self.wr.step(cx, self.c2s.len(), self.plan.pend_write, 0) {
            Step::Pending => Poll::Pending,
            Step::End => Poll::Ready(Ok(0)),
            Step::Fail => Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())),
            Step::Go(max) => {
                let mut n = max.min(buf.len());
                if self.plan.write_chunk != 0 {
                    n = n.min(self.plan.write_chunk);
                }
                self.c2s.extend_from_slice(&buf[..n]);
                if !self.plan.buffered {
                    self.deliver();
                }
                Poll::Ready(Ok(n))
            }
        }
    }

    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.calls += 1;
        match self.fl.step(cx, self.flushes, self.plan.pend_flush, 0) {
            Step::Pending => Poll::Pending,
            Step::End | Step::Fail => {
                self.flushes += 1;
                Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
            }
            Step::Go(_) => {
                self.flushes += 1;
                self.deliver();
                Poll::Ready(Ok(()))
            }
        }
    }
}

pub type Shared = Arc<Mutex<Pipe>>;

pub struct Mock<const SECURE: bool>(Shared);

impl<const SECURE: bool> fmt::Debug for Mock<SECURE> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mock")
    }
}

impl<const SECURE: bool> AsyncRead for Mock<SECURE> {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        self.0.lock().unwrap().read(cx, buf)
    }
}

impl<const SECURE: bool> AsyncWrite for Mock<SECURE> {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        self.0.lock().unwrap().write(cx, buf)
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.lock().unwrap().flush(cx)
    }

    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.lock().unwrap().flush(cx)
    }
}

type Connector = dyn Fn() -> io::Result<Shared> + Send + Sync;

#[derive(Default, Clone)]
pub struct MockOptions(pub Option<Arc<Connector>>);

impl MockOptions {
    pub fn one(pipe: &Shared) -> Self {
        let pipe = pipe.clone();
        Self(Some(Arc::new(move || Ok(pipe.clone()))))
    }
}

impl fmt::Debug for MockOptions {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("MockOptions")
    }
}

impl<const SECURE: bool> mysql_connector::Stream for Mock<SECURE> {
    const SECURE: bool = SECURE;
    type Options = MockOptions;

    async fn connect(data: &MockOptions) -> Result<Self, io::Error> {
        (data.0.as_ref().expect("connector"))().map(Self)
    }
}
