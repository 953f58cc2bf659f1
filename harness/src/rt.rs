//! One tokio runtime per worker thread, with a virtual clock that advances only when every future
//! waits for it. No execution depends on real time.
use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};

use tokio::runtime::{Builder, Runtime};

thread_local! {
    static RT: RefCell<Option<Runtime>> = const { RefCell::new(None) };
}

/// Nothing will ever happen again.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Hang;

pub const DAY: Duration = Duration::from_secs(24 * 3600);

pub fn reset() {
    RT.with(|r| *r.borrow_mut() = None)
}

fn with<T>(f: impl FnOnce(&Runtime) -> T) -> T {
    let rt = RT.with(|r| r.borrow_mut().take()).unwrap_or_else(|| {
        Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .expect("runtime")
    });
    let res = f(&rt);
    RT.with(|r| *r.borrow_mut() = Some(rt));
    res
}

/// Runs `f` until it ends or nothing can happen any more.
pub fn run<F: Future>(f: F) -> Result<F::Output, Hang> {
    with(|rt| rt.block_on(async { tokio::time::timeout(DAY, f).await.map_err(|_| Hang) }))
}

/// Polls `f` at most `polls` times and drops it unless it ended.
pub async fn polls<F: Future>(f: F, polls: usize) -> Option<F::Output> {
    struct Limit<F: Future>(Option<Pin<Box<F>>>, usize);
    impl<F: Future> Future for Limit<F> {
        type Output = Option<F::Output>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if self.1 == 0 {
                self.0 = None;
                return Poll::Ready(None);
            }
            self.1 -= 1;
            match self.0.as_mut().unwrap().as_mut().poll(cx) {
                Poll::Ready(x) => Poll::Ready(Some(x)),
                Poll::Pending if self.1 == 0 => {
                    self.0 = None;
                    Poll::Ready(None)
                }
                Poll::Pending => Poll::Pending,
            }
        }
    }
    Limit(Some(Box::pin(f)), polls).await
}

/// Counts how often `f` is polled.
pub async fn count_polls<F: Future>(f: F) -> (F::Output, usize) {
    let mut f = Box::pin(f);
    let mut n = 0;
    let out = std::future::poll_fn(|cx| {
        n += 1;
        f.as_mut().poll(cx)
    })
    .await;
    (out, n)
}

/// Virtual milliseconds.
pub fn now() -> tokio::time::Instant {
    tokio::time::Instant::now()
}
