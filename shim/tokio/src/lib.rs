//! tokio with another timer: time is what `Instant::now()` says (which the harness controls), and
//! deadlines that tasks wait for are recorded for the harness, which decides when to poll again.
pub use real::*;

pub mod time {
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::Mutex;
    use std::task::{Context, Poll};
    pub use std::time::Duration;
    use std::time::Instant;

    /// The deadlines of all timers that are being waited for: registered when a timer is polled
    /// and is not due, removed when it is dropped.
    static WAITING: Mutex<Vec<(u64, Option<Instant>)>> = Mutex::new(Vec::new());
    static NEXT: Mutex<u64> = Mutex::new(0);
    /// The deadlines currently waited for (`None`: never).
    pub fn waiting() -> Vec<Option<Instant>> {
        WAITING.lock().unwrap().iter().map(|p| p.1).collect()
    }

    pub struct Sleep {
        id: u64,
        at: Option<Instant>,
    }
    pub fn sleep(d: Duration) -> Sleep {
        let mut n = NEXT.lock().unwrap();
        *n += 1;
        Sleep { id: *n, at: Instant::now().checked_add(d) }
    }
    impl Sleep {
        fn due(&self) -> bool {
            match self.at {
                Some(t) => Instant::now() >= t,
                None => false,
            }
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            if self.due() {
                return Poll::Ready(());
            }
            let mut w = WAITING.lock().unwrap();
            if !w.iter().any(|p| p.0 == self.id) {
                w.push((self.id, self.at));
            }
            Poll::Pending
        }
    }
    impl Drop for Sleep {
        fn drop(&mut self) {
            WAITING.lock().unwrap().retain(|p| p.0 != self.id);
        }
    }
    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(super) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
        impl From<Elapsed> for std::io::Error {
            fn from(_: Elapsed) -> std::io::Error {
                std::io::ErrorKind::TimedOut.into()
            }
        }
    }
    pub struct Timeout<F> {
        fut: F,
        sleep: Sleep,
    }
    pub fn timeout<F: Future>(d: Duration, fut: F) -> Timeout<F> {
        Timeout { fut, sleep: sleep(d) }
    }
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            // Safety: the fields are not moved.
            let me = unsafe { self.get_unchecked_mut() };
            if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.fut) }.poll(cx) {
                return Poll::Ready(Ok(v));
            }
            match Pin::new(&mut me.sleep).poll(cx) {
                Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
                Poll::Pending => Poll::Pending,
            }
        }
    }
}
