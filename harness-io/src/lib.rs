#![allow(dead_code)]
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[cfg(feature = "native")]
#[path = "../../harness/src/native.rs"]
pub mod native;
#[path = "../../harness/src/spec.rs"]
mod spec;
#[path = "../../harness-client/src/clock.rs"]
mod clock;
mod value;
mod ser;
mod aio;
mod chan;
mod arun;

macro_rules! entries {
    ($($m:ident :: $n:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $n() { $m::$n() })*
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

entries! {
    chan::h_tokio_oneshot,
    chan::h_tokio_queue,
    ser::h_serde_str,
    ser::h_serde_args,
    ser::h_serde_msg,
    ser::h_serde_small,
    ser::h_serde_secret,
    aio::h_decode,
    aio::h_decode_long,
    aio::h_encode,
    aio::h_aread,
    aio::h_send,
    arun::h_arun_times,
    arun::h_arun_stall,
    arun::h_arun_trickle,
    arun::h_arun_errors,
}
