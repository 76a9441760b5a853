//! The channels handlers are given with the tokio feature.
use crate::nd;
use std::ops::ControlFlow;
use vinezombie::client::channel::{ChannelSpec, Sender, Sent, TokioChannels};

/// Counts drops.
static mut DROPS: [u8; 8] = [0; 8];
struct Val(usize, u8);
impl Drop for Val {
    fn drop(&mut self) {
        unsafe { DROPS[self.0] += 1 }
    }
}
fn drops(i: usize) -> u8 {
    unsafe { DROPS[i] }
}
const OPEN: ControlFlow<Sent> = ControlFlow::Continue(());
const DONE: ControlFlow<Sent> = ControlFlow::Break(Sent::Ok);
const SHUT: ControlFlow<Sent> = ControlFlow::Break(Sent::Closed);

pub fn h_tokio_oneshot() {
    let (mut s, r) = TokioChannels.new_oneshot::<Val>();
    let mut r = Some(r);
    let mut sent: Option<u8> = None;
    let mut used = false;
    let mut n = 0;
    for _ in 0..nd::param(0) {
        match nd::choose(3) {
            0 if n < 8 => {
                let d = nd::u8_();
                let ok = !used && r.is_some();
                nd::check(!ok || s.may_send(), "an open channel says that it cannot be sent to");
                nd::check(s.send(Val(n, d)) == if ok { DONE } else { SHUT }, "the result of sending differs");
                nd::check(drops(n) == !ok as u8, "a value is dropped or kept wrongly");
                if ok {
                    sent = Some(d);
                }
                used = true;
                n += 1;
            }
            1 => {
                let Some(r) = &mut r else { continue };
                match (r.try_recv(), sent.take()) {
                    (Ok(v), Some(d)) => nd::check(v.1 == d, "the value received differs"),
                    (Err(_), None) => (),
                    _ => nd::fail("a value is lost or invented"),
                }
            }
            2 => {
                r = None;
                sent = None;
            }
            _ => (),
        }
    }
    drop(r);
    drop(s);
    for i in 0..n {
        nd::check(drops(i) == 1, "a value is dropped twice or never");
    }
}
pub fn h_tokio_queue() {
    let weak = nd::flip();
    let (mut keep, mut s, r): (_, Box<dyn Sender<Value = Val> + Send>, _) = if weak {
        let (s, r) = tokio::sync::mpsc::unbounded_channel::<Val>();
        let w = s.downgrade();
        (Some(s), Box::new(w), r)
    } else {
        let (s, r) = TokioChannels.new_queue::<Val>();
        (None, s, r)
    };
    let mut r = Some(r);
    let mut sent: Vec<u8> = vec![];
    let mut n = 0;
    for _ in 0..nd::param(0) {
        match nd::choose(4) {
            0 if n < 8 => {
                let d = nd::u8_();
                let ok = r.is_some() && (!weak || keep.is_some());
                nd::check(s.may_send(), "a queue says that it cannot be sent to");
                nd::check(s.send(Val(n, d)) == if ok { OPEN } else { SHUT }, "the result of sending differs");
                nd::check(drops(n) == !ok as u8, "a value is dropped or kept wrongly");
                if ok {
                    sent.push(d);
                }
                n += 1;
            }
            1 => {
                let Some(r) = &mut r else { continue };
                match r.try_recv() {
                    Ok(v) => {
                        nd::check(!sent.is_empty(), "a value is invented");
                        nd::check(v.1 == sent.remove(0), "values are received out of order");
                    }
                    Err(_) => nd::check(sent.is_empty(), "a value is lost"),
                }
            }
            2 => {
                r = None;
                sent.clear();
            }
            3 => keep = None,
            _ => (),
        }
    }
    drop(r);
    drop(s);
    drop(keep);
    for i in 0..n {
        nd::check(drops(i) == 1, "a value is dropped twice or never");
    }
}
