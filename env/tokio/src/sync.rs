use crate::sh::Sh;
use std::collections::VecDeque;
use std::future::{Future, poll_fn};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
struct Wakers(Vec<Waker>);
impl Wakers {
    fn add(&mut self, w: &Waker) { let mut i = 0; while i < self.0.len() { if self.0[i].data() == w.data() { return; } i += 1; } self.0.push(w.clone()); }
    fn wake(&mut self) { while let Some(w) = self.0.pop() { w.wake(); } }
}
pub mod mpsc {
    use super::*;
    pub mod error {
        #[derive(Debug, Clone, PartialEq, Eq)] pub struct SendError<T>(pub T);
        impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
        impl<T: std::fmt::Debug> std::error::Error for SendError<T> {}
        #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum TryRecvError { Empty, Disconnected }
        #[derive(Debug)] pub enum TrySendError<T> { Full(T), Closed(T) }
    }
    use error::*;
    struct Ch<T> { q: VecDeque<T>, cap: usize, senders: usize, rx: bool, rw: Wakers, sw: Wakers }
    fn mk<T>(cap: usize) -> Sh<Ch<T>> { Sh::new(Ch { q: VecDeque::new(), cap, senders: 1, rx: true, rw: Wakers(Vec::new()), sw: Wakers(Vec::new()) }) }
    pub struct UnboundedSender<T>(Sh<Ch<T>>); pub struct UnboundedReceiver<T>(Sh<Ch<T>>); pub struct Sender<T>(Sh<Ch<T>>); pub struct Receiver<T>(Sh<Ch<T>>);
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let c = mk(usize::MAX); (UnboundedSender(c.clone()), UnboundedReceiver(c)) }
    pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) { assert!(n > 0, "mpsc bounded channel requires buffer > 0"); let c = mk(n); (Sender(c.clone()), Receiver(c)) }
    macro_rules! tx { ($t:ident) => {
        impl<T> Clone for $t<T> { fn clone(&self) -> Self { self.0.get().senders += 1; $t(self.0.clone()) } }
        impl<T> Drop for $t<T> { fn drop(&mut self) { let c = self.0.get(); c.senders -= 1; if c.senders == 0 { c.rw.wake(); } } }
        impl<T> $t<T> {
            pub fn is_closed(&self) -> bool { !self.0.get().rx }
            pub async fn closed(&self) { poll_fn(|cx| { let c = self.0.get(); if !c.rx { Poll::Ready(()) } else { c.sw.add(cx.waker()); Poll::Pending } }).await }
            fn push(&self, v: T) -> Result<(), SendError<T>> { let c = self.0.get(); if !c.rx { return Err(SendError(v)); } c.q.push_back(v); c.rw.wake(); Ok(()) }
        }
        impl<T> std::fmt::Debug for $t<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
    } }
    tx!(UnboundedSender); tx!(Sender);
    impl<T> UnboundedSender<T> { pub fn send(&self, v: T) -> Result<(), SendError<T>> { self.push(v) } }
    impl<T> Sender<T> {
        pub async fn send(&self, v: T) -> Result<(), SendError<T>> {
            let mut v = Some(v);
            poll_fn(|cx| { let c = self.0.get(); if !c.rx { return Poll::Ready(Err(SendError(v.take().unwrap()))); }
                if c.q.len() < c.cap { c.q.push_back(v.take().unwrap()); c.rw.wake(); Poll::Ready(Ok(())) } else { c.sw.add(cx.waker()); Poll::Pending } }).await
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> { let c = self.0.get(); if !c.rx { return Err(TrySendError::Closed(v)); } if c.q.len() < c.cap { c.q.push_back(v); c.rw.wake(); Ok(()) } else { Err(TrySendError::Full(v)) } }
    }
    macro_rules! rx { ($t:ident) => {
        impl<T> Drop for $t<T> { fn drop(&mut self) { let c = self.0.get(); c.rx = false; c.q.clear(); c.sw.wake(); } }
        impl<T> $t<T> {
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> { let c = self.0.get(); match c.q.pop_front() { Some(v) => { c.sw.wake(); Poll::Ready(Some(v)) } None => if c.senders == 0 || !c.rx { Poll::Ready(None) } else { c.rw.add(cx.waker()); Poll::Pending } } }
            pub async fn recv(&mut self) -> Option<T> { poll_fn(|cx| self.poll_recv(cx)).await }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> { let c = self.0.get(); match c.q.pop_front() { Some(v) => { c.sw.wake(); Ok(v) } None => if c.senders == 0 { Err(TryRecvError::Disconnected) } else { Err(TryRecvError::Empty) } } }
            pub fn close(&mut self) { let c = self.0.get(); c.rx = false; c.sw.wake(); }
            pub fn len(&self) -> usize { self.0.get().q.len() } pub fn is_empty(&self) -> bool { self.len() == 0 }
        }
        impl<T> std::fmt::Debug for $t<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Receiver") } }
    } }
    rx!(UnboundedReceiver); rx!(Receiver);
}
pub mod oneshot {
    use super::*;
    pub mod error { #[derive(Debug, Clone, PartialEq, Eq)] pub struct RecvError; impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } } impl std::error::Error for RecvError {}
        #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum TryRecvError { Empty, Closed } }
    struct Ch<T> { v: Option<T>, tx: bool, rx: bool, w: Wakers }
    pub struct Sender<T>(Sh<Ch<T>>); pub struct Receiver<T>(Sh<Ch<T>>);
    impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
    impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Receiver") } }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = Sh::new(Ch { v: None, tx: true, rx: true, w: Wakers(Vec::new()) }); (Sender(c.clone()), Receiver(c)) }
    impl<T> Sender<T> { pub fn send(self, v: T) -> Result<(), T> { let c = self.0.get(); if !c.rx { return Err(v); } c.v = Some(v); c.w.wake(); Ok(()) } pub fn is_closed(&self) -> bool { !self.0.get().rx } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { let c = self.0.get(); c.tx = false; c.w.wake(); } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.get().rx = false; } }
    impl<T> Receiver<T> { pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { let c = self.0.get(); match c.v.take() { Some(v) => Ok(v), None => Err(if c.tx { error::TryRecvError::Empty } else { error::TryRecvError::Closed }) } } pub fn close(&mut self) { self.0.get().rx = false; } }
    impl<T> Future for Receiver<T> { type Output = Result<T, error::RecvError>; fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { let c = self.0.get(); match c.v.take() { Some(v) => Poll::Ready(Ok(v)), None => if !c.tx { Poll::Ready(Err(error::RecvError)) } else { c.w.add(cx.waker()); Poll::Pending } } } }
}
pub mod watch {
    use super::*;
    pub mod error { #[derive(Debug, Clone)] pub struct RecvError; impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } } impl std::error::Error for RecvError {}
        #[derive(Debug, Clone)] pub struct SendError<T>(pub T); }
    struct Ch<T> { v: T, ver: u64, senders: usize, receivers: usize, w: Wakers }
    pub struct Sender<T>(Sh<Ch<T>>); pub struct Receiver<T> { c: Sh<Ch<T>>, seen: u64 }
    impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
    impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Receiver") } }
    pub struct Ref<'a, T>(&'a T, bool);
    impl<'a, T> std::ops::Deref for Ref<'a, T> { type Target = T; fn deref(&self) -> &T { self.0 } }
    impl<'a, T> Ref<'a, T> { pub fn has_changed(&self) -> bool { self.1 } }
    pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) { let c = Sh::new(Ch { v, ver: 0, senders: 1, receivers: 1, w: Wakers(Vec::new()) }); (Sender(c.clone()), Receiver { c, seen: 0 }) }
    impl<T> Sender<T> {
        pub fn new(v: T) -> Self { channel(v).0 }
        pub fn send(&self, v: T) -> Result<(), error::SendError<T>> { let c = self.0.get(); if c.receivers == 0 { return Err(error::SendError(v)); } self.send_replace(v); Ok(()) }
        pub fn send_replace(&self, v: T) -> T { let c = self.0.get(); let o = std::mem::replace(&mut c.v, v); c.ver += 1; c.w.wake(); o }
        pub fn send_modify(&self, f: impl FnOnce(&mut T)) { let c = self.0.get(); f(&mut c.v); c.ver += 1; c.w.wake(); }
        pub fn send_if_modified(&self, f: impl FnOnce(&mut T) -> bool) -> bool { let c = self.0.get(); if f(&mut c.v) { c.ver += 1; c.w.wake(); true } else { false } }
        pub fn subscribe(&self) -> Receiver<T> { let c = self.0.get(); c.receivers += 1; Receiver { seen: c.ver, c: self.0.clone() } }
        pub fn borrow(&self) -> Ref<'_, T> { Ref(&self.0.get().v, false) }
        pub fn receiver_count(&self) -> usize { self.0.get().receivers } pub fn is_closed(&self) -> bool { self.0.get().receivers == 0 }
    }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.get().senders += 1; Sender(self.0.clone()) } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { let c = self.0.get(); c.senders -= 1; if c.senders == 0 { c.w.wake(); } } }
    impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.c.get().receivers += 1; Receiver { c: self.c.clone(), seen: self.seen } } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.c.get().receivers -= 1; } }
    impl<T> Receiver<T> {
        pub fn borrow(&self) -> Ref<'_, T> { let c = self.c.get(); Ref(&c.v, c.ver != self.seen) }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> { let c = self.c.get(); let ch = c.ver != self.seen; self.seen = c.ver; Ref(&c.v, ch) }
        pub fn has_changed(&self) -> Result<bool, error::RecvError> { let c = self.c.get(); if c.senders == 0 { Err(error::RecvError) } else { Ok(c.ver != self.seen) } }
        pub fn mark_changed(&mut self) { self.seen = u64::MAX; } pub fn mark_unchanged(&mut self) { self.seen = self.c.get().ver; }
        pub fn poll_changed(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), error::RecvError>> { let c = self.c.get(); if c.ver != self.seen { self.seen = c.ver; Poll::Ready(Ok(())) } else if c.senders == 0 { Poll::Ready(Err(error::RecvError)) } else { c.w.add(cx.waker()); Poll::Pending } }
        pub async fn changed(&mut self) -> Result<(), error::RecvError> { poll_fn(|cx| self.poll_changed(cx)).await }
        pub async fn wait_for(&mut self, mut f: impl FnMut(&T) -> bool) -> Result<Ref<'_, T>, error::RecvError> {
            let c = self.c.clone(); let seen = &mut self.seen;
            let r = poll_fn(|cx| { let c = c.get(); *seen = c.ver; if f(&c.v) { Poll::Ready(Ok(())) } else if c.senders == 0 { Poll::Ready(Err(error::RecvError)) } else { c.w.add(cx.waker()); Poll::Pending } }).await;
            match r { Ok(()) => Ok(Ref(&self.c.get().v, true)), Err(e) => Err(e) }
        }
    }
}
/// `notify_waiters`/`notify_one` with tokio's permit semantics.
pub struct Notify(Sh<(bool, u64, Wakers)>);
impl Default for Notify { fn default() -> Self { Self::new() } }
impl std::fmt::Debug for Notify { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Notify") } }
pub struct Notified<'a> { n: &'a Notify, gen_: u64 }
impl Notify {
    pub fn new() -> Self { Notify(Sh::new((false, 0, Wakers(Vec::new())))) }
    pub fn notify_one(&self) { let s = self.0.get(); s.0 = true; s.2.wake(); }
    pub fn notify_waiters(&self) { let s = self.0.get(); s.1 += 1; s.2.wake(); }
    pub fn notified(&self) -> Notified<'_> { Notified { gen_: self.0.get().1, n: self } }
    pub fn notified_owned(self: std::sync::Arc<Self>) -> OwnedNotified { OwnedNotified { gen_: self.0.get().1, n: self } }
}
impl<'a> Future for Notified<'a> { type Output = (); fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { let s = self.n.0.get(); if s.1 != self.gen_ { return Poll::Ready(()); } if s.0 { s.0 = false; return Poll::Ready(()); } s.2.add(cx.waker()); Poll::Pending } }
pub struct OwnedNotified { n: std::sync::Arc<Notify>, gen_: u64 }
impl Future for OwnedNotified { type Output = (); fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { let s = self.n.0.get(); if s.1 != self.gen_ { return Poll::Ready(()); } if s.0 { s.0 = false; return Poll::Ready(()); } s.2.add(cx.waker()); Poll::Pending } }
