//! async-channel, where each operation is a point where another thread may be switched to.
pub use real::*;
use std::ops::Deref;
use vstd::point;

#[derive(Debug)]
pub struct Sender<T>(real::Sender<T>);
#[derive(Debug)]
pub struct Receiver<T>(real::Receiver<T>);
#[derive(Debug)]
pub struct WeakSender<T>(real::WeakSender<T>);
#[derive(Debug)]
pub struct WeakReceiver<T>(real::WeakReceiver<T>);

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let (s, r) = real::unbounded();
    (Sender(s), Receiver(r))
}

pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let (s, r) = real::bounded(n);
    (Sender(s), Receiver(r))
}

macro_rules! common {
    ($a:ident, $weak:ident) => {
        impl<T> Deref for $a<T> {
            type Target = real::$a<T>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<T> Clone for $a<T> {
            fn clone(&self) -> Self {
                $a(self.0.clone())
            }
        }
        impl<T> Drop for $a<T> {
            fn drop(&mut self) {
                point();
            }
        }
        impl<T> $a<T> {
            pub fn len(&self) -> usize {
                point();
                self.0.len()
            }
            pub fn is_empty(&self) -> bool {
                point();
                self.0.is_empty()
            }
            pub fn is_full(&self) -> bool {
                point();
                self.0.is_full()
            }
            pub fn is_closed(&self) -> bool {
                point();
                self.0.is_closed()
            }
            pub fn close(&self) -> bool {
                point();
                self.0.close()
            }
            pub fn downgrade(&self) -> $weak<T> {
                $weak(self.0.downgrade())
            }
        }
        impl<T> $weak<T> {
            pub fn upgrade(&self) -> Option<$a<T>> {
                point();
                self.0.upgrade().map($a)
            }
        }
        impl<T> Clone for $weak<T> {
            fn clone(&self) -> Self {
                $weak(self.0.clone())
            }
        }
    };
}
common!(Sender, WeakSender);
common!(Receiver, WeakReceiver);

impl<T> Sender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        point();
        let r = self.0.try_send(t);
        point();
        r
    }
    pub fn force_send(&self, t: T) -> Result<Option<T>, SendError<T>> {
        point();
        let r = self.0.force_send(t);
        point();
        r
    }
    pub fn send_blocking(&self, mut t: T) -> Result<(), SendError<T>> {
        loop {
            match self.try_send(t) {
                Ok(()) => return Ok(()),
                Err(TrySendError::Closed(t)) => return Err(SendError(t)),
                Err(TrySendError::Full(back)) => t = back,
            }
            vstd::thread::yield_now();
        }
    }
}

impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        point();
        let r = self.0.try_recv();
        point();
        r
    }
    pub fn recv_blocking(&self) -> Result<T, RecvError> {
        loop {
            match self.try_recv() {
                Ok(t) => return Ok(t),
                Err(TryRecvError::Closed) => return Err(RecvError),
                Err(TryRecvError::Empty) => vstd::thread::yield_now(),
            }
        }
    }
}
