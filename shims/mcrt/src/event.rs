//! event-listener subset with the documented notify semantics.
use crate::rt;
use std::cell::UnsafeCell;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

enum St {
    Created,
    Waiting(Waker),
    Notified(bool),
}
struct List {
    v: Vec<(u64, St)>,
    next: u64,
}
pub struct Event<T = ()> {
    l: Arc<UnsafeCell<List>>,
    _p: std::marker::PhantomData<T>,
}
unsafe impl<T> Send for Event<T> {}
unsafe impl<T> Sync for Event<T> {}
impl<T> std::panic::UnwindSafe for Event<T> {}
impl<T> std::panic::RefUnwindSafe for Event<T> {}
pub trait IntoNotification {
    fn parts(self) -> (usize, bool);
}
macro_rules! notif { ($($t:ty)*) => { $( impl IntoNotification for $t {
    fn parts(self) -> (usize, bool) { (self as usize, false) }
} )* } }
notif!(usize u8 u16 u32 u64 i32 i64 isize);
pub struct Additional(usize);
impl IntoNotification for Additional {
    fn parts(self) -> (usize, bool) {
        (self.0, true)
    }
}
pub trait NotificationExt: IntoNotification + Sized {
    fn additional(self) -> Additional {
        Additional(self.parts().0)
    }
    fn relaxed(self) -> usize {
        self.parts().0
    }
}
impl NotificationExt for usize {}

fn do_notify(l: &Arc<UnsafeCell<List>>, n: usize, additional: bool) -> usize {
    let li = unsafe { &mut *l.get() };
    let mut n = n;
    if !additional {
        let already = li.v.iter().filter(|x| matches!(x.1, St::Notified(_))).count();
        n = n.saturating_sub(already);
    }
    let mut cnt = 0;
    let mut wakers = Vec::new();
    for x in li.v.iter_mut() {
        if cnt >= n {
            break;
        }
        match std::mem::replace(&mut x.1, St::Notified(additional)) {
            St::Notified(a) => x.1 = St::Notified(a),
            St::Created => cnt += 1,
            St::Waiting(w) => {
                cnt += 1;
                wakers.push(w);
            }
        }
    }
    for w in wakers {
        w.wake();
    }
    cnt
}

impl<T> Event<T> {
    pub fn new() -> Event<T> {
        Event {
            l: Arc::new(UnsafeCell::new(List { v: Vec::new(), next: 0 })),
            _p: std::marker::PhantomData,
        }
    }
    pub fn with_tag() -> Event<T> {
        Self::new()
    }
    fn a(&self) -> usize {
        Arc::as_ptr(&self.l) as usize
    }
    pub fn listen(&self) -> EventListener<T> {
        rt::point();
        rt::ev_write(self.a(), true, true, true);
        let li = unsafe { &mut *self.l.get() };
        li.next += 1;
        let id = li.next;
        li.v.push((id, St::Created));
        EventListener { l: self.l.clone(), id, done: false, _p: std::marker::PhantomData }
    }
    pub fn notify(&self, n: impl IntoNotification) -> usize {
        let (n, a) = n.parts();
        rt::point();
        rt::ev_write(self.a(), true, true, true);
        do_notify(&self.l, n, a)
    }
    pub fn notify_relaxed(&self, n: usize) -> usize {
        self.notify(n)
    }
    pub fn notify_additional(&self, n: usize) -> usize {
        self.notify(Additional(n))
    }
    pub fn notify_additional_relaxed(&self, n: usize) -> usize {
        self.notify(Additional(n))
    }
    pub fn total_listeners(&self) -> usize {
        rt::point();
        rt::ev_read(self.a(), true);
        unsafe { (*self.l.get()).v.len() }
    }
    pub fn is_notified(&self) -> bool {
        rt::point();
        rt::ev_read(self.a(), true);
        unsafe { (*self.l.get()).v.iter().any(|x| matches!(x.1, St::Notified(_))) }
    }
}
impl<T> Default for Event<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> fmt::Debug for Event<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Event { .. }")
    }
}
pub struct EventListener<T = ()> {
    l: Arc<UnsafeCell<List>>,
    id: u64,
    done: bool,
    _p: std::marker::PhantomData<T>,
}
unsafe impl<T> Send for EventListener<T> {}
unsafe impl<T> Sync for EventListener<T> {}
impl<T> Unpin for EventListener<T> {}
impl<T> EventListener<T> {
    fn a(&self) -> usize {
        Arc::as_ptr(&self.l) as usize
    }
    pub fn wait(mut self) {
        let id = self.id;
        let l = self.l.clone();
        rt::block_until(|| unsafe {
            (*l.get()).v.iter().any(|x| x.0 == id && matches!(x.1, St::Notified(_)))
        });
        rt::ev_write(self.a(), true, true, true);
        unsafe { (*self.l.get()).v.retain(|x| x.0 != id) };
        self.done = true;
    }
    pub fn discard(mut self) -> bool {
        let li = unsafe { &mut *self.l.get() };
        let n = li.v.iter().any(|x| x.0 == self.id && matches!(x.1, St::Notified(_)));
        li.v.retain(|x| x.0 != self.id);
        self.done = true;
        n
    }
}
impl<T> Future for EventListener<T> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        rt::point();
        rt::ev_write(self.a(), true, true, true);
        let id = self.id;
        let li = unsafe { &mut *self.l.get() };
        let i = li.v.iter().position(|x| x.0 == id).expect("listener polled after completion");
        if let St::Notified(_) = li.v[i].1 {
            li.v.remove(i);
            self.done = true;
            return Poll::Ready(());
        }
        li.v[i].1 = St::Waiting(cx.waker().clone());
        Poll::Pending
    }
}
impl<T> Drop for EventListener<T> {
    fn drop(&mut self) {
        if self.done {
            return;
        }
        rt::point();
        rt::ev_write(self.a(), true, true, true);
        let id = self.id;
        let li = unsafe { &mut *self.l.get() };
        if let Some(i) = li.v.iter().position(|x| x.0 == id) {
            let (_, s) = li.v.remove(i);
            if let St::Notified(additional) = s {
                // pass the notification on
                do_notify(&self.l, 1, additional);
            }
        }
    }
}
impl<T> fmt::Debug for EventListener<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("EventListener { .. }")
    }
}
