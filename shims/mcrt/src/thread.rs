use crate::rt;
use std::time::Duration;
pub fn sleep(d: Duration) {
    rt::sleep(d)
}
pub fn sleep_ms(ms: u32) {
    rt::sleep(Duration::from_millis(ms as u64))
}
pub fn yield_now() {
    rt::yield_now()
}
/// `std::thread::spawn` for code under test.
pub struct JoinHandle<T> {
    id: usize,
    r: std::sync::Arc<std::cell::UnsafeCell<Option<T>>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        rt::join_thread(self.id);
        Ok(unsafe { (*self.r.get()).take().unwrap() })
    }
    pub fn is_finished(&self) -> bool {
        rt::point();
        rt::is_finished(self.id)
    }
}
pub fn spawn<T: 'static, F: FnOnce() -> T + 'static>(f: F) -> JoinHandle<T> {
    let r = std::sync::Arc::new(std::cell::UnsafeCell::new(None));
    let r2 = r.clone();
    let id = rt::spawn(move || unsafe { *r2.get() = Some(f()) });
    JoinHandle { id, r }
}
