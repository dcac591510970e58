pub use mcrt::atomic::{
    compiler_fence, fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize,
    AtomicPtr, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering,
};
pub mod hint {
    pub fn spin_loop() {
        mcrt::rt::spin()
    }
}
