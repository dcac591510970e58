pub use mcrt::fut::FutureExt;
pub mod future {
    pub use mcrt::fut::{
        join_all, select, BoxFuture, Either, CatchUnwind, FutureExt, JoinAll, LocalBoxFuture, Map, Select, Shared,
    };
    pub use std::future::{pending, poll_fn, ready, Future, Pending, Ready};
}
#[macro_export]
macro_rules! pin_mut {
    ($($x:ident),* $(,)?) => { $(
        let mut $x = $x;
        #[allow(unused_mut)]
        let mut $x = unsafe { ::core::pin::Pin::new_unchecked(&mut $x) };
    )* }
}
