pub use mcrt::epoch::*;
