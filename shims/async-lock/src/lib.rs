pub use mcrt::alock::*;
