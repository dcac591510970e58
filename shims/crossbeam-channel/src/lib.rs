pub use mcrt::chan::*;
