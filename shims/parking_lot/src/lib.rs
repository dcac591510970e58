pub use mcrt::pl::*;
