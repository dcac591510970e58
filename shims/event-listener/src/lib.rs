pub use mcrt::event::*;
pub mod prelude {
    pub use mcrt::event::{IntoNotification, NotificationExt};
}
pub trait Listener {}
