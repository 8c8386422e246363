//! tracing-subscriber, except that initialising one does nothing and can be done any number of times.
pub use real::*;
use tracing_core::{
    span::{Attributes, Id, Record},
    Event, Metadata, Subscriber,
};

///Nothing is collected, and that at no cost.
#[derive(Debug, Default)]
pub struct Nothing;
impl Subscriber for Nothing {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        false
    }
    fn new_span(&self, _: &Attributes<'_>) -> Id {
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}
impl<'a> real::registry::LookupSpan<'a> for Nothing {
    type Data = real::registry::Data<'a>;
    fn span_data(&'a self, _: &Id) -> Option<Self::Data> {
        None
    }
}
pub fn registry() -> Nothing {
    Nothing
}

pub mod util {
    pub use real::util::{SubscriberInitExt as RealSubscriberInitExt, TryInitError};

    pub trait SubscriberInitExt: Sized {
        fn init(self) {}
        fn try_init(self) -> Result<(), TryInitError> {
            Ok(())
        }
        fn set_default(self) {}
    }
    impl<T> SubscriberInitExt for T {}
}
pub mod prelude {
    pub use crate::util::SubscriberInitExt as _;
    pub use real::field::MakeExt as __tracing_subscriber_field_MakeExt;
    pub use real::layer::{Layer as __tracing_subscriber_Layer, SubscriberExt as __tracing_subscriber_SubscriberExt};
}
