//! Stand-in of snips-nlu-ontology-ffi-macros: C views of the results, which keep the Rust value they
//! were made of and count how many of them live.
use snips_nlu_ontology::*;
use std::sync::atomic::{AtomicIsize, Ordering};

/// values made and not yet dropped
pub static LIVE: AtomicIsize = AtomicIsize::new(0);

macro_rules! view {
    ($name:ident, $of:ty) => {
        #[repr(C)]
        pub struct $name {
            pub value: $of,
        }
        impl From<$of> for $name {
            fn from(value: $of) -> Self {
                LIVE.fetch_add(1, Ordering::SeqCst);
                $name { value }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                LIVE.fetch_sub(1, Ordering::SeqCst);
            }
        }
    };
}
view!(CIntentParserResult, IntentParserResult);
view!(CSlotList, Vec<Slot>);
view!(CIntentClassifierResultArray, Vec<IntentClassifierResult>);
