#![allow(clippy::all, unused_must_use, non_upper_case_globals, dead_code)]
pub mod util;
#[cfg(feature = "p_counts")]
pub mod counts;
#[cfg(feature = "p_checkpoint")]
pub mod checkpoint;
#[cfg(feature = "p_dispatch")]
pub mod dispatch;
#[cfg(feature = "p_args")]
pub mod args;
#[cfg(feature = "p_values")]
pub mod values;
#[cfg(feature = "p_seq")]
pub mod seq;
#[cfg(feature = "p_statics")]
pub mod statics;
#[cfg(feature = "p_conc")]
pub mod conc;
#[cfg(feature = "p_recover")]
pub mod recover;
#[cfg(feature = "p_messages")]
pub mod messages;
#[cfg(feature = "p_settings")]
pub mod settings;
#[cfg(feature = "p_own")]
pub mod own;
#[cfg(feature = "p_double")]
pub mod double;
