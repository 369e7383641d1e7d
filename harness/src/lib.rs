//! Shared machinery of the model checking harnesses.

pub mod dhtkit;
pub mod explore;
pub mod nodes;
pub mod overlaykit;
pub mod puppet;
pub mod report;
pub mod rldpkit;
pub mod sched;
pub mod util;
pub mod world;

pub use everscale_network as net;
pub use explore::{Chooser, Step, Stop};
pub use report::{check_main, Ctx, Suite};
