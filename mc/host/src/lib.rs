pub mod amt;
pub mod cli;
pub mod cover;
pub mod events;
pub mod explore;
pub mod world;
pub use amt::U;
pub use cover::*;
pub use events::*;
pub use explore::*;
pub use world::*;
