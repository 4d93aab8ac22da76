#![allow(dead_code)]
/// longest text the model handles
pub const CAP: usize = 160;
pub mod api;
pub mod oracle;
pub mod common;
pub mod c01;
pub mod c03;
pub mod c04;
pub mod c06;
pub mod c09;
pub mod c14;
pub mod c16;
pub mod dump;
/// the same model for longer texts
pub mod big {
    pub const CAP: usize = 640;
    pub use super::api;
    #[path = "../common.rs"]
    pub mod common;
    #[path = "long.rs"]
    pub mod long;
    #[path = "per.rs"]
    pub mod per;
    #[path = "sweep.rs"]
    pub mod sweep;
    #[path = "../oracle.rs"]
    pub mod oracle;
}
