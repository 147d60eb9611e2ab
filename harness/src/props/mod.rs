pub mod net;
pub mod sim;
pub mod learn;
pub mod structure;
pub mod rew;
pub mod conc;
