pub mod bank;
pub mod det;
pub mod model;
pub mod native;
pub mod ops;
pub mod oracle;
pub mod profile;
pub mod rng;
pub mod sim;
pub mod svm;
pub mod thirdparty;
pub mod trace;
pub mod world;
