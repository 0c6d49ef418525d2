pub mod complete;
pub mod fftc;
pub mod forged;
pub mod poly;
pub mod sound;
pub mod tamper;
pub mod hash;
pub mod fri;
pub mod air;
pub mod ali;
pub mod total;
pub mod fs;
pub mod det;
pub mod examples;
pub mod trace;
pub mod misc;
pub mod unsupported;
pub mod succinct;
pub mod san;
