pub mod builds;
pub mod histories;
pub mod cover;
pub mod engine;
pub mod format;
pub mod machine;
pub mod memory;
pub mod model;
pub mod preempt;
pub mod riff;
pub mod scale;
pub mod value;
pub use adhoc_audio::{codec::AudioStream, AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};
pub use engine::*;
pub use model::*;
