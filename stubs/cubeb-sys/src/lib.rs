// Copyright © 2017-2018 Mozilla Foundation
//
// This program is made available under an ISC-style license.  See the
// accompanying file LICENSE for details.

#![allow(non_camel_case_types)]

#[macro_use]
mod macros;

mod audio_dump;
mod callbacks;
mod channel;
mod context;
mod device;
mod error;
mod format;
mod log;
mod mixer;
mod resampler;
mod stream;

pub use audio_dump::*;
pub use callbacks::*;
pub use channel::*;
pub use context::*;
pub use device::*;
pub use error::*;
pub use format::*;
pub use log::*;
pub use mixer::*;
pub use resampler::*;
pub use stream::*;
