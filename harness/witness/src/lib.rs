//! Type-level witness: this crate type-checks exactly when the auto-trait guarantees hold.
use jpeg_decoder::{CodingProcess, ColorTransform, Decoder, Error, ImageInfo, PixelFormat, UnsupportedFeature};
use std::io::Read;

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn static_<T: Send + Sync + 'static>() {}

/// for every reader type: the decoder may cross threads whenever the reader may
pub fn decoder_send<R: Read + Send>() {
    send::<Decoder<R>>();
}
pub fn decoder_sync<R: Read + Sync>() {
    sync::<Decoder<R>>();
}
pub fn plain() {
    static_::<Error>();
    static_::<UnsupportedFeature>();
    static_::<ImageInfo>();
    static_::<PixelFormat>();
    static_::<CodingProcess>();
    static_::<ColorTransform>();
}

/// and only then (each of these must be rejected with E0277)
#[cfg(feature = "neg_send")]
pub fn decoder_not_send<R: Read + Sync>() {
    send::<Decoder<R>>();
}
#[cfg(feature = "neg_sync")]
pub fn decoder_not_sync<R: Read + Send>() {
    sync::<Decoder<R>>();
}
