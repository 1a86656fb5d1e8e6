//! The real image crate, except that files are provided by the harness.
pub use real::*;
use std::path::Path;
use std::sync::Mutex;
#[derive(Clone)]
pub enum VfFile { Missing, Bad, Rgb(RgbImage) }
static FILES: Mutex<Vec<(String, VfFile)>> = Mutex::new(Vec::new());
pub fn vf_file(name: &str, f: VfFile) { FILES.lock().unwrap().push((name.to_string(), f)); }
fn lookup(p: &Path) -> VfFile {
    let p = p.to_str().unwrap_or("");
    for (n, f) in FILES.lock().unwrap().iter() { if n == p { return f.clone(); } }
    VfFile::Missing
}
fn missing() -> std::io::Error { std::io::Error::from(std::io::ErrorKind::NotFound) }
fn bad() -> ImageError { ImageError::Limits(error::LimitError::from_kind(error::LimitErrorKind::DimensionError)) }
pub struct ImageReader { f: VfFile }
impl ImageReader {
    pub fn open<P: AsRef<Path>>(path: P) -> std::io::Result<Self> {
        match lookup(path.as_ref()) { VfFile::Missing => Err(missing()), f => Ok(ImageReader { f }) }
    }
    pub fn no_limits(&mut self) {}
    pub fn limits(&mut self, _: Limits) {}
    pub fn set_format(&mut self, _: ImageFormat) {}
    pub fn with_guessed_format(self) -> std::io::Result<Self> { Ok(self) }
    pub fn decode(self) -> ImageResult<DynamicImage> {
        match self.f { VfFile::Rgb(i) => Ok(DynamicImage::ImageRgb8(i)), _ => Err(bad()) }
    }
}
pub fn open<P: AsRef<Path>>(path: P) -> ImageResult<DynamicImage> {
    ImageReader::open(path).map_err(ImageError::IoError)?.decode()
}
