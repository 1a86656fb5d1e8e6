//! Stand-in for the denoiser: records what it is given and passes the colours through.
use std::sync::Mutex;
#[derive(Clone, Default, Debug)]
pub struct Rec { pub w: usize, pub h: usize, pub albedo: Vec<f32>, pub normal: Vec<f32>, pub color: Vec<f32> }
pub static REC: Mutex<Vec<Rec>> = Mutex::new(Vec::new());
pub fn vf_take() -> Vec<Rec> { std::mem::take(&mut *REC.lock().unwrap()) }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error { None, Unknown, InvalidArgument, InvalidOperation, OutOfMemory, UnsupportedFormat, Canceled, InvalidImageDimensions }
pub struct Device;
impl Device { pub fn new() -> Device { Device } pub fn get_error(&self) -> Result<(), (Error, String)> { Ok(()) } }
pub struct RayTracing<'a> { _d: &'a Device, rec: Rec }
impl<'a> RayTracing<'a> {
    pub fn new(d: &'a Device) -> Self { RayTracing { _d: d, rec: Rec::default() } }
    pub fn image_dimensions(&mut self, w: usize, h: usize) -> &mut Self { self.rec.w = w; self.rec.h = h; self }
    pub fn albedo_normal(&mut self, a: &[f32], n: &[f32]) -> &mut Self { self.rec.albedo = a.to_vec(); self.rec.normal = n.to_vec(); self }
    pub fn albedo(&mut self, a: &[f32]) -> &mut Self { self.rec.albedo = a.to_vec(); self }
    pub fn srgb(&mut self, _: bool) -> &mut Self { self }
    pub fn hdr(&mut self, _: bool) -> &mut Self { self }
    pub fn clean_aux(&mut self, _: bool) -> &mut Self { self }
    pub fn filter(&mut self, c: &[f32], out: &mut [f32]) -> Result<(), Error> {
        if c.len() != self.rec.w * self.rec.h * 3 || out.len() != c.len() || self.rec.albedo.len() != c.len() || self.rec.normal.len() != c.len() { return Err(Error::InvalidImageDimensions); }
        out.copy_from_slice(c);
        self.rec.color = c.to_vec();
        REC.lock().unwrap().push(self.rec.clone());
        Ok(())
    }
}
