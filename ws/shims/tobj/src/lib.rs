//! The real tobj types; load_obj returns what the harness provides.
pub use real::*;
use std::path::Path;
use std::sync::Mutex;
pub struct VfObj {
    pub path: String,
    pub models: Result<Vec<Model>, LoadError>,
    pub materials: Result<Vec<Material>, LoadError>,
    /// what the loader gives when triangulation was not asked for
    pub raw_models: Option<Vec<Model>>,
}
static OBJ: Mutex<Vec<VfObj>> = Mutex::new(Vec::new());
pub fn vf_obj(o: VfObj) { OBJ.lock().unwrap().push(o); }
pub fn load_obj<P: AsRef<Path> + std::fmt::Debug>(f: P, o: &LoadOptions) -> LoadResult {
    let p = f.as_ref().to_str().unwrap_or("").to_string();
    for e in OBJ.lock().unwrap().iter() {
        if e.path == p {
            let models = match (&e.raw_models, o.triangulate) { (Some(r), false) => Ok(r.clone()), _ => e.models.clone() };
            return models.map(|m| (m, e.materials.clone()));
        }
    }
    Err(LoadError::OpenFileFailed)
}
