//! Verification harnesses: one entry point per property aspect.
#![allow(clippy::all)]
pub mod util;
macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $f(shard: u64) { $m::$f(shard) } )*
        pub fn run(name: &str, shard: u64) -> bool {
            fastrand::vf_reset();
            match name { $( stringify!($f) => { $m::$f(shard); true } )* _ => false }
        }
    };
}
mod geom;
mod bvh;
mod lights;
mod mat;
mod render;
mod protocol;
mod post;
mod tex;
mod geo2;
mod geo3;
mod loader;
entries!(
    bvh::c01_origin, bvh::c01_direction, bvh::c01_row, bvh::c01_line, bvh::c01_nested, bvh::c01_large, bvh::c01_concentric,
    geom::c02_sphere_miss, geom::c02_sphere_nearest, geom::c02_sphere_frame,
    geom::c03_quad_hit, geom::c03_parallel,
    geom::c04_triangle_hit, geom::c04_triangle_uv,
    geom::c05_shape, geom::c05_ops, geom::c05_containers,
    geom::c06_slab,
    lights::c07_flat_value, lights::c07_flat_graze, lights::c07_flat_direction, lights::c07_sphere_value, lights::c07_sphere_direction, lights::c07_container, lights::c07_share,
    lights::c08_pdfs,
    mat::c08_lambertian, mat::c08_isotropic, mat::c09_metal, mat::c09_dielectric, mat::c10_blend, mat::c10_nested, mat::c10_chain, mat::c11_emission,
    render::c12_mirrors, render::c12_diffuse, render::c12_room, render::c12_far, render::c12_simple, render::c13_rgb,
    protocol::c14_messages, protocol::c14_times, protocol::c14_stop, protocol::c14_dark, protocol::c15_image, protocol::c15_place, protocol::c15_large, protocol::c14_many,
    post::c16_lights, post::c16_many, post::c17_bloom, post::c17_wide, post::c17_args, post::c18_chain, post::c18_nop, post::c18_aux,
    tex::c19_image, tex::c19_large, tex::c19_solid, tex::c20_heights, tex::c20_kind, tex::c20_kind_large,
    geo2::c21_single, geo2::c21_list, geo2::c21_objects, geo2::c22_view, geo2::c22_lens, geo2::c23_flat, geo2::c23_skew, geo2::c23_sphere, geo2::c23_pole, geo2::c23_frame,
    geo3::c24_medium, geo3::c24_outside, geo3::c25_random, geo3::c26_box, geo3::c28_vectors,
    loader::c27_mesh, loader::c27_large, loader::c27_far, loader::c27_materials, loader::c27_images, loader::c27_shared, loader::c27_errors,
);
