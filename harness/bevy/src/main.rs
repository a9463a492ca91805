use engine::*;
use procedural_modelling::extensions::bevy::*;
use vp_core::*;

fn bevy19() -> Vec<Target> {
    let mut r = p19::targets19::<BevyMeshType2d32, 2>(["bevy_2d", "blend_bevy_2d"], 300000);
    r.extend(p19::targets19::<BevyMeshType3d32, 3>(["bevy_3d", "blend_bevy_3d"], 300000));
    r.push(p19::curved19::<BevyMeshType2d32, 2>("commute_bevy_2d", 300000));
    r
}
fn bevy20() -> Vec<Target> {
    let mut r = p20::targets20::<bevy::math::Affine2, 2>(["laws_affine2", "vectors_affine2", "rotations_affine2", "arcs_affine2"], 800000);
    r.extend(p20::targets20::<bevy::prelude::Transform, 3>(["laws_transform", "vectors_transform", "rotations_transform", "arcs_transform"], 800000));
    r.push(target("laws_mat5", 800000, 24000000, p20::laws::<maps::Mat5, 4>));
    r
}

fn main() {
    engine::main(vec![
        p07::prop07_with(vec![target("solids_bevy", 60000, 600000, p07::p07_one::<BevyMeshType3d32>)]),
        p07::prop08_with(vec![
            target("solids_bevy", 80000, 600000, p07::p08_one::<BevyMeshType3d32>),
            target("flat_bevy", 60000, 360000, p07::p08_flat::<BevyMeshType3d32>),
        ]),
        p19::prop19_with(bevy19()),
        p20::prop20_with(bevy20()),
        p23::prop23_with(p23::bevy23()),
        p24::prop24_with(p24::bevy24()),
        p25::prop25_with(p25::bv::targets25()),
        p26::prop26_with(p26::bevy26()),
        p27::prop27_with(p27::bevy27()),
        p28::prop28_with(vec![
            p28::target28::<BevyMeshType3d32, 3>("bevy_3d", 40000),
            p28::target28::<BevyMeshType2d32, 2>("bevy_2d", 100000),
            p28::yz28::<BevyMeshType3d32>("flip_yz_bevy", 40000),
        ]),
    ])
}
