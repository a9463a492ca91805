pub mod hist;
pub mod model;
pub mod mt;
pub mod p01;
pub mod p03;
pub mod p04;
pub mod p07;
pub mod p09;
pub mod geo;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod cm;
pub mod p15;
pub mod p16;
pub mod p17;
pub mod maps;
pub mod p18;
pub mod p19;
pub mod p20;
pub mod p21;
pub mod p22;
pub mod p23;
pub mod p24;
pub mod p25;
pub mod p26;
pub mod p27;
pub mod p28;
pub mod p29;
pub mod poly;
pub fn props() -> Vec<engine::Property> {
    vec![
        p01::prop01(),
        p01::prop02(),
        p03::prop03(),
        p04::prop04(),
        p04::prop05(),
        p04::prop06(),
        p07::prop07_with(vec![]),
        p07::prop08_with(vec![]),
        p09::prop09(),
        p09::prop10(),
        p11::prop11(),
        p12::prop12(),
        p13::prop13(),
        p14::prop14(),
        p15::prop15_with(vec![]),
        p16::prop16_with(vec![]),
        p17::prop17_with(vec![]),
        p18::prop18_with(vec![]),
        p19::prop19_with(vec![]),
        p20::prop20_with(vec![]),
        p21::prop21(),
        p22::prop22(),
        p23::prop23_with(vec![]),
        p24::prop24_with(vec![]),
        p25::prop25_with(vec![]),
        p26::prop26_with(vec![]),
        p27::prop27_with(vec![]),
        p28::prop28_with(vec![]),
        p29::prop29(),
    ]
}
