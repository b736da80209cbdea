//! Property checks of the stand-alone crates.
use vp::Section;

#[path = "../../shared/qgen.rs"]
mod qgen;
mod c01;
mod e01;
mod j01;
mod f01;
#[path = "../../shared/egen.rs"]
mod egen;
mod p01;
mod b01;
mod d01;
mod m01;
#[path = "../../shared/mock.rs"]
mod mock;
mod q01;
mod q03;
#[path = "../../shared/ogen.rs"]
mod ogen;

#[global_allocator]
static A: vp::Tracking = vp::Tracking;

fn lookup(id: &str) -> Option<Vec<Section>> {
    Some(vp::times(4, match id {
        "C01" => c01::sections(),
        "J01" => j01::sections(),
        "E01" => e01::e01(),
        "E02" => e01::e02(),
        "R01" => e01::r01(),
        "F01" => f01::f01(),
        "F02" => f01::f02(),
        "M01" => m01::m01(),
        "M02" => m01::m02(),
        "D01" => d01::d01(),
        "D02" => d01::d02(),
        "B01" => b01::b01(),
        "B02" => b01::b02(),
        "P01" => p01::sections(),
        "Q03" => q03::q03(),
        "U01" => q03::u01(),
        "Q01" => q01::sections(),
        _ => return None,
    }))
}

fn main() {
    vp::main_with(lookup)
}
