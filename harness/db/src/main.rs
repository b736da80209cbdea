//! Property checks that need GroveDB itself.
use vp::Section;

mod forge;
mod g01;
mod g02;
mod g03;
mod g04;
mod g05;
mod grove;
mod hist;
mod k01;
mod k02;
#[path = "../../shared/egen.rs"]
mod egen;
mod k03;
mod k04;
mod mk;
mod q02;
mod q04;
mod q05;
mod rep01;
mod s01;
mod t01;
mod u02;
#[path = "../../shared/ogen.rs"]
mod ogen;
mod v01;
mod w01;
mod w02;
mod w03;
mod w04;
mod w05;
mod x01;
#[path = "../../shared/qgen.rs"]
mod qgen;

#[global_allocator]
static A: vp::Tracking = vp::Tracking;

fn lookup(id: &str) -> Option<Vec<Section>> {
    Some(match id {
        "G01" => vp::times(2, g01::sections()),
        "G02" => g02::sections(),
        "G03" => vp::times(2, g03::sections()),
        "G04" => g04::sections(),
        "G05" => vp::times(3, g05::sections()),
        "K01" => k01::sections(),
        "K02" => k02::sections(),
        "K03" => vp::times(2, k03::sections()),
        "K04" => vp::times(2, k04::sections()),
        "Q02" => q02::sections(),
        "Q04" => vp::times(6, q04::sections()),
        "Q05" => vp::times(4, q05::sections()),
        "REP01" => rep01::sections(),
        "S01" => vp::times(4, s01::sections()),
        "W01" => w01::sections(),
        "W02" => vp::times(3, w02::sections()),
        "W03" => vp::times(3, w03::sections()),
        "W04" => vp::times(3, w04::sections()),
        "W05" => vp::times(3, w05::sections()),
        "X01" => x01::sections(),
        "T01" => vp::times(8, t01::sections()),
        "U02" => u02::sections(),
        "V01" => vp::times(8, v01::sections()),
        _ => return None,
    })
}

fn main() {
    vp::main_with(lookup)
}
