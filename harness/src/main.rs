use ntv::props::*;
use ntv::runner::{self, Tier};
use std::path::Path;

macro_rules! dispatch {
    ($id:expr, $p:ident => $e:expr, $($name:literal => $v:expr),* $(,)?) => {
        match $id {
            $($name => { let $p = $v; $e })*
            _ => { eprintln!("unknown property {}", $id); 2 }
        }
    };
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "known").unwrap_or(false) {
        std::process::exit(p15::known_child());
    }
    if a.get(1).map(|s| s == "minis").unwrap_or(false) {
        // writes the small hives of P19 to a directory (for experiments)
        for (i, h) in p19::minis().iter().enumerate() {
            std::fs::write(Path::new(&a[2]).join(i.to_string()), ntv::model::build(h).bytes).unwrap();
        }
        return;
    }
    if a.get(1).map(|s| s == "fuzz-seeds").unwrap_or(false) {
        ntv::rawfuzz::write_seeds(Path::new(&a[2]), 400);
        return;
    }
    if a.len() < 3 {
        eprintln!("usage: ntv run|worker ID quick|thorough | replay|replay-raw ID FILE");
        std::process::exit(2);
    }
    let tier = if a.get(3).map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    let cmd = a[1].as_str();
    let arg = a.get(3).cloned().unwrap_or_default();
    let code = dispatch!(a[2].as_str(), p => match cmd {
            "run" => runner::supervise(&p, tier),
            "worker" => runner::worker(&p, tier),
            "raw-min" => ntv::rawfuzz::minimise(&p, &arg),
            "raw" => ntv::rawfuzz::files(&p, &a[3..]),
            "replay-raw" => runner::replay(&p, Path::new(&arg)),
            "replay" => runner::replay_supervised(&p, Path::new(&arg)),
            _ => 2,
        },
        "P01" => p01::P01,
        "P02" => p02::P02,
        "P03" => p03::P03,
        "P04" => p04::P04,
        "P05" => p05::P05,
        "P06" => p06::P06,
        "P07" => p07::P07,
        "P08" => p08::P08,
        "P09" => p09::P09,
        "P10" => p10::P10,
        "P11" => p11::P11,
        "P12" => p12::P12,
        "P13" => p13::P13,
        "P14" => p14::P14,
        "P15" => p15::P15,
        "P16" => p16::P16,
        "P17" => p17::P17,
        "P18" => p18::P18,
        "P19" => p19::P19,
        "P20" => p20::P20,
        "P21" => p21::P21,
        "P22" => p22::P22,
        "P23" => p23::P23,
        "P24" => p24::P24,
    );
    std::process::exit(code);
}
