mod boolean;
mod chain;
mod container;
mod isect;
mod offset;
mod prim;
mod query;
mod shape;
mod total;

use crate::json::J;

/// Runs one case and returns its recorded result as a JSON object.
pub fn run(c: &J) -> String {
    match c.get("op").str() {
        "bool" => boolean::run(c),
        "boolvar" => boolean::variants(c),
        "off" => offset::run(c),
        "offvar" => offset::variants(c),
        "isect" => isect::between(c),
        "self" => isect::within(c),
        "cont" => container::run(c),
        "wind" => query::wind(c),
        "near" => query::near(c),
        "measure" => query::measure(c),
        "length" => query::length(c),
        "clean" => query::clean(c),
        "slice" => query::slice(c),
        "index" => query::indexes(c),
        "seg" => prim::seg(c),
        "void" => prim::void(c),
        "ll" => prim::line_line(c),
        "lc" => prim::line_circle(c),
        "cc" => prim::circle_circle(c),
        "ss" => prim::seg_seg(c),
        "help" => prim::helpers(c),
        "shape" => shape::run(c),
        "chain" => chain::run(c),
        "totq" => total::queries(c),
        "toto" => total::offsets(c),
        "totp" => total::pairs(c),
        o => panic!("harness: unknown op {o}"),
    }
}
