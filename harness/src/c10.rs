//! C10: units.
use crate::{sym, util::*};
use osmgraphing::configs::parsing::{edges::metrics::UnitInfo as P, generating::edges::metrics::UnitInfo as G};

pub const TABLE: &[(&str, extern "C" fn())] = &[("c10_convert", c10_convert), ("c10_calc", c10_calc), ("c10_calc_bad", c10_calc_bad), ("c10_back", c10_back)];
const PU: [P; 8] = [P::Meters, P::Kilometers, P::Seconds, P::Minutes, P::Hours, P::KilometersPerHour, P::LaneCount, P::F64];
const GU: [G; 8] = [G::Meters, G::Kilometers, G::Seconds, G::Minutes, G::Hours, G::KilometersPerHour, G::LaneCount, G::F64];
/// quantity and size of each unit (in the smallest unit of the quantity); lanes and plain numbers are quantities of their own
const KIND: [(usize, f64); 8] = [(0, 1.0), (0, 1000.0), (1, 1.0), (1, 60.0), (1, 3600.0), (2, 1.0), (3, 1.0), (9, 1.0)];
fn same_bits(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
/// any f64 but NaN
fn any() -> f64 {
    let x = sym::f_any("x");
    sym::assume(x == x);
    x
}
/// both tables, any units, any number
#[no_mangle]
pub extern "C" fn c10_convert() {
    let (a, b) = (sym::conc_us(sym::us("from", 0, 7)), sym::conc_us(sym::us("to", 0, 7)));
    let (p, g, x);
    if a == 7 || b == 7 || a == b || KIND[a].0 != KIND[b].0 {
        x = sym::f_any("x");
        p = PU[a].try_convert(&PU[b], x);
        g = GU[a].try_convert(&GU[b], x);
        if a == 7 || b == 7 || a == b {
            sym::cover("same");
            sym::check(p.is_ok() && g.is_ok(), "same unit or plain number: converts");
            sym::check(same_bits(p.unwrap(), x) && same_bits(g.unwrap(), x), "same unit or plain number: value is kept");
            sym::check(same_bits(PU[a].convert(&PU[b], x), x), "value is kept");
        } else {
            sym::cover("incompatible");
            sym::check(p.is_err() && g.is_err(), "different quantities: error");
        }
    } else {
        sym::cover("scaled");
        x = any();
        p = PU[a].try_convert(&PU[b], x);
        g = GU[a].try_convert(&GU[b], x);
        sym::check(p.is_ok() && g.is_ok(), "same quantity: converts");
        let want = if KIND[a].1 > KIND[b].1 { x * (KIND[a].1 / KIND[b].1) } else { x / (KIND[b].1 / KIND[a].1) };
        let (p, g) = (p.unwrap(), g.unwrap());
        sym::obs_f("p", p);
        sym::obs_f("g", g);
        sym::check(near(p, want), "conversion while parsing keeps the quantity");
        sym::check(near(g, want), "conversion while generating keeps the quantity");
        sym::check(near(PU[a].convert(&PU[b], x), want), "conversion keeps the quantity");
    }
}
/// a time from distance and speed, a speed from distance and time
#[no_mangle]
pub extern "C" fn c10_calc() {
    let r = sym::conc_us(sym::us("result", 2, 5));
    let (a, b) = (any(), any());
    let got = GU[r].try_calc(&G::Kilometers, a, if r == 5 { &G::Hours } else { &G::KilometersPerHour }, b);
    sym::check(got.is_ok(), "time is distance by speed, speed is distance by time");
    let want = if r == 5 || r == 4 { a / b } else { a / b * (3600.0 / KIND[r].1) };
    let got = got.unwrap();
    sym::obs_f("r", got);
    sym::check(near(got, want), "value of a calculated metric");
    sym::cover("end");
}
/// everything else is refused
#[no_mangle]
pub extern "C" fn c10_calc_bad() {
    let (r, a, b) = (sym::conc_us(sym::us("r", 0, 7)), sym::conc_us(sym::us("a", 0, 7)), sym::conc_us(sym::us("b", 0, 7)));
    let ok = a == 1 && ((r >= 2 && r <= 4 && b == 5) || (r == 5 && b == 4));
    if ok { return; }
    sym::check(GU[r].try_calc(&GU[a], sym::f_any("x"), &GU[b], sym::f_any("y")).is_err(), "units that do not fit are refused");
    sym::cover("end");
}
/// converting there and back
#[no_mangle]
pub extern "C" fn c10_back() {
    let (a, b) = (sym::conc_us(sym::us("from", 0, 7)), sym::conc_us(sym::us("to", 0, 7)));
    let x = sym::f_of("x", &[0.0, 1.0, 0.125, 17.0, 4096.5, 1e-6, 1e9]);
    if let Ok(y) = GU[a].try_convert(&GU[b], x) {
        if KIND[a].0 == KIND[b].0 {
            let z = GU[b].try_convert(&GU[a], y).unwrap();
            sym::obs_f("z", z);
            sym::check(near(z, x), "there and back again");
            sym::cover("end");
        }
    }
}
