//! C16: what the tags of a way mean.
use crate::sym;
use osmgraphing::network::{vehicles::Category as Vehicle, StreetCategory as S};
use osmpbfreader::{Tags, Way, WayId};

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("c16_access", c16_access),
    ("c16_highway", c16_highway),
    ("c16_other", c16_other),
    ("c16_other_t", c16_other_t),
    ("c16_digits", c16_digits),
    ("c16_speed", c16_speed),
    ("c16_speeds", c16_speeds),
    ("c16_oneway", c16_oneway),
    ("c16_oneway_any", c16_oneway_any),
];

type Row = (&'static str, f64, f64, &'static str);
/// name, default speed [km/h], lanes, and for whom: car, bicycle, pedestrian; y: all drivers, u: unpicky drivers only,
/// ?: documentation and code disagree
const STREETS: [Row; 19] = [
    ("motorway", 130.0, 3.0, "y--"), ("motorway_link", 50.0, 1.0, "y--"), ("trunk", 100.0, 2.0, "y--"), ("trunk_link", 50.0, 1.0, "y--"),
    ("primary", 100.0, 2.0, "yu-"), ("primary_link", 30.0, 1.0, "yu-"), ("secondary", 70.0, 1.0, "yu-"), ("secondary_link", 30.0, 1.0, "yu-"),
    ("tertiary", 70.0, 1.0, "yy-"), ("tertiary_link", 30.0, 1.0, "yy-"), ("unclassified", 50.0, 1.0, "yy-"), ("residential", 50.0, 1.0, "yyy"),
    ("living_street", 15.0, 1.0, "yyy"), ("service", 20.0, 1.0, "?yy"), ("track", 30.0, 1.0, "uuy"), ("road", 50.0, 1.0, "???"),
    ("cycleway", 25.0, 1.0, "-y-"), ("pedestrian", 5.0, 1.0, "-uy"), ("path", 15.0, 1.0, "-uy"),
];
fn way(tags: &[(&str, &str)]) -> Way {
    let mut t = Tags::new();
    for (k, v) in tags { t.insert(k.to_string(), v.to_string()); }
    Way { id: WayId(1), nodes: vec![], tags: t }
}
fn street(k: usize) -> (S, Row) {
    let r = STREETS[k];
    match S::from(&way(&[("highway", r.0)])) { Some(s) => (s, r), None => { sym::fail("the name of a street isn't known"); panic!() } }
}
fn any_street() -> (S, Row) { street(sym::conc_us(sym::us("street", 0, 18))) }
/// the text with any of its letters in upper case, blanks around
fn dress(t: &str) -> String {
    let lead = sym::conc_us(sym::us("lead", 0, 1));
    let n = t.len();
    let at = sym::conc_us(sym::us("upper", 0, n));
    let mut v: Vec<u8> = Vec::new();
    for _ in 0..lead { v.push(b' '); }
    for (i, c) in t.bytes().enumerate() { v.push(if i < at && c.is_ascii() { c.to_ascii_uppercase() } else { c }); }
    if sym::decide(sym::b("trail")) { v.push(b' '); }
    String::from_utf8(v).unwrap()
}
/// n bytes of text, any ASCII
fn text(n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|i| sym::u(&format!("b{}", i), 1, 127) as u8).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
#[no_mangle]
pub extern "C" fn c16_access() {
    let (s, r) = any_street();
    let picky = sym::decide(sym::b("picky"));
    for (k, v) in [Vehicle::Car, Vehicle::Bicycle, Vehicle::Pedestrian].iter().enumerate() {
        sym::check(!s.is_for(v, true) || s.is_for(v, false), "picky drivers use more streets than others");
        if r.3.as_bytes()[k] == b'?' { continue; }
        let want = match r.3.as_bytes()[k] { b'y' => true, b'u' => !picky, _ => false };
        if want { sym::cover("allowed") } else { sym::cover("forbidden") }
        sym::check(s.is_for(v, picky) == want, "a street is used by others than expected");
    }
    sym::check(format!("{}", s) == r.0, "a street is shown under another name");
    sym::check(*s.parse_maxspeed(&way(&[])) == r.1, "default speed of a street");
    sym::check(s.parse_lane_count(&way(&[])) as f64 == r.2, "default number of lanes");
    sym::check(s.parse_oneway(&way(&[])) == (false, false), "streets can be used in both directions by default");
}
/// a known value, in any case
#[no_mangle]
pub extern "C" fn c16_highway() {
    let r = STREETS[sym::conc_us(sym::us("street", 0, 18))];
    let mut t = String::new();
    let at = sym::conc_us(sym::us("upper", 0, r.0.len()));
    for (i, c) in r.0.bytes().enumerate() { t.push(if i < at { c.to_ascii_uppercase() } else { c } as char); }
    if sym::decide(sym::b("trail")) { t.push(' '); }
    match S::from(&way(&[("highway", &t), ("name", "residential")])) {
        Some(s) => sym::check(format!("{}", s) == r.0, "a street is taken for another one"),
        None => sym::fail("a street isn't known"),
    }
    sym::cover("end");
}
fn other(n: usize) {
    let t = text(n);
    let w = way(&[("highway", &t)]);
    match S::from(&w) {
        Some(s) => {
            // whatever it is taken for, this is a street
            sym::cover("street");
            sym::check(STREETS.iter().any(|r| r.0 == format!("{}", s)), "unknown street");
        }
        None => sym::cover("none"),
    }
    sym::check(S::from(&way(&[("name", &t)])).is_none(), "a way without highway-tag is no street");
}
/// any text
#[no_mangle]
pub extern "C" fn c16_other() { let n = sym::conc_us(sym::us("n", 0, 6)); other(n) }
#[no_mangle]
pub extern "C" fn c16_other_t() { let n = sym::conc_us(sym::us("n", 7, 14)); other(n) }
/// numbers of up to 6 digits
#[no_mangle]
pub extern "C" fn c16_digits() {
    let (s, r) = street([0usize, 11, 17][sym::conc_us(sym::us("street", 0, 2))]);
    let n = sym::conc_us(sym::us("n", 1, 6));
    let d: Vec<u64> = (0..n).map(|i| sym::u(&format!("d{}", i), 0, 9)).collect();
    let t: String = unsafe { String::from_utf8_unchecked(d.iter().map(|&d| b'0' + d as u8).collect()) };
    let v = d.iter().fold(0, |v, d| v * 10 + d);
    let got = *s.parse_maxspeed(&way(&[("maxspeed", &t)]));
    if v > 65535 { sym::cover("too large"); sym::check(got == r.1, "a speed that isn't possible is replaced by the default") }
    else if v < 5 { sym::cover("slow"); sym::check(got == 5.0, "at least walking-speed") }
    else { sym::cover("value"); sym::check(got == v as f64, "the speed is not the tag's one") }
}
const SPEEDS: [(&str, f64); 22] = [
    ("50", 50.0), ("7", 7.0), ("100;70", 100.0), ("60 mph", 100.0), ("50 mph", 80.0), ("40 mph", 70.0), ("30 mph", 50.0), ("20 mph", 30.0),
    ("15 mph", 25.0), ("10 mph", 15.0), ("5 mph", 15.0), ("50; 30", 50.0), ("30 kph", 30.0), ("de:motorway", 130.0), ("de:urban", 50.0), ("de:zone:30", 30.0),
    ("de:zone30", 30.0), ("de:living_street", 15.0), ("walk", 15.0), ("none", -1.0), ("signals", -1.0), ("de:rural", -1.0),
];
/// known values, in any case, with blanks around
#[no_mangle]
pub extern "C" fn c16_speeds() {
    let (s, r) = street([0usize, 6, 17][sym::conc_us(sym::us("street", 0, 2))]);
    let (t, v) = SPEEDS[sym::conc_us(sym::us("speed", 0, SPEEDS.len() - 1))];
    let got = *s.parse_maxspeed(&way(&[("maxspeed", &dress(t))]));
    sym::check(got == if v < 0.0 { r.1 } else { v }, "a speed is not what its tag says");
    sym::cover("end");
}
/// any text
#[no_mangle]
pub extern "C" fn c16_speed() {
    let (s, r) = street([0usize, 16][sym::conc_us(sym::us("street", 0, 1))]);
    let n = sym::conc_us(sym::us("n", 0, 4));
    let t = text(n);
    let got = *s.parse_maxspeed(&way(&[("maxspeed", &t)]));
    sym::check(got >= 5.0 && got <= 65535.0, "a speed is not possible");
    // without any digit or with letters only, nothing is known but the default
    let w = t.trim();
    let mut letters = true;
    for b in w.bytes() { if !(b >= b'a' && b <= b'z') { letters = false; } }
    if letters && w.len() < 4 && w != "de" { sym::cover("letters"); sym::check(got == r.1, "an unknown speed is replaced by the default"); } else { sym::cover("other"); }
}
const ONEWAYS: [(&str, (bool, bool)); 8] = [("yes", (true, false)), ("1", (true, false)), ("-1", (true, true)), ("no", (false, false)), ("reversible", (false, false)), ("alternating", (false, false)), ("bicycle", (false, false)), ("unknown", (false, false))];
#[no_mangle]
pub extern "C" fn c16_oneway() {
    let (s, _) = any_street();
    let (t, v) = ONEWAYS[sym::conc_us(sym::us("oneway", 0, ONEWAYS.len() - 1))];
    sym::check(s.parse_oneway(&way(&[("oneway", &dress(t)), ("maxspeed", "50")])) == v, "the direction of a street is not what its tag says");
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn c16_oneway_any() {
    let (s, _) = street(11);
    let n = sym::conc_us(sym::us("n", 0, 4));
    let t = text(n);
    let got = s.parse_oneway(&way(&[("oneway", &t)]));
    let w = t.trim().to_ascii_lowercase();
    let want = if w == "yes" || w == "1" { sym::cover("yes"); (true, false) } else if w == "-1" { sym::cover("reverse"); (true, true) } else { sym::cover("no"); (false, false) };
    sym::check(got == want, "an unknown direction means both directions");
}
