//! Time conversions.
use crate::sym;
use chrono::{Datelike, Timelike};

/// Windows ticks between 1601 and 1970.
const EPOCH: i64 = 116_444_736_000_000_000;
/// Days since 1970 with their year and day of the year.
const DAYS: [(i64, i32, u32); 8] = [(16_000, 2013, 295), (0, 1970, 1), (-1, 1969, 365), (11_016, 2000, 60), (11_322, 2000, 366), (15_705, 2012, 366), (20_088, 2024, 366), (49_677, 2106, 5)];
const DAY: i64 = 864_000_000_000;
// A stretch of a few seconds, ending or beginning at midnight or at noon.
fn date(day: usize, k: usize, bits: u32) {
    let (d, year, ordinal) = DAYS[day];
    let (x, y) = (sym::u32(), sym::u32());
    sym::assume((x < 1 << bits) & (y < 64));
    let (start, zone) = ([10, DAY / 2, DAY - 10 - (1 << bits)][k / 3], [0, 95, -80][k % 3]);
    let (at, offset) = (start + x as i64, zone * 3_600_000_000 + y as i64 - 32);
    let Some(t) = s2protocol::transform_to_naivetime(EPOCH + d * DAY + at + offset, offset) else { sym::check(false, "a date"); return };
    sym::check((t.year() == year) & (t.ordinal() == ordinal), "the day");
    let ns = t.time().num_seconds_from_midnight() as i64 * 1_000_000_000 + t.nanosecond() as i64;
    sym::check(t.nanosecond() < 1_000_000_000, "no leap second");
    let off = ns - at * 100;
    sym::check((off > -2000) & (off < 2000), "the instant to a microsecond");
    sym::cover("date");
}
entry! { h_date {
    date(sym::choice(3), [2, 6][sym::choice(2)], 24);
}}
entry! { h_date_deep {
    date(sym::choice(8), sym::choice(9), 30);
}}
// No value overflows.
entry! { h_date_ends {
    let near = |k: usize| { let d = (sym::u32() & 0xfffff) as i64; [i64::MIN + d, i64::MAX - d, d - (1 << 19)][k] };
    let (utc, offset) = (near(sym::choice(3)), near(sym::choice(3)));
    let _ = s2protocol::transform_to_naivetime(utc, offset);
    sym::cover("any");
}}
entry! { h_date_any {
    let (utc, offset) = (sym::i64(), sym::i64());
    let _ = s2protocol::transform_to_naivetime(utc, offset);
    sym::cover("any");
}}
fn seconds(tracker: bool, from: u32, to: u8) {
    let k = from + sym::choice(to) as u32;
    // one power of two at a time, so that the rounding happens at a known place
    let l = if k == 0 { let l = sym::i64(); sym::assume((l > -(1 << 24)) & (l < 1)); l } else { let (top, rest) = if k > 12 { (sym::choice(8) as i64, k - 4) } else { (0, k - 1) }; let d = sym::u32() as i64; sym::assume(d < 1 << rest); (1 << (k - 1)) + (top << rest) + d };
    let got = (if tracker { s2protocol::convert_tracker_loop_to_seconds(l) } else { s2protocol::convert_game_loop_to_seconds(l) }) as i64;
    let want = if l < 0 { 0 } else { l * 6_858_391 };
    let d = want - got * 100_000_000;
    sym::check((d >= -100_000_000) & (d <= 200_000_000), "seconds of a loop");
    sym::cover("seconds");
}
entry! { h_game_seconds {
    seconds(false, 0, 16);
}}
entry! { h_tracker_seconds {
    seconds(true, 0, 12);
}}
entry! { h_tracker_seconds_deep {
    seconds(true, 11, 5);
}}
