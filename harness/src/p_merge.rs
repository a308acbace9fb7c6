//! The merged, filtered event stream of a replay.
use crate::p_stream::*;
use crate::p_tagged::DETAILST;
use crate::sym;
use crate::tagged::*;
use nom_mpq::harness_archive;
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::game_events::ReplayGameEvent;
use s2protocol::init_data::InitData;
use s2protocol::state::{SC2EventIterator, SC2EventType};
use s2protocol::versions::protocol87702::bit_packed as b87;
use std::collections::HashMap;

const VERSION: u32 = 87702;
pub fn details() -> Vec<u8> { let mut e = Enc::new(0, 0, 0); e.flat = true; e.put(&DETAILST); e.b }
/// The iterator over a replay made of these streams.
pub fn replay(tracker: Vec<u8>, game: Vec<u8>) -> SC2EventIterator {
    harness_archive(header(SIGNATURE, VERSION), vec![("replay.details", details()), ("replay.tracker.events", tracker), ("replay.game.events", game)]);
    let init = InitData { ext_fs_file_name: "/dev/null".to_string(), version: VERSION, ..Default::default() };
    let Ok(it) = SC2EventIterator::new(&init, HashMap::new()) else { sym::check(false, "a well formed replay is opened"); panic!() };
    it
}
pub fn conv(e: b87::GameEEventId) -> Option<ReplayGameEvent> { e.try_into().ok() }
pub fn parse<'a>(i: (&'a [u8], usize)) -> R<'a, b87::GameEEventId> { b87::GameEEventId::parse_event_triplet(i) }
/// Both streams in order; (is a tracker event, event).
fn merged(t: Vec<Want>, g: Vec<Want>) -> Vec<(bool, Want)> {
    let mut r = vec![];
    let (mut t, mut g) = (t.into_iter().peekable(), g.into_iter().peekable());
    loop {
        let first = match (t.peek(), g.peek()) {
            (Some(a), Some(b)) => a.at <= b.at,
            (Some(_), None) => true,
            (None, Some(_)) => false,
            (None, None) => return r,
        };
        r.push((first, if first { t.next() } else { g.next() }.unwrap()));
    }
}
fn is(want: &(bool, Want), got: SC2EventType) {
    let w = &want.1;
    match got {
        SC2EventType::Tracker { tracker_loop, event } => {
            sym::check(want.0, "the earlier of the two next events is returned, the tracker event if equal");
            sym::check(tracker_loop == w.at, "the event's loop");
            same(&w.v, &leaves(&event), "the event");
        }
        SC2EventType::Game { game_loop, event, user_id, .. } => {
            sym::check(!want.0, "the earlier of the two next events is returned, the tracker event if equal");
            sym::check(game_loop == w.at, "the event's loop");
            sym::check(user_id == w.user, "the event's user");
            same(&w.v, &leaves(&event), "the event");
        }
    }
}
fn merge(nt: usize, ng: usize) {
    let mut e = Enc::new(0, 0, 0);
    let (mut t, mut at) = (vec![], 0);
    for _ in 0..nt { tracker_record(&mut e, 7, &mut t, &mut at) }
    let mut d = sym::bytes::<100>();
    let (mut g, mut n, mut at, mut dev) = (vec![], 0, 0, 0);
    for k in 0..ng {
        // an unsupported event in between
        if k == 1 && sym::bool() { game_record(&mut d, &mut n, &mut dev, Some(5), Some(1), parse, conv, &mut g, &mut at) }
        game_record(&mut d, &mut n, &mut dev, Some(1), Some(3), parse, conv, &mut g, &mut at);
    }
    let it = replay(e.b, d[..n].to_vec());
    let mut it = it.into_iter();
    for w in &merged(t, g) {
        let Some(x) = it.next() else { sym::check(false, "every event is returned"); return };
        is(w, x.event_type);
    }
    sym::check(it.next().is_none(), "each event is returned once");
    sym::cover("merged");
}
entry! { h_merge { merge(2, 2) }}
entry! { h_merge_deep { merge(3, 3) }}

/// Is the event kept? Its leaves are those of the published structure.
fn kept(f: &SC2ReplayFilters, e: &(bool, Want)) -> bool {
    let w = &e.1;
    let int = |k: usize| match w.v[k] { L::I(x) => Some(x), _ => None };
    let mut ok = true;
    if let Some(m) = f.min_loop { ok &= w.at >= m }
    if let Some(m) = f.max_loop { ok &= w.at <= m }
    let kind = if e.0 { int(0).unwrap() } else { -1 };
    if let Some(p) = f.player_id {
        let p = p as i64;
        let of = match kind { -1 => Some(w.user), 0 | 5 | 9 => int(1), 1 | 6 => int(4), 2 => { let k = int(3); if k.is_none() { ok = false } k } 3 => int(3), _ => Some(p) };
        if let Some(x) = of { ok &= x == p }
    }
    if let Some(u) = &f.unit_name {
        if matches!(kind, 1 | 4 | 6) && let L::B(b) = &w.v[3] { ok &= b.len() == u.len(); let mut i = 0; while i < b.len() && i < u.len() { ok &= b[i] == u.as_bytes()[i]; i += 1 } }
    }
    ok & (f.include_stats | (kind != 0))
}
fn some<T>(b: bool, f: fn() -> T) -> Option<T> { if b { Some(f()) } else { None } }
fn filtered(f: SC2ReplayFilters, e: Vec<u8>, t: Vec<Want>, g: Vec<u8>, gw: Vec<Want>) -> SC2EventIterator {
    let mut it = replay(e, g).with_filters(f.clone());
    let mut left = f.max_events.unwrap_or(usize::MAX);
    for w in &merged(t, gw) {
        if left == 0 { sym::cover("limit"); break }
        if !kept(&f, w) { sym::cover("dropped"); continue }
        let Some(x) = it.next() else { sym::check(false, "an event that passes the filters is returned"); break };
        is(w, x.event_type);
        left -= 1;
        sym::cover("kept");
    }
    sym::check(it.next().is_none(), "an event that does not pass the filters is not returned");
    it
}
// one event of each kind against each filter
entry! { h_filter {
    let mut e = Enc::new(1, 0, 0);
    e.ascii = true;
    let (mut t, mut at) = (vec![], 0);
    let k = sym::choice(10);
    tracker_record(&mut e, k, &mut t, &mut at);
    let mut d = sym::bytes::<20>();
    let (mut g, mut n, mut at) = (vec![], 0, 0);
    game_record(&mut d, &mut n, &mut 0, Some(1), Some(3), parse, conv, &mut g, &mut at);
    let mut f = SC2ReplayFilters { include_stats: sym::bool(), ..Default::default() };
    match sym::choice(5) {
        0 => f.player_id = Some(sym::u8()),
        1 => f.min_loop = Some(sym::i64()),
        2 => f.max_loop = Some(sym::i64()),
        3 => { let mut b = sym::vec(sym::choice(3)); for x in &mut b { *x &= 0x7f } f.unit_name = Some(String::from_utf8(b).unwrap()) }
        _ => {}
    }
    let it = filtered(f, e.b, t, d[..n].to_vec(), g);
    sym::check(it.sc2_state.units.len() == matches!(k, 1 | 4 | 6) as usize, "a filtered event still takes effect");
}}
// limits, alone and together with other filters
fn filter_max(deep: bool) {
    let mut e = Enc::new(0, 0, 0);
    let (mut t, mut at) = (vec![], 0);
    for _ in 0..2 { tracker_record(&mut e, 7, &mut t, &mut at) }
    let mut d = sym::bytes::<40>();
    let (mut g, mut n, mut at) = (vec![], 0, 0);
    for _ in 0..2 { game_record(&mut d, &mut n, &mut 0, Some(1), Some(3), parse, conv, &mut g, &mut at) }
    let (p, lo, hi) = if deep { (sym::bool(), sym::bool(), sym::bool()) } else { [(false, false, false), (true, false, false), (false, true, true)][sym::choice(3)] };
    let f = SC2ReplayFilters { max_events: some(sym::bool(), || sym::choice(6)), player_id: some(p, sym::u8), min_loop: some(lo, sym::i64), max_loop: some(hi, sym::i64), ..Default::default() };
    filtered(f, e.b, t, d[..n].to_vec(), g);
}
entry! { h_filter_max { filter_max(false) }}
entry! { h_filter_max_deep { filter_max(true) }}
entry! { h_filter_user {
    let mut d = s2protocol::details::Details::default();
    let mut f = SC2ReplayFilters { player_id: some(sym::bool(), sym::u8), ..Default::default() };
    let name = |n: usize| { let mut b = sym::vec(n); for x in &mut b { *x &= 0x7f } b };
    let wanted = name(2);
    let mut want = f.player_id;
    for _ in 0..2 {
        let n = name(2);
        let slot = some(sym::bool(), sym::u8);
        if n[0] == wanted[0] && n[1] == wanted[1] { want = slot; sym::cover("found") }
        d.player_list.push(s2protocol::details::PlayerDetails { name: String::from_utf8(n).unwrap(), working_set_slot_id: slot, ..Default::default() });
    }
    f.set_player_id_from_user_name(&String::from_utf8(wanted).unwrap(), &d);
    sym::check(f.player_id == want, "the player filter is the slot of the player of that name");
    sym::observe(f.player_id.unwrap_or(0) as u64);
}}
