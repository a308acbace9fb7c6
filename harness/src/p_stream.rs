//! Event streams: iterators and list readers.
use crate::bits::{C, W};
use crate::p_bitevents::{delta, plan};
use crate::p_tagged::record;
use crate::sym;
use crate::tagged::*;
use nom_mpq::{MPQ, harness_archive};
use s2protocol::S2ProtoResult;
use s2protocol::S2ProtocolError;
use s2protocol::details::PlayerLobbyDetails;
use s2protocol::game_events::{GameEventIteratorState, ReplayGameEvent};
use s2protocol::message_events::ReplayMessageEvent;
use s2protocol::state::{SC2EventType, SC2UserState};
use s2protocol::tracker_events::{ReplayTrackerEvent, TrackertEventIteratorState};
use s2protocol::versions::protocol75689::bit_packed as b75;
use s2protocol::versions::protocol87702::{bit_packed as b87, byte_aligned as b};
use std::collections::HashMap;

/// An event the stream must yield: delta, loop, user, values.
pub struct Want { pub delta: i64, pub at: i64, pub user: i64, pub v: Vec<L> }

/// An integer in ten bytes.
pub fn wide(o: &mut Vec<u8>, x: u64) {
    o.push(9);
    o.push(0x80 | ((x & 0x3f) << 1) as u8);
    for k in 1..9 { o.push(0x80 | ((x >> (7 * k - 1)) & 0x7f) as u8) }
    o.push((x >> 62) as u8);
}
pub const SIGNATURE: &[u8] = b"StarCraft II replay\x1b11";
/// A replay header.
pub fn header(sig: &[u8], build: u32) -> Vec<u8> {
    let mut o = vec![5, 18, 0, 2, (sig.len() as u8) << 1];
    o.extend(sig);
    o.extend([2, 5, 12]);
    for k in 0..5 { o.extend([k << 1, 9, 2 + 2 * k]) }
    o.push(10);
    wide(&mut o, build as u64);
    o.extend([4, 9, 4, 6, 9, 20, 8, 6, 1]);
    for k in [5, 7] { if k == 7 { o.extend([12, 9, 2]) } o.extend([k << 1, 5, 4, 0, 4, 0, 2, 2, 4, 7, 8]) }
    o.extend([16, 6, 0]);
    o
}
/// A version of the layout of 75689 (or of 87702): any.
pub fn version(old: bool) -> u32 { let v = sym::u32(); sym::assume((v <= 75689) == old); v }

pub fn tracker_event(d: &[u8]) -> (u32, ReplayTrackerEvent) {
    let Ok((_, (delta, ev))) = b::ReplayTrackerEEventId::parse_event_pair(d) else { panic!("a well formed record decodes") };
    let ev: Result<ReplayTrackerEvent, S2ProtocolError> = ev.try_into();
    let Ok(ev) = ev else { panic!("a tracker event is converted") };
    (delta, ev)
}
/// Appends one tracker record.
pub fn tracker_record(e: &mut Enc, k: usize, out: &mut Vec<Want>, at: &mut i64) {
    let start = e.b.len();
    record(e, k);
    let (delta, ev) = tracker_event(&e.b[start..]);
    *at += delta as i64;
    out.push(Want { delta: delta as i64, at: *at, user: 0, v: leaves(&ev) });
}
fn tracker_stream(dev: u32, k2: Option<usize>) -> (Enc, Vec<Want>) {
    let mut e = Enc::new(dev, 0, 0);
    e.ascii = true;
    let mut want = vec![];
    let mut at = 0;
    tracker_record(&mut e, sym::choice(10), &mut want, &mut at);
    tracker_record(&mut e, k2.unwrap_or_else(|| sym::choice(10)), &mut want, &mut at);
    tracker_record(&mut e, 9, &mut want, &mut at);
    (e, want)
}
fn tracker_iter(dev: u32, k2: Option<usize>) {
    let (mut e, want) = tracker_stream(dev, k2);
    // what follows the records: nothing, an unknown event, one cut short
    match sym::choice(3) {
        0 => {}
        1 => { let x = sym::u8(); sym::assume(x & 0x81 == 0 && x >= 20); e.b.extend([3, 0, 9, 0, 9, x]); sym::cover("unreadable record") }
        _ => { let n = e.b.len(); record(&mut e, 7); let cut = n + 1 + sym::choice(10); e.b.truncate(cut); sym::cover("unreadable record") }
    }
    let v = version(sym::bool());
    let mut it = TrackertEventIteratorState::from(e.b);
    for w in &want {
        let Some(SC2EventType::Tracker { tracker_loop, event }) = it.get_next_event(v) else { sym::check(false, "every tracker event is returned"); return };
        sym::check(tracker_loop == w.at, "the loop is the sum of the deltas so far");
        same(&w.v, &leaves(&event), "the event at its place in the stream");
    }
    for _ in 0..2 { sym::check(it.get_next_event(v).is_none(), "nothing behind the last readable event") }
    sym::cover("stream");
}
entry! { h_tracker_stream { tracker_iter(1, Some(7)) }}
entry! { h_tracker_stream2 { tracker_iter(0, None) }}
entry! { h_tracker_list {
    let (e, want) = tracker_stream(1, Some(8));
    harness_archive(header(SIGNATURE, sym::u32()), vec![("replay.tracker.events", e.b)]);
    let Ok(got) = s2protocol::read_tracker_events("", &MPQ::harness(), &[]) else { sym::check(false, "a well formed stream is read"); return };
    sym::check(got.len() == want.len(), "every tracker event is listed once");
    for (w, g) in want.iter().zip(&got) {
        sym::check(g.delta as i64 == w.delta, "the event's own delta");
        same(&w.v, &leaves(&g.event), "the event at its place in the stream");
    }
    sym::cover("list");
}}

pub type R<'a, E> = S2ProtoResult<(&'a [u8], usize), (i64, i64, E)>;
pub type Parse<E> = for<'a> fn((&'a [u8], usize)) -> R<'a, E>;
/// Plans one record and returns what the stream must yield for it.
pub fn game_record<E: W, U: Lv>(d: &mut [u8], at: &mut usize, dev: &mut u32, kind: Option<u64>, width: Option<u64>, f: Parse<E>, conv: fn(E) -> Option<U>, out: &mut Vec<Want>, sum: &mut i64) {
    let mut c = C::plan(&mut d[*at..], *dev);
    c.ascii = true;
    c.force = kind;
    if let Some(w) = width { c.next_free = true; c.force = Some(w); <b87::SVarUint32 as W>::p(&mut c); <b87::ReplaySGameUserId as W>::p(&mut c); c.next_free = true; c.force = kind; sym::assume(E::p(&mut c)); c.align() }
    else { sym::assume(plan::<E>(&mut c)) }
    *dev = c.dev;
    let n = c.pos / 8;
    let rec = &d[*at..*at + n];
    let Ok((_, (_, user, e))) = f((rec, 0)) else { panic!("a well formed record decodes") };
    let dl = delta(&mut C::new(rec));
    *sum += dl;
    *at += n;
    if let Some(u) = conv(e) { out.push(Want { delta: dl, at: *sum, user, v: leaves(&u) }) } else { sym::cover("unsupported event") }
}
/// Small event types, one of them unsupported.
const SMALL: [u64; 3] = [30, 5, 49];
const N: usize = 260;
fn game_planned<E: W>(d: &mut [u8], mut dev: u32, any: bool, f: Parse<E>, conv: fn(E) -> Option<ReplayGameEvent>) -> (usize, Vec<Want>) {
    let (mut n, mut want, mut sum) = (0, vec![], 0);
    for k in 0..3 {
        let kind = if any { if k == 0 { None } else if k == 1 { Some(5) } else { Some(30) } } else { Some(SMALL[sym::choice(3)]) };
        game_record(d, &mut n, &mut dev, kind, None, f, conv, &mut want, &mut sum);
    }
    (n, want)
}
fn users() -> HashMap<i64, SC2UserState> {
    let mut m = HashMap::new();
    for (id, n) in [(9, "cd")] {
        let mut p = PlayerLobbyDetails::default();
        p.player_details.name = n.to_string();
        m.insert(id, SC2UserState::new(p));
    }
    m
}
fn game_iter<E: W>(dev: u32, any: bool, old: bool, f: Parse<E>, conv: fn(E) -> Option<ReplayGameEvent>) {
    let mut d = sym::bytes::<N>();
    let (mut n, want) = game_planned(&mut d, dev, any, f, conv);
    match if any { 0 } else { sym::choice(3) } {
        0 => {}
        1 => { d[n] = 0; d[n + 1] = 0xe0; d[n + 2] = 0x1f; n += 3; sym::cover("unreadable record") }
        _ => { d[n] = 0; n += 1; sym::cover("unreadable record") }
    }
    let v = version(old);
    let us = users();
    let mut it = GameEventIteratorState::from(d[..n].to_vec());
    for w in &want {
        let Some(SC2EventType::Game { game_loop, user_id, player_name, event }) = it.get_next_event(v, &us, &HashMap::new()) else { sym::check(false, "every supported game event is returned"); return };
        sym::check(game_loop == w.at, "the loop is the sum of the deltas so far");
        sym::check(user_id == w.user, "the event's own user");
        let name = if w.user == 9 { Some("cd") } else { None };
        sym::check(player_name.as_deref() == name, "the name of the event's user");
        same(&w.v, &leaves(&event), "the event at its place in the stream");
    }
    for _ in 0..2 { sym::check(it.get_next_event(v, &us, &HashMap::new()).is_none(), "nothing behind the last readable event") }
    sym::cover("stream");
}
entry! { h_game_stream87 { game_iter::<b87::GameEEventId>(1, false, false, b87::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_game_stream75 { game_iter::<b75::GameEEventId>(1, false, true, b75::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_game_stream87_any { game_iter::<b87::GameEEventId>(1, true, false, b87::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_game_stream75_any { game_iter::<b75::GameEEventId>(1, true, true, b75::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_game_stream87_deep { game_iter::<b87::GameEEventId>(2, false, false, b87::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_game_stream75_deep { game_iter::<b75::GameEEventId>(2, false, true, b75::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_tracker_stream_deep { tracker_iter(1, None) }}
fn game_list<E: W>(any: bool, old: bool, f: Parse<E>, conv: fn(E) -> Option<ReplayGameEvent>) {
    let mut d = sym::bytes::<N>();
    let (n, want) = game_planned(&mut d, 1, any, f, conv);
    harness_archive(header(SIGNATURE, version(old)), vec![("replay.game.events", d[..n].to_vec())]);
    let Ok(got) = s2protocol::read_game_events("", &MPQ::harness(), &[]) else { sym::check(false, "a well formed stream is read"); return };
    sym::check(got.len() == want.len(), "every supported game event is listed once");
    for (w, g) in want.iter().zip(&got) {
        sym::check(g.delta == w.delta, "the event's own delta");
        sym::check(g.user_id == w.user, "the event's own user");
        same(&w.v, &leaves(&g.event), "the event at its place in the stream");
    }
    sym::cover("list");
}
entry! { h_game_list87 { game_list::<b87::GameEEventId>(false, false, b87::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_game_list75 { game_list::<b75::GameEEventId>(false, true, b75::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_msg_list {
    let mut d = sym::bytes::<N>();
    let (mut n, mut want, mut sum, mut dev) = (0, vec![], 0, 1);
    let conv: fn(b87::GameEMessageId) -> Option<ReplayMessageEvent> = |e| e.try_into().ok();
    for _ in 0..3 { game_record(&mut d, &mut n, &mut dev, None, None, b87::GameEMessageId::parse_event_triplet, conv, &mut want, &mut sum) }
    harness_archive(header(SIGNATURE, sym::u32()), vec![("replay.message.events", d[..n].to_vec())]);
    let Ok(got) = s2protocol::read_message_events("", &MPQ::harness(), &[]) else { sym::check(false, "a well formed stream is read"); return };
    sym::check(got.len() == want.len(), "every chat message is listed once");
    for (w, g) in want.iter().zip(&got) {
        sym::check(g.delta == w.delta, "the event's own delta");
        sym::check(g.user_id == w.user, "the event's own user");
        same(&w.v, &leaves(&g.event), "the event at its place in the stream");
    }
    sym::cover("list");
}}
entry! { h_version_game87 { game_list::<b87::GameEEventId>(true, false, b87::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_version_game75 { game_list::<b75::GameEEventId>(true, true, b75::GameEEventId::parse_event_triplet, |e| e.try_into().ok()) }}
entry! { h_version_init {
    let mut d = sym::bytes::<800>();
    let mut c = C::plan(&mut d, 0);
    c.ascii = true;
    <b87::ReplaySInitData as W>::p(&mut c);
    let n = c.pos.div_ceil(8);
    let build = sym::u32();
    harness_archive(header(SIGNATURE, build), vec![("replay.initData", d[..n].to_vec())]);
    let r = s2protocol::read_init_data("", &MPQ::harness(), &[]);
    let Ok(i) = r else { sym::check(false, "well formed init data is read"); return };
    sym::check(i.version == build, "the replay's version is its base build");
    sym::observe(i.version as u64);
    sym::cover("read");
}}
entry! { h_version_details {
    let mut e = Enc::new(0, 0, 0);
    e.ascii = true;
    e.flat = true;
    let w = e.put(&crate::p_tagged::DETAILST);
    harness_archive(header(SIGNATURE, sym::u32()), vec![("replay.details", e.b)]);
    let r = s2protocol::read_details("", &MPQ::harness(), &[]);
    sym::check(r.is_ok() && !w.is_empty(), "well formed details are read");
    sym::cover("read");
}}
fn sector(k: usize) -> bool {
    let m = MPQ::harness();
    match k {
        0 => s2protocol::read_tracker_events("", &m, &[]).is_err(),
        1 => s2protocol::read_game_events("", &m, &[]).is_err(),
        2 => s2protocol::read_message_events("", &m, &[]).is_err(),
        3 => s2protocol::read_details("", &m, &[]).is_err(),
        _ => s2protocol::read_init_data("", &m, &[]).is_err(),
    }
}
/// Well formed content of every sector.
fn sectors() -> Vec<(&'static str, Vec<u8>)> {
    let mut t = Enc::new(0, 0, 0);
    record(&mut t, 7);
    let mut d = sym::bytes::<1000>();
    let mut ends = [0; 4];
    for k in 0..3 {
        let mut c = C::plan(&mut d[ends[k]..], 0);
        c.ascii = true;
        if k < 2 { c.next_free = true; c.force = Some(0); <b87::SVarUint32 as W>::p(&mut c); <b87::ReplaySGameUserId as W>::p(&mut c); c.next_free = true; c.force = Some(if k == 0 { 5 } else { 0 }) }
        match k { 0 => <b87::GameEEventId as W>::p(&mut c), 1 => <b87::GameEMessageId as W>::p(&mut c), _ => <b87::ReplaySInitData as W>::p(&mut c) };
        ends[k + 1] = ends[k] + c.pos.div_ceil(8);
    }
    let part = |k: usize| d[ends[k]..ends[k + 1]].to_vec();
    vec![("replay.tracker.events", t.b), ("replay.game.events", part(0)), ("replay.message.events", part(1)), ("replay.details", crate::p_merge::details()), ("replay.initData", part(2))]
}
entry! { h_signature_ok {
    harness_archive(header(SIGNATURE, sym::u32()), sectors());
    sym::check(!sector(sym::choice(5)), "each part of a replay is read");
    sym::cover("read");
}}
// refusing may be a panic: "panics if the signature doesn't match"
entry! { h_signature {
    let mut sig = SIGNATURE.to_vec();
    let n = sym::choice(sig.len() as u8 + 2);
    if n < sig.len() { let x = sym::u8(); sym::assume(x != sig[n]); sig[n] = x }
    else if n == sig.len() { sig.pop(); } else { sig.push(sym::u8()) }
    harness_archive(header(&sig, sym::u32()), sectors());
    sym::cover("other signature");
    sym::check(sector(sym::choice(5)), "a file with another signature is not read as a replay");
}}
entry! { h_missing_sector {
    let k = sym::choice(5);
    let mut s = sectors();
    s.remove(k);
    harness_archive(header(SIGNATURE, sym::u32()), s);
    sym::check(sector(k), "a missing part of the replay is an error");
    sym::cover("missing");
}}
