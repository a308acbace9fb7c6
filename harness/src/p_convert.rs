//! From the version specific to the version independent types.
use crate::bits::{C, W};
use crate::p_bitevents::plan;
use crate::p_prim::bit_at;
use crate::p_tagged;
use crate::sym;
use crate::tagged::*;
use crate::unified::KEPT;
use s2protocol::S2ProtocolError;
use s2protocol::S2ProtoResult;
use s2protocol::game_events::ReplayGameEvent;
use s2protocol::message_events::{MessageEventError, ReplayMessageEvent};
use s2protocol::versions::protocol75689::bit_packed as b75;
use s2protocol::versions::protocol87702::{bit_packed as b87, byte_aligned as b};
use s2protocol::details::Details;
use s2protocol::init_data::InitData;
use s2protocol::tracker_events::ReplayTrackerEvent;

const N: usize = 200;
type R<'a, E> = S2ProtoResult<(&'a [u8], usize), (i64, i64, E)>;
fn utf8(v: &[L]) -> bool { v.iter().all(|x| !matches!(x, L::B(b) if core::str::from_utf8(b).is_err())) }

fn game<E: W>(dev: u32, f: for<'a> fn((&'a [u8], usize)) -> R<'a, E>, conv: fn(E) -> Result<ReplayGameEvent, S2ProtocolError>) {
    let mut d = sym::bytes::<N>();
    let mut c = C::plan(&mut d, dev);
    plan::<E>(&mut c);
    let end = c.pos;
    let Ok((_, (_, _, e))) = f((&d[..end / 8], 0)) else { return };
    let want = C::leaves(&e);
    let L::I(k) = want[0] else { return };
    let kept = KEPT.contains(&k);
    match conv(e) {
        Ok(u) => {
            sym::check(kept, "an event type without version independent form is reported as unsupported");
            if k == 32 && !utf8(&want) { sym::cover("chat message that is not text"); return }
            same(&want, &leaves(&u), "every value is kept");
            sym::cover("converted");
        }
        Err(S2ProtocolError::UnsupportedEventType) => { sym::check(!kept, "a supported event type is converted"); sym::cover("unsupported") }
        Err(_) => sym::check(false, "the only error is an unsupported event type"),
    }
}
entry! { h_conv_game87 { game::<b87::GameEEventId>(1, b87::GameEEventId::parse_event_triplet, |e| e.try_into()) }}
entry! { h_conv_game75 { game::<b75::GameEEventId>(1, b75::GameEEventId::parse_event_triplet, |e| e.try_into()) }}
entry! { h_conv_msg {
    let mut d = sym::bytes::<N>();
    let mut c = C::plan(&mut d, 2);
    plan::<b87::GameEMessageId>(&mut c);
    let end = c.pos;
    let Ok((_, (_, _, e))) = b87::GameEMessageId::parse_event_triplet((&d[..end / 8], 0)) else { return };
    let want = C::leaves(&e);
    let L::I(k) = want[0] else { return };
    let r: Result<ReplayMessageEvent, MessageEventError> = e.try_into();
    match r {
        Ok(u) => { sym::check(k == 0 && utf8(&want), "only chat that is text is converted"); same(&want, &leaves(&u), "every value is kept"); sym::cover("converted") }
        Err(MessageEventError::UnsupportedEventType) => { sym::check(k != 0, "chat is converted"); sym::cover("unsupported") }
        Err(MessageEventError::Utf8Error(_)) => { sym::check(k == 0 && !utf8(&want), "chat that is text is converted"); sym::cover("not text") }
    }
}}

fn tracker(dev: u32, wild: u32) {
    let k = sym::choice(10);
    let mut e = Enc::new(dev, 0, wild);
    p_tagged::record(&mut e, k);
    let Ok((_, (_, e))) = b::ReplayTrackerEEventId::parse_event_pair(&e.b) else { return };
    let mut want = leaves(&e);
    let text = utf8(&want);
    // supply is stored in 4096ths
    if k == 0 { for i in [31, 32] { if let L::I(x) = want[i] { want[i] = L::I(x / 4096) } } }
    let u: Result<ReplayTrackerEvent, S2ProtocolError> = e.try_into();
    match u {
        Ok(u) => {
            if k == 5 && !text { sym::cover("upgrade name that is not text"); return }
            sym::check(text, "a name that is not text is an error");
            let ReplayTrackerEvent::Upgrade(x) = &u else { same(&want, &leaves(&u), "every value is kept"); sym::cover("converted"); return };
            sym::check(x.player_name.is_none(), "the player's name is not in the event");
            same(&want, &leaves(&u), "every value is kept");
            sym::cover("converted");
        }
        Err(S2ProtocolError::UnsupportedEventType) => sym::check(false, "every tracker event type is supported"),
        Err(_) => { sym::check(!text && k != 5, "a tracker event is converted"); sym::cover("not text") }
    }
}
entry! { h_conv_tracker { tracker(1, 1) }}
entry! { h_conv_tracker_deep { tracker(2, 1) }}

pub fn hex(v: &[u8]) -> L {
    let mut o = Vec::with_capacity(v.len() * 2);
    for x in v { for n in [x >> 4, x & 15] { o.push(b'0' + n + (n > 9) as u8 * 39) } }
    L::B(o)
}
fn text(s: &str) -> L { L::B(s.as_bytes().to_vec()) }
/// The values of replay details, with the encodings of the version independent form.
fn details_want(d: &b::GameSDetails) -> Vec<L> {
    let mut o = vec![];
    let none = vec![];
    let ps = d.m_player_list.as_ref().unwrap_or(&none);
    o.push(L::Len(ps.len()));
    for p in ps {
        p.m_name.l(&mut o);
        o.extend([L::I(p.m_toon.m_region as i64), L::I(p.m_toon.m_program_id as i64), L::I(p.m_toon.m_realm as i64), L::I(p.m_toon.m_id as i64)]);
        p.m_race.l(&mut o);
        p.m_color.l(&mut o);
        p.m_control.l(&mut o);
        p.m_team_id.l(&mut o);
        p.m_handicap.l(&mut o);
        p.m_observe.l(&mut o);
        o.push(text(match p.m_result { b::GameEResultDetails::EUndecided => "Undecided", b::GameEResultDetails::EWin => "Win", b::GameEResultDetails::ELoss => "Loss", b::GameEResultDetails::ETie => "Tie" }));
        p.m_working_set_slot_id.l(&mut o);
        p.m_hero.l(&mut o);
    }
    d.m_title.l(&mut o);
    d.m_difficulty.l(&mut o);
    d.m_thumbnail.l(&mut o);
    d.m_is_blizzard_map.l(&mut o);
    d.m_time_utc.l(&mut o);
    d.m_time_local_offset.l(&mut o);
    d.m_restart_as_transition_map.l(&mut o);
    d.m_disable_recover_game.l(&mut o);
    d.m_description.l(&mut o);
    d.m_image_file_path.l(&mut o);
    d.m_campaign_index.l(&mut o);
    d.m_map_file_name.l(&mut o);
    let none = vec![];
    let hs = d.m_cache_handles.as_ref().unwrap_or(&none);
    o.push(L::Len(hs.len()));
    for h in hs { o.push(hex(h)) }
    d.m_mini_save.l(&mut o);
    o.push(text(match d.m_game_speed { b::GameEGameSpeed::ESlower => "Slower", b::GameEGameSpeed::ESlow => "Slow", b::GameEGameSpeed::ENormal => "Normal", b::GameEGameSpeed::EFast => "Fast", b::GameEGameSpeed::EFaster => "Faster" }));
    d.m_default_difficulty.l(&mut o);
    let none = vec![];
    seq(d.m_mod_paths.as_ref().unwrap_or(&none), &mut o);
    o
}
entry! { h_conv_details {
    sym::fmt_real();
    let mut e = Enc::new(1, 0, 0);
    e.ascii = true;
    e.put(&p_tagged::DETAILST);
    let Ok((_, d)) = b::GameSDetails::parse(&e.b) else { return };
    let want = details_want(&d);
    let u: Result<Details, S2ProtocolError> = d.try_into();
    let Ok(u) = u else { sym::check(false, "details whose texts are text are converted"); return };
    same(&want, &leaves(&u), "every value is kept");
    sym::cover("converted");
}}
// One text of the details is anything.
entry! { h_conv_details_text {
    let mut e = Enc::new(0, 0, 0);
    e.ascii = true;
    e.free = sym::choice(16);
    e.put(&p_tagged::DETAILST);
    let Ok((_, d)) = b::GameSDetails::parse(&e.b) else { return };
    let mut o = vec![];
    if let Some(ps) = &d.m_player_list { for p in ps { o.extend([L::B(p.m_name.clone()), L::B(p.m_race.clone()), L::B(p.m_hero.clone())]) } }
    for x in [&d.m_title, &d.m_difficulty, &d.m_thumbnail.m_file, &d.m_description, &d.m_image_file_path, &d.m_map_file_name] { o.push(L::B(x.clone())) }
    if let Some(ps) = &d.m_mod_paths { for p in ps { o.push(L::B(p.clone())) } }
    let text = utf8(&o);
    let u: Result<Details, S2ProtocolError> = d.try_into();
    sym::check(u.is_ok() == text, "details are converted exactly if their texts are text");
    sym::cover(if text { "converted" } else { "not text" });
}}

fn same_init(want: &[L], got: &[L], real: bool) {
    sym::check(want.len() == got.len(), "every value is kept");
    for i in 0..want.len() {
        match (&want[i], &got[i]) {
            (L::B(a), L::B(b)) if a.len() == 40 && (b.len() == 80 || (!real && b.len() == 0)) => if real { same(&[hex(a)], &got[i..i + 1], "cache handles are kept, in hexadecimal") },
            _ => same(&want[i..i + 1], &got[i..i + 1], "every value is kept"),
        }
    }
}
fn init(dev: u32, real: bool) {
    if real { sym::fmt_real() }
    let mut d = sym::bytes::<800>();
    let mut c = C::plan(&mut d, dev);
    c.ascii = true;
    <b87::ReplaySInitData as W>::p(&mut c);
    let end = c.pos;
    let blobs = c.blobs.clone();
    if real {
        let free = sym::choice(40);
        for p in blobs { for i in 0..40 { if i != free { d[p + i] = (i * 7) as u8 } } }
    }
    let Ok((_, e)) = b87::ReplaySInitData::parse((&d[..end.div_ceil(8)], 0)) else { return };
    let want = C::leaves(&e);
    let u: Result<InitData, S2ProtocolError> = e.try_into();
    let Ok(u) = u else { sym::check(false, "init data whose texts are text is converted"); return };
    same_init(&want, &leaves(&u), real);
    sym::cover("converted");
}
entry! { h_conv_init { init(1, false) }}
entry! { h_conv_handles { init(0, true) }}

// init data layout
fn init_layout(dev: u32) {
    let mut d = sym::bytes::<800>();
    let mut c = C::plan(&mut d, dev);
    let ok = <b87::ReplaySInitData as W>::p(&mut c);
    let end = c.pos;
    let d = &d[..end.div_ceil(8)];
    match b87::ReplaySInitData::parse((d, 0)) {
        Ok((t, e)) => {
            sym::check(ok, "init data with an unknown variant is rejected");
            sym::check(bit_at(d, t) == end, "init data is consumed to its end");
            let mut c = C::new(d);
            e.v(&mut c);
            sym::cover("decoded");
        }
        Err(_) => { sym::check(!ok, "well formed init data is accepted"); sym::cover("rejected") }
    }
}
entry! { h_init { init_layout(1) }}
entry! { h_init_deep { init_layout(2) }}
entry! { h_init_trunc {
    let mut d = sym::bytes::<800>();
    let mut c = C::plan(&mut d, 0);
    <b87::ReplaySInitData as W>::p(&mut c);
    let need = c.pos.div_ceil(8);
    let n = sym::u16() as usize;
    sym::assume(n < need);
    let n = sym::concretize(n as u64) as usize;
    sym::check(b87::ReplaySInitData::parse((&d[..n], 0)).is_err(), "truncated init data is rejected");
    sym::cover("truncated");
}}
// 75689: other slots. A known finding.
fn plan75(c: &mut C) -> bool {
    <b87::CUserInitialDataArray as W>::p(c) && <b87::GameSGameDescription as W>::p(c)
        && <b87::GameEPhase as W>::p(c) && <b87::TUserCount as W>::p(c) && <b87::TUserCount as W>::p(c)
        && c.array::<b75::GameSLobbySlot>(5)
        && <b87::Uint32 as W>::p(c) && c.opt::<b87::TUserId>() && c.skip(1) && <b87::Uint8 as W>::p(c)
        && <b87::Uint32 as W>::p(c) && <b87::GameTDifficulty as W>::p(c) && <b87::GameTaiBuild as W>::p(c)
}
entry! { h_init75 {
    let mut d = [0u8; 600];
    for i in 0..600 { d[i] = (i as u8) & 0x7f }
    let mut c = C::plan(&mut d, 0);
    plan75(&mut c);
    let end = c.pos;
    d[end / 8] ^= sym::u8() & 1;
    let d = &d[..end.div_ceil(8)];
    let ok = match b75::ReplaySInitData::parse((d, 0)) { Ok((t, _)) => bit_at(d, t) == end, Err(_) => false };
    sym::check(ok, "init data of protocol 75689 is decoded with that protocol's lobby slots");
}}
