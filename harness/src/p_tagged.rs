//! Tracker events, replay header and details: the byte aligned structures.
use crate::lv;
use crate::p_prim::at;
use crate::sym;
use crate::tagged::{Ty::*, *};
use s2protocol::S2ProtoResult;
use s2protocol::versions::protocol87702::byte_aligned as b;

type Ty = crate::tagged::Ty;
const S: Ty = Blob;
pub static TAGS: [(u8, Ty); 2] = [(0, U32), (1, U32)];
static OU8: Ty = Opt(&U8);
static OU32: Ty = Opt(&U32);
static OS: Ty = Opt(&S);
static U8S: Ty = U8;
static U32S: Ty = U32;
static I32S: Ty = I32;
static BS: Ty = Blob;
static BOOLS: Ty = Bool;
static STATS: [(u8, Ty); 39] = { let mut a = [const { (0, I32) }; 39]; let mut i = 0; while i < 39 { a[i].0 = i as u8; i += 1 } a };
static PSTATS: [(u8, Ty); 2] = [(0, U8), (1, St(&STATS))];
static BORN: [(u8, Ty); 10] = [(0, U32), (1, U32), (2, S), (3, U8), (4, U8), (5, U8), (6, U8), (7, Opt(&U32S)), (8, Opt(&U32S)), (9, Opt(&BS))];
static DIED: [(u8, Ty); 7] = [(0, U32), (1, U32), (2, Opt(&U8S)), (3, U8), (4, U8), (5, Opt(&U32S)), (6, Opt(&U32S))];
static OWNER: [(u8, Ty); 4] = [(0, U32), (1, U32), (2, U8), (3, U8)];
static TYPE: [(u8, Ty); 3] = [(0, U32), (1, U32), (2, S)];
static UPG: [(u8, Ty); 3] = [(0, U8), (1, S), (2, I32)];
static INIT: [(u8, Ty); 7] = [(0, U32), (1, U32), (2, S), (3, U8), (4, U8), (5, U8), (6, U8)];
static POS: [(u8, Ty); 2] = [(0, U32), (1, Arr(&I32S))];
static SETUP: [(u8, Ty); 4] = [(0, U8), (1, U32), (2, Opt(&U32S)), (3, Opt(&U32S))];
/// The tracker event types, by number.
pub static EVENTS: [Ty; 10] = [St(&PSTATS), St(&BORN), St(&DIED), St(&OWNER), St(&TYPE), St(&UPG), St(&INIT), St(&TAGS), St(&POS), St(&SETUP)];

lv!(b::ReplayTrackerSUnitBornEvent: m_unit_tag_index, m_unit_tag_recycle, m_unit_type_name, m_control_player_id, m_upkeep_player_id, m_x, m_y, m_creator_unit_tag_index, m_creator_unit_tag_recycle, m_creator_ability_name);
lv!(b::ReplayTrackerSUnitDiedEvent: m_unit_tag_index, m_unit_tag_recycle, m_killer_player_id, m_x, m_y, m_killer_unit_tag_index, m_killer_unit_tag_recycle);
lv!(b::ReplayTrackerSUnitOwnerChangeEvent: m_unit_tag_index, m_unit_tag_recycle, m_control_player_id, m_upkeep_player_id);
lv!(b::ReplayTrackerSUnitTypeChangeEvent: m_unit_tag_index, m_unit_tag_recycle, m_unit_type_name);
lv!(b::ReplayTrackerSUpgradeEvent: m_player_id, m_upgrade_type_name, m_count);
lv!(b::ReplayTrackerSUnitInitEvent: m_unit_tag_index, m_unit_tag_recycle, m_unit_type_name, m_control_player_id, m_upkeep_player_id, m_x, m_y);
lv!(b::ReplayTrackerSUnitDoneEvent: m_unit_tag_index, m_unit_tag_recycle);
lv!(b::ReplayTrackerSUnitPositionsEvent: m_first_unit_index, m_items);
lv!(b::ReplayTrackerSPlayerSetupEvent: m_player_id, m_type, m_user_id, m_slot_id);
lv!(b::ReplayTrackerSPlayerStatsEvent: m_player_id, m_stats);
lv!(b::ReplayTrackerSPlayerStats: m_score_value_minerals_current, m_score_value_vespene_current, m_score_value_minerals_collection_rate, m_score_value_vespene_collection_rate, m_score_value_workers_active_count, m_score_value_minerals_used_in_progress_army, m_score_value_minerals_used_in_progress_economy, m_score_value_minerals_used_in_progress_technology, m_score_value_vespene_used_in_progress_army, m_score_value_vespene_used_in_progress_economy, m_score_value_vespene_used_in_progress_technology, m_score_value_minerals_used_current_army, m_score_value_minerals_used_current_economy, m_score_value_minerals_used_current_technology, m_score_value_vespene_used_current_army, m_score_value_vespene_used_current_economy, m_score_value_vespene_used_current_technology, m_score_value_minerals_lost_army, m_score_value_minerals_lost_economy, m_score_value_minerals_lost_technology, m_score_value_vespene_lost_army, m_score_value_vespene_lost_economy, m_score_value_vespene_lost_technology, m_score_value_minerals_killed_army, m_score_value_minerals_killed_economy, m_score_value_minerals_killed_technology, m_score_value_vespene_killed_army, m_score_value_vespene_killed_economy, m_score_value_vespene_killed_technology, m_score_value_food_used, m_score_value_food_made, m_score_value_minerals_used_active_forces, m_score_value_vespene_used_active_forces, m_score_value_minerals_friendly_fire_army, m_score_value_minerals_friendly_fire_economy, m_score_value_minerals_friendly_fire_technology, m_score_value_vespene_friendly_fire_army, m_score_value_vespene_friendly_fire_economy, m_score_value_vespene_friendly_fire_technology);
impl Lv for b::ReplayTrackerEEventId {
    fn l(&self, o: &mut Vec<L>) {
        match self {
            Self::EPlayerStats(e) => { o.push(L::I(0)); e.l(o) }
            Self::EUnitBorn(e) => { o.push(L::I(1)); e.l(o) }
            Self::EUnitDied(e) => { o.push(L::I(2)); e.l(o) }
            Self::EUnitOwnerChange(e) => { o.push(L::I(3)); e.l(o) }
            Self::EUnitTypeChange(e) => { o.push(L::I(4)); e.l(o) }
            Self::EUpgrade(e) => { o.push(L::I(5)); e.l(o) }
            Self::EUnitInit(e) => { o.push(L::I(6)); e.l(o) }
            Self::EUnitDone(e) => { o.push(L::I(7)); e.l(o) }
            Self::EUnitPosition(e) => { o.push(L::I(8)); e.l(o) }
            Self::EPlayerSetup(e) => { o.push(L::I(9)); e.l(o) }
        }
    }
}

// replay header and details
static VERSION: [(u8, Ty); 6] = [(0, U8), (1, U8), (2, U8), (3, U8), (4, U32), (5, U32)];
static U8ARR: Ty = Arr(&U8S);
static MD5: [(u8, Ty); 2] = [(0, Opt(&U8ARR)), (1, S)];
static HEADER: [(u8, Ty); 9] = [(0, S), (1, St(&VERSION)), (2, U8), (3, U32), (4, Bool), (5, St(&MD5)), (6, U32), (7, St(&MD5)), (8, Bool)];
static THUMB: [(u8, Ty); 1] = [(0, S)];
static COLOR: [(u8, Ty); 4] = [(0, U8), (1, U8), (2, U8), (3, U8)];
static TOON: [(u8, Ty); 5] = [(0, U8), (1, Cc), (2, U32), (3, MaybeBlob), (4, U64)];
pub static PLAYER: [(u8, Ty); 11] = [(0, S), (1, St(&TOON)), (2, S), (3, St(&COLOR)), (4, U8), (5, U8), (6, U32), (7, Int(0, 2)), (8, Int(0, 3)), (9, Opt(&U8S)), (10, S)];
static PLAYERT: Ty = St(&PLAYER);
static PLAYERS: Ty = Arr(&PLAYERT);
static BLOBS: Ty = Arr(&BS);
static RAWS: Ty = Raw;
static RAWARR: Ty = Arr(&RAWS);
/// In the order of the decoded struct.
pub static DETAILS: [(u8, Ty); 18] = [(0, Opt(&PLAYERS)), (1, S), (2, S), (3, St(&THUMB)), (4, Bool), (5, I64), (6, I64), (16, Opt(&BOOLS)), (17, Bool), (7, S), (8, S), (15, U8), (9, S), (10, Opt(&RAWARR)), (11, Bool), (12, Int(0, 4)), (13, U32), (14, Opt(&BLOBS))];

lv!(b::SVersion: m_flags, m_major, m_minor, m_revision, m_build, m_base_build);
impl Lv for b::Smd5 {
    fn l(&self, o: &mut Vec<L>) {
        match &self.m_data_deprecated { None => o.push(L::No), Some(v) => seq(v, o) }
        self.m_data.l(o)
    }
}
lv!(b::ReplaySHeader: m_signature, m_version, m_type, m_elapsed_game_loops, m_use_scaled_time, m_ngdp_root_key, m_data_build_num, m_replay_compatibility_hash, m_ngdp_root_key_is_dev_data);
lv!(b::GameSThumbnail: m_file);
lv!(b::GameSColor: m_a, m_r, m_g, m_b);
lv!(b::GameSToonNameDetails: m_region, m_program_id, m_realm, m_name, m_id);
lv!(b::GameSPlayerDetails: m_name, m_toon, m_race, m_color, m_control, m_team_id, m_handicap, m_observe, m_result, m_working_set_slot_id, m_hero);
impl Lv for Vec<b::GameSPlayerDetails> { fn l(&self, o: &mut Vec<L>) { seq(self, o) } }
impl Lv for b::EObserve { fn l(&self, o: &mut Vec<L>) { o.push(L::I(match self { Self::ENone => 0, Self::ESpectator => 1, Self::EReferee => 2 })) } }
impl Lv for b::GameEResultDetails { fn l(&self, o: &mut Vec<L>) { o.push(L::I(match self { Self::EUndecided => 0, Self::EWin => 1, Self::ELoss => 2, Self::ETie => 3 })) } }
impl Lv for b::GameEGameSpeed { fn l(&self, o: &mut Vec<L>) { o.push(L::I(match self { Self::ESlower => 0, Self::ESlow => 1, Self::ENormal => 2, Self::EFast => 3, Self::EFaster => 4 })) } }
lv!(b::GameSDetails: m_player_list, m_title, m_difficulty, m_thumbnail, m_is_blizzard_map, m_time_utc, m_time_local_offset, m_restart_as_transition_map, m_disable_recover_game, m_description, m_image_file_path, m_campaign_index, m_map_file_name, m_cache_handles, m_mini_save, m_game_speed, m_default_difficulty, m_mod_paths);

/// One tracker record: delta, then the event of type `k`.
pub fn record(e: &mut Enc, k: usize) -> Vec<L> {
    let mut w = e.put(&Ch);
    e.b.push(9);
    e.b.push((k as u8) << 1);
    w.push(L::I(k as i64));
    w.extend(e.put(&EVENTS[k]));
    w
}
fn pair(d: &[u8]) -> S2ProtoResult<&[u8], Vec<L>> {
    let (t, (delta, e)) = b::ReplayTrackerEEventId::parse_event_pair(d)?;
    let mut o = vec![L::I(delta as i64)];
    e.l(&mut o);
    Ok((t, o))
}
fn header(d: &[u8]) -> S2ProtoResult<&[u8], Vec<L>> { let (t, x) = b::ReplaySHeader::parse(d)?; Ok((t, leaves(&x))) }
fn details(d: &[u8]) -> S2ProtoResult<&[u8], Vec<L>> { let (t, x) = b::GameSDetails::parse(d)?; Ok((t, leaves(&x))) }

fn exact(e: Enc, want: Vec<L>, f: fn(&[u8]) -> S2ProtoResult<&[u8], Vec<L>>) {
    let mut d = e.b.clone();
    d.push(sym::u8());             // whatever follows is left alone
    match f(&d) {
        Ok((t, got)) => {
            sym::check(e.ok, "a value outside its field's range is rejected");
            sym::check(at(&d, t) == e.b.len(), "consumes exactly its encoding");
            same(&want, &got, "every field holds its encoded value");
            sym::cover("decoded");
        }
        Err(_) => { sym::check(!e.ok, "a well formed encoding is accepted"); sym::cover("out of range") }
    }
}
fn reject(e: Enc, f: fn(&[u8]) -> S2ProtoResult<&[u8], Vec<L>>) {
    if e.bad == 0 {
        sym::check(f(&e.b).is_err(), "a malformed encoding is rejected");
        sym::cover("malformed");
    } else {
        let n = e.b.len();
        let k = sym::u16() as usize;
        sym::assume(k < n);
        let k = sym::concretize(k as u64) as usize;
        sym::check(f(&e.b[..k]).is_err(), "a truncated encoding is rejected");
        sym::cover("truncated");
    }
}
fn tracker(dev: u32, bad: u32, wild: u32) -> (Enc, Vec<L>) { let k = sym::choice(10); let mut e = Enc::new(dev, bad, wild); let w = record(&mut e, k); (e, w) }
fn one(dev: u32, bad: u32, wild: u32, t: &Ty) -> (Enc, Vec<L>) { let mut e = Enc::new(dev, bad, wild); let w = e.put(t); (e, w) }
static HEADERT: Ty = St(&HEADER);
pub static DETAILST: Ty = St(&DETAILS);

entry! { h_tracker { let (e, w) = tracker(1, 0, 1); exact(e, w, pair) }}
entry! { h_tracker_deep { let (e, w) = tracker(3, 0, 1); exact(e, w, pair) }}
entry! { h_header { let (e, w) = one(1, 0, 1, &HEADERT); exact(e, w, header) }}
entry! { h_details_shape { let (e, w) = one(1, 0, 0, &DETAILST); exact(e, w, details) }}
entry! { h_details_range { let (e, w) = one(0, 0, 1, &DETAILST); exact(e, w, details) }}
entry! { h_header_deep { let (e, w) = one(2, 0, 1, &HEADERT); exact(e, w, header) }}
entry! { h_details_deep { let (e, w) = one(2, 0, 0, &DETAILST); exact(e, w, details) }}
entry! { h_tracker_strict { let (e, _) = tracker(0, 1, 0); reject(e, pair) }}
entry! { h_header_strict { let (e, _) = one(0, 1, 0, &HEADERT); reject(e, header) }}
entry! { h_details_strict { let (e, _) = one(0, 1, 0, &DETAILST); reject(e, details) }}
// An event number other than the ten published ones.
entry! { h_tracker_unknown {
    let mut e = Enc::new(0, 0, 0);
    e.put(&Ch);
    e.b.push(9);
    let (f, v) = e.any();
    sym::assume(!f | (v < 0) | (v > 9));
    e.put(&EVENTS[7]);
    sym::check(pair(&e.b).is_err(), "an unknown event number is rejected");
    sym::cover("unknown");
}}
