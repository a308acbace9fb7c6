//! Flat rows: one row per event (and unit), with the event's and the unit's values.
use crate::bits::W;
use crate::lv;
use crate::p_merge::{conv, parse, replay};
use crate::p_stream::*;
use crate::p_units::{any_unit, game_step, maybe, player};
use crate::sym;
use crate::tagged::*;
use s2protocol::details::Details;
use s2protocol::game_events::*;
use s2protocol::init_data::*;
use s2protocol::state::*;
use s2protocol::tracker_events::*;
use s2protocol::{convert_game_loop_to_seconds, convert_tracker_loop_to_seconds};

lv!(PlayerStatsFlatRow: player_id, minerals_current, vespene_current, minerals_collection_rate, vespene_collection_rate, workers_active_count, minerals_used_in_progress_army, minerals_used_in_progress_economy, minerals_used_in_progress_technology, vespene_used_in_progress_army, vespene_used_in_progress_economy, vespene_used_in_progress_technology, minerals_used_current_army, minerals_used_current_economy, minerals_used_current_technology, vespene_used_current_army, vespene_used_current_economy, vespene_used_current_technology, minerals_lost_army, minerals_lost_economy, minerals_lost_technology, vespene_lost_army, vespene_lost_economy, vespene_lost_technology, minerals_killed_army, minerals_killed_economy, minerals_killed_technology, vespene_killed_army, vespene_killed_economy, vespene_killed_technology, food_used, food_made, minerals_used_active_forces, vespene_used_active_forces, minerals_friendly_fire_army, minerals_friendly_fire_economy, minerals_friendly_fire_technology, vespene_friendly_fire_army, vespene_friendly_fire_economy, vespene_friendly_fire_technology, ext_replay_loop, ext_replay_seconds, ext_fs_id);
lv!(UpgradeEventFlatRow: player_id, name, count, ext_replay_loop, ext_replay_seconds, ext_fs_id);
impl Lv for f32 { fn l(&self, o: &mut Vec<L>) { o.push(L::I(self.to_bits() as i64)) } }
lv!(UnitBornEventFlatRow: unit_tag_index, unit_tag_recycle, unit_type_name, control_player_id, upkeep_player_id, x, y, creator_unit_tag_index, creator_unit_tag_recycle, creator_unit_type_name, creator_ability_name, ext_replay_loop, ext_replay_seconds, ext_fs_id, player_name);
lv!(UnitDiedEventFlatRow: unit_died_name, unit_tag_index, unit_tag_recycle, killer_player_id, x, y, unit_killer_name, killer_unit_tag_index, killer_unit_tag_recycle, ext_replay_loop, ext_replay_seconds, ext_fs_id);
lv!(CmdTargetPointEventFlatRow: user_id, player_name, cmd_flags, abil_link, abil_cmd_index, ability, target_point_x, target_point_y, target_point_z, sequence, unit_group, unit_name, ext_replay_loop, ext_replay_seconds, ext_fs_id);
lv!(CmdTargetUnitEventFlatRow: user_id, player_name, cmd_flags, abil_link, abil_cmd_index, ability, target_unit_flags, tag, snapshot_unit_link, snapshot_control_player_id, snapshot_upkeep_player_id, snapshot_point_x, snapshot_point_y, snapshot_point_z, sequence, unit_name, target_unit_name, ext_replay_loop, ext_replay_seconds, ext_fs_id);
macro_rules! v { ($($x:expr),* $(,)?) => {{ let mut o = vec![]; $( Lv::l(&$x, &mut o); )* o }} }

fn details() -> Details { Details { ext_fs_id: sym::u64(), ..Default::default() } }
fn word(k: &str) -> String { k.to_string() }
/// Every kind of report.
fn hint(k: usize) -> UnitChangeHint {
    let u = |n: &str| any_unit(sym::u32(), n, false);
    match k {
        0 => UnitChangeHint::None,
        1 => UnitChangeHint::Registered { unit: Box::new(u("Drone")), creator: maybe(|| u("Larva")) },
        2 => UnitChangeHint::Unregistered { killer: maybe(|| u("Baneling")), killed: Box::new(u("Marine")) },
        3 => UnitChangeHint::Positions(vec![u("Drone")]),
        4 => UnitChangeHint::TargetPoints(vec![u("Drone")]),
        5 => UnitChangeHint::TargetUnits { units: vec![u("Drone")], target: Box::new(u("Marine")) },
        6 => UnitChangeHint::Selection(vec![u("Drone")]),
        _ => UnitChangeHint::Abilities { units: (0..sym::choice(3)).map(|k| { let mut u = u(["Drone", "Queen"][k]); if sym::choice(2) == 1 { u.cmd.other_unit_name = None } u }).collect(), event: cmd(GameSCmdData::None), target: maybe(|| u("Marine")) },
    }
}
fn point() -> GameSMapCoord3D { GameSMapCoord3D { x: sym::i64(), y: sym::i64(), z: sym::i32() } }
fn cmd(m_data: GameSCmdData) -> GameSCmdEvent {
    GameSCmdEvent { m_cmd_flags: sym::i64(), m_abil: maybe(|| GameSCmdAbil { m_abil_link: sym::u16(), ability: word("Train.Drone"), m_abil_cmd_index: sym::i64(), m_abil_cmd_data: maybe(sym::u8) }), m_data, m_sequence: sym::i64(), m_other_unit: Some(sym::u32()), m_unit_group: maybe(sym::u32) }
}
entry! { h_row_stats {
    let x: [i32; 39] = core::array::from_fn(|_| sym::i32());
    let s = PlayerStats {
        minerals_current: x[0], vespene_current: x[1], minerals_collection_rate: x[2], vespene_collection_rate: x[3], workers_active_count: x[4],
        minerals_used_in_progress_army: x[5], minerals_used_in_progress_economy: x[6], minerals_used_in_progress_technology: x[7],
        vespene_used_in_progress_army: x[8], vespene_used_in_progress_economy: x[9], vespene_used_in_progress_technology: x[10],
        minerals_used_current_army: x[11], minerals_used_current_economy: x[12], minerals_used_current_technology: x[13],
        vespene_used_current_army: x[14], vespene_used_current_economy: x[15], vespene_used_current_technology: x[16],
        minerals_lost_army: x[17], minerals_lost_economy: x[18], minerals_lost_technology: x[19],
        vespene_lost_army: x[20], vespene_lost_economy: x[21], vespene_lost_technology: x[22],
        minerals_killed_army: x[23], minerals_killed_economy: x[24], minerals_killed_technology: x[25],
        vespene_killed_army: x[26], vespene_killed_economy: x[27], vespene_killed_technology: x[28],
        food_used: x[29], food_made: x[30], minerals_used_active_forces: x[31], vespene_used_active_forces: x[32],
        minerals_friendly_fire_army: x[33], minerals_friendly_fire_economy: x[34], minerals_friendly_fire_technology: x[35],
        vespene_friendly_fire_army: x[36], vespene_friendly_fire_economy: x[37], vespene_friendly_fire_technology: x[38],
    };
    let (id, at, d) = (sym::u8(), sym::i64(), details());
    let row = PlayerStatsFlatRow::new(PlayerStatsEvent { player_id: id, stats: s }, at, d.clone());
    let mut want = v![id];
    for k in x { k.l(&mut want) }
    want.extend(v![at, convert_tracker_loop_to_seconds(at), d.ext_fs_id]);
    same(&want, &leaves(&row), "player statistics");
    let (id, count) = (sym::u8(), sym::i32());
    let row = UpgradeEventFlatRow::new(UpgradeEvent { player_id: id, upgrade_type_name: word("Metabolic"), count, player_name: None }, at, d.clone());
    same(&v![id, word("Metabolic"), count, at, convert_tracker_loop_to_seconds(at), d.ext_fs_id], &leaves(&row), "an upgrade");
    sym::cover("rows");
}}
entry! { h_row_born {
    let (d, at) = (details(), sym::i64());
    let h = hint(sym::choice(8));
    let (ix, rc) = (sym::u32(), sym::u32());
    let secs = convert_tracker_loop_to_seconds(at);
    let what = sym::choice(3);
    let born = UnitBornEvent { unit_tag_index: ix, unit_tag_recycle: rc, unit_type_name: word("Zergling"), control_player_id: sym::u8(), upkeep_player_id: sym::u8(), x: sym::u8(), y: sym::u8(), creator_unit_tag_index: maybe(sym::u32), creator_unit_tag_recycle: maybe(sym::u32), creator_ability_name: maybe(|| word("Morph")) };
    let got = match what {
        0 => UnitBornEventFlatRow::from_unit_born(born.clone(), at, &d, h.clone()),
        1 => UnitBornEventFlatRow::from_unit_done(UnitDoneEvent { unit_tag_index: ix, unit_tag_recycle: rc }, at, &d, h.clone()),
        _ => UnitBornEventFlatRow::from_unit_type_change(UnitTypeChangeEvent { unit_tag_index: ix, unit_tag_recycle: rc, unit_type_name: word("Zergling") }, at, &d, h.clone()),
    };
    let UnitChangeHint::Registered { unit, creator } = h else { sym::check(got.is_none(), "no row for a unit not registered"); sym::cover("no row"); return };
    let Some(got) = got else { sym::check(false, "a row for a registered unit"); return };
    let creator = creator.map(|c| c.name);
    let want = if what == 0 {
        v![ix, rc, word("Zergling"), Some(born.control_player_id), Some(born.upkeep_player_id), born.x as f32, born.y as f32, born.creator_unit_tag_index, born.creator_unit_tag_recycle, creator, born.creator_ability_name, at, secs, d.ext_fs_id, unit.player_name]
    } else {
        v![ix, rc, unit.name, unit.user_id, unit.user_id, unit.pos.0[0], unit.pos.0[1], None::<u32>, None::<u32>, creator, unit.creator_ability_name, at, secs, d.ext_fs_id, unit.player_name]
    };
    same(&want, &leaves(&got), "a registered unit");
    sym::cover(["born", "done", "changed"][what]);
}}
entry! { h_row_died {
    let (d, at) = (details(), sym::i64());
    let h = hint(sym::choice(8));
    let e = UnitDiedEvent { unit_tag_index: sym::u32(), unit_tag_recycle: sym::u32(), killer_player_id: maybe(sym::u8), x: sym::u8(), y: sym::u8(), killer_unit_tag_index: maybe(sym::u32), killer_unit_tag_recycle: maybe(sym::u32) };
    let got = UnitDiedEventFlatRow::new(&d, e.clone(), at, h.clone());
    let UnitChangeHint::Unregistered { killer, .. } = h else { sym::check(got.is_none(), "no row for a unit that was not registered"); sym::cover("no row"); return };
    let Some(got) = got else { sym::check(false, "a row for a unit that died"); return };
    let want = v![word("Marine"), e.unit_tag_index, e.unit_tag_recycle, e.killer_player_id, e.x, e.y, if killer.is_some() { word("Baneling") } else { word("") }, e.killer_unit_tag_index, e.killer_unit_tag_recycle, at, convert_tracker_loop_to_seconds(at), d.ext_fs_id];
    same(&want, &leaves(&got), "a unit that died");
    sym::cover("died");
}}
entry! { h_row_cmd {
    let (d, at, user, name) = (details(), sym::i64(), sym::i64(), maybe(|| word("ann")));
    let h = hint([7, 7, 0, 1, 4, 6][sym::choice(6)]);
    let secs = convert_game_loop_to_seconds(at);
    let t = GameSCmdDataTargetUnit { m_target_unit_flags: sym::u16(), m_timer: sym::u8(), m_tag: sym::u32(), m_snapshot_unit_link: sym::u16(), m_snapshot_control_player_id: maybe(sym::i64), m_snapshot_upkeep_player_id: maybe(sym::i64), m_snapshot_point: point() };
    let kind = sym::choice(4);
    let e = cmd(match kind { 0 => GameSCmdData::None, 1 => GameSCmdData::TargetPoint(point()), 2 => GameSCmdData::TargetUnit(t.clone()), _ => GameSCmdData::Data(sym::u32()) });
    let points = CmdTargetPointEventFlatRow::new(&d, e.clone(), at, user, name.clone(), h.clone());
    let units = CmdTargetUnitEventFlatRow::new(&d, e.clone(), at, user, name.clone(), h.clone());
    let acting = match h { UnitChangeHint::Abilities { units, .. } => units, _ => vec![] };
    let (link, index, ability) = match &e.m_abil { Some(a) => (Some(a.m_abil_link), Some(a.m_abil_cmd_index), a.ability.clone()), None => (None, None, word("")) };
    sym::check(points.len() == if kind == 1 { acting.len() } else { 0 }, "a row per unit for commands that target a point");
    sym::check(units.len() == if kind == 2 { acting.len() } else { 0 }, "a row per unit for commands that target a unit");
    if let GameSCmdData::TargetPoint(p) = &e.m_data {
        for (u, r) in acting.iter().zip(&points) {
            same(&v![user, name, e.m_cmd_flags, link, index, ability, p.x, p.y, p.z, e.m_sequence, e.m_unit_group, u.name, at, secs, d.ext_fs_id], &leaves(r), "a command that targets a point");
            sym::cover("point");
        }
    }
    for (u, r) in acting.iter().zip(&units) {
        let p = &t.m_snapshot_point;
        let other = if u.cmd.other_unit_name.is_some() { word("z") } else { word("") };
        same(&v![user, name, e.m_cmd_flags, link, index, ability, t.m_target_unit_flags, t.m_tag, t.m_snapshot_unit_link, t.m_snapshot_control_player_id, t.m_snapshot_upkeep_player_id, p.x, p.y, p.z, e.m_sequence, u.name, other, at, secs, d.ext_fs_id], &leaves(r), "a command that targets a unit");
        sym::cover("unit");
    }
}}
entry! { h_row_users {
    let n = sym::choice(4);
    let users: Vec<UserInitialData> = (0..n).map(|k| {
        let mut u = crate::p_players::user(["a", "b", "c"][k], [None, Some("CL")][sym::choice(2)], maybe(sym::i32));
        u.random_seed = sym::u32();
        u
    }).collect();
    let mut i = InitData { ext_fs_id: sym::u64(), ext_fs_sha256: word("digest"), ext_fs_file_name: word("file"), ..Default::default() };
    i.sync_lobby_state.user_initial_data = users.clone();
    let rows: Vec<UserInitDataFlatRow> = (&i).into();
    sym::check(rows.len() == n, "a row per user");
    for (k, (u, r)) in users.iter().zip(&rows).enumerate() {
        sym::check((r.ext_fs_id == i.ext_fs_id) & (r.user_index == k as u32), "file and number");
        sym::check(r.ext_fs_sha256 == "digest" && r.ext_fs_file_name == "file" && r.name == u.name && r.clan_tag == if u.clan_tag.is_some() { "CL" } else { "" }, "texts");
        sym::check(r.scaled_rating == u.scaled_rating, "rating");
    }
    sym::cover(["none", "some", "some", "some"][n]);
}}
/// The rows of a whole replay are those of its events, in order.
fn rows<T: Lv>(want: Vec<T>, got: Vec<T>) {
    sym::check(want.len() == got.len(), "the rows of a replay are those of its events");
    for (w, g) in want.iter().zip(&got) { same(&leaves(w), &leaves(g), "the rows of a replay are those of its events") }
    sym::cover(if want.is_empty() { "no row" } else { "rows" });
}
fn tracker_rows(what: usize, kinds: &[usize]) {
    let mut e = Enc::new(0, 0, 0);
    e.ascii = true;
    let (mut t, mut at) = (vec![], 0);
    for k in kinds { tracker_record(&mut e, *k, &mut t, &mut at) }
    let mut d = sym::bytes::<30>();
    let (mut g, mut n, mut sum, mut dev) = (vec![], 0, 0, 0);
    game_record(&mut d, &mut n, &mut dev, Some(5), Some(1), parse, conv, &mut g, &mut sum);
    let make = || replay(e.b.clone(), d[..n].to_vec());
    let (all, got) = (make(), make());
    let det = all.sc2_state.details.clone();
    let items = all.into_iter().filter_map(|x| match x.event_type { SC2EventType::Tracker { tracker_loop, event } => Some((tracker_loop, event, x.change_hint)), _ => None });
    match what {
        0 => rows(items.filter_map(|(at, e, _)| if let ReplayTrackerEvent::PlayerStats(e) = e { Some(PlayerStatsFlatRow::new(e, at, det.clone())) } else { None }).collect(), got.collect_into_player_stats_flat_rows()),
        1 => rows(items.filter_map(|(at, e, _)| if let ReplayTrackerEvent::Upgrade(e) = e { Some(UpgradeEventFlatRow::new(e, at, det.clone())) } else { None }).collect(), got.collect_into_upgrades_flat_rows()),
        2 => rows(items.filter_map(|(at, e, h)| match e {
            ReplayTrackerEvent::UnitBorn(e) => UnitBornEventFlatRow::from_unit_born(e, at, &det, h),
            ReplayTrackerEvent::UnitDone(e) => UnitBornEventFlatRow::from_unit_done(e, at, &det, h),
            ReplayTrackerEvent::UnitTypeChange(e) => UnitBornEventFlatRow::from_unit_type_change(e, at, &det, h),
            _ => None,
        }).collect(), got.collect_into_unit_born_flat_rows()),
        _ => rows(items.filter_map(|(at, e, h)| if let ReplayTrackerEvent::UnitDied(e) = e { UnitDiedEventFlatRow::new(&det, e, at, h) } else { None }).collect(), got.collect_into_unit_died_flat_rows()),
    }
}
entry! { h_rows_stats { let k = sym::choice(2); tracker_rows(k, &[sym::choice(10), [0, 5][k], sym::choice(10)]) }}
entry! { h_rows_units { tracker_rows(2 + sym::choice(2), &[[1, 6][sym::choice(2)], sym::choice(10)]) }}
entry! { h_rows_units_deep { tracker_rows(2 + sym::choice(2), &[1, sym::choice(10), sym::choice(10)]) }}
fn cmd_rows(dev: u32) {
    let mut d = sym::bytes::<80>();
    let (mut g, mut n, mut sum, mut dev) = (vec![], 0, 0, dev);
    game_record(&mut d, &mut n, &mut dev, Some(27), None, parse, conv, &mut g, &mut sum);
    let make = || {
        let mut it = replay(vec![], d[..n].to_vec());
        for (k, tag) in [(0, 7u32), (1, 8)] {
            let mut u = player(["ann", "bob"][k], None);
            u.control_groups[ACTIVE_UNITS_GROUP_IDX] = vec![tag << 18];
            it.sc2_state.user_state.insert(k as i64, u);
            it.sc2_state.units.insert(tag, SC2Unit { tag_index: tag, name: word(["Drone", "Queen"][k]), ..Default::default() });
        }
        it
    };
    let (all, points, units) = (make(), make(), make());
    let det = all.sc2_state.details.clone();
    let items: Vec<_> = all.into_iter().filter_map(|x| match x.event_type { SC2EventType::Game { game_loop, user_id, player_name, event: ReplayGameEvent::Cmd(e) } => Some((game_loop, user_id, player_name, e, x.change_hint)), _ => None }).collect();
    sym::check(items.len() == 1, "the command is returned");
    let p: Vec<_> = items.iter().cloned().flat_map(|(at, u, n, e, h)| CmdTargetPointEventFlatRow::new(&det, e, at, u, n, h)).collect();
    let u: Vec<_> = items.into_iter().flat_map(|(at, u, n, e, h)| CmdTargetUnitEventFlatRow::new(&det, e, at, u, n, h)).collect();
    if !p.is_empty() { sym::cover("point") }
    if !u.is_empty() { sym::cover("unit") }
    rows(p, points.collect_into_game_cmd_target_points_flat_rows());
    rows(u, units.collect_into_game_cmd_target_units_flat_rows());
}
entry! { h_rows_cmd { cmd_rows(3) }}
