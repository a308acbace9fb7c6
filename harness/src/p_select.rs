//! Selection, control groups, commands and positions: one event applied to any
//! state of a few units that satisfies the invariant (a unit is marked as
//! selected iff it is in the selection of its player).
use crate::p_units::*;
use crate::sym;
use crate::tagged::*;
use s2protocol::common::Vec3D;
use s2protocol::game_events::*;
use s2protocol::state::*;
use s2protocol::tracker_events::*;

const ME: i64 = 3;
const OTHER: i64 = 7;
/// A tag a game event may use for the unit with this index.
fn tag(index: u32) -> u32 { let r = sym::u32(); sym::assume(r < 1 << 18); index << 18 | r }
/// Up to three of four units: three registered, one unknown. All members concrete picks.
struct World { st: SC2ReplayState, tags: [u32; 4], unit: Vec<SC2Unit> }
fn world() -> World {
    let ix: [u32; 4] = core::array::from_fn(|_| { let i = sym::u32(); sym::assume(i < 1 << 14); i });
    for a in 0..4 { for b in 0..a { sym::assume(ix[a] != ix[b]) } }
    let unit: Vec<SC2Unit> = (0..3).map(|k| any_unit(ix[k], TYPES[[0, 2, 0][k]], false)).collect();
    let mut st = SC2ReplayState { balance_units: balance(), ..Default::default() };
    for u in &unit { st.units.insert(u.tag_index, u.clone()); }
    st.user_state.insert(ME, player("ann", None));
    st.user_state.insert(OTHER, player("bob", None));
    World { st, tags: core::array::from_fn(|k| tag(ix[k])), unit }
}
fn members(bits: usize) -> Vec<usize> { (0..4).filter(|k| bits >> k & 1 == 1).collect() }
impl World {
    fn list(&self, m: &[usize]) -> Vec<u32> { m.iter().map(|k| self.tags[*k]).collect() }
    fn group(&mut self, user: i64, g: usize, m: &[usize]) { let v = self.list(m); self.st.user_state.get_mut(&user).unwrap().control_groups[g] = v }
    /// Makes this the selection.
    fn select(&mut self, m: &[usize]) {
        self.group(ME, ACTIVE_UNITS_GROUP_IDX, m);
        for k in m.iter().filter(|k| **k < 3) {
            self.unit[*k].is_selected = true;
            self.unit[*k].radius *= 2.0;
            self.st.units.insert(self.unit[*k].tag_index, self.unit[*k].clone());
        }
    }
    /// The group holds exactly these, in any order.
    fn has(&self, user: i64, g: usize, m: &[usize], what: &'static str) {
        let got = &self.st.user_state.get(&user).unwrap().control_groups[g];
        sym::check(got.len() == m.len(), what);
        for t in self.list(m) {
            let mut hits = false;
            for x in got { hits |= *x == t }
            sym::check(hits, what);
        }
    }
    /// The registered units are these; their last loop may be the event's.
    fn units(&self, want: &[SC2Unit], at: i64, touched: &[usize]) {
        sym::check(self.st.units.len() == want.len(), "no unit appears or is lost");
        for (k, w) in want.iter().enumerate() {
            let Some(u) = self.st.units.get(&w.tag_index) else { sym::check(false, "no unit is lost"); return };
            let mut w = w.clone();
            if touched.contains(&k) { sym::check((u.last_game_loop == at) | (u.last_game_loop == w.last_game_loop), "the unit's last loop"); w.last_game_loop = u.last_game_loop }
            same(&leaves(&w), &leaves(u), "the unit's state");
        }
    }
    /// Reports exactly these units, each once, as they are now.
    fn reported(&self, got: &[SC2Unit], m: &[usize]) {
        sym::check(got.len() == m.len(), "every unit concerned is reported once");
        for k in m {
            let now = self.st.units.get(&self.unit[*k].tag_index).unwrap();
            let Some(g) = got.iter().find(|g| g.tag_index == now.tag_index) else { sym::check(false, "every unit concerned is reported once"); return };
            same(&leaves(now), &leaves(g), "the reported unit");
        }
    }
    fn selected(&self, m: &[usize]) -> Vec<SC2Unit> {
        let mut u = self.unit.clone();
        for k in 0..3 { u[k].is_selected = m.contains(&k); u[k].radius = radius_of(&u[k].name) * if u[k].is_selected { 2.0 } else { 1.0 } }
        u
    }
}
fn known(m: &[usize]) -> Vec<usize> { m.iter().copied().filter(|k| *k < 3).collect() }
fn union(a: &[usize], b: &[usize]) -> Vec<usize> { (0..4).filter(|k| a.contains(k) || b.contains(k)).collect() }
fn minus(a: &[usize], b: &[usize]) -> Vec<usize> { a.iter().copied().filter(|k| !b.contains(k)).collect() }
/// One of the sixteen subsets of the four units.
fn subset() -> Vec<usize> { members(sym::choice(16)) }

fn group_update(g: usize, sel: Vec<usize>, own: Vec<usize>, rest: Vec<usize>) {
    let mut w = world();
    w.select(&sel);
    for k in 0..10 { w.group(ME, k, if k == g { &own } else { &rest }); w.group(OTHER, k, &rest) }
    let at = sym::i64();
    let op = sym::choice(6);
    let m_control_group_update = match op { 0 => GameEControlGroupUpdate::ESet, 1 => GameEControlGroupUpdate::EAppend, 2 => GameEControlGroupUpdate::ERecall, 3 => GameEControlGroupUpdate::EClear, 4 => GameEControlGroupUpdate::ESetAndSteal, _ => GameEControlGroupUpdate::EAppendAndSteal };
    let hint = game_step(&mut w.st, at, ME, ReplayGameEvent::ControlGroupUpdate(GameSControlGroupUpdateEvent { m_control_group_index: g as u8, m_control_group_update, m_mask: GameSSelectionMask::None }));
    let (own2, rest2, sel2) = match op {
        0 => (sel.clone(), rest.clone(), sel.clone()),
        1 => (union(&own, &sel), rest.clone(), sel.clone()),
        2 => (own.clone(), rest.clone(), own.clone()),
        3 => (vec![], rest.clone(), sel.clone()),
        4 => (sel.clone(), minus(&rest, &sel), sel.clone()),
        _ => (union(&own, &sel), minus(&rest, &sel), sel.clone()),
    };
    for k in 0..10 {
        if k == g { w.has(ME, k, &own2, "the control group") } else { w.has(ME, k, &rest2, "the other control groups") }
        w.has(OTHER, k, &rest, "the groups of other players");
    }
    w.has(ME, ACTIVE_UNITS_GROUP_IDX, &sel2, "the selection");
    w.units(&w.selected(&known(&sel2)), at, &known(&union(&sel, &sel2)));
    let UnitChangeHint::Selection(units) = hint else { sym::check(false, "the selection is reported"); return };
    w.reported(&units, &if op == 2 { known(&union(&sel, &own)) } else { vec![] });
    sym::cover("group update");
    if op == 2 { sym::cover("recall") }
}
entry! { h_groups { group_update(sym::choice(10), vec![0, 1, 3], vec![1, 2], vec![0, 2, 3]) }}
entry! { h_groups_sets { group_update(5, subset(), subset(), vec![0, 2, 3]) }}
entry! { h_groups_deep { group_update([0, 9][sym::choice(2)], subset(), subset(), subset()) }}
entry! { h_selection {
    let mut w = world();
    let (sel, new, rest) = (subset(), subset(), vec![0, 2, 3]);
    w.select(&sel);
    for k in 0..10 { w.group(ME, k, &rest); w.group(OTHER, k, &rest) }
    let (g, at) = (sym::choice(16), sym::i64());
    if g != 10 && g != 11 && g != 0 && g != 9 { sym::assume(sel.len() == 2 && new.len() == 2) }
    let tags = w.list(&new);
    let hint = game_step(&mut w.st, at, ME, ReplayGameEvent::SelectionDelta(GameSSelectionDeltaEvent { m_control_group_id: g as u8, m_delta: GameSSelectionDelta { m_subgroup_index: sym::u16(), m_remove_mask: GameSSelectionMask::None, m_add_subgroups: vec![], m_add_unit_tags: tags } }));
    for k in 0..10 {
        w.has(ME, k, if k == g { &new } else { &rest }, "the control groups");
        w.has(OTHER, k, &rest, "the groups of other players");
    }
    let UnitChangeHint::Selection(units) = hint else { sym::check(false, "the selection is reported"); return };
    if g == 10 {
        w.has(ME, 10, &new, "the selection");
        w.units(&w.selected(&known(&new)), at, &known(&union(&sel, &new)));
        w.reported(&units, &known(&union(&sel, &new)));
        sym::cover("selection");
    } else {
        w.has(ME, 10, &sel, "the selection");
        w.units(&w.unit, at, &[]);
        w.reported(&units, &[]);
        sym::cover("group");
    }
}}
// A unit leaves all groups when it dies, and keeps its mark and radius when it changes.
entry! { h_groups_death {
    let mut w = world();
    let (sel, rest) = (subset(), subset());
    w.select(&sel);
    for k in 0..10 { w.group(ME, k, &rest); w.group(OTHER, k, &rest) }
    let dead = sym::choice(4);
    let t = w.tags[dead];
    w.st.handle_transition_to_next_event(SC2EventType::Tracker { tracker_loop: sym::i64(), event: ReplayTrackerEvent::UnitDied(UnitDiedEvent { unit_tag_index: t >> 18, unit_tag_recycle: t & 0x3ffff, killer_player_id: None, x: 0, y: 0, killer_unit_tag_index: None, killer_unit_tag_recycle: None }) });
    for k in 0..10 {
        w.has(ME, k, &minus(&rest, &[dead]), "a dead unit is in no control group");
        w.has(OTHER, k, &minus(&rest, &[dead]), "a dead unit is in no control group");
    }
    w.has(ME, 10, &minus(&sel, &[dead]), "a dead unit is not selected");
    let left: Vec<SC2Unit> = (0..3).filter(|k| *k != dead).map(|k| w.unit[k].clone()).collect();
    w.units(&left, 0, &[]);
    sym::cover("death");
}}

fn point() -> GameSMapCoord3D { GameSMapCoord3D { x: sym::i64(), y: sym::i64(), z: sym::i32() } }
fn place(p: &GameSMapCoord3D) -> Vec3D { Vec3D::new(p.x as f32 / 4096.0, -(p.y as f32) / 4096.0, p.z as f32 / 4096.0) }
fn target(w: &World) -> (usize, GameSCmdDataTargetUnit) {
    let k = 2 + sym::choice(2);
    (k, GameSCmdDataTargetUnit { m_target_unit_flags: sym::u16(), m_timer: sym::u8(), m_tag: w.tags[k], m_snapshot_unit_link: sym::u16(), m_snapshot_control_player_id: maybe(sym::i64), m_snapshot_upkeep_player_id: maybe(sym::i64), m_snapshot_point: point() })
}
fn targeted(t: &GameSCmdDataTargetUnit) -> SC2UnitCmdData {
    SC2UnitCmdData::TargetUnit(SC2UnitCmdDataTargetUnit { target_unit_flags: t.m_target_unit_flags, timer: t.m_timer, tag: t.m_tag, snapshot_unit_link: t.m_snapshot_unit_link, snapshot_control_player_id: t.m_snapshot_control_player_id, snapshot_upkeep_player_id: t.m_snapshot_upkeep_player_id, snapshot_point: place(&t.m_snapshot_point) })
}
/// Some of two known units and an unknown one are selected.
fn armed() -> (World, Vec<usize>, i64) {
    let mut w = world();
    let sel = members([0, 1, 2, 3, 8, 9, 11][sym::choice(7)]);
    w.select(&sel);
    w.group(OTHER, ACTIVE_UNITS_GROUP_IDX, &[2]);
    for k in 0..10 { w.group(ME, k, &[0, 1, 2]) }
    (w, known(&sel), sym::i64())
}
const LINK: u16 = 7;
entry! { h_cmd {
    sym::fmt_real();
    let (mut w, sel, at) = armed();
    // Zergling (units 0 and 2) trains a Queen by (LINK, 1)
    let mut z = balance_unit(Some(RADIUS));
    z.trains.inner.push(unit_ref("Queen", LINK, 1));
    w.st.balance_units.insert(TYPES[0].to_string(), z);
    let abil = maybe(|| GameSCmdAbil { m_abil_link: if sym::choice(2) == 1 { LINK } else { let l = sym::u16(); sym::assume(l != LINK); l }, ability: String::new(), m_abil_cmd_index: 1, m_abil_cmd_data: maybe(sym::u8) });
    let mut aim = None;
    let (m_data, data) = match sym::choice(4) {
        0 => (GameSCmdData::None, SC2UnitCmdData::None),
        1 => { let p = point(); let v = place(&p); (GameSCmdData::TargetPoint(p), SC2UnitCmdData::TargetPoint(v)) }
        2 => { let (k, t) = target(&w); let v = targeted(&t); aim = Some(k); (GameSCmdData::TargetUnit(t), v) }
        _ => { let d = sym::u32(); (GameSCmdData::Data(d), SC2UnitCmdData::Data(d)) }
    };
    let e = GameSCmdEvent { m_cmd_flags: sym::i64(), m_abil: abil.clone(), m_data, m_sequence: sym::i64(), m_other_unit: maybe(sym::u32), m_unit_group: maybe(sym::u32) };
    let hint = game_step(&mut w.st, at, ME, ReplayGameEvent::Cmd(e.clone()));
    let aim = aim.filter(|k| *k < 3);
    let mut want = w.unit.clone();
    let acting = if abil.is_some() { sel } else { vec![] };
    for k in &acting {
        let u = &mut want[*k];
        u.last_game_loop = at;
        let a = abil.clone().unwrap();
        let name = if *k == 0 && a.m_abil_link == LINK { sym::cover("named ability"); "Train.Queen" } else { "" };
        u.cmd = SC2UnitCmd { cmd_flags: e.m_cmd_flags, abil: Some(SC2UnitCmdAbil { abil_link: a.m_abil_link, ability: name.into(), abil_cmd_index: 1, abil_cmd_data: a.m_abil_cmd_data }), data: data.clone(), sequence: e.m_sequence, other_unit: e.m_other_unit, other_unit_name: aim.map(|k| w.unit[k].name.clone()), unit_group: e.m_unit_group };
    }
    w.units(&want, at, &[]);
    let UnitChangeHint::Abilities { units, event, target } = hint else { sym::check(false, "the command is reported"); return };
    w.reported(&units, &acting);
    same(&leaves(&e), &leaves(&event), "the reported command");
    match (aim, target) {
        (Some(k), Some(t)) => { same(&leaves(&w.unit[k]), &leaves(&t), "the reported target"); sym::cover("target") }
        (None, None) => {}
        _ => sym::check(false, "the reported target"),
    }
    sym::cover("command");
}}
fn unit_ref(id: &str, link: u16, index: i64) -> UnitRef { UnitRef { id: id.to_string(), name: None, ability_id: Some(link), command_index: Some(index), meta: None, cost: None, requires: Default::default() } }
entry! { h_target_point {
    let (mut w, sel, at) = armed();
    let p = point();
    let hint = game_step(&mut w.st, at, ME, ReplayGameEvent::CmdUpdateTargetPoint(GameSCmdUpdateTargetPointEvent { m_target: p.clone() }));
    let mut want = w.unit.clone();
    for k in &sel { let u = &mut want[*k]; u.last_game_loop = at; u.cmd.data = SC2UnitCmdData::TargetPoint(place(&p)); u.cmd.other_unit = None }
    w.units(&want, at, &[]);
    let UnitChangeHint::TargetPoints(units) = hint else { sym::check(false, "the units are reported"); return };
    w.reported(&units, &sel);
    sym::cover("target point");
}}
entry! { h_target_unit {
    let (mut w, sel, at) = armed();
    let (k, t) = target(&w);
    let hint = game_step(&mut w.st, at, ME, ReplayGameEvent::CmdUpdateTargetUnit(GameSCmdUpdateTargetUnitEvent { m_target: t.clone() }));
    if k == 3 {
        w.units(&w.unit, at, &[]);
        sym::check(matches!(hint, UnitChangeHint::None), "an unknown target changes nothing");
        sym::cover("unknown target");
        return;
    }
    let mut want = w.unit.clone();
    for k in &sel { let u = &mut want[*k]; u.last_game_loop = at; u.cmd.data = targeted(&t) }
    w.units(&want, at, &[]);
    let UnitChangeHint::TargetUnits { units, target } = hint else { sym::check(false, "the units are reported"); return };
    w.reported(&units, &sel);
    same(&leaves(&w.unit[k]), &leaves(&*target), "the reported target");
    sym::cover("target unit");
}}

/// Positions of at most n units.
fn positions(n: usize) {
    let mut w = world();
    let at = sym::i64();
    let n = sym::choice(n as u8 + 1);
    let cut = sym::choice(3);
    let first = sym::u32();
    let items: Vec<i32> = (0..3 * n + cut).map(|_| sym::i32()).collect();
    let (mut index, mut inside) = (first as i64, first < 1 << 20);
    let mut want: Vec<(i64, i32, i32)> = vec![];
    for p in items.chunks_exact(3) {
        inside &= (p[0] > -(1 << 20)) & (p[0] < 1 << 20);
        index += p[0] as i64;
        inside &= index >= 0;
        want.push((index, p[1], p[2]));
    }
    sym::assume(inside);
    let hint = {
        let e = ReplayTrackerEvent::UnitPosition(UnitPositionsEvent { first_unit_index: first, items });
        let r = w.st.handle_transition_to_next_event(SC2EventType::Tracker { tracker_loop: at, event: e.clone() });
        match &r.event_type { SC2EventType::Tracker { tracker_loop, event } => { sym::check(*tracker_loop == at, "the loop of the event is kept"); same(&leaves(&e), &leaves(event), "the event is kept") } _ => sym::check(false, "the event is kept") }
        r.change_hint
    };
    let mut u = w.unit.clone();
    let mut moved = vec![];
    for (ix, x, y) in want {
        let Some(k) = (0..3).find(|k| u[*k].tag_index as i64 == ix) else { continue };
        u[k].pos = Vec3D::new(place4(x), place4(y), 0.);
        u[k].last_game_loop = at;
        moved.push(k);
        sym::cover("moved");
    }
    w.units(&u, at, &[]);
    let UnitChangeHint::Positions(got) = hint else { sym::check(false, "the moved units are reported"); return };
    sym::check(got.len() == moved.len(), "the moved units are reported");
    for (k, g) in moved.iter().zip(&got) { same(&leaves(&u[*k]), &leaves(g), "the reported unit") }
    sym::cover("positions");
}
/// A map position: the item itself (in 1/4 of a unit four times as large).
fn place4(v: i32) -> f32 { let inside = (v > -(1 << 20)) & (v < 1 << 20); sym::assume(inside); v as f32 }
entry! { h_positions { positions(2) }}
entry! { h_positions_deep { positions(3) }}
entry! { h_positions_list {
    let n = sym::choice(4);
    let cut = sym::choice(3);
    let (first, items) = (sym::u32(), (0..3 * n + cut).map(|_| sym::i32()).collect::<Vec<_>>());
    let got = UnitPositionsEvent { first_unit_index: first, items: items.clone() }.to_unit_positions_vec();
    sym::check(got.len() == n, "one position per three numbers");
    let (mut index, mut inside) = (first as i64, first < 1 << 20);
    for (p, g) in items.chunks_exact(3).zip(&got) {
        index += p[0] as i64;
        let ok = |v: i64| (v > -(1 << 28)) & (v < 1 << 28);
        inside &= ok(index) & ok(p[1] as i64) & ok(p[2] as i64);
        sym::check(!inside | ((g.tag == index as u32) & (g.x as i64 == 4 * p[1] as i64) & (g.y as i64 == 4 * p[2] as i64)), "the unit and its position");
    }
    sym::cover("list");
}}

entry! { h_tag {
    let (i, r) = (sym::u32(), sym::u32());
    sym::assume((i < 1 << 14) & (r < 1 << 18));
    let t = unit_tag(i, r);
    sym::check(unit_tag_index(t) == i, "the index comes back");
    sym::check(unit_tag_recycle(t) == r, "the recycle count comes back");
    sym::check((t >= 0) & (t <= u32::MAX as i64), "a tag has 32 bits");
    let u = sym::u32();
    sym::check(unit_tag(unit_tag_index(u as i64), unit_tag_recycle(u as i64)) == u as i64, "every tag is made of its index and its recycle count");
    sym::cover("tag");
}}

entry! { h_player_setup {
    let mut st = SC2ReplayState::default();
    let (p, q) = (maybe(sym::u8), maybe(sym::u8));
    for (id, name, t) in [(2, "ann", p), (4, "bob", q)] { let mut u = player(name, t); u.player_lobby_details.tracker_setup_slot_id = Some(77); st.user_state.insert(id, u); }
    let (id, slot) = (sym::u8(), maybe(sym::u32));
    let user = maybe(|| [2, 4, 9][sym::choice(3)]);
    let e = ReplayTrackerEvent::PlayerSetup(PlayerSetupEvent { player_id: id, m_type: sym::u32(), user_id: user, slot_id: slot });
    let r = st.handle_transition_to_next_event(SC2EventType::Tracker { tracker_loop: 1, event: e.clone() });
    let SC2EventType::Tracker { event, .. } = &r.event_type else { sym::check(false, "the event is kept"); return };
    same(&leaves(&e), &leaves(event), "the event is kept");
    for (u, old) in [(2, p), (4, q)] {
        let now = &st.user_state[&u].player_lobby_details;
        let (w, s) = if user == Some(u as u32) { sym::cover("set up"); (Some(id), slot) } else { (old, Some(77)) };
        same(&leaves(&w), &leaves(&now.tracker_setup_player_id), "the player id the tracker events use");
        same(&leaves(&s), &leaves(&now.tracker_setup_slot_id), "the slot of the player");
        same(&leaves(&if u == 2 { "ann".to_string() } else { "bob".to_string() }), &leaves(&now.player_details.name), "the player's name");
    }
    sym::check(st.user_state.len() == 2, "no player appears or is lost");
    // later events are attributed by it
    let asked = sym::u8();
    let (pa, pb) = (st.user_state[&2].player_lobby_details.tracker_setup_player_id, st.user_state[&4].player_lobby_details.tracker_setup_player_id);
    if let (Some(a), Some(b)) = (pa, pb) { sym::assume(a != b) }
    let r = st.handle_transition_to_next_event(SC2EventType::Tracker { tracker_loop: 2, event: ReplayTrackerEvent::Upgrade(UpgradeEvent { player_id: asked, player_name: maybe(|| "old".to_string()), upgrade_type_name: "up".into(), count: 1 }) });
    let SC2EventType::Tracker { event: ReplayTrackerEvent::Upgrade(up), .. } = r.event_type else { sym::check(false, "the event is kept"); return };
    let want = if pa == Some(asked) { sym::cover("named"); Some("ann") } else if pb == Some(asked) { Some("bob") } else { sym::cover("nobody"); None };
    sym::check(up.player_name.as_deref() == want, "the upgrade's player");
}}
entry! { h_camera {
    let mut st = SC2ReplayState::default();
    for (id, name) in [(2, "ann"), (4, "bob")] { let mut u = player(name, None); u.camera_pos = GameSPointMini { x: sym::i64(), y: sym::i64() }; st.user_state.insert(id, u); }
    let old: Vec<GameSPointMini> = [2, 4].iter().map(|u| st.user_state[u].camera_pos.clone()).collect();
    let who = [2, 4, 9][sym::choice(3)];
    let to = GameSPointMini { x: sym::i64(), y: sym::i64() };
    let (e, target) = if sym::choice(2) == 0 { (ReplayGameEvent::CameraSave(CameraSaveEvent { m_which: sym::i64(), m_target: to.clone() }), Some(to)) }
        else { let t = maybe(|| to.clone()); (ReplayGameEvent::CameraUpdate(CameraUpdateEvent { m_target: t.clone(), m_distance: maybe(sym::i64), m_pitch: maybe(sym::i64), m_yaw: maybe(sym::i64), m_reason: None, m_follow: sym::bool() }), t) };
    let hint = game_step(&mut st, sym::i64(), who, e);
    for (k, u) in [2, 4].iter().enumerate() {
        let want = if *u == who && target.is_some() { sym::cover("camera"); target.clone().unwrap() } else { old[k].clone() };
        same(&leaves(&want), &leaves(&st.user_state[u].camera_pos), "the camera of each player");
    }
    sym::check(matches!(hint, UnitChangeHint::None), "no unit is reported");
}}
entry! { h_ability_name {
    use s2protocol::game_events::ability::balance_data::*;
    sym::fmt_real();
    let (link, index) = (sym::u16(), sym::i64());
    let l: [u16; 5] = core::array::from_fn(|_| sym::u16());
    let i: [i64; 6] = core::array::from_fn(|_| sym::i64());
    let ability = |id: &str, index, commands| Ability { id: id.to_string(), index, commands };
    let command = |id: Option<&str>, index| Command { id: id.map(|x| x.to_string()), index, meta: meta() };
    let mut b = balance_unit(None);
    b.abilities.inner = vec![
        ability("none", None, vec![command(Some("never"), index)]),
        ability("first", Some(l[0]), vec![command(Some("one"), i[0]), command(None, i[1])]),
        ability("second", Some(l[1]), vec![command(Some("two"), i[2])]),
    ];
    b.trains.inner = vec![UnitRef { ability_id: None, ..unit_ref("no", link, index) }, UnitRef { command_index: None, ..unit_ref("no", link, index) }, unit_ref("Marine", l[2], i[3])];
    b.builds.inner = vec![unit_ref("Barracks", l[3], i[4])];
    b.researches = Some(ResearchesTag { inner: vec![ResearchUpgrade { id: "Stim".to_string(), ability: l[4], index: i[5], meta: meta(), cost: Cost { minerals: None, vespene: None, supply: None, time: None, energy: None, cooldown: None, life: None } }] });
    let mut units = VersionedBalanceUnits::new();
    units.insert("Spam".to_string(), b);
    units.insert("Eggs".to_string(), balance_unit(None));
    let unknown = sym::choice(3);
    let got = get_indexed_ability_command_name(&units, ["Spam", "Eggs", "Ham"][unknown], link, index);
    let want = if unknown > 0 { "" }
        else if link == l[0] && index == i[0] { "first.one" }
        else if link == l[0] && index == i[1] { "first." }
        else if link == l[1] && index == i[2] { "second.two" }
        else if link == l[2] && index == i[3] { "Train.Marine" }
        else if link == l[3] && index == i[4] { "Build.Barracks" }
        else if link == l[4] && index == i[5] { "Research.Stim" }
        else { "" };
    sym::cover(match want { "" => "none", "Train.Marine" => "train", "Build.Barracks" => "build", "Research.Stim" => "research", _ => "ability" });
    sym::check(got == want, "the name of the command");
}}
