//! The unit registry: one event applied to any state of two units and two players.
use crate::sym;
use crate::tagged::*;
use s2protocol::details::PlayerLobbyDetails;
use s2protocol::game_events::*;
use s2protocol::state::*;
use s2protocol::common::Vec3D;
use s2protocol::tracker_events::*;
use std::collections::HashMap;

fn f32s(x: &Vec3D, o: &mut Vec<L>) { for v in x.0 { o.push(L::I(v.to_bits() as i64)) } }
impl Lv for SC2UnitCmd {
    fn l(&self, o: &mut Vec<L>) {
        self.cmd_flags.l(o);
        match &self.abil { None => o.push(L::No), Some(a) => { a.abil_link.l(o); a.ability.l(o); a.abil_cmd_index.l(o); a.abil_cmd_data.l(o) } }
        match &self.data {
            SC2UnitCmdData::None => o.push(L::Len(0)),
            SC2UnitCmdData::TargetPoint(p) => { o.push(L::Len(1)); f32s(p, o) }
            SC2UnitCmdData::TargetUnit(t) => { o.push(L::Len(2)); t.target_unit_flags.l(o); t.timer.l(o); t.tag.l(o); t.snapshot_unit_link.l(o); t.snapshot_control_player_id.l(o); t.snapshot_upkeep_player_id.l(o); f32s(&t.snapshot_point, o) }
            SC2UnitCmdData::Data(d) => { o.push(L::Len(3)); d.l(o) }
        }
        self.sequence.l(o);
        self.other_unit.l(o);
        self.other_unit_name.l(o);
        self.unit_group.l(o);
    }
}
impl Lv for SC2Unit {
    fn l(&self, o: &mut Vec<L>) {
        self.tag_index.l(o);
        self.last_game_loop.l(o);
        self.user_id.l(o);
        self.player_name.l(o);
        self.name.l(o);
        f32s(&self.pos, o);
        self.init_game_loop.l(o);
        self.creator_ability_name.l(o);
        self.creator_tag_index.l(o);
        o.push(L::I(self.radius.to_bits() as i64));
        for c in self.color { c.l(o) }
        self.is_selected.l(o);
        self.is_init.l(o);
        self.cmd.l(o);
    }
}
pub fn maybe<T>(f: impl FnOnce() -> T) -> Option<T> { if sym::choice(2) == 1 { Some(f()) } else { None } }
pub fn f32_any() -> f32 { f32::from_bits(sym::u32()) }

/// Unit types: one with a known radius, one known without, one with a colour of its own, one unknown.
pub const TYPES: [&str; 4] = ["Zergling", "Marine", "Drone", "Unheard"];
pub const RADIUS: f32 = 0.375;
pub fn meta() -> Meta { Meta { name: String::new(), tooltip: String::new(), icon: None, race: None, hotkey: None, source: None, index: None, kind: None } }
pub fn balance_unit(radius: Option<f32>) -> VersionedBalanceUnit {
    VersionedBalanceUnit {
        id: String::new(), version: 0, meta: meta(), life: Life { start: 0, max: 0, regen_rate: None }, shields: None, armor: Armor { start: 0, max: 0 },
        shield_armor: ShieldArmor { start: 0, max: 0 }, requires: Default::default(), cost: None, researches: None, movement: None, score: Score { build: None, kill: None },
        misc: Misc { radius, cargo_size: None, footprint: None, sight_radius: None, supply: None, range: None, speed: None, targets: None, count: None, cargo_capacity: None },
        producer: None, attributes: Default::default(), strengths: Default::default(), weaknesses: Default::default(), weapons: Default::default(), abilities: Default::default(),
        builds: Default::default(), trains: Default::default(), upgrades: Default::default(),
    }
}
pub fn balance() -> VersionedBalanceUnits {
    let mut m = HashMap::new();
    m.insert(TYPES[0].to_string(), balance_unit(Some(RADIUS)));
    m.insert(TYPES[1].to_string(), balance_unit(None));
    m
}
pub fn radius_of(name: &str) -> f32 { if name == TYPES[0] { RADIUS } else { 0.45 } }
fn props(u: &mut SC2Unit) {
    u.radius = radius_of(&u.name) * if u.is_selected { 2.0 } else { 1.0 };
    u.color = get_unit_sized_color(&u.name, u.user_id.unwrap_or(0) as i64, &HashMap::new()).1;
}
/// A unit in any state.
pub fn any_unit(tag: u32, name: &str, selected: bool) -> SC2Unit {
    SC2Unit {
        tag_index: tag, last_game_loop: sym::i64(), user_id: Some(sym::u8()), player_name: Some("eve".to_string()), name: name.to_string(), pos: Vec3D::new(f32_any(), f32_any(), f32_any()),
        init_game_loop: sym::i64(), creator_ability_name: Some("x".to_string()), creator_tag_index: None, radius: radius_of(name) * if selected { 2.0 } else { 1.0 },
        color: sym::bytes::<4>(), is_selected: selected, is_init: sym::bool(),
        cmd: SC2UnitCmd { cmd_flags: sym::i64(), abil: Some(SC2UnitCmdAbil { abil_link: sym::u16(), ability: "y".to_string(), abil_cmd_index: sym::i64(), abil_cmd_data: None }), data: SC2UnitCmdData::Data(sym::u32()), sequence: sym::i64(), other_unit: Some(sym::u32()), other_unit_name: Some("z".to_string()), unit_group: Some(sym::u32()) },
    }
}
pub fn player(name: &str, tracker: Option<u8>) -> SC2UserState {
    let mut p = PlayerLobbyDetails::default();
    p.player_details.name = name.to_string();
    p.tracker_setup_player_id = tracker;
    SC2UserState::new(p)
}
/// Two units and two players, and the player ids the tracker events use.
struct World { st: SC2ReplayState, tag: [u32; 2], unit: [SC2Unit; 2], id: [u8; 2] }
fn world() -> World {
    let (a, b) = (sym::u32(), sym::u32());
    sym::assume(a != b);
    let unit = [any_unit(a, TYPES[0], sym::choice(2) == 1), any_unit(b, TYPES[2], false)];
    let (p, q) = (sym::u8(), sym::u8());
    sym::assume(p != q);
    let mut st = SC2ReplayState { balance_units: balance(), ..Default::default() };
    for u in &unit { st.units.insert(u.tag_index, u.clone()); }
    st.user_state.insert(2, player("ann", Some(p)));
    st.user_state.insert(4, player("bob", Some(q)));
    st.user_state.insert(5, player("cid", None));
    World { st, tag: [a, b], unit, id: [p, q] }
}
impl World {
    /// One of the units, or an unknown one.
    fn some_tag(&self) -> u32 {
        match sym::choice(3) { 2 => { let t = sym::u32(); sym::assume((t != self.tag[0]) & (t != self.tag[1])); t } k => self.tag[k] }
    }
    fn known(&self, t: u32) -> Option<usize> { if t == self.tag[0] { Some(0) } else if t == self.tag[1] { Some(1) } else { None } }
    fn owner(&self, id: u8) -> Option<String> { if id == self.id[0] { Some("ann".into()) } else if id == self.id[1] { Some("bob".into()) } else { None } }
    /// Applies the event, which must come back as it is.
    fn step(&mut self, at: i64, e: ReplayTrackerEvent) -> UnitChangeHint {
        let r = self.st.handle_transition_to_next_event(SC2EventType::Tracker { tracker_loop: at, event: e.clone() });
        match &r.event_type {
            SC2EventType::Tracker { tracker_loop, event } => { sym::check(*tracker_loop == at, "the loop of the event is kept"); same(&leaves(&e), &leaves(event), "the event is kept") }
            _ => sym::check(false, "the event is kept"),
        }
        r.change_hint
    }
    /// The registry holds these units and no others.
    fn holds(&self, want: &[&SC2Unit]) {
        sym::check(self.st.units.len() == want.len(), "no unit appears or is lost");
        for w in want {
            let Some(u) = self.st.units.get(&w.tag_index) else { sym::check(false, "the unit is registered under its tag"); return };
            same(&leaves(*w), &leaves(u), "the unit's state");
        }
    }
}
fn is(want: Option<&SC2Unit>, got: Option<&SC2Unit>) {
    match (want, got) {
        (Some(w), Some(g)) => same(&leaves(w), &leaves(g), "the reported unit"),
        (None, None) => {}
        _ => sym::check(false, "the reported unit"),
    }
}
fn name() -> String { TYPES[sym::choice(4)].to_string() }
fn fresh(tag: u32, at: i64, owner: Option<u8>, player_name: Option<String>, name: &str, pos: Vec3D) -> SC2Unit {
    let mut u = SC2Unit { tag_index: tag, last_game_loop: at, user_id: owner, player_name, name: name.to_string(), pos, init_game_loop: at, ..Default::default() };
    props(&mut u);
    u
}
entry! { h_unit_init {
    let mut w = world();
    let (t, at, n, who, x, y) = (w.some_tag(), sym::i64(), name(), sym::u8(), sym::u8(), sym::u8());
    let e = ReplayTrackerEvent::UnitInit(UnitInitEvent { unit_tag_index: t, unit_tag_recycle: sym::u32(), unit_type_name: n.clone(), control_player_id: who, upkeep_player_id: sym::u8(), x, y });
    let hint = w.step(at, e);
    let pos = Vec3D::new(x as f32, y as f32, 0.);
    let UnitChangeHint::Registered { unit, creator } = hint else { sym::check(false, "a started unit is reported as registered"); return };
    sym::check(creator.is_none(), "no creator is reported");
    let mut u = w.unit.clone();
    match w.known(t) {
        Some(k) => {
            sym::cover("known unit");
            let c = &mut u[k];
            c.last_game_loop = at;
            c.pos = pos.clone();
            c.is_init = true;
            c.name = n.clone();
            w.holds(&[&u[0], &u[1]]);
            sym::check(unit.tag_index == t && unit.is_init && unit.name == n && unit.pos == pos && unit.last_game_loop == at, "the reported unit");
        }
        None => {
            sym::cover("new unit");
            let mut c = fresh(t, at, Some(who), w.owner(who), &n, pos);
            c.is_init = true;
            w.holds(&[&u[0], &u[1], &c]);
            is(Some(&c), Some(&unit));
        }
    }
}}
entry! { h_unit_born {
    let mut w = world();
    let (t, at, n, who, x, y) = (w.some_tag(), sym::i64(), name(), sym::u8(), sym::u8(), sym::u8());
    let from = maybe(|| w.some_tag());
    let ability = maybe(|| "Train".to_string());
    let e = ReplayTrackerEvent::UnitBorn(UnitBornEvent { unit_tag_index: t, unit_tag_recycle: sym::u32(), unit_type_name: n.clone(), control_player_id: who, upkeep_player_id: sym::u8(), x, y, creator_unit_tag_index: from, creator_unit_tag_recycle: maybe(sym::u32), creator_ability_name: ability.clone() });
    let UnitChangeHint::Registered { unit, creator } = w.step(at, e) else { sym::check(false, "a born unit is reported as registered"); return };
    let mut u = w.unit.clone();
    let by = from.and_then(|f| w.known(f));
    if let Some(k) = by { u[k].last_game_loop = at }
    let parent = by.map(|k| { let mut p = w.unit[k].clone(); p.last_game_loop = at; p });
    is(parent.as_ref(), creator.as_ref());
    match w.known(t) {
        Some(k) => {
            sym::cover("known unit");
            u[k].last_game_loop = at;
            u[k].creator_ability_name = ability;
            w.holds(&[&u[0], &u[1]]);
            is(Some(&u[k]), Some(&unit));
        }
        None => {
            sym::cover("new unit");
            let mut c = fresh(t, at, Some(who), w.owner(who), &n, Vec3D::new(x as f32, y as f32, 0.));
            c.creator_ability_name = ability;
            w.holds(&[&u[0], &u[1], &c]);
            is(Some(&c), Some(&unit));
        }
    }
}}
entry! { h_unit_change {
    let mut w = world();
    let (t, at, n) = (w.some_tag(), sym::i64(), name());
    let hint = w.step(at, ReplayTrackerEvent::UnitTypeChange(UnitTypeChangeEvent { unit_tag_index: t, unit_tag_recycle: sym::u32(), unit_type_name: n.clone() }));
    let mut u = w.unit.clone();
    match w.known(t) {
        Some(k) => {
            sym::cover("known unit");
            u[k].name = n;
            u[k].last_game_loop = at;
            props(&mut u[k]);
            w.holds(&[&u[0], &u[1]]);
            let UnitChangeHint::Registered { unit, creator } = hint else { sym::check(false, "a changed unit is reported"); return };
            is(Some(&u[k]), Some(&unit));
            is(Some(&w.unit[k]), creator.as_ref());
        }
        None => {
            sym::cover("new unit");
            let c = fresh(t, at, None, None, &n, Vec3D::default());
            w.holds(&[&u[0], &u[1], &c]);
        }
    }
}}
entry! { h_unit_done {
    let mut w = world();
    let (t, at) = (w.some_tag(), sym::i64());
    let hint = w.step(at, ReplayTrackerEvent::UnitDone(UnitDoneEvent { unit_tag_index: t, unit_tag_recycle: sym::u32() }));
    let mut u = w.unit.clone();
    match w.known(t) {
        Some(k) => {
            sym::cover("known unit");
            u[k].is_init = false;
            u[k].last_game_loop = at;
            props(&mut u[k]);
            w.holds(&[&u[0], &u[1]]);
            let UnitChangeHint::Registered { unit, creator } = hint else { sym::check(false, "a finished unit is reported"); return };
            is(Some(&u[k]), Some(&unit));
            sym::check(creator.is_none(), "no creator is reported");
        }
        None => {
            sym::cover("unknown unit");
            w.holds(&[&u[0], &u[1]]);
            sym::check(matches!(hint, UnitChangeHint::None), "nothing is reported");
        }
    }
}}
entry! { h_unit_died {
    let mut w = world();
    let (t, at) = (w.some_tag(), sym::i64());
    let killer = maybe(|| w.some_tag());
    let hint = w.step(at, ReplayTrackerEvent::UnitDied(UnitDiedEvent { unit_tag_index: t, unit_tag_recycle: sym::u32(), killer_player_id: maybe(sym::u8), x: sym::u8(), y: sym::u8(), killer_unit_tag_index: killer, killer_unit_tag_recycle: maybe(sym::u32) }));
    let u = &w.unit;
    match w.known(t) {
        Some(k) => {
            sym::cover("known unit");
            w.holds(&[&u[1 - k]]);
            let UnitChangeHint::Unregistered { killer: by, killed } = hint else { sym::check(false, "a dead unit is reported"); return };
            is(Some(&u[k]), Some(&killed));
            let other = killer.and_then(|f| w.known(f)).filter(|f| *f != k);
            is(other.map(|f| &u[f]), by.as_ref());
        }
        None => {
            sym::cover("unknown unit");
            w.holds(&[&u[0], &u[1]]);
            sym::check(matches!(hint, UnitChangeHint::None), "nothing is reported");
        }
    }
}}
// Events that say nothing about units leave them alone.
entry! { h_unit_other {
    let mut w = world();
    let at = sym::i64();
    let t = w.some_tag();
    let k = sym::choice(8);
    let hint = match k {
        0 => w.step(at, ReplayTrackerEvent::PlayerSetup(PlayerSetupEvent { player_id: sym::u8(), m_type: sym::u32(), user_id: maybe(|| 4), slot_id: maybe(sym::u32) })),
        1 => { let id = sym::u8(); w.step(at, ReplayTrackerEvent::Upgrade(UpgradeEvent { player_id: id, player_name: None, upgrade_type_name: "up".into(), count: sym::i32() })) }
        2 => { let mut e = Enc::new(0, 0, 0); e.flat = true; crate::p_tagged::record(&mut e, 0); let (_, ev) = crate::p_stream::tracker_event(&e.b); w.step(at, ev) }
        _ => {
            let e = match k {
                3 => ReplayGameEvent::UnitClick(GameSUnitClickEvent { m_unit_tag: t }),
                4 => ReplayGameEvent::UnitHighlight(GameSUnitHighlightEvent { m_unit_tag: t, m_flags: sym::u8() }),
                5 => ReplayGameEvent::CameraSave(CameraSaveEvent { m_which: sym::i64(), m_target: GameSPointMini { x: sym::i64(), y: sym::i64() } }),
                6 => ReplayGameEvent::CameraUpdate(CameraUpdateEvent { m_target: maybe(|| GameSPointMini { x: sym::i64(), y: sym::i64() }), m_distance: None, m_pitch: None, m_yaw: None, m_reason: None, m_follow: false }),
                _ => ReplayGameEvent::TriggerButtonPressed(GameSTriggerButtonPressedEvent { m_button: sym::u16() }),
            };
            game_step(&mut w.st, at, 4, e)
        }
    };
    w.holds(&[&w.unit[0], &w.unit[1]]);
    sym::check(matches!(hint, UnitChangeHint::None), "nothing is reported");
    sym::cover("other event");
}}
/// Applies a game event, which must come back as it is (but for the ability's name).
pub fn game_step(st: &mut SC2ReplayState, at: i64, user: i64, e: ReplayGameEvent) -> UnitChangeHint {
    let r = st.handle_transition_to_next_event(SC2EventType::Game { game_loop: at, user_id: user, player_name: Some("ann".into()), event: e.clone() });
    match &r.event_type {
        SC2EventType::Game { game_loop, user_id, player_name, event } => {
            sym::check(*game_loop == at && *user_id == user && player_name.as_deref() == Some("ann"), "loop, user and player of the event are kept");
            same(&leaves(&e), &leaves(event), "the event is kept")
        }
        _ => sym::check(false, "the event is kept"),
    }
    r.change_hint
}
