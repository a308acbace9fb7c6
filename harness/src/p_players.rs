//! Players: lobby slots, details and users joined; the state they begin with.
use crate::p_convert::hex;
use crate::p_stream::*;
use crate::p_tagged::{DETAILS, PLAYER};
use crate::sym;
use crate::tagged::*;
use crate::p_units::maybe;
use nom_mpq::harness_archive;
use s2protocol::details::*;
use s2protocol::init_data::*;
use s2protocol::state::*;

/// Replay details with these players: (letter of the name, slot).
fn details_of(players: &[(u8, Option<u8>)], utc: i64) -> Vec<u8> {
    let mut e = Enc::new(0, 0, 0);
    e.flat = true;
    e.type_tag(5);
    e.small(DETAILS.len() as u8);
    for (tag, t) in &DETAILS {
        if *tag == 5 { e.small(5); wide(&mut e.b, utc as u64); continue }
        if *tag != 0 { e.field(*tag, t); continue }
        e.small(0); e.type_tag(4); e.b.push(1); e.type_tag(0); e.small(players.len() as u8);
        for (name, slot) in players {
            e.type_tag(5);
            e.small(PLAYER.len() as u8);
            for (tag, t) in &PLAYER {
                match *tag {
                    0 => { e.small(0); e.type_tag(2); e.small(1); e.b.push(*name) }
                    9 => {
                        e.small(9); e.type_tag(4);
                        match slot { None => e.b.push(0), Some(s) => { e.b.push(1); wide(&mut e.b, *s as u64) } }
                    }
                    _ => { e.field(*tag, t); }
                }
            }
        }
    }
    e.b
}
pub fn user(name: &str, clan: Option<&str>, rating: Option<i32>) -> UserInitialData {
    UserInitialData {
        name: name.to_string(), clan_tag: clan.map(|x| x.to_string()), clan_logo: None, highest_league: None, combined_race_levels: None, random_seed: 0, race_preference: None, team_preference: None,
        test_map: false, test_auto: false, examine: false, custom_interface: false, test_type: 0, observe: 0, hero: String::new(), skin: String::new(), mount: String::new(), toon_handle: String::new(), scaled_rating: rating,
    }
}
struct Lobby { init: InitData, players: Vec<(u8, Option<u8>)>, slots: Vec<(Option<u8>, Option<i64>)> }
/// Players in lobby slots; slot numbers and user numbers are any.
fn lobby(players: usize, slots: usize) -> Lobby {
    let who: Vec<(u8, Option<u8>)> = (0..players).map(|k| (b'p' + k as u8, maybe(sym::u8))).collect();
    let slots: Vec<(Option<u8>, Option<i64>)> = (0..slots).map(|_| (maybe(sym::u8), maybe(sym::i64))).collect();
    let mut init = InitData { ext_fs_file_name: "/dev/null".to_string(), ext_fs_id: sym::u64(), version: 87702, ..Default::default() };
    init.ext_fs_sha256 = "digest".to_string();
    init.sync_lobby_state.user_initial_data = vec![user("ann", Some("CL"), None), user("bob", None, None)];
    for (k, (slot, user)) in slots.iter().enumerate() {
        init.sync_lobby_state.lobby_state.slots.push(LobbySlot { working_set_slot_id: *slot, user_id: *user, team_id: k as i64, ..Default::default() });
    }
    harness_archive(header(SIGNATURE, 87702), vec![("replay.details", details_of(&who, 0))]);
    Lobby { init, players: who, slots }
}
impl Lobby {
    /// The players that have a lobby slot: (player, slot).
    fn joined(&self) -> Vec<(usize, usize)> {
        let mut r = vec![];
        for (k, (_, want)) in self.players.iter().enumerate() {
            let Some(want) = want else { continue };
            if let Some(s) = self.slots.iter().position(|s| s.0.is_some_and(|x| x == *want)) { r.push((k, s)) }
        }
        r
    }
}
entry! { h_join {
    let l = lobby(2, 2);
    let got: Result<Vec<PlayerLobbyDetails>, _> = (&l.init).try_into();
    let Ok(got) = got else { sym::check(false, "a well formed replay has players"); return };
    let want = l.joined();
    sym::check(got.len() == want.len(), "every player with a lobby slot, nobody else");
    for ((k, s), g) in want.iter().zip(&got) {
        sym::check(g.player_details.name.as_bytes() == [l.players[*k].0], "players in the order of the details");
        sym::check(g.player_details.working_set_slot_id == l.players[*k].1, "the player's own details");
        sym::check(g.lobby_slot.team_id == *s as i64 && g.lobby_slot.user_id == l.slots[*s].1, "the player's own slot");
        let (name, clan) = match l.slots[*s].1 { Some(u) if u == 0 => ("ann", "CL"), Some(u) if u == 1 => ("bob", ""), _ => ("", "") };
        sym::check(g.user_init_data_name == name && g.user_init_data_clan_tag == clan, "name and clan of the player's user");
        sym::check(g.ext_fs_id == l.init.ext_fs_id && g.ext_fs_sha256 == "digest" && g.ext_fs_file_name == "/dev/null", "the replay's file");
        sym::check(g.cache_handles.len() == 1, "the replay's cache handles");
        sym::cover(if name == "" { "without user" } else { "user" });
    }
    sym::cover(match want.len() { 0 => "nobody", 1 => "one", _ => "both" });
}}
entry! { h_state_of_players {
    let l = lobby(2, 2);
    if let (Some(a), Some(b)) = (l.slots[0].1, l.slots[1].1) { sym::assume(a != b) }
    if let (Some(a), Some(b)) = (l.players[0].1, l.players[1].1) { sym::assume(a != b) }
    let Ok(st) = SC2ReplayState::try_from(&l.init) else { sym::check(false, "a well formed replay has a state"); return };
    let mut users = 0;
    for (k, s) in l.joined() {
        let Some(id) = l.slots[s].1 else { continue };
        users += 1;
        let Some(u) = st.user_state.get(&id) else { sym::check(false, "every user that plays has a state"); return };
        sym::check(u.player_lobby_details.player_details.name.as_bytes() == [l.players[k].0], "the user's own details");
        sym::check(u.control_groups.len() == 11 && u.control_groups.iter().all(|g| g.is_empty()), "nothing is selected or grouped");
        sym::check(u.camera_pos.x == 0 && u.camera_pos.y == 0, "the camera");
    }
    sym::check(st.user_state.len() == users, "nobody else has a state");
    sym::check(st.units.is_empty(), "no unit exists");
    sym::check(st.details.player_list.len() == 2 && st.init_data.ext_fs_id == l.init.ext_fs_id && st.details.ext_fs_id == l.init.ext_fs_id, "the state knows the replay");
    sym::cover(match users { 0 => "nobody", 1 => "one", _ => "both" });
}}
fn text_of(v: &[u8]) -> String { v.iter().map(|b| *b as char).collect() }
fn hex_of(v: &[u8]) -> String { let L::B(b) = hex(v) else { panic!() }; String::from_utf8(b).unwrap() }
entry! { h_flat_row {
    let n = sym::choice(3);
    // extension, two zeros, region, two bytes of the hash
    let h: Vec<[u8; 10]> = (0..n).map(|_| sym::bytes::<10>()).collect();
    let d = PlayerLobbyDetails {
        player_details: PlayerDetails {
            name: "n".to_string(), toon: ToonNameDetails { region: sym::u8(), program_id: sym::u32(), realm: sym::u32(), id: sym::u64() }, race: "r".to_string(),
            color: Color { a: sym::u8(), r: sym::u8(), g: sym::u8(), b: sym::u8() }, control: sym::u8(), team_id: sym::u8(), handicap: sym::u32(), observe: sym::u8(), result: "Win".to_string(),
            working_set_slot_id: maybe(sym::u8), hero: "h".to_string(),
        },
        lobby_slot: LobbySlot { user_id: maybe(sym::i64), observe: sym::u8(), ..Default::default() },
        title: "t".to_string(), game_description: GameDescription { map_size_x: sym::u8(), map_size_y: sym::u8(), is_blizzard_map: sym::bool(), ..Default::default() },
        time_utc: sym::i64(), time_local_offset: sym::i64(), cache_handles: h.iter().map(|x| hex_of(x)).collect(),
        ext_fs_sha256: "s".to_string(), ext_fs_file_name: "f".to_string(), ext_fs_id: sym::u64(), ..Default::default()
    };
    let r: PlayerLobbyDetailsFlatRow = d.clone().into();
    let p = &d.player_details;
    sym::check(r.player_name == "n" && r.player_race == "r" && r.player_result == "Win" && r.player_hero == "h" && r.title == "t" && r.ext_fs_sha256 == "s" && r.ext_fs_file_name == "f", "texts");
    sym::check((r.player_toon_region == p.toon.region) & (r.player_toon_program_id == p.toon.program_id) & (r.player_toon_realm == p.toon.realm) & (r.player_toon_id == p.toon.id), "toon");
    sym::check((r.player_color_a == p.color.a) & (r.player_color_r == p.color.r) & (r.player_color_g == p.color.g) & (r.player_color_b == p.color.b), "color");
    sym::check((r.player_control == p.control) & (r.player_team_id == p.team_id) & (r.player_observe == p.observe), "player");
    sym::check(r.player_working_set_slot_id == p.working_set_slot_id && r.lobby_slot_user_id == d.lobby_slot.user_id, "slot and user");
    sym::check((r.lobby_slot_observe == d.lobby_slot.observe) & (r.lobby_slot_map_size_x == d.game_description.map_size_x) & (r.lobby_slot_map_size_y == d.game_description.map_size_y), "lobby");
    sym::check((r.is_blizzard_map == d.game_description.is_blizzard_map) & (r.time_utc == d.time_utc) & (r.time_local_offset == d.time_local_offset) & (r.ext_fs_id == d.ext_fs_id), "replay");
    let hashes: Vec<String> = h.iter().map(|x| hex_of(&x[8..])).collect();
    sym::check(r.cache_handles == hashes.join(","), "hashes of the cache handles");
    match h.first() {
        None => sym::check(r.cache_handle_extension.is_none() && r.cache_handle_region.is_none(), "no handle"),
        Some(x) => {
            sym::check(r.cache_handle_extension == Some(text_of(&x[..4])), "the extension");
            sym::check(r.cache_handle_region == Some(text_of(&x[6..8])), "the region");
        }
    }
    sym::cover(["no handle", "one handle", "two handles"][n]);
}}
// Cache handles of any length, as in a damaged replay.
entry! { h_flat_row_short {
    let n = sym::choice(12);
    let d = PlayerLobbyDetails { cache_handles: vec![hex_of(&sym::vec(n))], ..Default::default() };
    let r: PlayerLobbyDetailsFlatRow = d.into();
    sym::check(n < 8 || r.cache_handles.len() == 2 * (n - 8), "the hash");
    sym::cover(if n < 8 { "too short" } else { "whole" });
}}
entry! { h_names {
    let o = sym::bytes::<3>();
    let d = Details { player_list: (0..3).map(|k| PlayerDetails { name: ["a", "b", "c"][k].to_string(), observe: o[k], ..Default::default() }).collect(), ..Default::default() };
    let got = d.get_player_names();
    let mut want = vec![];
    for k in 0..3 { if o[k] == 0 { want.push(["a", "b", "c"][k]) } }
    sym::check(got == want, "the names of all that are not observers, in order");
    sym::cover(["none", "some", "some", "all"][want.len()]);
}}
entry! { h_metadata {
    let id = sym::u64();
    let i = InitData { version: sym::u32(), ..Default::default() };
    let v = i.version;
    let i = i.set_metadata("a/b.SC2Replay", id, b"abc");
    sym::check((i.ext_fs_id == id) & (i.version == v), "id and version");
    sym::check(i.ext_fs_file_name == "a/b.SC2Replay" && i.ext_fs_sha256 == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "file name and digest");
    let x = sym::u32();
    sym::assume(x < 1 << 16);
    let (utc, offset) = (130_268_736_000_000_000 + x as i64, 72_000_000_000);
    let d = Details { time_utc: utc, time_local_offset: offset, title: "t".to_string(), ..Default::default() }.set_metadata(id);
    sym::check((d.ext_fs_id == id) & (d.time_utc == utc) & (d.time_local_offset == offset), "values kept");
    sym::check(Some(d.ext_datetime) == s2protocol::transform_to_naivetime(utc, offset), "the date");
    sym::cover("metadata");
}}
