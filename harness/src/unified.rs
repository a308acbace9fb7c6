//! Flattening of the version independent types, in the order and with the
//! numbers of the published protocol.
use crate::lv;
use crate::tagged::{seq, Lv, L};
use s2protocol::details::*;
use s2protocol::game_events::*;
use s2protocol::init_data::*;
use s2protocol::message_events as m;
use s2protocol::tracker_events::*;

macro_rules! li { ($($t:ty),*) => { $(impl Lv for $t { fn l(&self, o: &mut Vec<L>) { o.push(L::I(*self as i64)) } })* } }
li!(i8, i16, u16);
macro_rules! lseq { ($($t:ty),*) => { $(impl Lv for Vec<$t> { fn l(&self, o: &mut Vec<L>) { seq(self, o) } })* } }
lseq!(u16, u32, String, GameSSelectionDeltaSubgroup, PlayerDetails, UserInitialData, SlotDescription, LobbySlot, RewardOverride);
macro_rules! len { ($t:ty: $($v:ident),*) => { impl Lv for $t { fn l(&self, o: &mut Vec<L>) { let n = [$(<$t>::$v),*]; let mut k = 0; while n[k] != *self { k += 1 } o.push(L::I(k as i64)) } } } }
fn put<T: Lv>(n: i64, e: &T, o: &mut Vec<L>) { o.push(L::I(n)); e.l(o) }

// game events
impl Lv for GameSPointMini { fn l(&self, o: &mut Vec<L>) { self.x.l(o); self.y.l(o) } }
len!(ELeaveReason: UserLeft, UserDropped, UserBanned, UserVictory, UserDefeat, UserTied, UserDesynced, UserOutOfTime, WeWereUnresponsive, WeContinuedAlone, ReplayDesynced, UserTimeout, UserDisconnected, Unrecoverable, UserCatchupDesynced, TakeCommandDropped);
len!(GameEControlGroupUpdate: ESet, EAppend, ERecall, EClear, ESetAndSteal, EAppendAndSteal);
len!(GameECommandManagerState: EFireDone, EFireOnce, EFireMany);
lv!(DropUserEvent: m_drop_session_user_id, m_reason);
lv!(CameraSaveEvent: m_which, m_target);
lv!(CameraUpdateEvent: m_target, m_distance, m_pitch, m_yaw, m_reason, m_follow);
lv!(GameSCmdEvent: m_cmd_flags, m_abil, m_data, m_sequence, m_other_unit, m_unit_group);
lv!(GameSCmdAbil: m_abil_link, m_abil_cmd_index, m_abil_cmd_data);
impl Lv for GameSCmdData {
    fn l(&self, o: &mut Vec<L>) {
        match self {
            Self::None => o.push(L::I(0)),
            Self::TargetPoint(x) => put(1, x, o),
            Self::TargetUnit(x) => put(2, x, o),
            Self::Data(x) => put(3, x, o),
        }
    }
}
lv!(GameSMapCoord3D: x, y, z);
lv!(GameSCmdDataTargetUnit: m_target_unit_flags, m_timer, m_tag, m_snapshot_unit_link, m_snapshot_control_player_id, m_snapshot_upkeep_player_id, m_snapshot_point);
lv!(GameSCmdUpdateTargetPointEvent: m_target);
lv!(GameSCmdUpdateTargetUnitEvent: m_target);
lv!(GameSTriggerMouseClickedEvent: m_button, m_down, m_pos_ui, m_pos_world, m_flags);
lv!(GameSTriggerMouseMovedEvent: m_pos_ui, m_pos_world, m_flags);
lv!(GameSuiCoord: x, y);
lv!(GameSTriggerMouseWheelEvent: m_wheel_spin, m_flags);
lv!(GameSUnitClickEvent: m_unit_tag);
lv!(GameSUnitHighlightEvent: m_unit_tag, m_flags);
lv!(GameSSelectionDeltaEvent: m_control_group_id, m_delta);
lv!(GameSSelectionDelta: m_subgroup_index, m_remove_mask, m_add_subgroups, m_add_unit_tags);
lv!(GameSSelectionDeltaSubgroup: m_unit_link, m_subgroup_priority, m_intra_subgroup_priority, m_count);
impl Lv for GameSSelectionMask {
    fn l(&self, o: &mut Vec<L>) {
        match self {
            Self::None => o.push(L::I(0)),
            Self::Mask(x) => put(1, &x.value, o),
            Self::OneIndices(x) => put(2, &x.value, o),
            Self::ZeroIndices(x) => put(3, &x.value, o),
        }
    }
}
lv!(GameSSelectionSyncCheckEvent: m_control_group_id, m_selection_sync_data);
lv!(GameSSelectionSyncData: m_count, m_subgroup_count, m_active_subgroup_index, m_unit_tags_checksum, m_subgroup_indices_checksum, m_subgroups_checksum);
lv!(GameSControlGroupUpdateEvent: m_control_group_index, m_control_group_update, m_mask);
lv!(GameSTriggerChatMessageEvent: m_chat_message);
lv!(GameSTriggerReplySelectedEvent: m_conversation_id, m_reply_id);
lv!(GameSTriggerHotkeyPressedEvent: m_hotkey, m_down);
lv!(GameSTriggerTargetModeUpdateEvent: m_abil_link, m_abil_cmd_index, m_state);
lv!(GameSTriggerKeyPressedEvent: m_key, m_flags);
lv!(GameSTriggerButtonPressedEvent: m_button);
lv!(GameSCommandManagerStateEvent: m_state, m_sequence);
impl Lv for ReplayGameEvent {
    fn l(&self, o: &mut Vec<L>) {
        use ReplayGameEvent::*;
        match self {
            DropUser(e) => put(1, e, o),
            CameraSave(e) => put(14, e, o),
            Cmd(e) => put(27, e, o),
            SelectionDelta(e) => put(28, e, o),
            ControlGroupUpdate(e) => put(29, e, o),
            SelectionSyncCheck(e) => put(30, e, o),
            TriggerChatMessage(e) => put(32, e, o),
            UnitClick(e) => put(39, e, o),
            UnitHighlight(e) => put(40, e, o),
            TriggerReplySelected(e) => put(41, e, o),
            CameraUpdate(e) => put(49, e, o),
            TriggerMouseClicked(e) => put(58, e, o),
            TriggerMouseMoved(e) => put(59, e, o),
            TriggerHotkeyPressed(e) => put(61, e, o),
            TriggerTargetModeUpdate(e) => put(62, e, o),
            TriggerKeyPressed(e) => put(66, e, o),
            TriggerMouseWheel(e) => put(92, e, o),
            TriggerButtonPressed(e) => put(95, e, o),
            CommandManagerState(e) => put(103, e, o),
            CmdUpdateTargetPoint(e) => put(104, e, o),
            CmdUpdateTargetUnit(e) => put(105, e, o),
        }
    }
}
/// The numbers of the event types that have a version independent form.
pub const KEPT: [i64; 21] = [1, 14, 27, 28, 29, 30, 32, 39, 40, 41, 49, 58, 59, 61, 62, 66, 92, 95, 103, 104, 105];

// message events
len!(m::GameEMessageRecipient: EAll, EAllies, EIndividual, EBattlenet, EObservers);
lv!(m::ChatMessage: m_recipient, m_string);
impl Lv for m::ReplayMessageEvent { fn l(&self, o: &mut Vec<L>) { match self { Self::EChat(e) => put(0, e, o) } } }

// tracker events
lv!(UnitBornEvent: unit_tag_index, unit_tag_recycle, unit_type_name, control_player_id, upkeep_player_id, x, y, creator_unit_tag_index, creator_unit_tag_recycle, creator_ability_name);
lv!(UnitDiedEvent: unit_tag_index, unit_tag_recycle, killer_player_id, x, y, killer_unit_tag_index, killer_unit_tag_recycle);
lv!(UnitDoneEvent: unit_tag_index, unit_tag_recycle);
lv!(UnitInitEvent: unit_tag_index, unit_tag_recycle, unit_type_name, control_player_id, upkeep_player_id, x, y);
lv!(UnitOwnerChangeEvent: unit_tag_index, unit_tag_recycle, control_player_id, upkeep_player_id);
lv!(UnitPositionsEvent: first_unit_index, items);
lv!(UnitTypeChangeEvent: unit_tag_index, unit_tag_recycle, unit_type_name);
lv!(PlayerSetupEvent: player_id, m_type, user_id, slot_id);
lv!(UpgradeEvent: player_id, upgrade_type_name, count);
lv!(PlayerStatsEvent: player_id, stats);
lv!(PlayerStats: minerals_current, vespene_current, minerals_collection_rate, vespene_collection_rate, workers_active_count, minerals_used_in_progress_army, minerals_used_in_progress_economy, minerals_used_in_progress_technology, vespene_used_in_progress_army, vespene_used_in_progress_economy, vespene_used_in_progress_technology, minerals_used_current_army, minerals_used_current_economy, minerals_used_current_technology, vespene_used_current_army, vespene_used_current_economy, vespene_used_current_technology, minerals_lost_army, minerals_lost_economy, minerals_lost_technology, vespene_lost_army, vespene_lost_economy, vespene_lost_technology, minerals_killed_army, minerals_killed_economy, minerals_killed_technology, vespene_killed_army, vespene_killed_economy, vespene_killed_technology, food_used, food_made, minerals_used_active_forces, vespene_used_active_forces, minerals_friendly_fire_army, minerals_friendly_fire_economy, minerals_friendly_fire_technology, vespene_friendly_fire_army, vespene_friendly_fire_economy, vespene_friendly_fire_technology);
impl Lv for ReplayTrackerEvent {
    fn l(&self, o: &mut Vec<L>) {
        use ReplayTrackerEvent::*;
        match self {
            PlayerStats(e) => put(0, e, o),
            UnitBorn(e) => put(1, e, o),
            UnitDied(e) => put(2, e, o),
            UnitOwnerChange(e) => put(3, e, o),
            UnitTypeChange(e) => put(4, e, o),
            Upgrade(e) => put(5, e, o),
            UnitInit(e) => put(6, e, o),
            UnitDone(e) => put(7, e, o),
            UnitPosition(e) => put(8, e, o),
            PlayerSetup(e) => put(9, e, o),
        }
    }
}

// details
lv!(Color: a, r, g, b);
lv!(Thumbnail: file);
lv!(PlayerDetails: name, toon, race, color, control, team_id, handicap, observe, result, working_set_slot_id, hero);
// the name is not kept
impl Lv for ToonNameDetails { fn l(&self, o: &mut Vec<L>) { self.region.l(o); self.program_id.l(o); self.realm.l(o); self.id.l(o) } }
lv!(Details: player_list, title, difficulty, thumbnail, is_blizzard_map, time_utc, time_local_offset, restart_as_transition_map, disable_recover_game, description, image_file_path, campaign_index, map_file_name, cache_handles, mini_save, game_speed, default_difficulty, mod_paths);

// init data
len!(GameType: EMelee, EFreeForAll, EUseSettings, EOneOnOne, ETwoTeamPlay, EThreeTeamPlay, EFourTeamPlay);
len!(OptionFog: EDefault, EHideTerrain, EMapExplored, EAlwaysVisible);
len!(OptionObservers: ENone, EOnJoin, EOnJoinAndDefeat, ERefereesOnJoin);
len!(OptionUserDifficulty: ENone, EGlobal, EIndividual);
len!(GamePhase: EInitializing, ELobby, EClosed, ELoading, EPlaying, EGameover);
lv!(UserInitialData: name, clan_tag, clan_logo, highest_league, combined_race_levels, random_seed, race_preference, team_preference, test_map, test_auto, examine, custom_interface, test_type, observe, hero, skin, mount, toon_handle, scaled_rating);
lv!(GameOptions: lock_teams, teams_together, advanced_shared_control, random_races, battle_net, amm, competitive, practice, cooperative, no_victory_or_defeat, hero_duplicates_allowed, fog, observers, user_difficulty, client_debug_flags, build_coach_enabled);
lv!(SlotDescription: allowed_colors, allowed_races, allowed_difficulty, allowed_controls, allowed_observe_types, allowed_ai_builds);
lv!(GameDescription: random_value, game_cache_name, game_options, game_speed, game_type, max_users, max_observers, max_players, max_teams, max_colors, max_races, max_controls, map_size_x, map_size_y, map_file_sync_checksum, map_file_name, map_author_name, mod_file_sync_checksum, slot_descriptions, default_difficulty, default_ai_build, cache_handles, has_extension_mod, has_non_blizzard_extension_mod, is_blizzard_map, is_premade_ffa, is_coop_mode, is_realtime_mode);
lv!(RewardOverride: key, rewards);
lv!(LobbySlot: control, user_id, team_id, color_pref, race_pref, difficulty, ai_build, handicap, observe, logo_index, hero, skin, mount, artifacts, working_set_slot_id, rewards, toon_handle, licenses, tandem_leader_id, commander, commander_level, has_silence_penalty, tandem_id, commander_mastery_level, commander_mastery_talents, trophy_id, reward_overrides, brutal_plus_difficulty, retry_mutation_indexes, a_c_enemy_race, a_c_enemy_wave_type, selected_commander_prestige);
lv!(LobbyState: phase, max_users, max_observers, slots, random_seed, host_user_id, is_single_player, picked_map_tag, game_duration, default_difficulty, default_ai_build);
lv!(LobbySyncState: user_initial_data, game_description, lobby_state);
lv!(InitData: sync_lobby_state);
