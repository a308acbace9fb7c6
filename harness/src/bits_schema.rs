// The bit packed wire format, type by type: `p` walks it without looking at the decoded value,
// `v` compares a decoded value with the bits. Transcribed once; it does not follow the code.
#![allow(unused_variables, unused_must_use, unused_parens)]
use super::{C, W};
use s2protocol::versions::protocol87702::bit_packed as b87;
use s2protocol::versions::protocol75689::bit_packed as b75;

impl W for b87::CFilePath {
    fn p(c: &mut C) -> bool { c.string(11) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 11, "CFilePath"); }
}
impl W for b87::TRaceId {
    fn p(c: &mut C) -> bool { c.skip(8) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 8, "TRaceId"); }
}
impl W for b87::TRaceCount {
    fn p(c: &mut C) -> bool { c.skip(8) }
    fn v(&self, c: &mut C) { c.vi(self.value, 1, 8, "TRaceCount"); }
}
impl W for b87::TRacePreference {
    fn p(c: &mut C) -> bool { c.opt::<b87::TRaceId>() }
    fn v(&self, c: &mut C) { c.vopt(&self.m_race); }
}
impl W for b87::CAllowedRaces {
    fn p(c: &mut C) -> bool { c.mask64(8) }
    fn v(&self, c: &mut C) { c.vmask64(self.value, 8, "CAllowedRaces"); }
}
impl W for b87::Int8 {
    fn p(c: &mut C) -> bool { c.skip(8) }
    fn v(&self, c: &mut C) { c.vi(self.value, -128, 8, "Int8"); }
}
impl W for b87::Int16 {
    fn p(c: &mut C) -> bool { c.skip(16) }
    fn v(&self, c: &mut C) { c.vi(self.value, -32768, 16, "Int16"); }
}
impl W for b87::Int32 {
    fn p(c: &mut C) -> bool { c.skip(32) }
    fn v(&self, c: &mut C) { c.vi(self.value, -2147483648, 32, "Int32"); }
}
impl W for b87::Uint8 {
    fn p(c: &mut C) -> bool { c.skip(8) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 8, "Uint8"); }
}
impl W for b87::Uint16 {
    fn p(c: &mut C) -> bool { c.skip(16) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 16, "Uint16"); }
}
impl W for b87::Uint32 {
    fn p(c: &mut C) -> bool { c.skip(32) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 32, "Uint32"); }
}
impl W for b87::Uint6 {
    fn p(c: &mut C) -> bool { c.skip(6) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 6, "Uint6"); }
}
impl W for b87::Uint14 {
    fn p(c: &mut C) -> bool { c.skip(14) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 14, "Uint14"); }
}
impl W for b87::Uint22 {
    fn p(c: &mut C) -> bool { c.skip(22) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 22, "Uint22"); }
}
impl W for b87::SVarUint32 {
    fn p(c: &mut C) -> bool { match c.tag(2, &[0,1,2,3]) { Some(t) => match t { 0 => <b87::Uint6 as W>::p(c), 1 => <b87::Uint14 as W>::p(c), 2 => <b87::Uint22 as W>::p(c), 3 => <b87::Uint32 as W>::p(c), _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::MUint6(x) => { c.vtag(0, 2, "SVarUint32"); (*x).v(c) } Self::MUint14(x) => { c.vtag(1, 2, "SVarUint32"); (*x).v(c) } Self::MUint22(x) => { c.vtag(2, 2, "SVarUint32"); (*x).v(c) } Self::MUint32(x) => { c.vtag(3, 2, "SVarUint32"); (*x).v(c) } } }
}
impl W for b87::TUserId {
    fn p(c: &mut C) -> bool { c.skip(4) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 4, "TUserId"); }
}
impl W for b87::TUserCount {
    fn p(c: &mut C) -> bool { c.skip(5) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 5, "TUserCount"); }
}
impl W for b87::CCacheHandle {
    fn p(c: &mut C) -> bool { c.blob(320) }
    fn v(&self, c: &mut C) { c.vblob(&self.value, 320, "CCacheHandle"); }
}
impl W for b87::CUserName {
    fn p(c: &mut C) -> bool { c.string(8) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 8, "CUserName"); }
}
impl W for b87::CClanTag {
    fn p(c: &mut C) -> bool { c.string(8) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 8, "CClanTag"); }
}
impl W for b87::CHeroHandle {
    fn p(c: &mut C) -> bool { c.string(9) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 9, "CHeroHandle"); }
}
impl W for b87::CSkinHandle {
    fn p(c: &mut C) -> bool { c.string(9) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 9, "CSkinHandle"); }
}
impl W for b87::CMountHandle {
    fn p(c: &mut C) -> bool { c.string(9) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 9, "CMountHandle"); }
}
impl W for b87::CArtifactHandle {
    fn p(c: &mut C) -> bool { c.string(9) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 9, "CArtifactHandle"); }
}
impl W for b87::CToonHandle {
    fn p(c: &mut C) -> bool { c.string(7) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 7, "CToonHandle"); }
}
impl W for b87::CCommanderHandle {
    fn p(c: &mut C) -> bool { c.string(9) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 9, "CCommanderHandle"); }
}
impl W for b87::EObserve {
    fn p(c: &mut C) -> bool { match c.tag(2, &[0,1,2]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::ENone => c.vtag(0, 2, "EObserve"), Self::ESpectator => c.vtag(1, 2, "EObserve"), Self::EReferee => c.vtag(2, 2, "EObserve"), } }
}
impl W for b87::CAllowedObserveTypes {
    fn p(c: &mut C) -> bool { c.mask64(2) }
    fn v(&self, c: &mut C) { c.vmask64(self.value, 2, "CAllowedObserveTypes"); }
}
impl W for b87::TTeamPreference {
    fn p(c: &mut C) -> bool { c.opt::<b87::Uint8>() }
    fn v(&self, c: &mut C) { c.vopt(&self.m_team); }
}
impl W for b87::SUserInitialData {
    fn p(c: &mut C) -> bool { <b87::CUserName as W>::p(c) && c.opt::<b87::CClanTag>() && c.opt::<b87::CCacheHandle>() && c.opt::<b87::Uint8>() && c.opt::<b87::Uint32>() && <b87::Uint32 as W>::p(c) && <b87::TRacePreference as W>::p(c) && <b87::TTeamPreference as W>::p(c) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && <b87::Uint32 as W>::p(c) && <b87::EObserve as W>::p(c) && <b87::CHeroHandle as W>::p(c) && <b87::CSkinHandle as W>::p(c) && <b87::CMountHandle as W>::p(c) && <b87::CToonHandle as W>::p(c) && c.opt::<b87::Int32>() }
    fn v(&self, c: &mut C) { self.m_name.v(c); c.vopt(&self.m_clan_tag); c.vopt(&self.m_clan_logo); c.vopt(&self.m_highest_league); c.vopt(&self.m_combined_race_levels); self.m_random_seed.v(c); self.m_race_preference.v(c); self.m_team_preference.v(c); c.vbool(self.m_test_map, "SUserInitialData.m_test_map"); c.vbool(self.m_test_auto, "SUserInitialData.m_test_auto"); c.vbool(self.m_examine, "SUserInitialData.m_examine"); c.vbool(self.m_custom_interface, "SUserInitialData.m_custom_interface"); self.m_test_type.v(c); self.m_observe.v(c); self.m_hero.v(c); self.m_skin.v(c); self.m_mount.v(c); self.m_toon_handle.v(c); c.vopt(&self.m_scaled_rating); }
}
impl W for b87::CUserInitialDataArray {
    fn p(c: &mut C) -> bool { c.array::<b87::SUserInitialData>(5) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 5, "CUserInitialDataArray"); }
}
impl W for b87::ELeaveReason {
    fn p(c: &mut C) -> bool { match c.tag(4, &[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::EUserLeft => c.vtag(0, 4, "ELeaveReason"), Self::EUserDropped => c.vtag(1, 4, "ELeaveReason"), Self::EUserBanned => c.vtag(2, 4, "ELeaveReason"), Self::EUserVictory => c.vtag(3, 4, "ELeaveReason"), Self::EUserDefeat => c.vtag(4, 4, "ELeaveReason"), Self::EUserTied => c.vtag(5, 4, "ELeaveReason"), Self::EUserDesynced => c.vtag(6, 4, "ELeaveReason"), Self::EUserOutOfTime => c.vtag(7, 4, "ELeaveReason"), Self::EWeWereUnresponsive => c.vtag(8, 4, "ELeaveReason"), Self::EWeContinuedAlone => c.vtag(9, 4, "ELeaveReason"), Self::EReplayDesynced => c.vtag(10, 4, "ELeaveReason"), Self::EUserTimeout => c.vtag(11, 4, "ELeaveReason"), Self::EUserDisconnected => c.vtag(12, 4, "ELeaveReason"), Self::EUnrecoverable => c.vtag(13, 4, "ELeaveReason"), Self::EUserCatchupDesynced => c.vtag(14, 4, "ELeaveReason"), Self::ETakeCommandDropped => c.vtag(15, 4, "ELeaveReason"), } }
}
impl W for b87::EReconnectStatus {
    fn p(c: &mut C) -> bool { match c.tag(2, &[0,1,2,3]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::EConnected => c.vtag(0, 2, "EReconnectStatus"), Self::EReconnected => c.vtag(1, 2, "EReconnectStatus"), Self::EDisconnected => c.vtag(2, 2, "EReconnectStatus"), Self::EUnrecoverable => c.vtag(3, 2, "EReconnectStatus"), } }
}
impl W for b87::GameTColorId {
    fn p(c: &mut C) -> bool { c.skip(5) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 5, "GameTColorId"); }
}
impl W for b87::GameTColorCount {
    fn p(c: &mut C) -> bool { c.skip(6) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 6, "GameTColorCount"); }
}
impl W for b87::GameTColorPreference {
    fn p(c: &mut C) -> bool { c.opt::<b87::GameTColorId>() }
    fn v(&self, c: &mut C) { c.vopt(&self.m_color); }
}
impl W for b87::GameCAllowedColors {
    fn p(c: &mut C) -> bool { c.mask64(6) }
    fn v(&self, c: &mut C) { c.vmask64(self.value, 6, "GameCAllowedColors"); }
}
impl W for b87::GameEHijackMethod {
    fn p(c: &mut C) -> bool { match c.tag(1, &[0,1]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::ERecover => c.vtag(0, 1, "GameEHijackMethod"), Self::ETakeCommand => c.vtag(1, 1, "GameEHijackMethod"), } }
}
impl W for b87::GameTQueryId {
    fn p(c: &mut C) -> bool { <b87::Uint16 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameEEventId {
    fn p(c: &mut C) -> bool { match c.tag(7, &[0,1,2,3,4,5,6,7,114,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,94,95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,115,116,117,118,119]) { Some(t) => match t { 0 => <b87::GameSSetLobbySlotEvent as W>::p(c), 1 => <b87::GameSDropUserEvent as W>::p(c), 2 => <b87::GameSStartGameEvent as W>::p(c), 3 => <b87::GameSDropOurselvesEvent as W>::p(c), 4 => <b87::GameSUserFinishedLoadingEvent as W>::p(c), 5 => <b87::GameSUserFinishedLoadingSyncEvent as W>::p(c), 6 => <b87::GameSSetGameDurationEvent as W>::p(c), 7 => <b87::GameSUserOptionsEvent as W>::p(c), 114 => <b87::GameSPickMapTagEvent as W>::p(c), 8 => <b87::GameSTurnEvent as W>::p(c), 9 => <b87::GameSBankFileEvent as W>::p(c), 10 => <b87::GameSBankSectionEvent as W>::p(c), 11 => <b87::GameSBankKeyEvent as W>::p(c), 12 => <b87::GameSBankValueEvent as W>::p(c), 13 => <b87::GameSBankSignatureEvent as W>::p(c), 14 => <b87::GameSCameraSaveEvent as W>::p(c), 15 => <b87::GameSPauseGameEvent as W>::p(c), 16 => <b87::GameSUnpauseGameEvent as W>::p(c), 17 => <b87::GameSSingleStepGameEvent as W>::p(c), 18 => <b87::GameSSetGameSpeedEvent as W>::p(c), 19 => <b87::GameSAddGameSpeedEvent as W>::p(c), 20 => <b87::GameSReplayJumpEvent as W>::p(c), 21 => <b87::GameSSaveGameEvent as W>::p(c), 22 => <b87::GameSSaveGameDoneEvent as W>::p(c), 23 => <b87::GameSLoadGameDoneEvent as W>::p(c), 24 => <b87::GameSSessionCheatEvent as W>::p(c), 25 => <b87::GameSCommandManagerResetEvent as W>::p(c), 26 => <b87::GameSGameCheatEvent as W>::p(c), 27 => <b87::GameSCmdEvent as W>::p(c), 28 => <b87::GameSSelectionDeltaEvent as W>::p(c), 29 => <b87::GameSControlGroupUpdateEvent as W>::p(c), 30 => <b87::GameSSelectionSyncCheckEvent as W>::p(c), 31 => <b87::GameSResourceTradeEvent as W>::p(c), 32 => <b87::GameSTriggerChatMessageEvent as W>::p(c), 33 => <b87::GameSaiCommunicateEvent as W>::p(c), 34 => <b87::GameSSetAbsoluteGameSpeedEvent as W>::p(c), 35 => <b87::GameSAddAbsoluteGameSpeedEvent as W>::p(c), 36 => <b87::GameSTriggerPingEvent as W>::p(c), 37 => <b87::GameSBroadcastCheatEvent as W>::p(c), 38 => <b87::GameSAllianceEvent as W>::p(c), 39 => <b87::GameSUnitClickEvent as W>::p(c), 40 => <b87::GameSUnitHighlightEvent as W>::p(c), 41 => <b87::GameSTriggerReplySelectedEvent as W>::p(c), 42 => <b87::GameSHijackReplaySessionEvent as W>::p(c), 43 => <b87::GameSHijackReplayGameEvent as W>::p(c), 44 => <b87::GameSTriggerSkippedEvent as W>::p(c), 45 => <b87::GameSTriggerSoundLengthQueryEvent as W>::p(c), 46 => <b87::GameSTriggerSoundOffsetEvent as W>::p(c), 47 => <b87::GameSTriggerTransmissionOffsetEvent as W>::p(c), 48 => <b87::GameSTriggerTransmissionCompleteEvent as W>::p(c), 49 => <b87::GameSCameraUpdateEvent as W>::p(c), 50 => <b87::GameSTriggerAbortMissionEvent as W>::p(c), 51 => <b87::GameSTriggerPurchaseMadeEvent as W>::p(c), 52 => <b87::GameSTriggerPurchaseExitEvent as W>::p(c), 53 => <b87::GameSTriggerPlanetMissionLaunchedEvent as W>::p(c), 54 => <b87::GameSTriggerPlanetPanelCanceledEvent as W>::p(c), 55 => <b87::GameSTriggerDialogControlEvent as W>::p(c), 56 => <b87::GameSTriggerSoundLengthSyncEvent as W>::p(c), 57 => <b87::GameSTriggerConversationSkippedEvent as W>::p(c), 58 => <b87::GameSTriggerMouseClickedEvent as W>::p(c), 59 => <b87::GameSTriggerMouseMovedEvent as W>::p(c), 60 => <b87::GameSAchievementAwardedEvent as W>::p(c), 61 => <b87::GameSTriggerHotkeyPressedEvent as W>::p(c), 62 => <b87::GameSTriggerTargetModeUpdateEvent as W>::p(c), 63 => <b87::GameSTriggerPlanetPanelReplayEvent as W>::p(c), 64 => <b87::GameSTriggerSoundtrackDoneEvent as W>::p(c), 65 => <b87::GameSTriggerPlanetMissionSelectedEvent as W>::p(c), 66 => <b87::GameSTriggerKeyPressedEvent as W>::p(c), 67 => <b87::GameSTriggerMovieFunctionEvent as W>::p(c), 68 => <b87::GameSTriggerPlanetPanelBirthCompleteEvent as W>::p(c), 69 => <b87::GameSTriggerPlanetPanelDeathCompleteEvent as W>::p(c), 70 => <b87::GameSResourceRequestEvent as W>::p(c), 71 => <b87::GameSResourceRequestFulfillEvent as W>::p(c), 72 => <b87::GameSResourceRequestCancelEvent as W>::p(c), 73 => <b87::GameSTriggerResearchPanelExitEvent as W>::p(c), 74 => <b87::GameSTriggerResearchPanelPurchaseEvent as W>::p(c), 75 => <b87::GameSTriggerResearchPanelSelectionChangedEvent as W>::p(c), 76 => <b87::GameSTriggerCommandErrorEvent as W>::p(c), 77 => <b87::GameSTriggerMercenaryPanelExitEvent as W>::p(c), 78 => <b87::GameSTriggerMercenaryPanelPurchaseEvent as W>::p(c), 79 => <b87::GameSTriggerMercenaryPanelSelectionChangedEvent as W>::p(c), 80 => <b87::GameSTriggerVictoryPanelExitEvent as W>::p(c), 81 => <b87::GameSTriggerBattleReportPanelExitEvent as W>::p(c), 82 => <b87::GameSTriggerBattleReportPanelPlayMissionEvent as W>::p(c), 83 => <b87::GameSTriggerBattleReportPanelPlaySceneEvent as W>::p(c), 84 => <b87::GameSTriggerBattleReportPanelSelectionChangedEvent as W>::p(c), 85 => <b87::GameSTriggerVictoryPanelPlayMissionAgainEvent as W>::p(c), 86 => <b87::GameSTriggerMovieStartedEvent as W>::p(c), 87 => <b87::GameSTriggerMovieFinishedEvent as W>::p(c), 88 => <b87::GameSDecrementGameTimeRemainingEvent as W>::p(c), 89 => <b87::GameSTriggerPortraitLoadedEvent as W>::p(c), 90 => <b87::GameSTriggerCustomDialogDismissedEvent as W>::p(c), 91 => <b87::GameSTriggerGameMenuItemSelectedEvent as W>::p(c), 92 => <b87::GameSTriggerMouseWheelEvent as W>::p(c), 93 => <b87::GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent as W>::p(c), 94 => <b87::GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent as W>::p(c), 95 => <b87::GameSTriggerButtonPressedEvent as W>::p(c), 96 => <b87::GameSTriggerGameCreditsFinishedEvent as W>::p(c), 97 => <b87::GameSTriggerCutsceneBookmarkFiredEvent as W>::p(c), 98 => <b87::GameSTriggerCutsceneEndSceneFiredEvent as W>::p(c), 99 => <b87::GameSTriggerCutsceneConversationLineEvent as W>::p(c), 100 => <b87::GameSTriggerCutsceneConversationLineMissingEvent as W>::p(c), 101 => <b87::GameSGameUserLeaveEvent as W>::p(c), 102 => <b87::GameSGameUserJoinEvent as W>::p(c), 103 => <b87::GameSCommandManagerStateEvent as W>::p(c), 104 => <b87::GameSCmdUpdateTargetPointEvent as W>::p(c), 105 => <b87::GameSCmdUpdateTargetUnitEvent as W>::p(c), 106 => <b87::GameSTriggerAnimLengthQueryByNameEvent as W>::p(c), 107 => <b87::GameSTriggerAnimLengthQueryByPropsEvent as W>::p(c), 108 => <b87::GameSTriggerAnimOffsetEvent as W>::p(c), 109 => <b87::GameSCatalogModifyEvent as W>::p(c), 110 => <b87::GameSHeroTalentTreeSelectedEvent as W>::p(c), 111 => <b87::GameSTriggerProfilerLoggingFinishedEvent as W>::p(c), 112 => <b87::GameSHeroTalentTreeSelectionPanelToggledEvent as W>::p(c), 113 => <b87::GameSMuteChatEvent as W>::p(c), 115 => <b87::GameSConvertToReplaySessionEvent as W>::p(c), 116 => <b87::GameSSetSyncLoadingTimeEvent as W>::p(c), 117 => <b87::GameSSetSyncPlayingTimeEvent as W>::p(c), 118 => <b87::GameSPeerSetSyncLoadingTimeEvent as W>::p(c), 119 => <b87::GameSPeerSetSyncPlayingTimeEvent as W>::p(c), _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::ESetLobbySlot(x) => { c.vtag(0, 7, "GameEEventId"); (*x).v(c) } Self::EDropUser(x) => { c.vtag(1, 7, "GameEEventId"); (*x).v(c) } Self::EStartGame(x) => { c.vtag(2, 7, "GameEEventId"); (*x).v(c) } Self::EDropOurselves(x) => { c.vtag(3, 7, "GameEEventId"); (*x).v(c) } Self::EUserFinishedLoading(x) => { c.vtag(4, 7, "GameEEventId"); (*x).v(c) } Self::EUserFinishedLoadingSync(x) => { c.vtag(5, 7, "GameEEventId"); (*x).v(c) } Self::ESetGameDuration(x) => { c.vtag(6, 7, "GameEEventId"); (*x).v(c) } Self::EUserOptions(x) => { c.vtag(7, 7, "GameEEventId"); (*x).v(c) } Self::EPickMapTag(x) => { c.vtag(114, 7, "GameEEventId"); (*x).v(c) } Self::ETurn(x) => { c.vtag(8, 7, "GameEEventId"); (*x).v(c) } Self::EBankFile(x) => { c.vtag(9, 7, "GameEEventId"); (*x).v(c) } Self::EBankSection(x) => { c.vtag(10, 7, "GameEEventId"); (*x).v(c) } Self::EBankKey(x) => { c.vtag(11, 7, "GameEEventId"); (*x).v(c) } Self::EBankValue(x) => { c.vtag(12, 7, "GameEEventId"); (*x).v(c) } Self::EBankSignature(x) => { c.vtag(13, 7, "GameEEventId"); (*x).v(c) } Self::ECameraSave(x) => { c.vtag(14, 7, "GameEEventId"); (*x).v(c) } Self::EPauseGame(x) => { c.vtag(15, 7, "GameEEventId"); (*x).v(c) } Self::EUnpauseGame(x) => { c.vtag(16, 7, "GameEEventId"); (*x).v(c) } Self::ESingleStepGame(x) => { c.vtag(17, 7, "GameEEventId"); (*x).v(c) } Self::ESetGameSpeed(x) => { c.vtag(18, 7, "GameEEventId"); (*x).v(c) } Self::EAddGameSpeed(x) => { c.vtag(19, 7, "GameEEventId"); (*x).v(c) } Self::EReplayJump(x) => { c.vtag(20, 7, "GameEEventId"); (*x).v(c) } Self::ESaveGame(x) => { c.vtag(21, 7, "GameEEventId"); (*x).v(c) } Self::ESaveGameDone(x) => { c.vtag(22, 7, "GameEEventId"); (*x).v(c) } Self::ELoadGameDone(x) => { c.vtag(23, 7, "GameEEventId"); (*x).v(c) } Self::ESessionCheat(x) => { c.vtag(24, 7, "GameEEventId"); (*x).v(c) } Self::ECommandManagerReset(x) => { c.vtag(25, 7, "GameEEventId"); (*x).v(c) } Self::EGameCheat(x) => { c.vtag(26, 7, "GameEEventId"); (*x).v(c) } Self::ECmd(x) => { c.vtag(27, 7, "GameEEventId"); (*x).v(c) } Self::ESelectionDelta(x) => { c.vtag(28, 7, "GameEEventId"); (*x).v(c) } Self::EControlGroupUpdate(x) => { c.vtag(29, 7, "GameEEventId"); (*x).v(c) } Self::ESelectionSyncCheck(x) => { c.vtag(30, 7, "GameEEventId"); (*x).v(c) } Self::EResourceTrade(x) => { c.vtag(31, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerChatMessage(x) => { c.vtag(32, 7, "GameEEventId"); (*x).v(c) } Self::EAiCommunicate(x) => { c.vtag(33, 7, "GameEEventId"); (*x).v(c) } Self::ESetAbsoluteGameSpeed(x) => { c.vtag(34, 7, "GameEEventId"); (*x).v(c) } Self::EAddAbsoluteGameSpeed(x) => { c.vtag(35, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPing(x) => { c.vtag(36, 7, "GameEEventId"); (*x).v(c) } Self::EBroadcastCheat(x) => { c.vtag(37, 7, "GameEEventId"); (*x).v(c) } Self::EAlliance(x) => { c.vtag(38, 7, "GameEEventId"); (*x).v(c) } Self::EUnitClick(x) => { c.vtag(39, 7, "GameEEventId"); (*x).v(c) } Self::EUnitHighlight(x) => { c.vtag(40, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerReplySelected(x) => { c.vtag(41, 7, "GameEEventId"); (*x).v(c) } Self::EHijackReplaySession(x) => { c.vtag(42, 7, "GameEEventId"); (*x).v(c) } Self::EHijackReplayGame(x) => { c.vtag(43, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSkipped(x) => { c.vtag(44, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSoundLengthQuery(x) => { c.vtag(45, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSoundOffset(x) => { c.vtag(46, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerTransmissionOffset(x) => { c.vtag(47, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerTransmissionComplete(x) => { c.vtag(48, 7, "GameEEventId"); (*x).v(c) } Self::ECameraUpdate(x) => { c.vtag(49, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerAbortMission(x) => { c.vtag(50, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPurchaseMade(x) => { c.vtag(51, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPurchaseExit(x) => { c.vtag(52, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetMissionLaunched(x) => { c.vtag(53, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetPanelCanceled(x) => { c.vtag(54, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerDialogControl(x) => { c.vtag(55, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSoundLengthSync(x) => { c.vtag(56, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerConversationSkipped(x) => { c.vtag(57, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMouseClicked(x) => { c.vtag(58, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMouseMoved(x) => { c.vtag(59, 7, "GameEEventId"); (*x).v(c) } Self::EAchievementAwarded(x) => { c.vtag(60, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerHotkeyPressed(x) => { c.vtag(61, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerTargetModeUpdate(x) => { c.vtag(62, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetPanelPanelReplay(x) => { c.vtag(63, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSoundtrackDone(x) => { c.vtag(64, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetMissionSelected(x) => { c.vtag(65, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerKeyPressed(x) => { c.vtag(66, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMovieFunction(x) => { c.vtag(67, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetPanelPanelBirthComplete(x) => { c.vtag(68, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetPanelPanelDeathComplete(x) => { c.vtag(69, 7, "GameEEventId"); (*x).v(c) } Self::EResourceRequest(x) => { c.vtag(70, 7, "GameEEventId"); (*x).v(c) } Self::EResourceRequestFulfill(x) => { c.vtag(71, 7, "GameEEventId"); (*x).v(c) } Self::EResourceRequestCancel(x) => { c.vtag(72, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerResearchPanelExit(x) => { c.vtag(73, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerResearchPanelPurchase(x) => { c.vtag(74, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerResearchPanelSelectionChanged(x) => { c.vtag(75, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCommandError(x) => { c.vtag(76, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMercenaryPanelExit(x) => { c.vtag(77, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMercenaryPanelPurchase(x) => { c.vtag(78, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMercenaryPanelSelectionChanged(x) => { c.vtag(79, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerVictoryPanelExit(x) => { c.vtag(80, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerBattleReportPanelExit(x) => { c.vtag(81, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerBattleReportPanelPlayMission(x) => { c.vtag(82, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerBattleReportPanelPlayScene(x) => { c.vtag(83, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerBattleReportSelectionChanged(x) => { c.vtag(84, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerVictoryPanelPlayMissionAgain(x) => { c.vtag(85, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMovieStarted(x) => { c.vtag(86, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMovieFinished(x) => { c.vtag(87, 7, "GameEEventId"); (*x).v(c) } Self::EDecrementGameTimeRemaining(x) => { c.vtag(88, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPortraitLoaded(x) => { c.vtag(89, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerQueryDialogDismissed(x) => { c.vtag(90, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerGameMenuItemSelected(x) => { c.vtag(91, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMouseWheel(x) => { c.vtag(92, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPurchasePanelSelectedPurchaseItemChanged(x) => { c.vtag(93, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPurchasePanelSelectedPurchaseCategoryChanged(x) => { c.vtag(94, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerButtonPressed(x) => { c.vtag(95, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerGameCreditsFinished(x) => { c.vtag(96, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCutsceneBookmarkFired(x) => { c.vtag(97, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCutsceneEndSceneFired(x) => { c.vtag(98, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCutsceneConversationLine(x) => { c.vtag(99, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCutsceneConversationLineMissing(x) => { c.vtag(100, 7, "GameEEventId"); (*x).v(c) } Self::EGameUserLeave(x) => { c.vtag(101, 7, "GameEEventId"); (*x).v(c) } Self::EGameUserJoin(x) => { c.vtag(102, 7, "GameEEventId"); (*x).v(c) } Self::ECommandManagerState(x) => { c.vtag(103, 7, "GameEEventId"); (*x).v(c) } Self::ECmdUpdateTargetPoint(x) => { c.vtag(104, 7, "GameEEventId"); (*x).v(c) } Self::ECmdUpdateTargetUnit(x) => { c.vtag(105, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerAnimLengthQueryByName(x) => { c.vtag(106, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerAnimLengthQueryByProps(x) => { c.vtag(107, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerAnimOffset(x) => { c.vtag(108, 7, "GameEEventId"); (*x).v(c) } Self::ECatalogModify(x) => { c.vtag(109, 7, "GameEEventId"); (*x).v(c) } Self::EHeroTalentTreeSelected(x) => { c.vtag(110, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerProfilerLoggingFinished(x) => { c.vtag(111, 7, "GameEEventId"); (*x).v(c) } Self::EHeroTalentTreeSelectionPanelToggled(x) => { c.vtag(112, 7, "GameEEventId"); (*x).v(c) } Self::EMuteUserChanged(x) => { c.vtag(113, 7, "GameEEventId"); (*x).v(c) } Self::EConvertToReplaySession(x) => { c.vtag(115, 7, "GameEEventId"); (*x).v(c) } Self::ESetSyncLoadingTime(x) => { c.vtag(116, 7, "GameEEventId"); (*x).v(c) } Self::ESetSyncPlayingTime(x) => { c.vtag(117, 7, "GameEEventId"); (*x).v(c) } Self::EPeerSetSyncLoadingTime(x) => { c.vtag(118, 7, "GameEEventId"); (*x).v(c) } Self::EPeerSetSyncPlayingTime(x) => { c.vtag(119, 7, "GameEEventId"); (*x).v(c) } } }
}
impl W for b87::GameSCmdAbil {
    fn p(c: &mut C) -> bool { <b87::GameTAbilLink as W>::p(c) && c.skip(5) && c.opt::<b87::Uint8>() }
    fn v(&self, c: &mut C) { self.m_abil_link.v(c); c.vi(self.m_abil_cmd_index, 0, 5, "GameSCmdAbil.m_abil_cmd_index"); c.vopt(&self.m_abil_cmd_data); }
}
impl W for b87::GameSCmdDataTargetUnit {
    fn p(c: &mut C) -> bool { <b87::Uint16 as W>::p(c) && <b87::Uint8 as W>::p(c) && <b87::GameTUnitTag as W>::p(c) && <b87::GameTUnitLink as W>::p(c) && c.opt::<b87::GameTPlayerId>() && c.opt::<b87::GameTPlayerId>() && <b87::GameSMapCoord3D as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_target_unit_flags.v(c); self.m_timer.v(c); self.m_tag.v(c); self.m_snapshot_unit_link.v(c); c.vopt(&self.m_snapshot_control_player_id); c.vopt(&self.m_snapshot_upkeep_player_id); self.m_snapshot_point.v(c); }
}
impl W for b87::GameSCmdData {
    fn p(c: &mut C) -> bool { match c.tag(2, &[0,1,2,3]) { Some(t) => match t { 1 => <b87::GameSMapCoord3D as W>::p(c), 2 => <b87::GameSCmdDataTargetUnit as W>::p(c), 3 => <b87::Uint32 as W>::p(c), _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::None(()) => c.vtag(0, 2, "GameSCmdData"), Self::TargetPoint(x) => { c.vtag(1, 2, "GameSCmdData"); (*x).v(c) } Self::TargetUnit(x) => { c.vtag(2, 2, "GameSCmdData"); (*x).v(c) } Self::Data(x) => { c.vtag(3, 2, "GameSCmdData"); (*x).v(c) } } }
}
impl W for b87::GameSSetLobbySlotEvent {
    fn p(c: &mut C) -> bool { <b87::GameTLobbySlotId as W>::p(c) && <b87::GameSLobbySlotChange as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_slot_id.v(c); self.m_slot_change.v(c); }
}
impl W for b87::GameSDropUserEvent {
    fn p(c: &mut C) -> bool { <b87::TUserId as W>::p(c) && <b87::ELeaveReason as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_drop_session_user_id.v(c); self.m_reason.v(c); }
}
impl W for b87::GameSStartGameEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSDropOurselvesEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSBankFileEvent {
    fn p(c: &mut C) -> bool { c.string(7) }
    fn v(&self, c: &mut C) { c.vstring(&self.m_name, 7, "GameSBankFileEvent.m_name"); }
}
impl W for b87::GameSBankSectionEvent {
    fn p(c: &mut C) -> bool { c.string(6) }
    fn v(&self, c: &mut C) { c.vstring(&self.m_name, 6, "GameSBankSectionEvent.m_name"); }
}
impl W for b87::GameSBankKeyEvent {
    fn p(c: &mut C) -> bool { c.string(6) && <b87::Uint32 as W>::p(c) && c.string(5) }
    fn v(&self, c: &mut C) { c.vstring(&self.m_name, 6, "GameSBankKeyEvent.m_name"); self.m_type.v(c); c.vstring(&self.m_data, 5, "GameSBankKeyEvent.m_data"); }
}
impl W for b87::GameSBankValueEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) && c.string(6) && c.string(10) }
    fn v(&self, c: &mut C) { self.m_type.v(c); c.vstring(&self.m_name, 6, "GameSBankValueEvent.m_name"); c.vstring(&self.m_data, 10, "GameSBankValueEvent.m_data"); }
}
impl W for b87::GameSBankSignatureEvent {
    fn p(c: &mut C) -> bool { c.array::<b87::Uint8>(5) && <b87::CToonHandle as W>::p(c) }
    fn v(&self, c: &mut C) { c.varray(&self.m_signature, 5, "GameSBankSignatureEvent.m_signature"); self.m_toon_handle.v(c); }
}
impl W for b87::GameSUserOptionsEvent {
    fn p(c: &mut C) -> bool { c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && <b87::Uint32 as W>::p(c) && <b87::Uint32 as W>::p(c) && <b87::Uint32 as W>::p(c) && c.string(7) }
    fn v(&self, c: &mut C) { c.vbool(self.m_game_fully_downloaded, "GameSUserOptionsEvent.m_game_fully_downloaded"); c.vbool(self.m_development_cheats_enabled, "GameSUserOptionsEvent.m_development_cheats_enabled"); c.vbool(self.m_test_cheats_enabled, "GameSUserOptionsEvent.m_test_cheats_enabled"); c.vbool(self.m_multiplayer_cheats_enabled, "GameSUserOptionsEvent.m_multiplayer_cheats_enabled"); c.vbool(self.m_sync_checksumming_enabled, "GameSUserOptionsEvent.m_sync_checksumming_enabled"); c.vbool(self.m_is_map_to_map_transition, "GameSUserOptionsEvent.m_is_map_to_map_transition"); c.vbool(self.m_debug_pause_enabled, "GameSUserOptionsEvent.m_debug_pause_enabled"); c.vbool(self.m_use_galaxy_asserts, "GameSUserOptionsEvent.m_use_galaxy_asserts"); c.vbool(self.m_platform_mac, "GameSUserOptionsEvent.m_platform_mac"); c.vbool(self.m_camera_follow, "GameSUserOptionsEvent.m_camera_follow"); self.m_base_build_num.v(c); self.m_build_num.v(c); self.m_version_flags.v(c); c.vstring(&self.m_hotkey_profile, 7, "GameSUserOptionsEvent.m_hotkey_profile"); }
}
impl W for b87::GameSPickMapTagEvent {
    fn p(c: &mut C) -> bool { <b87::Uint8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_picked_map_tag.v(c); }
}
impl W for b87::GameSUserFinishedLoadingEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSUserFinishedLoadingSyncEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSSetGameDurationEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_game_duration.v(c); }
}
impl W for b87::GameSTurnEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSCameraSaveEvent {
    fn p(c: &mut C) -> bool { c.skip(3) && <b87::GameSPointMini as W>::p(c) }
    fn v(&self, c: &mut C) { c.vi(self.m_which, 0, 3, "GameSCameraSaveEvent.m_which"); self.m_target.v(c); }
}
impl W for b87::GameSPauseGameEvent {
    fn p(c: &mut C) -> bool { <b87::Uint8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_pause_type_index.v(c); }
}
impl W for b87::GameSUnpauseGameEvent {
    fn p(c: &mut C) -> bool { <b87::Uint8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_pause_type_index.v(c); }
}
impl W for b87::GameSSingleStepGameEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSSetGameSpeedEvent {
    fn p(c: &mut C) -> bool { <b87::GameEGameSpeed as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_speed.v(c); }
}
impl W for b87::GameSAddGameSpeedEvent {
    fn p(c: &mut C) -> bool { <b87::Int8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_delta.v(c); }
}
impl W for b87::GameSReplayJumpEvent {
    fn p(c: &mut C) -> bool { c.opt::<b87::Uint32>() }
    fn v(&self, c: &mut C) { c.vopt(&self.m_replay_jump_game_loop); }
}
impl W for b87::GameSSaveGameEvent {
    fn p(c: &mut C) -> bool { <b87::CFilePath as W>::p(c) && c.skip(1) && c.skip(1) && c.string(6) && c.string(9) }
    fn v(&self, c: &mut C) { self.m_file_name.v(c); c.vbool(self.m_automatic, "GameSSaveGameEvent.m_automatic"); c.vbool(self.m_overwrite, "GameSSaveGameEvent.m_overwrite"); c.vstring(&self.m_name, 6, "GameSSaveGameEvent.m_name"); c.vstring(&self.m_description, 9, "GameSSaveGameEvent.m_description"); }
}
impl W for b87::GameSSaveGameDoneEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSLoadGameDoneEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSCheatEventData {
    fn p(c: &mut C) -> bool { <b87::GameSPoint as W>::p(c) && <b87::Int32 as W>::p(c) && <b87::GameCCheatString as W>::p(c) && <b87::GameCCheatString as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_point.v(c); self.m_time.v(c); self.m_verb.v(c); self.m_arguments.v(c); }
}
impl W for b87::GameSSessionCheatEvent {
    fn p(c: &mut C) -> bool { <b87::GameSCheatEventData as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_data.v(c); }
}
impl W for b87::GameSCommandManagerResetEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_sequence.v(c); }
}
impl W for b87::GameSGameCheatEvent {
    fn p(c: &mut C) -> bool { <b87::GameSCheatEventData as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_data.v(c); }
}
impl W for b87::GameSCmdEvent {
    fn p(c: &mut C) -> bool { c.skip(27) && c.opt::<b87::GameSCmdAbil>() && <b87::GameSCmdData as W>::p(c) && c.skip(32) && c.opt::<b87::GameTUnitTag>() && c.opt::<b87::Uint32>() }
    fn v(&self, c: &mut C) { c.vi(self.m_cmd_flags, 0, 27, "GameSCmdEvent.m_cmd_flags"); c.vopt(&self.m_abil); self.m_data.v(c); c.vi(self.m_sequence, 1, 32, "GameSCmdEvent.m_sequence"); c.vopt(&self.m_other_unit); c.vopt(&self.m_unit_group); }
}
impl W for b87::GameSSelectionDeltaEvent {
    fn p(c: &mut C) -> bool { <b87::GameTControlGroupId as W>::p(c) && <b87::GameSSelectionDelta as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_control_group_id.v(c); self.m_delta.v(c); }
}
impl W for b87::GameSControlGroupUpdateEvent {
    fn p(c: &mut C) -> bool { <b87::GameTControlGroupIndex as W>::p(c) && <b87::GameEControlGroupUpdate as W>::p(c) && <b87::GameSSelectionMask as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_control_group_index.v(c); self.m_control_group_update.v(c); self.m_mask.v(c); }
}
impl W for b87::GameSSelectionSyncCheckEvent {
    fn p(c: &mut C) -> bool { <b87::GameTControlGroupId as W>::p(c) && <b87::GameSSelectionSyncData as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_control_group_id.v(c); self.m_selection_sync_data.v(c); }
}
impl W for b87::GameSResourceTradeEvent {
    fn p(c: &mut C) -> bool { <b87::GameTPlayerId as W>::p(c) && c.array::<b87::Int32>(3) }
    fn v(&self, c: &mut C) { self.m_recipient_id.v(c); c.varray(&self.m_resources, 3, "GameSResourceTradeEvent.m_resources"); }
}
impl W for b87::GameSTriggerChatMessageEvent {
    fn p(c: &mut C) -> bool { <b87::GameCTriggerChatMessageString as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_chat_message.v(c); }
}
impl W for b87::GameSaiCommunicateEvent {
    fn p(c: &mut C) -> bool { <b87::Int8 as W>::p(c) && <b87::Int8 as W>::p(c) && <b87::Int8 as W>::p(c) && <b87::Int8 as W>::p(c) && <b87::GameTUnitTag as W>::p(c) && <b87::GameTUnitLink as W>::p(c) && <b87::Int8 as W>::p(c) && <b87::Int8 as W>::p(c) && <b87::GameSPoint3 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_beacon.v(c); self.m_ally.v(c); self.m_flags.v(c); self.m_build.v(c); self.m_target_unit_tag.v(c); self.m_target_unit_snapshot_unit_link.v(c); self.m_target_unit_snapshot_upkeep_player_id.v(c); self.m_target_unit_snapshot_control_player_id.v(c); self.m_target_point.v(c); }
}
impl W for b87::GameSSetAbsoluteGameSpeedEvent {
    fn p(c: &mut C) -> bool { <b87::GameEGameSpeed as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_speed.v(c); }
}
impl W for b87::GameSAddAbsoluteGameSpeedEvent {
    fn p(c: &mut C) -> bool { <b87::Int8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_delta.v(c); }
}
impl W for b87::GameSTriggerPingEvent {
    fn p(c: &mut C) -> bool { <b87::GameSPoint as W>::p(c) && <b87::GameTUnitTag as W>::p(c) && <b87::GameTUnitLink as W>::p(c) && c.opt::<b87::GameTPlayerId>() && c.opt::<b87::GameTPlayerId>() && <b87::GameSMapCoord3D as W>::p(c) && c.skip(1) && c.skip(1) && <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_point.v(c); self.m_unit.v(c); self.m_unit_link.v(c); c.vopt(&self.m_unit_control_player_id); c.vopt(&self.m_unit_upkeep_player_id); self.m_unit_position.v(c); c.vbool(self.m_unit_is_under_construction, "GameSTriggerPingEvent.m_unit_is_under_construction"); c.vbool(self.m_pinged_minimap, "GameSTriggerPingEvent.m_pinged_minimap"); self.m_option.v(c); }
}
impl W for b87::GameSBroadcastCheatEvent {
    fn p(c: &mut C) -> bool { <b87::GameCCheatString as W>::p(c) && <b87::GameCCheatString as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_verb.v(c); self.m_arguments.v(c); }
}
impl W for b87::GameSAllianceEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) && <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_alliance.v(c); self.m_control.v(c); }
}
impl W for b87::GameSUnitClickEvent {
    fn p(c: &mut C) -> bool { <b87::GameTUnitTag as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_unit_tag.v(c); }
}
impl W for b87::GameSUnitHighlightEvent {
    fn p(c: &mut C) -> bool { <b87::GameTUnitTag as W>::p(c) && <b87::Uint8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_unit_tag.v(c); self.m_flags.v(c); }
}
impl W for b87::GameSTriggerReplySelectedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) && <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_conversation_id.v(c); self.m_reply_id.v(c); }
}
impl W for b87::GameSHijackReplaySessionUserInfo {
    fn p(c: &mut C) -> bool { <b87::TUserId as W>::p(c) && c.skip(1) && <b87::TUserId as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_session_user_id.v(c); c.vbool(self.m_add_new_game_user, "GameSHijackReplaySessionUserInfo.m_add_new_game_user"); self.m_game_user_id.v(c); }
}
impl W for b87::GameSHijackReplaySessionEvent {
    fn p(c: &mut C) -> bool { c.array::<b87::GameSHijackReplaySessionUserInfo>(5) && <b87::GameEHijackMethod as W>::p(c) }
    fn v(&self, c: &mut C) { c.varray(&self.m_user_infos, 5, "GameSHijackReplaySessionEvent.m_user_infos"); self.m_method.v(c); }
}
impl W for b87::GameSHijackReplayGameUserInfo {
    fn p(c: &mut C) -> bool { <b87::TUserId as W>::p(c) && <b87::EObserve as W>::p(c) && <b87::CUserName as W>::p(c) && c.opt::<b87::CToonHandle>() && c.opt::<b87::CClanTag>() && c.opt::<b87::GameCCacheHandle>() }
    fn v(&self, c: &mut C) { self.m_game_user_id.v(c); self.m_observe.v(c); self.m_name.v(c); c.vopt(&self.m_toon_handle); c.vopt(&self.m_clan_tag); c.vopt(&self.m_clan_logo); }
}
impl W for b87::GameSHijackReplayGameEvent {
    fn p(c: &mut C) -> bool { c.array::<b87::GameSHijackReplayGameUserInfo>(5) && <b87::GameEHijackMethod as W>::p(c) }
    fn v(&self, c: &mut C) { c.varray(&self.m_user_infos, 5, "GameSHijackReplayGameEvent.m_user_infos"); self.m_method.v(c); }
}
impl W for b87::GameSTriggerAbortMissionEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerPurchaseMadeEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_purchase_item_id.v(c); }
}
impl W for b87::GameSTriggerPurchaseExitEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerPlanetMissionLaunchedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_difficulty_level.v(c); }
}
impl W for b87::GameSTriggerPlanetPanelCanceledEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerDialogControlEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) && <b87::Int32 as W>::p(c) && <b87::MEventData as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_control_id.v(c); self.m_event_type.v(c); self.m_event_data.v(c); }
}
impl W for b87::MEventData {
    fn p(c: &mut C) -> bool { match c.tag(3, &[0,1,2,3,4,5]) { Some(t) => match t { 1 => c.skip(1), 2 => <b87::Uint32 as W>::p(c), 3 => <b87::Int32 as W>::p(c), 4 => <b87::GameCChatString as W>::p(c), 5 => <b87::Uint32 as W>::p(c), _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::None(()) => c.vtag(0, 3, "MEventData"), Self::Checked(x) => { c.vtag(1, 3, "MEventData"); c.vbool(*x, "MEventData::Checked") } Self::ValueChanged(x) => { c.vtag(2, 3, "MEventData"); (*x).v(c) } Self::SelectionChanged(x) => { c.vtag(3, 3, "MEventData"); (*x).v(c) } Self::TextChanged(x) => { c.vtag(4, 3, "MEventData"); (*x).v(c) } Self::MouseButton(x) => { c.vtag(5, 3, "MEventData"); (*x).v(c) } } }
}
impl W for b87::GameSTriggerSkippedEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerSoundLengthQueryEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) && <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_sound_hash.v(c); self.m_length.v(c); }
}
impl W for b87::GameSTriggerSoundLengthSyncEvent {
    fn p(c: &mut C) -> bool { <b87::GameSSyncSoundLength as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_sync_info.v(c); }
}
impl W for b87::GameSTriggerAnimLengthQueryByNameEvent {
    fn p(c: &mut C) -> bool { <b87::GameTQueryId as W>::p(c) && <b87::Uint32 as W>::p(c) && <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_query_id.v(c); self.m_length_ms.v(c); self.m_finish_game_loop.v(c); }
}
impl W for b87::GameSTriggerAnimLengthQueryByPropsEvent {
    fn p(c: &mut C) -> bool { <b87::GameTQueryId as W>::p(c) && <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_query_id.v(c); self.m_length_ms.v(c); }
}
impl W for b87::GameSTriggerAnimOffsetEvent {
    fn p(c: &mut C) -> bool { <b87::GameTQueryId as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_anim_wait_query_id.v(c); }
}
impl W for b87::GameSTriggerSoundOffsetEvent {
    fn p(c: &mut C) -> bool { <b87::GameTTriggerSoundTag as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_sound.v(c); }
}
impl W for b87::GameSTriggerTransmissionOffsetEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) && <b87::GameTTriggerThreadTag as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_transmission_id.v(c); self.m_thread.v(c); }
}
impl W for b87::GameSTriggerTransmissionCompleteEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_transmission_id.v(c); }
}
impl W for b87::GameSCameraUpdateEvent {
    fn p(c: &mut C) -> bool { c.opt::<b87::GameSPointMini>() && c.opt::<b87::GameTFixedMiniBitsUnsigned>() && c.opt::<b87::GameTFixedMiniBitsUnsigned>() && c.opt::<b87::GameTFixedMiniBitsUnsigned>() && c.opt::<b87::Int8>() && c.skip(1) }
    fn v(&self, c: &mut C) { c.vopt(&self.m_target); c.vopt(&self.m_distance); c.vopt(&self.m_pitch); c.vopt(&self.m_yaw); c.vopt(&self.m_reason); c.vbool(self.m_follow, "GameSCameraUpdateEvent.m_follow"); }
}
impl W for b87::GameSTriggerConversationSkippedEvent {
    fn p(c: &mut C) -> bool { <b87::GameEConversationSkip as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_skip_type.v(c); }
}
impl W for b87::GameSTriggerMouseClickedEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) && c.skip(1) && <b87::GameSuiCoord as W>::p(c) && <b87::GameSMapCoord3D as W>::p(c) && <b87::Int8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_button.v(c); c.vbool(self.m_down, "GameSTriggerMouseClickedEvent.m_down"); self.m_pos_ui.v(c); self.m_pos_world.v(c); self.m_flags.v(c); }
}
impl W for b87::GameSTriggerMouseMovedEvent {
    fn p(c: &mut C) -> bool { <b87::GameSuiCoord as W>::p(c) && <b87::GameSMapCoord3D as W>::p(c) && <b87::Int8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_pos_ui.v(c); self.m_pos_world.v(c); self.m_flags.v(c); }
}
impl W for b87::GameSAchievementAwardedEvent {
    fn p(c: &mut C) -> bool { <b87::GameTAchievementLink as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_achievement_link.v(c); }
}
impl W for b87::GameSTriggerHotkeyPressedEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) && c.skip(1) }
    fn v(&self, c: &mut C) { self.m_hotkey.v(c); c.vbool(self.m_down, "GameSTriggerHotkeyPressedEvent.m_down"); }
}
impl W for b87::GameSTriggerTargetModeUpdateEvent {
    fn p(c: &mut C) -> bool { <b87::GameTAbilLink as W>::p(c) && c.skip(5) && <b87::Int8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_abil_link.v(c); c.vi(self.m_abil_cmd_index, 0, 5, "GameSTriggerTargetModeUpdateEvent.m_abil_cmd_index"); self.m_state.v(c); }
}
impl W for b87::GameSTriggerPlanetPanelReplayEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerSoundtrackDoneEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_soundtrack.v(c); }
}
impl W for b87::GameSTriggerPlanetMissionSelectedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_planet_id.v(c); }
}
impl W for b87::GameSTriggerKeyPressedEvent {
    fn p(c: &mut C) -> bool { <b87::Int8 as W>::p(c) && <b87::Int8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_key.v(c); self.m_flags.v(c); }
}
impl W for b87::GameSTriggerPlanetPanelBirthCompleteEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerPlanetPanelDeathCompleteEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSResourceRequestEvent {
    fn p(c: &mut C) -> bool { c.array::<b87::Int32>(3) }
    fn v(&self, c: &mut C) { c.varray(&self.m_resources, 3, "GameSResourceRequestEvent.m_resources"); }
}
impl W for b87::GameSResourceRequestFulfillEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_fulfill_request_id.v(c); }
}
impl W for b87::GameSResourceRequestCancelEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_cancel_request_id.v(c); }
}
impl W for b87::GameSTriggerResearchPanelExitEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerResearchPanelPurchaseEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerCommandErrorEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) && c.opt::<b87::GameSCmdAbil>() }
    fn v(&self, c: &mut C) { self.m_error.v(c); c.vopt(&self.m_abil); }
}
impl W for b87::GameSTriggerResearchPanelSelectionChangedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_research_item_id.v(c); }
}
impl W for b87::GameSTriggerMercenaryPanelExitEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerMercenaryPanelPurchaseEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerMercenaryPanelSelectionChangedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_mercenary_id.v(c); }
}
impl W for b87::GameSTriggerVictoryPanelExitEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerBattleReportPanelExitEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerBattleReportPanelPlayMissionEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) && <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_battle_report_id.v(c); self.m_difficulty_level.v(c); }
}
impl W for b87::GameSTriggerBattleReportPanelPlaySceneEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_battle_report_id.v(c); }
}
impl W for b87::GameSTriggerBattleReportPanelSelectionChangedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_battle_report_id.v(c); }
}
impl W for b87::GameSTriggerVictoryPanelPlayMissionAgainEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_difficulty_level.v(c); }
}
impl W for b87::GameSTriggerMovieStartedEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerMovieFinishedEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSDecrementGameTimeRemainingEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_decrement_seconds.v(c); }
}
impl W for b87::GameSTriggerPortraitLoadedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_portrait_id.v(c); }
}
impl W for b87::GameSTriggerMovieFunctionEvent {
    fn p(c: &mut C) -> bool { c.string(7) }
    fn v(&self, c: &mut C) { c.vstring(&self.m_function_name, 7, "GameSTriggerMovieFunctionEvent.m_function_name"); }
}
impl W for b87::GameSTriggerCustomDialogDismissedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_result.v(c); }
}
impl W for b87::GameSTriggerGameMenuItemSelectedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_game_menu_item_index.v(c); }
}
impl W for b87::GameSTriggerMouseWheelEvent {
    fn p(c: &mut C) -> bool { <b87::GameTFixedMiniBitsSigned as W>::p(c) && <b87::Int8 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_wheel_spin.v(c); self.m_flags.v(c); }
}
impl W for b87::GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_purchase_item_id.v(c); }
}
impl W for b87::GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_purchase_category_id.v(c); }
}
impl W for b87::GameSTriggerButtonPressedEvent {
    fn p(c: &mut C) -> bool { <b87::GameTButtonLink as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_button.v(c); }
}
impl W for b87::GameSTriggerGameCreditsFinishedEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSTriggerCutsceneBookmarkFiredEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) && c.string(7) }
    fn v(&self, c: &mut C) { self.m_cutscene_id.v(c); c.vstring(&self.m_bookmark_name, 7, "GameSTriggerCutsceneBookmarkFiredEvent.m_bookmark_name"); }
}
impl W for b87::GameSTriggerCutsceneEndSceneFiredEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_cutscene_id.v(c); }
}
impl W for b87::GameSTriggerCutsceneConversationLineEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) && c.string(7) && c.string(7) }
    fn v(&self, c: &mut C) { self.m_cutscene_id.v(c); c.vstring(&self.m_conversation_line, 7, "GameSTriggerCutsceneConversationLineEvent.m_conversation_line"); c.vstring(&self.m_alt_conversation_line, 7, "GameSTriggerCutsceneConversationLineEvent.m_alt_conversation_line"); }
}
impl W for b87::GameSTriggerCutsceneConversationLineMissingEvent {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) && c.string(7) }
    fn v(&self, c: &mut C) { self.m_cutscene_id.v(c); c.vstring(&self.m_conversation_line, 7, "GameSTriggerCutsceneConversationLineMissingEvent.m_conversation_line"); }
}
impl W for b87::GameSGameUserLeaveEvent {
    fn p(c: &mut C) -> bool { <b87::ELeaveReason as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_leave_reason.v(c); }
}
impl W for b87::GameSGameUserJoinEvent {
    fn p(c: &mut C) -> bool { <b87::EObserve as W>::p(c) && <b87::CUserName as W>::p(c) && c.opt::<b87::CToonHandle>() && c.opt::<b87::CClanTag>() && c.opt::<b87::GameCCacheHandle>() && c.skip(1) && c.opt::<b87::TUserId>() }
    fn v(&self, c: &mut C) { self.m_observe.v(c); self.m_name.v(c); c.vopt(&self.m_toon_handle); c.vopt(&self.m_clan_tag); c.vopt(&self.m_clan_logo); c.vbool(self.m_hijack, "GameSGameUserJoinEvent.m_hijack"); c.vopt(&self.m_hijack_clone_game_user_id); }
}
impl W for b87::GameECommandManagerState {
    fn p(c: &mut C) -> bool { match c.tag(2, &[0,1,2]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::EFireDone => c.vtag(0, 2, "GameECommandManagerState"), Self::EFireOnce => c.vtag(1, 2, "GameECommandManagerState"), Self::EFireMany => c.vtag(2, 2, "GameECommandManagerState"), } }
}
impl W for b87::GameSCommandManagerStateEvent {
    fn p(c: &mut C) -> bool { <b87::GameECommandManagerState as W>::p(c) && c.opti(32) }
    fn v(&self, c: &mut C) { self.m_state.v(c); c.vopti(self.m_sequence, 1, 32, "GameSCommandManagerStateEvent.m_sequence"); }
}
impl W for b87::GameSCmdUpdateTargetPointEvent {
    fn p(c: &mut C) -> bool { <b87::GameSMapCoord3D as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_target.v(c); }
}
impl W for b87::GameSCmdUpdateTargetUnitEvent {
    fn p(c: &mut C) -> bool { <b87::GameSCmdDataTargetUnit as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_target.v(c); }
}
impl W for b87::GameSCatalogModifyEvent {
    fn p(c: &mut C) -> bool { <b87::Uint8 as W>::p(c) && <b87::Uint16 as W>::p(c) && c.string(9) && c.string(9) }
    fn v(&self, c: &mut C) { self.m_catalog.v(c); self.m_entry.v(c); c.vstring(&self.m_field, 9, "GameSCatalogModifyEvent.m_field"); c.vstring(&self.m_value, 9, "GameSCatalogModifyEvent.m_value"); }
}
impl W for b87::GameSHeroTalentTreeSelectedEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_index.v(c); }
}
impl W for b87::GameSTriggerProfilerLoggingFinishedEvent {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSHeroTalentTreeSelectionPanelToggledEvent {
    fn p(c: &mut C) -> bool { c.skip(1) }
    fn v(&self, c: &mut C) { c.vbool(self.m_shown, "GameSHeroTalentTreeSelectionPanelToggledEvent.m_shown"); }
}
impl W for b87::GameSMuteChatEvent {
    fn p(c: &mut C) -> bool { <b87::TUserId as W>::p(c) && c.skip(1) }
    fn v(&self, c: &mut C) { self.m_target_user_id.v(c); c.vbool(self.m_muted, "GameSMuteChatEvent.m_muted"); }
}
impl W for b87::GameSConvertToReplaySessionEvent {
    fn p(c: &mut C) -> bool { c.opt::<b87::Int32>() }
    fn v(&self, c: &mut C) { c.vopt(&self.m_replay_jump_game_loop); }
}
impl W for b87::GameSSetSyncLoadingTimeEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_sync_time.v(c); }
}
impl W for b87::GameSSetSyncPlayingTimeEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_sync_time.v(c); }
}
impl W for b87::GameSPeerSetSyncLoadingTimeEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_sync_time.v(c); }
}
impl W for b87::GameSPeerSetSyncPlayingTimeEvent {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_sync_time.v(c); }
}
impl W for b87::GameEGameSpeed {
    fn p(c: &mut C) -> bool { match c.tag(3, &[0,1,2,3,4]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::ESlower => c.vtag(0, 3, "GameEGameSpeed"), Self::ESlow => c.vtag(1, 3, "GameEGameSpeed"), Self::ENormal => c.vtag(2, 3, "GameEGameSpeed"), Self::EFast => c.vtag(3, 3, "GameEGameSpeed"), Self::EFaster => c.vtag(4, 3, "GameEGameSpeed"), } }
}
impl W for b87::GameEPhase {
    fn p(c: &mut C) -> bool { match c.tag(3, &[0,1,2,3,4,5]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::EInitializing => c.vtag(0, 3, "GameEPhase"), Self::ELobby => c.vtag(1, 3, "GameEPhase"), Self::EClosed => c.vtag(2, 3, "GameEPhase"), Self::ELoading => c.vtag(3, 3, "GameEPhase"), Self::EPlaying => c.vtag(4, 3, "GameEPhase"), Self::EGameover => c.vtag(5, 3, "GameEPhase"), } }
}
impl W for b87::GameEConversationSkip {
    fn p(c: &mut C) -> bool { match c.tag(1, &[0,1]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::ESkipOneLine => c.vtag(0, 1, "GameEConversationSkip"), Self::ESkipAllLines => c.vtag(1, 1, "GameEConversationSkip"), } }
}
impl W for b87::GameCCheatString {
    fn p(c: &mut C) -> bool { c.string(11) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 11, "GameCCheatString"); }
}
impl W for b87::GameCTriggerChatMessageString {
    fn p(c: &mut C) -> bool { c.string(11) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 11, "GameCTriggerChatMessageString"); }
}
impl W for b87::GameTAchievementLink {
    fn p(c: &mut C) -> bool { <b87::Uint16 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTButtonLink {
    fn p(c: &mut C) -> bool { <b87::Uint16 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTUnitLink {
    fn p(c: &mut C) -> bool { <b87::Uint16 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTUnitTag {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTTriggerThreadTag {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTTriggerSoundTag {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTAbilLink {
    fn p(c: &mut C) -> bool { <b87::Uint16 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTFixedBits {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTFixedMiniBitsUnsigned {
    fn p(c: &mut C) -> bool { <b87::Uint16 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTFixedMiniBitsSigned {
    fn p(c: &mut C) -> bool { <b87::Int16 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTPlayerLogoIndex {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTMapCoordFixedBits {
    fn p(c: &mut C) -> bool { c.skip(20) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 20, "GameTMapCoordFixedBits"); }
}
impl W for b87::GameTuiCoordX {
    fn p(c: &mut C) -> bool { c.skip(11) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 11, "GameTuiCoordX"); }
}
impl W for b87::GameTuiCoordY {
    fn p(c: &mut C) -> bool { c.skip(11) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 11, "GameTuiCoordY"); }
}
impl W for b87::GameSPoint {
    fn p(c: &mut C) -> bool { <b87::GameTFixedBits as W>::p(c) && <b87::GameTFixedBits as W>::p(c) }
    fn v(&self, c: &mut C) { self.x.v(c); self.y.v(c); }
}
impl W for b87::GameSPoint3 {
    fn p(c: &mut C) -> bool { <b87::GameTFixedBits as W>::p(c) && <b87::GameTFixedBits as W>::p(c) && <b87::GameTFixedBits as W>::p(c) }
    fn v(&self, c: &mut C) { self.x.v(c); self.y.v(c); self.z.v(c); }
}
impl W for b87::GameSPointMini {
    fn p(c: &mut C) -> bool { <b87::GameTFixedMiniBitsUnsigned as W>::p(c) && <b87::GameTFixedMiniBitsUnsigned as W>::p(c) }
    fn v(&self, c: &mut C) { self.x.v(c); self.y.v(c); }
}
impl W for b87::GameSMapCoord3D {
    fn p(c: &mut C) -> bool { <b87::GameTMapCoordFixedBits as W>::p(c) && <b87::GameTMapCoordFixedBits as W>::p(c) && <b87::GameTFixedBits as W>::p(c) }
    fn v(&self, c: &mut C) { self.x.v(c); self.y.v(c); self.z.v(c); }
}
impl W for b87::GameSuiCoord {
    fn p(c: &mut C) -> bool { <b87::GameTuiCoordX as W>::p(c) && <b87::GameTuiCoordY as W>::p(c) }
    fn v(&self, c: &mut C) { self.x.v(c); self.y.v(c); }
}
impl W for b87::GameTHandicap {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTDifficulty {
    fn p(c: &mut C) -> bool { c.skip(6) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 6, "GameTDifficulty"); }
}
impl W for b87::GameCAllowedDifficulty {
    fn p(c: &mut C) -> bool { c.mask64(6) }
    fn v(&self, c: &mut C) { c.vmask64(self.value, 6, "GameCAllowedDifficulty"); }
}
impl W for b87::GameTaiBuild {
    fn p(c: &mut C) -> bool { c.skip(8) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 8, "GameTaiBuild"); }
}
impl W for b87::GameCAllowedAiBuild {
    fn p(c: &mut C) -> bool { c.mask(8) }
    fn v(&self, c: &mut C) { c.vmask(&self.value, 8, "GameCAllowedAiBuild"); }
}
impl W for b87::GameSSyncSoundLength {
    fn p(c: &mut C) -> bool { c.array::<b87::Uint32>(7) && c.array::<b87::Uint32>(7) }
    fn v(&self, c: &mut C) { c.varray(&self.m_sound_hash, 7, "GameSSyncSoundLength.m_sound_hash"); c.varray(&self.m_length, 7, "GameSSyncSoundLength.m_length"); }
}
impl W for b87::GameEOptionFog {
    fn p(c: &mut C) -> bool { match c.tag(2, &[0,1,2,3]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::EDefault => c.vtag(0, 2, "GameEOptionFog"), Self::EHideTerrain => c.vtag(1, 2, "GameEOptionFog"), Self::EMapExplored => c.vtag(2, 2, "GameEOptionFog"), Self::EAlwaysVisible => c.vtag(3, 2, "GameEOptionFog"), } }
}
impl W for b87::GameEOptionObservers {
    fn p(c: &mut C) -> bool { match c.tag(2, &[0,1,2,3]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::ENone => c.vtag(0, 2, "GameEOptionObservers"), Self::EOnJoin => c.vtag(1, 2, "GameEOptionObservers"), Self::EOnJoinAndDefeat => c.vtag(2, 2, "GameEOptionObservers"), Self::ERefereesOnJoin => c.vtag(3, 2, "GameEOptionObservers"), } }
}
impl W for b87::GameEOptionUserDifficulty {
    fn p(c: &mut C) -> bool { match c.tag(2, &[0,1,2]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::ENone => c.vtag(0, 2, "GameEOptionUserDifficulty"), Self::EGlobal => c.vtag(1, 2, "GameEOptionUserDifficulty"), Self::EIndividual => c.vtag(2, 2, "GameEOptionUserDifficulty"), } }
}
impl W for b87::GameEClientDebugFlags {
    fn p(c: &mut C) -> bool { c.skip(64) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 64, "GameEClientDebugFlags"); }
}
impl W for b87::GameSGameOptions {
    fn p(c: &mut C) -> bool { c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && <b87::GameEOptionFog as W>::p(c) && <b87::GameEOptionObservers as W>::p(c) && <b87::GameEOptionUserDifficulty as W>::p(c) && <b87::GameEClientDebugFlags as W>::p(c) && c.skip(1) }
    fn v(&self, c: &mut C) { c.vbool(self.m_lock_teams, "GameSGameOptions.m_lock_teams"); c.vbool(self.m_teams_together, "GameSGameOptions.m_teams_together"); c.vbool(self.m_advanced_shared_control, "GameSGameOptions.m_advanced_shared_control"); c.vbool(self.m_random_races, "GameSGameOptions.m_random_races"); c.vbool(self.m_battle_net, "GameSGameOptions.m_battle_net"); c.vbool(self.m_amm, "GameSGameOptions.m_amm"); c.vbool(self.m_competitive, "GameSGameOptions.m_competitive"); c.vbool(self.m_practice, "GameSGameOptions.m_practice"); c.vbool(self.m_cooperative, "GameSGameOptions.m_cooperative"); c.vbool(self.m_no_victory_or_defeat, "GameSGameOptions.m_no_victory_or_defeat"); c.vbool(self.m_hero_duplicates_allowed, "GameSGameOptions.m_hero_duplicates_allowed"); self.m_fog.v(c); self.m_observers.v(c); self.m_user_difficulty.v(c); self.m_client_debug_flags.v(c); c.vbool(self.m_build_coach_enabled, "GameSGameOptions.m_build_coach_enabled"); }
}
impl W for b87::GameEGameType {
    fn p(c: &mut C) -> bool { match c.tag(3, &[0,1,2,3,4,5,6]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::EMelee => c.vtag(0, 3, "GameEGameType"), Self::EFreeForAll => c.vtag(1, 3, "GameEGameType"), Self::EUseSettings => c.vtag(2, 3, "GameEGameType"), Self::EOneOnOne => c.vtag(3, 3, "GameEGameType"), Self::ETwoTeamPlay => c.vtag(4, 3, "GameEGameType"), Self::EThreeTeamPlay => c.vtag(5, 3, "GameEGameType"), Self::EFourTeamPlay => c.vtag(6, 3, "GameEGameType"), } }
}
impl W for b87::GameTControlId {
    fn p(c: &mut C) -> bool { c.skip(8) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 8, "GameTControlId"); }
}
impl W for b87::GameTControlCount {
    fn p(c: &mut C) -> bool { c.skip(8) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 8, "GameTControlCount"); }
}
impl W for b87::GameCAllowedControls {
    fn p(c: &mut C) -> bool { c.mask(8) }
    fn v(&self, c: &mut C) { c.vmask(&self.value, 8, "GameCAllowedControls"); }
}
impl W for b87::GameSSlotDescription {
    fn p(c: &mut C) -> bool { <b87::GameCAllowedColors as W>::p(c) && <b87::CAllowedRaces as W>::p(c) && <b87::GameCAllowedDifficulty as W>::p(c) && <b87::GameCAllowedControls as W>::p(c) && <b87::CAllowedObserveTypes as W>::p(c) && <b87::GameCAllowedAiBuild as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_allowed_colors.v(c); self.m_allowed_races.v(c); self.m_allowed_difficulty.v(c); self.m_allowed_controls.v(c); self.m_allowed_observe_types.v(c); self.m_allowed_ai_builds.v(c); }
}
impl W for b87::GameCCacheHandle {
    fn p(c: &mut C) -> bool { c.blob(320) }
    fn v(&self, c: &mut C) { c.vblob(&self.value, 320, "GameCCacheHandle"); }
}
impl W for b87::GameCCacheHandles {
    fn p(c: &mut C) -> bool { c.array::<b87::GameCCacheHandle>(6) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 6, "GameCCacheHandles"); }
}
impl W for b87::GameCGameCacheName {
    fn p(c: &mut C) -> bool { c.string(11) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 11, "GameCGameCacheName"); }
}
impl W for b87::GameCAuthorName {
    fn p(c: &mut C) -> bool { c.string(8) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 8, "GameCAuthorName"); }
}
impl W for b87::GameSSlotDescriptions {
    fn p(c: &mut C) -> bool { c.array::<b87::GameSSlotDescription>(5) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 5, "GameSSlotDescriptions"); }
}
impl W for b87::GameSGameDescription {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) && <b87::GameCGameCacheName as W>::p(c) && <b87::GameSGameOptions as W>::p(c) && <b87::GameEGameSpeed as W>::p(c) && <b87::GameEGameType as W>::p(c) && <b87::TUserCount as W>::p(c) && <b87::TUserCount as W>::p(c) && <b87::GameTPlayerCount as W>::p(c) && <b87::GameTTeamCount as W>::p(c) && <b87::GameTColorCount as W>::p(c) && <b87::TRaceCount as W>::p(c) && <b87::GameTControlCount as W>::p(c) && <b87::Uint8 as W>::p(c) && <b87::Uint8 as W>::p(c) && <b87::GameTSyncChecksum as W>::p(c) && <b87::CFilePath as W>::p(c) && <b87::GameCAuthorName as W>::p(c) && <b87::GameTSyncChecksum as W>::p(c) && <b87::GameSSlotDescriptions as W>::p(c) && <b87::GameTDifficulty as W>::p(c) && <b87::GameTaiBuild as W>::p(c) && <b87::GameCCacheHandles as W>::p(c) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) && c.skip(1) }
    fn v(&self, c: &mut C) { self.m_random_value.v(c); self.m_game_cache_name.v(c); self.m_game_options.v(c); self.m_game_speed.v(c); self.m_game_type.v(c); self.m_max_users.v(c); self.m_max_observers.v(c); self.m_max_players.v(c); self.m_max_teams.v(c); self.m_max_colors.v(c); self.m_max_races.v(c); self.m_max_controls.v(c); self.m_map_size_x.v(c); self.m_map_size_y.v(c); self.m_map_file_sync_checksum.v(c); self.m_map_file_name.v(c); self.m_map_author_name.v(c); self.m_mod_file_sync_checksum.v(c); self.m_slot_descriptions.v(c); self.m_default_difficulty.v(c); self.m_default_ai_build.v(c); self.m_cache_handles.v(c); c.vbool(self.m_has_extension_mod, "GameSGameDescription.m_has_extension_mod"); c.vbool(self.m_has_non_blizzard_extension_mod, "GameSGameDescription.m_has_non_blizzard_extension_mod"); c.vbool(self.m_is_blizzard_map, "GameSGameDescription.m_is_blizzard_map"); c.vbool(self.m_is_premade_ffa, "GameSGameDescription.m_is_premade_ffa"); c.vbool(self.m_is_coop_mode, "GameSGameDescription.m_is_coop_mode"); c.vbool(self.m_is_realtime_mode, "GameSGameDescription.m_is_realtime_mode"); }
}
impl W for b87::GameTLobbySlotId {
    fn p(c: &mut C) -> bool { c.skip(4) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 4, "GameTLobbySlotId"); }
}
impl W for b87::GameCArtifactArray {
    fn p(c: &mut C) -> bool { c.array::<b87::CArtifactHandle>(4) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 4, "GameCArtifactArray"); }
}
impl W for b87::GameCCommanderMasteryTalentArray {
    fn p(c: &mut C) -> bool { c.array::<b87::Uint32>(3) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 3, "GameCCommanderMasteryTalentArray"); }
}
impl W for b87::GameCRetryMutationIndexArray {
    fn p(c: &mut C) -> bool { c.array::<b87::Uint32>(3) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 3, "GameCRetryMutationIndexArray"); }
}
impl W for b87::GameTReward {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameCRewardArray {
    fn p(c: &mut C) -> bool { c.array::<b87::GameTReward>(17) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 17, "GameCRewardArray"); }
}
impl W for b87::GameCRewardOverride {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) && <b87::GameCRewardArray as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_key.v(c); self.m_rewards.v(c); }
}
impl W for b87::GameCRewardOverrideArray {
    fn p(c: &mut C) -> bool { c.array::<b87::GameCRewardOverride>(17) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 17, "GameCRewardOverrideArray"); }
}
impl W for b87::GameTLicense {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameCLicenseArray {
    fn p(c: &mut C) -> bool { c.array::<b87::GameTLicense>(16) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 16, "GameCLicenseArray"); }
}
impl W for b87::GameSLobbySlot {
    fn p(c: &mut C) -> bool { <b87::GameTControlId as W>::p(c) && c.opt::<b87::TUserId>() && <b87::GameTTeamId as W>::p(c) && <b87::GameTColorPreference as W>::p(c) && <b87::TRacePreference as W>::p(c) && <b87::GameTDifficulty as W>::p(c) && <b87::GameTaiBuild as W>::p(c) && <b87::GameTHandicap as W>::p(c) && <b87::EObserve as W>::p(c) && <b87::GameTPlayerLogoIndex as W>::p(c) && <b87::CHeroHandle as W>::p(c) && <b87::CSkinHandle as W>::p(c) && <b87::CMountHandle as W>::p(c) && <b87::GameCArtifactArray as W>::p(c) && c.opt::<b87::Uint8>() && <b87::GameCRewardArray as W>::p(c) && <b87::CToonHandle as W>::p(c) && <b87::GameCLicenseArray as W>::p(c) && c.opt::<b87::TUserId>() && <b87::CCommanderHandle as W>::p(c) && <b87::Uint32 as W>::p(c) && c.skip(1) && c.opt::<b87::TUserId>() && <b87::Uint32 as W>::p(c) && <b87::GameCCommanderMasteryTalentArray as W>::p(c) && <b87::Uint32 as W>::p(c) && <b87::GameCRewardOverrideArray as W>::p(c) && <b87::Uint32 as W>::p(c) && <b87::GameCRetryMutationIndexArray as W>::p(c) && <b87::Uint32 as W>::p(c) && <b87::Uint32 as W>::p(c) && <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_control.v(c); c.vopt(&self.m_user_id); self.m_team_id.v(c); self.m_color_pref.v(c); self.m_race_pref.v(c); self.m_difficulty.v(c); self.m_ai_build.v(c); self.m_handicap.v(c); self.m_observe.v(c); self.m_logo_index.v(c); self.m_hero.v(c); self.m_skin.v(c); self.m_mount.v(c); self.m_artifacts.v(c); c.vopt(&self.m_working_set_slot_id); self.m_rewards.v(c); self.m_toon_handle.v(c); self.m_licenses.v(c); c.vopt(&self.m_tandem_leader_id); self.m_commander.v(c); self.m_commander_level.v(c); c.vbool(self.m_has_silence_penalty, "GameSLobbySlot.m_has_silence_penalty"); c.vopt(&self.m_tandem_id); self.m_commander_mastery_level.v(c); self.m_commander_mastery_talents.v(c); self.m_trophy_id.v(c); self.m_reward_overrides.v(c); self.m_brutal_plus_difficulty.v(c); self.m_retry_mutation_indexes.v(c); self.m_a_c_enemy_race.v(c); self.m_a_c_enemy_wave_type.v(c); self.m_selected_commander_prestige.v(c); }
}
impl W for b87::GameCLobbySlotArray {
    fn p(c: &mut C) -> bool { c.array::<b87::GameSLobbySlot>(5) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 5, "GameCLobbySlotArray"); }
}
impl W for b87::GameSLobbySlotChange {
    fn p(c: &mut C) -> bool { match c.tag(5, &[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24]) { Some(t) => match t { 0 => <b87::GameTControlId as W>::p(c), 1 => c.opt::<b87::TUserId>(), 2 => <b87::GameTTeamId as W>::p(c), 3 => <b87::GameTColorPreference as W>::p(c), 4 => <b87::TRacePreference as W>::p(c), 5 => <b87::GameTDifficulty as W>::p(c), 6 => <b87::GameTaiBuild as W>::p(c), 7 => <b87::GameTHandicap as W>::p(c), 8 => <b87::EObserve as W>::p(c), 9 => <b87::GameTPlayerLogoIndex as W>::p(c), 10 => <b87::CHeroHandle as W>::p(c), 11 => <b87::CSkinHandle as W>::p(c), 12 => <b87::CMountHandle as W>::p(c), 13 => <b87::GameCLicenseArray as W>::p(c), 14 => c.opt::<b87::TUserId>(), 15 => <b87::CCommanderHandle as W>::p(c), 16 => <b87::Uint32 as W>::p(c), 17 => c.skip(1), 18 => c.opt::<b87::TUserId>(), 19 => <b87::Uint32 as W>::p(c), 20 => <b87::Uint32 as W>::p(c), 21 => <b87::GameCRetryMutationIndexArray as W>::p(c), 22 => <b87::Uint32 as W>::p(c), 23 => <b87::Uint32 as W>::p(c), 24 => <b87::Uint32 as W>::p(c), _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::MControl(x) => { c.vtag(0, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MUserId(x) => { c.vtag(1, 5, "GameSLobbySlotChange"); c.vopt(&*x) } Self::MTeamId(x) => { c.vtag(2, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MColorPref(x) => { c.vtag(3, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MRacePref(x) => { c.vtag(4, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MDifficulty(x) => { c.vtag(5, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MAiBuild(x) => { c.vtag(6, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MHandicap(x) => { c.vtag(7, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MObserve(x) => { c.vtag(8, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MLogoIndex(x) => { c.vtag(9, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MHero(x) => { c.vtag(10, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MSkin(x) => { c.vtag(11, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MMount(x) => { c.vtag(12, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MLicenses(x) => { c.vtag(13, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MTandemLeaderId(x) => { c.vtag(14, 5, "GameSLobbySlotChange"); c.vopt(&*x) } Self::MCommander(x) => { c.vtag(15, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MCommanderLevel(x) => { c.vtag(16, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MHasSilencePenalty(x) => { c.vtag(17, 5, "GameSLobbySlotChange"); c.vbool(*x, "GameSLobbySlotChange::MHasSilencePenalty") } Self::MTandemId(x) => { c.vtag(18, 5, "GameSLobbySlotChange"); c.vopt(&*x) } Self::MCommanderMasteryLevel(x) => { c.vtag(19, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MBrutalPlusDifficulty(x) => { c.vtag(20, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MRetryMutationIndexes(x) => { c.vtag(21, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MACEnemyRace(x) => { c.vtag(22, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MACEnemyWaveType(x) => { c.vtag(23, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MSelectedCommanderPrestige(x) => { c.vtag(24, 5, "GameSLobbySlotChange"); (*x).v(c) } } }
}
impl W for b87::GameSLobbyState {
    fn p(c: &mut C) -> bool { <b87::GameEPhase as W>::p(c) && <b87::TUserCount as W>::p(c) && <b87::TUserCount as W>::p(c) && <b87::GameCLobbySlotArray as W>::p(c) && <b87::Uint32 as W>::p(c) && c.opt::<b87::TUserId>() && c.skip(1) && <b87::Uint8 as W>::p(c) && <b87::Uint32 as W>::p(c) && <b87::GameTDifficulty as W>::p(c) && <b87::GameTaiBuild as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_phase.v(c); self.m_max_users.v(c); self.m_max_observers.v(c); self.m_slots.v(c); self.m_random_seed.v(c); c.vopt(&self.m_host_user_id); c.vbool(self.m_is_single_player, "GameSLobbyState.m_is_single_player"); self.m_picked_map_tag.v(c); self.m_game_duration.v(c); self.m_default_difficulty.v(c); self.m_default_ai_build.v(c); }
}
impl W for b87::GameSLobbySyncState {
    fn p(c: &mut C) -> bool { <b87::CUserInitialDataArray as W>::p(c) && <b87::GameSGameDescription as W>::p(c) && <b87::GameSLobbyState as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_user_initial_data.v(c); self.m_game_description.v(c); self.m_lobby_state.v(c); }
}
impl W for b87::GameEMessageRecipient {
    fn p(c: &mut C) -> bool { match c.tag(3, &[0,1,2,3,4]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::EAll => c.vtag(0, 3, "GameEMessageRecipient"), Self::EAllies => c.vtag(1, 3, "GameEMessageRecipient"), Self::EIndividual => c.vtag(2, 3, "GameEMessageRecipient"), Self::EBattlenet => c.vtag(3, 3, "GameEMessageRecipient"), Self::EObservers => c.vtag(4, 3, "GameEMessageRecipient"), } }
}
impl W for b87::GameCChatString {
    fn p(c: &mut C) -> bool { c.string(11) }
    fn v(&self, c: &mut C) { c.vstring(&self.value, 11, "GameCChatString"); }
}
impl W for b87::GameEMessageId {
    fn p(c: &mut C) -> bool { match c.tag(4, &[0,1,2,3,4]) { Some(t) => match t { 0 => <b87::GameSChatMessage as W>::p(c), 1 => <b87::GameSPingMessage as W>::p(c), 2 => <b87::GameSLoadingProgressMessage as W>::p(c), 3 => <b87::GameSServerPingMessage as W>::p(c), 4 => <b87::GameSReconnectNotifyMessage as W>::p(c), _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::EChat(x) => { c.vtag(0, 4, "GameEMessageId"); (*x).v(c) } Self::EPing(x) => { c.vtag(1, 4, "GameEMessageId"); (*x).v(c) } Self::ELoadingProgress(x) => { c.vtag(2, 4, "GameEMessageId"); (*x).v(c) } Self::EServerPing(x) => { c.vtag(3, 4, "GameEMessageId"); (*x).v(c) } Self::EReconnectNotify(x) => { c.vtag(4, 4, "GameEMessageId"); (*x).v(c) } } }
}
impl W for b87::GameSChatMessage {
    fn p(c: &mut C) -> bool { <b87::GameEMessageRecipient as W>::p(c) && <b87::GameCChatString as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_recipient.v(c); self.m_string.v(c); }
}
impl W for b87::GameSPingMessage {
    fn p(c: &mut C) -> bool { <b87::GameEMessageRecipient as W>::p(c) && <b87::GameSPoint as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_recipient.v(c); self.m_point.v(c); }
}
impl W for b87::GameSLoadingProgressMessage {
    fn p(c: &mut C) -> bool { <b87::Int32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_progress.v(c); }
}
impl W for b87::GameSServerPingMessage {
    fn p(c: &mut C) -> bool { true }
    fn v(&self, c: &mut C) {  }
}
impl W for b87::GameSReconnectNotifyMessage {
    fn p(c: &mut C) -> bool { <b87::EReconnectStatus as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_status.v(c); }
}
impl W for b87::GameTPlayerId {
    fn p(c: &mut C) -> bool { c.skip(4) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 4, "GameTPlayerId"); }
}
impl W for b87::GameTPlayerCount {
    fn p(c: &mut C) -> bool { c.skip(5) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 5, "GameTPlayerCount"); }
}
impl W for b87::GameEControlGroupUpdate {
    fn p(c: &mut C) -> bool { match c.tag(3, &[0,1,2,3,4,5]) { Some(t) => match t {  _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::ESet => c.vtag(0, 3, "GameEControlGroupUpdate"), Self::EAppend => c.vtag(1, 3, "GameEControlGroupUpdate"), Self::ERecall => c.vtag(2, 3, "GameEControlGroupUpdate"), Self::EClear => c.vtag(3, 3, "GameEControlGroupUpdate"), Self::ESetAndSteal => c.vtag(4, 3, "GameEControlGroupUpdate"), Self::EAppendAndSteal => c.vtag(5, 3, "GameEControlGroupUpdate"), } }
}
impl W for b87::GameTSelectionCount {
    fn p(c: &mut C) -> bool { c.skip(9) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 9, "GameTSelectionCount"); }
}
impl W for b87::GameTSelectionIndex {
    fn p(c: &mut C) -> bool { c.skip(9) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 9, "GameTSelectionIndex"); }
}
impl W for b87::GameTSubgroupPriority {
    fn p(c: &mut C) -> bool { c.skip(8) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 8, "GameTSubgroupPriority"); }
}
impl W for b87::GameTSubgroupCount {
    fn p(c: &mut C) -> bool { c.skip(9) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 9, "GameTSubgroupCount"); }
}
impl W for b87::GameTSubgroupIndex {
    fn p(c: &mut C) -> bool { c.skip(9) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 9, "GameTSubgroupIndex"); }
}
impl W for b87::GameTControlGroupIndex {
    fn p(c: &mut C) -> bool { c.skip(4) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 4, "GameTControlGroupIndex"); }
}
impl W for b87::GameTControlGroupId {
    fn p(c: &mut C) -> bool { c.skip(4) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 4, "GameTControlGroupId"); }
}
impl W for b87::GameSSelectionDeltaSubgroup {
    fn p(c: &mut C) -> bool { <b87::GameTUnitLink as W>::p(c) && <b87::GameTSubgroupPriority as W>::p(c) && <b87::GameTSubgroupPriority as W>::p(c) && <b87::GameTSelectionCount as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_unit_link.v(c); self.m_subgroup_priority.v(c); self.m_intra_subgroup_priority.v(c); self.m_count.v(c); }
}
impl W for b87::GameSelectionIndexArrayType {
    fn p(c: &mut C) -> bool { c.array::<b87::GameTSelectionIndex>(9) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 9, "GameSelectionIndexArrayType"); }
}
impl W for b87::GameSelectionMaskType {
    fn p(c: &mut C) -> bool { c.mask(9) }
    fn v(&self, c: &mut C) { c.vmask(&self.value, 9, "GameSelectionMaskType"); }
}
impl W for b87::GameSSelectionMask {
    fn p(c: &mut C) -> bool { match c.tag(2, &[0,1,2,3]) { Some(t) => match t { 1 => <b87::GameSelectionMaskType as W>::p(c), 2 => <b87::GameSelectionIndexArrayType as W>::p(c), 3 => <b87::GameSelectionIndexArrayType as W>::p(c), _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::None(()) => c.vtag(0, 2, "GameSSelectionMask"), Self::Mask(x) => { c.vtag(1, 2, "GameSSelectionMask"); (*x).v(c) } Self::OneIndices(x) => { c.vtag(2, 2, "GameSSelectionMask"); (*x).v(c) } Self::ZeroIndices(x) => { c.vtag(3, 2, "GameSSelectionMask"); (*x).v(c) } } }
}
impl W for b87::GameSSelectionDelta {
    fn p(c: &mut C) -> bool { <b87::GameTSubgroupIndex as W>::p(c) && <b87::GameSSelectionMask as W>::p(c) && c.array::<b87::GameSSelectionDeltaSubgroup>(9) && c.array::<b87::GameTUnitTag>(9) }
    fn v(&self, c: &mut C) { self.m_subgroup_index.v(c); self.m_remove_mask.v(c); c.varray(&self.m_add_subgroups, 9, "GameSSelectionDelta.m_add_subgroups"); c.varray(&self.m_add_unit_tags, 9, "GameSSelectionDelta.m_add_unit_tags"); }
}
impl W for b87::GameSSelectionSyncData {
    fn p(c: &mut C) -> bool { <b87::GameTSelectionCount as W>::p(c) && <b87::GameTSubgroupCount as W>::p(c) && <b87::GameTSubgroupIndex as W>::p(c) && <b87::GameTSyncChecksum as W>::p(c) && <b87::GameTSyncChecksum as W>::p(c) && <b87::GameTSyncChecksum as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_count.v(c); self.m_subgroup_count.v(c); self.m_active_subgroup_index.v(c); self.m_unit_tags_checksum.v(c); self.m_subgroup_indices_checksum.v(c); self.m_subgroups_checksum.v(c); }
}
impl W for b87::GameTSyncChecksum {
    fn p(c: &mut C) -> bool { <b87::Uint32 as W>::p(c) }
    fn v(&self, c: &mut C) { self.value.v(c); }
}
impl W for b87::GameTTeamId {
    fn p(c: &mut C) -> bool { c.skip(4) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 4, "GameTTeamId"); }
}
impl W for b87::GameTTeamCount {
    fn p(c: &mut C) -> bool { c.skip(5) }
    fn v(&self, c: &mut C) { c.vi(self.value, 1, 5, "GameTTeamCount"); }
}
impl W for b87::ReplaySInitData {
    fn p(c: &mut C) -> bool { <b87::GameSLobbySyncState as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_sync_lobby_state.v(c); }
}
impl W for b87::ReplaySGameUserId {
    fn p(c: &mut C) -> bool { c.skip(5) }
    fn v(&self, c: &mut C) { c.vi(self.m_user_id, 0, 5, "ReplaySGameUserId.m_user_id"); }
}
impl W for b75::GameEEventId {
    fn p(c: &mut C) -> bool { match c.tag(7, &[0,1,2,3,4,5,6,7,114,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,94,95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,115,116,117,118,119]) { Some(t) => match t { 0 => <b87::GameSSetLobbySlotEvent as W>::p(c), 1 => <b87::GameSDropUserEvent as W>::p(c), 2 => <b87::GameSStartGameEvent as W>::p(c), 3 => <b87::GameSDropOurselvesEvent as W>::p(c), 4 => <b87::GameSUserFinishedLoadingEvent as W>::p(c), 5 => <b87::GameSUserFinishedLoadingSyncEvent as W>::p(c), 6 => <b87::GameSSetGameDurationEvent as W>::p(c), 7 => <b87::GameSUserOptionsEvent as W>::p(c), 114 => <b87::GameSPickMapTagEvent as W>::p(c), 8 => <b87::GameSTurnEvent as W>::p(c), 9 => <b87::GameSBankFileEvent as W>::p(c), 10 => <b87::GameSBankSectionEvent as W>::p(c), 11 => <b87::GameSBankKeyEvent as W>::p(c), 12 => <b87::GameSBankValueEvent as W>::p(c), 13 => <b87::GameSBankSignatureEvent as W>::p(c), 14 => <b87::GameSCameraSaveEvent as W>::p(c), 15 => <b87::GameSPauseGameEvent as W>::p(c), 16 => <b87::GameSUnpauseGameEvent as W>::p(c), 17 => <b87::GameSSingleStepGameEvent as W>::p(c), 18 => <b87::GameSSetGameSpeedEvent as W>::p(c), 19 => <b87::GameSAddGameSpeedEvent as W>::p(c), 20 => <b87::GameSReplayJumpEvent as W>::p(c), 21 => <b87::GameSSaveGameEvent as W>::p(c), 22 => <b87::GameSSaveGameDoneEvent as W>::p(c), 23 => <b87::GameSLoadGameDoneEvent as W>::p(c), 24 => <b87::GameSSessionCheatEvent as W>::p(c), 25 => <b87::GameSCommandManagerResetEvent as W>::p(c), 26 => <b87::GameSGameCheatEvent as W>::p(c), 27 => <b75::GameSCmdEvent as W>::p(c), 28 => <b87::GameSSelectionDeltaEvent as W>::p(c), 29 => <b87::GameSControlGroupUpdateEvent as W>::p(c), 30 => <b87::GameSSelectionSyncCheckEvent as W>::p(c), 31 => <b87::GameSResourceTradeEvent as W>::p(c), 32 => <b87::GameSTriggerChatMessageEvent as W>::p(c), 33 => <b87::GameSaiCommunicateEvent as W>::p(c), 34 => <b87::GameSSetAbsoluteGameSpeedEvent as W>::p(c), 35 => <b87::GameSAddAbsoluteGameSpeedEvent as W>::p(c), 36 => <b87::GameSTriggerPingEvent as W>::p(c), 37 => <b87::GameSBroadcastCheatEvent as W>::p(c), 38 => <b87::GameSAllianceEvent as W>::p(c), 39 => <b87::GameSUnitClickEvent as W>::p(c), 40 => <b87::GameSUnitHighlightEvent as W>::p(c), 41 => <b87::GameSTriggerReplySelectedEvent as W>::p(c), 42 => <b87::GameSHijackReplaySessionEvent as W>::p(c), 43 => <b87::GameSHijackReplayGameEvent as W>::p(c), 44 => <b87::GameSTriggerSkippedEvent as W>::p(c), 45 => <b87::GameSTriggerSoundLengthQueryEvent as W>::p(c), 46 => <b87::GameSTriggerSoundOffsetEvent as W>::p(c), 47 => <b87::GameSTriggerTransmissionOffsetEvent as W>::p(c), 48 => <b87::GameSTriggerTransmissionCompleteEvent as W>::p(c), 49 => <b87::GameSCameraUpdateEvent as W>::p(c), 50 => <b87::GameSTriggerAbortMissionEvent as W>::p(c), 51 => <b87::GameSTriggerPurchaseMadeEvent as W>::p(c), 52 => <b87::GameSTriggerPurchaseExitEvent as W>::p(c), 53 => <b87::GameSTriggerPlanetMissionLaunchedEvent as W>::p(c), 54 => <b87::GameSTriggerPlanetPanelCanceledEvent as W>::p(c), 55 => <b87::GameSTriggerDialogControlEvent as W>::p(c), 56 => <b87::GameSTriggerSoundLengthSyncEvent as W>::p(c), 57 => <b87::GameSTriggerConversationSkippedEvent as W>::p(c), 58 => <b87::GameSTriggerMouseClickedEvent as W>::p(c), 59 => <b87::GameSTriggerMouseMovedEvent as W>::p(c), 60 => <b87::GameSAchievementAwardedEvent as W>::p(c), 61 => <b87::GameSTriggerHotkeyPressedEvent as W>::p(c), 62 => <b87::GameSTriggerTargetModeUpdateEvent as W>::p(c), 63 => <b87::GameSTriggerPlanetPanelReplayEvent as W>::p(c), 64 => <b87::GameSTriggerSoundtrackDoneEvent as W>::p(c), 65 => <b87::GameSTriggerPlanetMissionSelectedEvent as W>::p(c), 66 => <b87::GameSTriggerKeyPressedEvent as W>::p(c), 67 => <b87::GameSTriggerMovieFunctionEvent as W>::p(c), 68 => <b87::GameSTriggerPlanetPanelBirthCompleteEvent as W>::p(c), 69 => <b87::GameSTriggerPlanetPanelDeathCompleteEvent as W>::p(c), 70 => <b87::GameSResourceRequestEvent as W>::p(c), 71 => <b87::GameSResourceRequestFulfillEvent as W>::p(c), 72 => <b87::GameSResourceRequestCancelEvent as W>::p(c), 73 => <b87::GameSTriggerResearchPanelExitEvent as W>::p(c), 74 => <b87::GameSTriggerResearchPanelPurchaseEvent as W>::p(c), 75 => <b87::GameSTriggerResearchPanelSelectionChangedEvent as W>::p(c), 76 => <b87::GameSTriggerCommandErrorEvent as W>::p(c), 77 => <b87::GameSTriggerMercenaryPanelExitEvent as W>::p(c), 78 => <b87::GameSTriggerMercenaryPanelPurchaseEvent as W>::p(c), 79 => <b87::GameSTriggerMercenaryPanelSelectionChangedEvent as W>::p(c), 80 => <b87::GameSTriggerVictoryPanelExitEvent as W>::p(c), 81 => <b87::GameSTriggerBattleReportPanelExitEvent as W>::p(c), 82 => <b87::GameSTriggerBattleReportPanelPlayMissionEvent as W>::p(c), 83 => <b87::GameSTriggerBattleReportPanelPlaySceneEvent as W>::p(c), 84 => <b87::GameSTriggerBattleReportPanelSelectionChangedEvent as W>::p(c), 85 => <b87::GameSTriggerVictoryPanelPlayMissionAgainEvent as W>::p(c), 86 => <b87::GameSTriggerMovieStartedEvent as W>::p(c), 87 => <b87::GameSTriggerMovieFinishedEvent as W>::p(c), 88 => <b87::GameSDecrementGameTimeRemainingEvent as W>::p(c), 89 => <b87::GameSTriggerPortraitLoadedEvent as W>::p(c), 90 => <b87::GameSTriggerCustomDialogDismissedEvent as W>::p(c), 91 => <b87::GameSTriggerGameMenuItemSelectedEvent as W>::p(c), 92 => <b87::GameSTriggerMouseWheelEvent as W>::p(c), 93 => <b87::GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent as W>::p(c), 94 => <b87::GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent as W>::p(c), 95 => <b87::GameSTriggerButtonPressedEvent as W>::p(c), 96 => <b87::GameSTriggerGameCreditsFinishedEvent as W>::p(c), 97 => <b87::GameSTriggerCutsceneBookmarkFiredEvent as W>::p(c), 98 => <b87::GameSTriggerCutsceneEndSceneFiredEvent as W>::p(c), 99 => <b87::GameSTriggerCutsceneConversationLineEvent as W>::p(c), 100 => <b87::GameSTriggerCutsceneConversationLineMissingEvent as W>::p(c), 101 => <b87::GameSGameUserLeaveEvent as W>::p(c), 102 => <b87::GameSGameUserJoinEvent as W>::p(c), 103 => <b87::GameSCommandManagerStateEvent as W>::p(c), 104 => <b87::GameSCmdUpdateTargetPointEvent as W>::p(c), 105 => <b87::GameSCmdUpdateTargetUnitEvent as W>::p(c), 106 => <b87::GameSTriggerAnimLengthQueryByNameEvent as W>::p(c), 107 => <b87::GameSTriggerAnimLengthQueryByPropsEvent as W>::p(c), 108 => <b87::GameSTriggerAnimOffsetEvent as W>::p(c), 109 => <b87::GameSCatalogModifyEvent as W>::p(c), 110 => <b87::GameSHeroTalentTreeSelectedEvent as W>::p(c), 111 => <b87::GameSTriggerProfilerLoggingFinishedEvent as W>::p(c), 112 => <b87::GameSHeroTalentTreeSelectionPanelToggledEvent as W>::p(c), 113 => <b87::GameSMuteChatEvent as W>::p(c), 115 => <b87::GameSConvertToReplaySessionEvent as W>::p(c), 116 => <b87::GameSSetSyncLoadingTimeEvent as W>::p(c), 117 => <b87::GameSSetSyncPlayingTimeEvent as W>::p(c), 118 => <b87::GameSPeerSetSyncLoadingTimeEvent as W>::p(c), 119 => <b87::GameSPeerSetSyncPlayingTimeEvent as W>::p(c), _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::ESetLobbySlot(x) => { c.vtag(0, 7, "GameEEventId"); (*x).v(c) } Self::EDropUser(x) => { c.vtag(1, 7, "GameEEventId"); (*x).v(c) } Self::EStartGame(x) => { c.vtag(2, 7, "GameEEventId"); (*x).v(c) } Self::EDropOurselves(x) => { c.vtag(3, 7, "GameEEventId"); (*x).v(c) } Self::EUserFinishedLoading(x) => { c.vtag(4, 7, "GameEEventId"); (*x).v(c) } Self::EUserFinishedLoadingSync(x) => { c.vtag(5, 7, "GameEEventId"); (*x).v(c) } Self::ESetGameDuration(x) => { c.vtag(6, 7, "GameEEventId"); (*x).v(c) } Self::EUserOptions(x) => { c.vtag(7, 7, "GameEEventId"); (*x).v(c) } Self::EPickMapTag(x) => { c.vtag(114, 7, "GameEEventId"); (*x).v(c) } Self::ETurn(x) => { c.vtag(8, 7, "GameEEventId"); (*x).v(c) } Self::EBankFile(x) => { c.vtag(9, 7, "GameEEventId"); (*x).v(c) } Self::EBankSection(x) => { c.vtag(10, 7, "GameEEventId"); (*x).v(c) } Self::EBankKey(x) => { c.vtag(11, 7, "GameEEventId"); (*x).v(c) } Self::EBankValue(x) => { c.vtag(12, 7, "GameEEventId"); (*x).v(c) } Self::EBankSignature(x) => { c.vtag(13, 7, "GameEEventId"); (*x).v(c) } Self::ECameraSave(x) => { c.vtag(14, 7, "GameEEventId"); (*x).v(c) } Self::EPauseGame(x) => { c.vtag(15, 7, "GameEEventId"); (*x).v(c) } Self::EUnpauseGame(x) => { c.vtag(16, 7, "GameEEventId"); (*x).v(c) } Self::ESingleStepGame(x) => { c.vtag(17, 7, "GameEEventId"); (*x).v(c) } Self::ESetGameSpeed(x) => { c.vtag(18, 7, "GameEEventId"); (*x).v(c) } Self::EAddGameSpeed(x) => { c.vtag(19, 7, "GameEEventId"); (*x).v(c) } Self::EReplayJump(x) => { c.vtag(20, 7, "GameEEventId"); (*x).v(c) } Self::ESaveGame(x) => { c.vtag(21, 7, "GameEEventId"); (*x).v(c) } Self::ESaveGameDone(x) => { c.vtag(22, 7, "GameEEventId"); (*x).v(c) } Self::ELoadGameDone(x) => { c.vtag(23, 7, "GameEEventId"); (*x).v(c) } Self::ESessionCheat(x) => { c.vtag(24, 7, "GameEEventId"); (*x).v(c) } Self::ECommandManagerReset(x) => { c.vtag(25, 7, "GameEEventId"); (*x).v(c) } Self::EGameCheat(x) => { c.vtag(26, 7, "GameEEventId"); (*x).v(c) } Self::ECmd(x) => { c.vtag(27, 7, "GameEEventId"); (*x).v(c) } Self::ESelectionDelta(x) => { c.vtag(28, 7, "GameEEventId"); (*x).v(c) } Self::EControlGroupUpdate(x) => { c.vtag(29, 7, "GameEEventId"); (*x).v(c) } Self::ESelectionSyncCheck(x) => { c.vtag(30, 7, "GameEEventId"); (*x).v(c) } Self::EResourceTrade(x) => { c.vtag(31, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerChatMessage(x) => { c.vtag(32, 7, "GameEEventId"); (*x).v(c) } Self::EAiCommunicate(x) => { c.vtag(33, 7, "GameEEventId"); (*x).v(c) } Self::ESetAbsoluteGameSpeed(x) => { c.vtag(34, 7, "GameEEventId"); (*x).v(c) } Self::EAddAbsoluteGameSpeed(x) => { c.vtag(35, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPing(x) => { c.vtag(36, 7, "GameEEventId"); (*x).v(c) } Self::EBroadcastCheat(x) => { c.vtag(37, 7, "GameEEventId"); (*x).v(c) } Self::EAlliance(x) => { c.vtag(38, 7, "GameEEventId"); (*x).v(c) } Self::EUnitClick(x) => { c.vtag(39, 7, "GameEEventId"); (*x).v(c) } Self::EUnitHighlight(x) => { c.vtag(40, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerReplySelected(x) => { c.vtag(41, 7, "GameEEventId"); (*x).v(c) } Self::EHijackReplaySession(x) => { c.vtag(42, 7, "GameEEventId"); (*x).v(c) } Self::EHijackReplayGame(x) => { c.vtag(43, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSkipped(x) => { c.vtag(44, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSoundLengthQuery(x) => { c.vtag(45, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSoundOffset(x) => { c.vtag(46, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerTransmissionOffset(x) => { c.vtag(47, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerTransmissionComplete(x) => { c.vtag(48, 7, "GameEEventId"); (*x).v(c) } Self::ECameraUpdate(x) => { c.vtag(49, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerAbortMission(x) => { c.vtag(50, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPurchaseMade(x) => { c.vtag(51, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPurchaseExit(x) => { c.vtag(52, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetMissionLaunched(x) => { c.vtag(53, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetPanelCanceled(x) => { c.vtag(54, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerDialogControl(x) => { c.vtag(55, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSoundLengthSync(x) => { c.vtag(56, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerConversationSkipped(x) => { c.vtag(57, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMouseClicked(x) => { c.vtag(58, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMouseMoved(x) => { c.vtag(59, 7, "GameEEventId"); (*x).v(c) } Self::EAchievementAwarded(x) => { c.vtag(60, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerHotkeyPressed(x) => { c.vtag(61, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerTargetModeUpdate(x) => { c.vtag(62, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetPanelPanelReplay(x) => { c.vtag(63, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerSoundtrackDone(x) => { c.vtag(64, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetMissionSelected(x) => { c.vtag(65, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerKeyPressed(x) => { c.vtag(66, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMovieFunction(x) => { c.vtag(67, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetPanelPanelBirthComplete(x) => { c.vtag(68, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPlanetPanelPanelDeathComplete(x) => { c.vtag(69, 7, "GameEEventId"); (*x).v(c) } Self::EResourceRequest(x) => { c.vtag(70, 7, "GameEEventId"); (*x).v(c) } Self::EResourceRequestFulfill(x) => { c.vtag(71, 7, "GameEEventId"); (*x).v(c) } Self::EResourceRequestCancel(x) => { c.vtag(72, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerResearchPanelExit(x) => { c.vtag(73, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerResearchPanelPurchase(x) => { c.vtag(74, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerResearchPanelSelectionChanged(x) => { c.vtag(75, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCommandError(x) => { c.vtag(76, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMercenaryPanelExit(x) => { c.vtag(77, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMercenaryPanelPurchase(x) => { c.vtag(78, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMercenaryPanelSelectionChanged(x) => { c.vtag(79, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerVictoryPanelExit(x) => { c.vtag(80, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerBattleReportPanelExit(x) => { c.vtag(81, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerBattleReportPanelPlayMission(x) => { c.vtag(82, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerBattleReportPanelPlayScene(x) => { c.vtag(83, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerBattleReportSelectionChanged(x) => { c.vtag(84, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerVictoryPanelPlayMissionAgain(x) => { c.vtag(85, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMovieStarted(x) => { c.vtag(86, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMovieFinished(x) => { c.vtag(87, 7, "GameEEventId"); (*x).v(c) } Self::EDecrementGameTimeRemaining(x) => { c.vtag(88, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPortraitLoaded(x) => { c.vtag(89, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerQueryDialogDismissed(x) => { c.vtag(90, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerGameMenuItemSelected(x) => { c.vtag(91, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerMouseWheel(x) => { c.vtag(92, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPurchasePanelSelectedPurchaseItemChanged(x) => { c.vtag(93, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerPurchasePanelSelectedPurchaseCategoryChanged(x) => { c.vtag(94, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerButtonPressed(x) => { c.vtag(95, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerGameCreditsFinished(x) => { c.vtag(96, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCutsceneBookmarkFired(x) => { c.vtag(97, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCutsceneEndSceneFired(x) => { c.vtag(98, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCutsceneConversationLine(x) => { c.vtag(99, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerCutsceneConversationLineMissing(x) => { c.vtag(100, 7, "GameEEventId"); (*x).v(c) } Self::EGameUserLeave(x) => { c.vtag(101, 7, "GameEEventId"); (*x).v(c) } Self::EGameUserJoin(x) => { c.vtag(102, 7, "GameEEventId"); (*x).v(c) } Self::ECommandManagerState(x) => { c.vtag(103, 7, "GameEEventId"); (*x).v(c) } Self::ECmdUpdateTargetPoint(x) => { c.vtag(104, 7, "GameEEventId"); (*x).v(c) } Self::ECmdUpdateTargetUnit(x) => { c.vtag(105, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerAnimLengthQueryByName(x) => { c.vtag(106, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerAnimLengthQueryByProps(x) => { c.vtag(107, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerAnimOffset(x) => { c.vtag(108, 7, "GameEEventId"); (*x).v(c) } Self::ECatalogModify(x) => { c.vtag(109, 7, "GameEEventId"); (*x).v(c) } Self::EHeroTalentTreeSelected(x) => { c.vtag(110, 7, "GameEEventId"); (*x).v(c) } Self::ETriggerProfilerLoggingFinished(x) => { c.vtag(111, 7, "GameEEventId"); (*x).v(c) } Self::EHeroTalentTreeSelectionPanelToggled(x) => { c.vtag(112, 7, "GameEEventId"); (*x).v(c) } Self::EMuteUserChanged(x) => { c.vtag(113, 7, "GameEEventId"); (*x).v(c) } Self::EConvertToReplaySession(x) => { c.vtag(115, 7, "GameEEventId"); (*x).v(c) } Self::ESetSyncLoadingTime(x) => { c.vtag(116, 7, "GameEEventId"); (*x).v(c) } Self::ESetSyncPlayingTime(x) => { c.vtag(117, 7, "GameEEventId"); (*x).v(c) } Self::EPeerSetSyncLoadingTime(x) => { c.vtag(118, 7, "GameEEventId"); (*x).v(c) } Self::EPeerSetSyncPlayingTime(x) => { c.vtag(119, 7, "GameEEventId"); (*x).v(c) } } }
}
impl W for b75::GameSCmdEvent {
    fn p(c: &mut C) -> bool { c.skip(26) && c.opt::<b87::GameSCmdAbil>() && <b87::GameSCmdData as W>::p(c) && c.skip(32) && c.opt::<b87::GameTUnitTag>() && c.opt::<b87::Uint32>() }
    fn v(&self, c: &mut C) { c.vi(self.m_cmd_flags, 0, 26, "GameSCmdEvent.m_cmd_flags"); c.vopt(&self.m_abil); self.m_data.v(c); c.vi(self.m_sequence, 1, 32, "GameSCmdEvent.m_sequence"); c.vopt(&self.m_other_unit); c.vopt(&self.m_unit_group); }
}
impl W for b75::GameTHandicap {
    fn p(c: &mut C) -> bool { c.skip(7) }
    fn v(&self, c: &mut C) { c.vi(self.value, 0, 7, "GameTHandicap"); }
}
impl W for b75::GameCLicenseArray {
    fn p(c: &mut C) -> bool { c.array::<b87::GameTLicense>(13) }
    fn v(&self, c: &mut C) { c.varray(&self.value, 13, "GameCLicenseArray"); }
}
impl W for b75::GameSLobbySlot {
    fn p(c: &mut C) -> bool { <b87::GameTControlId as W>::p(c) && c.opt::<b87::TUserId>() && <b87::GameTTeamId as W>::p(c) && <b87::GameTColorPreference as W>::p(c) && <b87::TRacePreference as W>::p(c) && <b87::GameTDifficulty as W>::p(c) && <b87::GameTaiBuild as W>::p(c) && <b75::GameTHandicap as W>::p(c) && <b87::EObserve as W>::p(c) && <b87::GameTPlayerLogoIndex as W>::p(c) && <b87::CHeroHandle as W>::p(c) && <b87::CSkinHandle as W>::p(c) && <b87::CMountHandle as W>::p(c) && <b87::GameCArtifactArray as W>::p(c) && c.opt::<b87::Uint8>() && <b87::GameCRewardArray as W>::p(c) && <b87::CToonHandle as W>::p(c) && <b75::GameCLicenseArray as W>::p(c) && c.opt::<b87::TUserId>() && <b87::CCommanderHandle as W>::p(c) && <b87::Uint32 as W>::p(c) && c.skip(1) && c.opt::<b87::TUserId>() && <b87::Uint32 as W>::p(c) && <b87::GameCCommanderMasteryTalentArray as W>::p(c) && <b87::Uint32 as W>::p(c) && <b87::GameCRewardOverrideArray as W>::p(c) }
    fn v(&self, c: &mut C) { self.m_control.v(c); c.vopt(&self.m_user_id); self.m_team_id.v(c); self.m_color_pref.v(c); self.m_race_pref.v(c); self.m_difficulty.v(c); self.m_ai_build.v(c); self.m_handicap.v(c); self.m_observe.v(c); self.m_logo_index.v(c); self.m_hero.v(c); self.m_skin.v(c); self.m_mount.v(c); self.m_artifacts.v(c); c.vopt(&self.m_working_set_slot_id); self.m_rewards.v(c); self.m_toon_handle.v(c); self.m_licenses.v(c); c.vopt(&self.m_tandem_leader_id); self.m_commander.v(c); self.m_commander_level.v(c); c.vbool(self.m_has_silence_penalty, "GameSLobbySlot.m_has_silence_penalty"); c.vopt(&self.m_tandem_id); self.m_commander_mastery_level.v(c); self.m_commander_mastery_talents.v(c); self.m_trophy_id.v(c); self.m_reward_overrides.v(c); }
}
impl W for b75::GameSLobbySlotChange {
    fn p(c: &mut C) -> bool { match c.tag(5, &[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19]) { Some(t) => match t { 0 => <b87::GameTControlId as W>::p(c), 1 => c.opt::<b87::TUserId>(), 2 => <b87::GameTTeamId as W>::p(c), 3 => <b87::GameTColorPreference as W>::p(c), 4 => <b87::TRacePreference as W>::p(c), 5 => <b87::GameTDifficulty as W>::p(c), 6 => <b87::GameTaiBuild as W>::p(c), 7 => <b75::GameTHandicap as W>::p(c), 8 => <b87::EObserve as W>::p(c), 9 => <b87::GameTPlayerLogoIndex as W>::p(c), 10 => <b87::CHeroHandle as W>::p(c), 11 => <b87::CSkinHandle as W>::p(c), 12 => <b87::CMountHandle as W>::p(c), 13 => <b75::GameCLicenseArray as W>::p(c), 14 => c.opt::<b87::TUserId>(), 15 => <b87::CCommanderHandle as W>::p(c), 16 => <b87::Uint32 as W>::p(c), 17 => c.skip(1), 18 => c.opt::<b87::TUserId>(), 19 => <b87::Uint32 as W>::p(c), _ => true }, None => false } }
    fn v(&self, c: &mut C) { match self { Self::MControl(x) => { c.vtag(0, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MUserId(x) => { c.vtag(1, 5, "GameSLobbySlotChange"); c.vopt(&*x) } Self::MTeamId(x) => { c.vtag(2, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MColorPref(x) => { c.vtag(3, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MRacePref(x) => { c.vtag(4, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MDifficulty(x) => { c.vtag(5, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MAiBuild(x) => { c.vtag(6, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MHandicap(x) => { c.vtag(7, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MObserve(x) => { c.vtag(8, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MLogoIndex(x) => { c.vtag(9, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MHero(x) => { c.vtag(10, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MSkin(x) => { c.vtag(11, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MMount(x) => { c.vtag(12, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MLicenses(x) => { c.vtag(13, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MTandemLeaderId(x) => { c.vtag(14, 5, "GameSLobbySlotChange"); c.vopt(&*x) } Self::MCommander(x) => { c.vtag(15, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MCommanderLevel(x) => { c.vtag(16, 5, "GameSLobbySlotChange"); (*x).v(c) } Self::MHasSilencePenalty(x) => { c.vtag(17, 5, "GameSLobbySlotChange"); c.vbool(*x, "GameSLobbySlotChange::MHasSilencePenalty") } Self::MTandemId(x) => { c.vtag(18, 5, "GameSLobbySlotChange"); c.vopt(&*x) } Self::MCommanderMasteryLevel(x) => { c.vtag(19, 5, "GameSLobbySlotChange"); (*x).v(c) } } }
}
