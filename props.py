#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

PROPS = []
def P(id, title, statement, over, text, why, files, mech, observe=(), na=None, note=""):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)), na, note))

P("P01", "Variable length integers decode exactly or are rejected",
  "A variable length integer is sign and magnitude: bit 0 of the first byte is the sign, its next six bits and the low seven bits of each following byte are the magnitude, least significant first, up to the first byte without the top bit. Every encoding whose value fits a signed 64 bit integer decodes to exactly that value and consumes exactly its bytes; a truncated encoding or a value that does not fit is reported as an error, never as a crash or a different value.",
  ["inputs"], "all byte strings, in particular long and padded encodings, values at the ends of the 64 bit range, and truncations",
  "the tests decode three short positive integers; sign, multi-byte carries, overflow and truncation depend on the value of every bit",
  ["src/lib.rs"], [("variable length integer decoder", "src/lib.rs parse_vlq_int")], ["value and remaining input returned by the decoder"])
P("P02", "Bit packed reads take exactly the protocol's bits in its order",
  "Reading n bits at any bit position yields the bits the published reader yields (low bits of a byte first, later bytes less significant) and advances by exactly n bits; arrays are successive eight bit reads, biased integers add their bias, and alignment skips to the next byte boundary. A read is refused exactly when fewer bits are left than it needs (or more than 64 are asked for at once); it never crashes and never reads anything else.",
  ["inputs"], "all buffers, start bits 0..7 and widths",
  "the tests read a handful of fields at a few offsets; the splitting logic has a case for every pair of start bit and width",
  ["src/bit_packed_decoder.rs"], [("bit readers", "src/bit_packed_decoder.rs")], ["value and cursor returned by each reader"])
P("P03", "Tagged primitive values are decoded exactly and consume exactly their bytes",
  "A tagged integer, blob, bit array, boolean or four byte code is accepted exactly when it starts with its own type tag and is complete, and then yields the encoded content and consumes exactly its encoding. Wrong tags, truncated content, and negative or oversized lengths are reported as errors without a crash.",
  ["inputs"], "all byte strings, in particular every length prefix",
  "tests only see well formed values from one replay",
  ["src/versioned_decoder.rs"], [("tag validation and primitive decoders", "src/versioned_decoder.rs")], ["value and remaining input returned by each decoder"])

P("P04", "Tracker events, header and details decode every field exactly",
  "A self describing structure (every tracker event type, the replay header, the replay details and all structures inside them) decodes to exactly the values it holds, each field identified by its number whatever the order of the fields, absent optional fields read as absent, and decoding consumes exactly the structure's bytes. A value outside its field's range is an error, never a wrapped value.",
  ["inputs"], "all field values, field orders, and presence of optional fields",
  "the tests decode one replay, whose encoder writes one order and mostly small values",
  ["src/versions/protocol87702/mod.rs", "src/versions/protocol87702/events/tracker/mod.rs"],
  [("byte aligned decoders", "src/versions/protocol87702/mod.rs byte_aligned::*::parse"), ("tracker record", "src/versions/protocol87702/events/tracker/mod.rs parse_event_pair")], ["decoded structure and remaining input"])
P("P05", "Malformed self describing structures are rejected",
  "A structure with a wrong type tag anywhere, an unknown field number, a repeated field, a missing required field, an unknown variant or event number, or that ends early, is reported as an error and never decodes to a value.",
  ["inputs"], "all single defects at every place of every structure, and all truncations",
  "tests only contain well formed replays",
  ["src/versions/protocol87702/mod.rs", "src/versioned_decoder.rs"],
  [("field dispatch", "src/versions/protocol87702/mod.rs byte_aligned::*::parse"), ("tags", "src/versioned_decoder.rs validate_*_tag")], ["error returned"])
P("P06", "Game and message events decode with the published bit layout",
  "For every game event type of both supported layouts (75689 and 87702) and every message event type, a record (loop delta, user id, event number, event) decodes to exactly the values its bits hold: every field at its bit position with its width and bias, optional fields governed by their presence bit, arrays and strings by their length, strings and blobs byte aligned, variants by their number. The record ends at the next byte boundary; an unknown event or variant number, or a record cut short, is an error.",
  ["inputs"], "all field values of all 120 game events and the message events, for every combination of structural choices within the bounds",
  "the tests decode one replay in which most event types, optionals and variants never occur; a shifted field shows only for particular values",
  ["src/versions/protocol87702/mod.rs", "src/versions/protocol75689/mod.rs"],
  [("game event decoder", "src/versions/protocol*/mod.rs bit_packed::GameEEventId::parse_event_triplet"), ("message event decoder", "src/versions/protocol*/mod.rs bit_packed::GameEMessageId::parse_event_triplet")],
  ["decoded delta, user id, event and cursor"])

P("P17", "Conversion to the version independent form loses and invents nothing",
  "Converting a decoded game event, message, tracker event, details or init data structure of either protocol to the version independent form keeps every value unchanged and in place. Event types without such a form are reported as unsupported, text that is not valid text is reported as an error, nothing is dropped or altered silently, and no conversion crashes.",
  ["inputs"], "all decoded values of all event types and structures of both protocols",
  "the tests convert one replay; a swapped or narrowed field shows only for particular values of rarely used event types",
  ["src/versions/protocol87702/mod.rs", "src/versions/protocol75689/mod.rs", "src/game_events/mod.rs", "src/tracker_events/mod.rs", "src/details.rs", "src/init_data.rs"],
  [("conversions", "src/versions/protocol*/ TryFrom/From impls"), ("unified types", "src/game_events, src/tracker_events, src/details.rs, src/init_data.rs")], ["converted structure"])
P("P22", "Init data decodes with the published bit layout",
  "The init data of a replay (per user data, game description, lobby state with its slots) decodes to exactly the values its bits hold: every field at its bit position with its width and bias, optionals by their presence bit, arrays and strings by their length, strings byte aligned; an unknown variant or a truncated structure is an error.",
  ["inputs"], "all field values for every combination of structural choices within the bounds",
  "the tests decode one replay; a shifted field shows only for particular lobby set ups",
  ["src/versions/protocol87702/mod.rs", "src/versions/protocol75689/mod.rs"],
  [("init data decoder", "src/versions/protocol87702/mod.rs bit_packed::ReplaySInitData::parse")], ["decoded structure and cursor"])

P("P08", "Event streams yield every supported event once, in order, at its loop",
  "Stepping through the tracker or game events of a replay yields every event that has a version independent form exactly once, in file order and unchanged, and skips the others. Its loop is the sum of all deltas up to and including its own, skipped events included; a game event carries its own user id and the name of that user if known. Reading a whole stream as a list yields the same events, each with its own delta and user id. Behind the last record, or at a record that cannot be read, stepping ends for good without a crash.",
  ["inputs"], "all streams within the bounds: every mix of event types, deltas and users, and every protocol version",
  "the tests count the events of one replay; accumulation over skipped events, wide deltas and damaged tails are not in it",
  ["src/tracker_events/iterator.rs", "src/game_events/iterator.rs", "src/versions/mod.rs"],
  [("tracker stream", "src/tracker_events/iterator.rs get_next_event"), ("game stream", "src/game_events/iterator.rs get_next_event"), ("lists", "src/versions/protocol*/ read_events, read_tracker_events")], ["events returned by the iterators and list readers"])
P("P09", "Tracker and game events are merged in loop order, each once",
  "Iterating over a replay returns all supported tracker and game events, each exactly once, in order of their loops: never an event before an earlier one, events of one stream in stream order, and tracker events before game events of the same loop.",
  ["inputs", "histories"], "all interleavings of two streams, all loops",
  "one replay shows one interleaving; ties and large loops need particular deltas",
  ["src/state/mod.rs"], [("merge", "src/state/mod.rs SC2EventIterator::next")], ["sequence of events returned"])
P("P10", "Filters drop exactly the events they describe",
  "With filters set, iteration returns exactly the events of the unfiltered sequence that pass all filters, in the same order and unchanged, and at most max_events of them. min_loop and max_loop are inclusive and apply to every event. The player filter compares the controlling player of unit born, unit init and owner change events, the killer of unit died events, the player of upgrade, player set up and statistics events, and the user of game events, and keeps all other events. The unit name filter compares the name in unit born, unit init and type change events and keeps all others. Statistics are returned only if asked for. Filtered events still take effect on the replay's state. Setting the player by name selects the slot of the player with exactly that name and changes nothing if there is none.",
  ["inputs", "histories"], "all event types, field values, loops and filter values",
  "no test sets a filter",
  ["src/filters.rs", "src/state/mod.rs", "src/tracker_events/mod.rs"],
  [("filters", "src/filters.rs, src/tracker_events/*.rs should_skip"), ("application", "src/state/mod.rs shoud_skip_event, SC2EventIterator::next")], ["sequence of events returned, registered units"])
P("P11", "A replay is read with the layout of its base build, and only if it is a replay",
  "Every part of a replay is decoded with the layout that belongs to the base build in its header: the one of 75689 up to that build, the one of 87702 for all later builds. Init data remembers the base build as its version. A file whose header has any other signature is never read as a replay, and a replay that lacks the requested part is an error.",
  ["inputs"], "all base builds, all signatures",
  "the tests read replays of two builds",
  ["src/versions/mod.rs", "src/protocol_version_decoder.rs"], [("dispatch", "src/versions/mod.rs read_*"), ("header", "src/protocol_version_decoder.rs read_protocol_header")], ["decoded events, details and init data"])

P("P12", "Unit tags and unit indices translate into each other",
  "The unit tag of the game events is made of the index and recycle count of the tracker events: for every index below 2^14 and recycle count below 2^18, taking the index or the recycle count out of the composed tag returns it, and composing the parts of any 32 bit tag returns the tag.",
  ["inputs"], "all indices, recycle counts and tags",
  "no test uses them; a wrong shift or mask shows only for particular values",
  ["src/tracker_events/mod.rs"], [("tags", "src/tracker_events/mod.rs unit_tag, unit_tag_index, unit_tag_recycle")], ["values returned"])
P("P13", "The unit registry follows the life of every unit",
  "Stepping through a tracker event changes the registered unit it names as the event says, and no other unit. A unit that is started or born is registered under its tag index with its owner, that player's name, type, position, loop and (when born) the ability that created it; a started one is marked unfinished until it is done. A known unit that is started again takes its new type and position, one that is born again its creating ability. A type change renames the unit (and registers an unknown one). A unit that died is removed. Radius and colour follow from type, owner and balance data whenever a unit appears, changes type or is done. Every touched unit (the creator of a born one included) records the loop. The change reported is the unit as it is afterwards, with its creator, its former self or its killer if known; when nothing changes, nothing is reported. All other events leave the registry alone, and every event is returned as it came.",
  ["inputs", "histories"], "all events, values and loops, on every registry state (one step from any state covers histories of any length)",
  "the tests do not look at the registry",
  ["src/tracker_events/state.rs", "src/state/mod.rs"],
  [("registry", "src/tracker_events/state.rs handle_unit_*"), ("properties", "src/state/mod.rs SC2Unit::set_unit_props, src/state/unit_props.rs")], ["SC2ReplayState::units and the change hint"])
P("P14", "Selection and control groups follow the player's commands",
  "A selection event replaces the player's selection or the named control group by the units it lists. Control group commands do what the game does: set replaces the group by the selection, append adds the selection without duplicates, clear empties it, recall makes the group the selection, and the stealing variants also take the selected units out of all other groups. A unit is marked as selected, with twice its radius, exactly while it is in the selection, also when it changes type meanwhile. A unit that died leaves selection and groups of all players. Groups of other players and group ids that do not exist are left alone. Every unit that was or gets selected by a selection or recall is reported once, as it is afterwards.",
  ["inputs", "histories"], "all selections, groups and operations, one step from any consistent state",
  "the tests do not look at selections; overlaps of groups, units in both selections and the last groups need particular histories",
  ["src/game_events/state.rs", "src/tracker_events/state.rs", "src/state/mod.rs"],
  [("selection", "src/game_events/state.rs handle_selection_delta, mark_selected_units, unmark_previously_selected_units"), ("groups", "src/game_events/state.rs update_control_group"), ("death", "src/tracker_events/state.rs handle_unit_died")], ["SC2UserState::control_groups, SC2Unit::is_selected and radius, the change hint"])
P("P15", "Commands reach exactly the selected units",
  "A command with an ability is recorded in every registered unit of the player's selection, with all its values, the ability's name for that type of unit, the name of the targeted unit if known, and the loop; a command without ability changes no unit. A target point or target unit update changes the target of exactly the selected units (a point also ends the relation to another unit); an update to an unknown target changes nothing. Points are converted to map coordinates (divided by 4096, y negated). The units changed and the target are reported as they are. An ability's name is that of the first matching ability command, else of the unit trained, built or upgrade researched by that ability and command number, else empty.",
  ["inputs", "histories"], "all commands and targets, from any state",
  "the tests do not look at unit commands",
  ["src/game_events/state.rs", "src/state/unit_cmd.rs", "src/common.rs", "src/game_events/ability/balance_data/mod.rs"],
  [("commands", "src/game_events/state.rs handle_cmd, handle_update_target_point, handle_update_target_unit"), ("conversion", "src/state/unit_cmd.rs, src/common.rs Vec3D"), ("ability names", "src/game_events/ability/balance_data/mod.rs get_indexed_ability_command_name")], ["SC2Unit::cmd and the change hint"])
P("P16", "Unit positions reach the units they belong to",
  "A position event lists triples of an index step and a position: the unit index is the first index plus all steps up to and including its own, the listed position four times the numbers given. Stepping through it moves exactly the registered units named, to the numbers given, records the loop and reports them in the order listed. Unknown units and surplus numbers are ignored.",
  ["inputs"], "all lists within the bounds",
  "no test looks at positions",
  ["src/tracker_events/unit_positions.rs", "src/tracker_events/state.rs"],
  [("list", "src/tracker_events/unit_positions.rs to_unit_positions_vec"), ("registry", "src/tracker_events/state.rs handle_unit_position")], ["positions returned, SC2Unit::pos"])
P("P21", "Events are attributed to the right player",
  "A player set up event ties the player id of the tracker events and the slot to exactly the user it names. From then on new units and upgrades of that player id carry that user's name, those of any other id no name. Camera events move the camera of exactly the user who sent them; a camera update without target moves none.",
  ["inputs", "histories"], "all ids and orders of events",
  "the tests do not look at attribution",
  ["src/tracker_events/state.rs", "src/game_events/state.rs"],
  [("players", "src/tracker_events/state.rs handle_tracker_event, get_player_name_by_tracker_control_player_id"), ("camera", "src/game_events/state.rs handle_camera_save, handle_camera_update")], ["names in units and upgrades, SC2UserState"])

P("P18", "Times are converted right",
  "The instant of a replay is its Windows file time (100 ns ticks since 1601, UTC), converted to the date of that instant less the offset of the local time zone, for every date before and after 1970, without a leap second or a crash; a time that no date can hold gives none. A game or tracker loop is converted to whole seconds at the game's speed of 68.58391 ms per loop, rounded to within a second, never below zero.",
  ["inputs"], "all times, offsets and loops within the bounds",
  "the tests convert one time; rounding at midnight, before 1970 and around the ends of the range depends on single ticks",
  ["src/lib.rs", "src/common.rs"],
  [("date", "src/lib.rs transform_to_naivetime, transform_time"), ("loops", "src/lib.rs convert_game_loop_to_seconds, convert_tracker_loop_to_seconds")], ["values returned"])
P("P19", "Players are joined with their lobby slots and users",
  "The players of a replay are those of the details whose slot number is that of a lobby slot, in the order of the details, each with its own details, the first such slot, and the name and clan of the user in that slot. The state of a replay begins with exactly the users that play, each with its own details and nothing selected. The flat form keeps every value, and gives extension and region of the first cache handle and the hashes of all; a malformed handle is left out. Names of players leave out observers. Metadata (file name, id, digest, date) are those of the file.",
  ["inputs"], "all slot and user numbers, values and handles within the bounds",
  "the tests load one replay in which slots, users and players have the same order",
  ["src/details.rs", "src/init_data/mod.rs", "src/state/mod.rs"],
  [("join", "src/details.rs TryFrom<&InitData> for Vec<PlayerLobbyDetails>"), ("flat form", "src/details.rs From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow"), ("initial state", "src/state/mod.rs TryFrom<&InitData> for SC2ReplayState"), ("metadata", "src/details.rs set_metadata, src/init_data/mod.rs set_metadata")], ["PlayerLobbyDetails, its flat row, SC2ReplayState"])
P("P20", "Map files are decoded exactly or rejected",
  "Of a cached map, the map information holds version, size, texts and playable area; the height map one height for each terrain point, row by row; the document header its numbers and the fields named name, long and short description. Each is decoded to exactly what the file holds and the sizes derived from it (cells, terrain points, playable area, corners) follow. A file is rejected without a crash if it is truncated, of another kind, larger than 256 cells, if the playable area is empty or not inside the map, if the height map's size is not the map's or a height is above 4. Coordinates are converted between cells, terrain points and places as documented.",
  ["inputs"], "all values and sizes within the bounds",
  "the tests decode one file of each kind; bounds, truncation and rejection are not looked at",
  ["src/cache_handles/map_info.rs", "src/cache_handles/t3_height_map.rs", "src/cache_handles/document_header.rs", "src/cache_handles/map/coords.rs"],
  [("map information", "src/cache_handles/map_info.rs parse and accessors"), ("height map", "src/cache_handles/t3_height_map.rs parse"), ("document header", "src/cache_handles/document_header.rs parse, set_field_by_name"), ("coordinates", "src/cache_handles/map/coords.rs")], ["MapInfo, T3HeightMap, DocumentHeader, coordinates"])
P("P23", "Flat rows hold the values of their events and units",
  "A flat row holds exactly the values of its event, loop, seconds and replay: player statistics, upgrades, units born, done or changed (with the unit's name, owner, place and creator as reported), units that died (with the names of unit and killer), commands that target a point or a unit (one row for each unit that carries it out), users. An event that changes no registered unit gives no row. The rows collected from a replay are those of its events, in order, each once.",
  ["inputs"], "all values of events and reports; replays within the bounds",
  "the tests collect no rows; each field could be another one of the same type",
  ["src/tracker_events/arrow_store", "src/game_events/arrow_store/cmd_event_flat_row.rs", "src/init_data/arrow_store.rs", "src/state/mod.rs"],
  [("tracker rows", "src/tracker_events/arrow_store/*.rs"), ("command rows", "src/game_events/arrow_store/cmd_event_flat_row.rs"), ("user rows", "src/init_data/arrow_store.rs"), ("collection", "src/state/mod.rs collect_into_*_flat_rows")], ["the rows"])

TECH = "symbolic execution of the compiled code (LLVM IR, all paths) with an SMT solver"
LEVEL_NOTE = "All inputs within the bounds stated in the evidence are decided path by path by an SMT solver on the LLVM IR of the working tree; nothing is sampled. Trusts the executor's IR semantics (cross-checked on every run against a native binary of the same IR), rustc and the solver."

def main():
    PROPS.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh",
        checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                     technique=TECH, level="model_checking", level_note=LEVEL_NOTE + ((" " + note) if note else "")) for p, na, note in PROPS if not na],
        not_applicable=[dict(property=p["id"], reason=na) for p, na, _ in PROPS if na],
        notes="No hooks: the harness uses only the crate's public items. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

main()
