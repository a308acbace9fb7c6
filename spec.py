"""What each property's check runs: entries, bounds, required cover points."""

ASSUMPTIONS = [
    "rustc/LLVM: the executed IR is the compiler's optimised (opt-level 1, LTO) output for the working tree, with overflow checks on; code generation below the IR and other optimisation levels are outside",
    "logging compiled out (feature tracing_off), default features off (no arrow output)",
    "hash values of hash maps are fixed to 0 (content of maps does not depend on the hash; iteration order is not asserted on)",
    "formatted text (error messages) is not computed: formatting yields empty strings unless the entry asks for it",
    "allocations above 16 MiB fail; memory returned by the allocator is otherwise unlimited",
    "the entry's bounds below; the solver is z3 and is trusted for unsat answers",
]

def E(entry, bounds, covers=(), **kw):
    return dict(entry=entry, bounds=bounds, covers=list(covers), **kw)

PROPS = {
    "P01": dict(
        entries=[
            E("h_vlq", "every byte string of length 0..14", ["decoded", "negative", "truncated", "too large"]),
            E("h_vlq_encode", "every i64, followed by any byte", ["decoded"]),
        ],
        outside="encodings padded beyond 14 bytes",
    ),
    "P02": dict(
        entries=[
            E("h_bits_int", "every buffer of 0..10 bytes, start bit 0..7, width 0..65", ["read", "rejected"]),
            E("h_bits_packed", "every buffer of 0..10 bytes, start bit 0..7, width 0..64, every i64 bias", ["read", "rejected"]),
            E("h_bits_array", "every buffer of 0..10 bytes, start bit 0..7, 0..79 bits", ["read", "rejected"]),
            E("h_bits_small", "every buffer of 0..6 bytes, start bit 0..7", ["bool", "byte", "fourcc", "align"]),
        ],
        outside="buffers longer than 10 bytes (the readers look at no byte beyond the requested bits)",
    ),
    "P03": dict(
        entries=[
            E("h_tag_int", "every byte string of length 0..12", ["ok"]),
            E("h_tag_blob", "every byte string of length 0..12", ["ok", "non-empty", "rejected"]),
            E("h_tag_bitarray", "every byte string of length 0..12", ["ok", "non-empty", "rejected"]),
            E("h_tag_fixed", "every byte string of length 0..6", ["bool", "fourcc"]),
        ],
        outside="values longer than 12 bytes",
    ),
    "P06": dict(
        entries=[
            E("h_game87", "protocol 87702: one record of each of the 120 game event types, every value of every field; optional fields present/absent, arrays of 0..2 elements, strings of 0..2 bytes, masks of 0, 1, 8 and 11 bits, every enum variant and every unknown event/variant number, at most two of these choices off their default per record; buffer exactly as long as the record, up to 200 bytes", ["decoded", "rejected"]),
            E("h_game75", "protocol 75689: as above", ["decoded", "rejected"]),
            E("h_msg87", "message events, at most three choices off their default", ["decoded", "rejected"]),
            E("h_game87_trunc", "protocol 87702: one record of each event type, at most one choice off its default, cut at every byte", ["truncated"]),
            E("h_game75_trunc", "protocol 75689: as above", ["truncated"]),
            E("h_msg87_trunc", "message events: as above", ["truncated"]),
            E("h_empty_string", "every empty string", []),
        ],
        deep=[
            E("h_game87_deep", "at most four choices off their default per record", ["decoded", "rejected"]),
            E("h_game75_deep", "at most four choices off their default per record", ["decoded", "rejected"]),
        ],
        outside="arrays above 2 elements and strings above 2 bytes, records with more than two (thorough: four) unusual structural choices",
    ),
    "P04": dict(
        entries=[
            E("h_tracker", "one tracker record of each of the ten event types; every value of every field (one integer any 64 bit value in a ten byte encoding, the others any value from 0 to their maximum), and at most one of: fields reversed or rotated, an optional field absent or explicitly empty, an array of 0 or 2 elements, a blob of 0 or 2 bytes, another delta width", ["decoded", "out of range"]),
            E("h_header", "replay header, as above", ["decoded", "out of range"]),
            E("h_details_shape", "replay details with one player; all integers from 0 to their maximum, shape as above", ["decoded"]),
            E("h_details_range", "replay details; default shape, one integer any 64 bit value", ["decoded", "out of range"]),
        ],
        deep=[
            E("h_tracker_deep", "at most three unusual shape choices", ["decoded", "out of range"]),
            E("h_header_deep", "at most two unusual shape choices", ["decoded", "out of range"]),
            E("h_details_deep", "at most two unusual shape choices", ["decoded"]),
        ],
        outside="more than two array elements or blob bytes, several unusual choices at once, field orders other than as published, reversed and rotated",
    ),
    "P05": dict(
        entries=[
            E("h_tracker_strict", "one tracker record of each type with one defect: any wrong type tag at any value, an unknown field number, a repeated or missing field, an unknown delta variant, or cut at every byte", ["malformed", "truncated"]),
            E("h_header_strict", "replay header, as above", ["malformed", "truncated"]),
            E("h_details_strict", "replay details, as above", ["malformed", "truncated"]),
            E("h_tracker_unknown", "every event number that is none of the ten", ["unknown"]),
        ],
        outside="several defects at once; a field explicitly given as empty and then repeated",
    ),
    "P17": dict(
        entries=[
            E("h_conv_game87", "each of the 120 game event types of protocol 87702, every value of every field, at most one structural choice off its default", ["converted", "unsupported", "chat message that is not text"]),
            E("h_conv_game75", "protocol 75689: as above", ["converted", "unsupported", "chat message that is not text"]),
            E("h_conv_msg", "each message event type: as above; strings of 0..2 bytes", ["converted", "unsupported", "not text"]),
            E("h_conv_tracker", "each tracker event type, at most one choice off its default, one text of any bytes", ["converted", "not text", "upgrade name that is not text"]),
            E("h_conv_details", "replay details with 0..2 players", ["converted"]),
            E("h_conv_details_text", "replay details, any one text of any bytes", ["converted", "not text"]),
            E("h_conv_init", "init data, at most one structural choice off its default", ["converted"]),
            E("h_conv_handles", "init data, default shape, any cache handle bytes", ["converted"]),
        ],
        deep=[E("h_conv_tracker_deep", "at most two choices off their default", ["converted", "not text"])],
        outside="arrays above 2 elements, texts above 2 bytes, combinations of several unusual structural choices",
    ),
    "P22": dict(
        entries=[
            E("h_init", "init data: every value of every field, at most one structural choice off its default (optional absent, array of 0..2 elements, string of 0..2 bytes)", ["decoded", "rejected"]),
            E("h_init_trunc", "init data of default shape cut at every byte", ["truncated"]),
            E("h_init75", "one init data record of protocol 75689 (one bit of its content arbitrary)", []),
        ],
        deep=[E("h_init_deep", "at most two choices off their default", ["decoded", "rejected"])],
        outside="arrays above 2 elements and strings above 2 bytes, combinations of several unusual structural choices",
    ),
    "P08": dict(
        entries=[
            E("h_tracker_stream", "streams of three tracker records: any of the ten types, a unit done, a player set up; every value of every field (texts ascii), at most one structural choice off its default; then nothing, an unknown event or a record cut at any byte; any version", ["stream", "unreadable record"]),
            E("h_tracker_stream2", "as above, any two types and a player set up, default structure", ["stream", "unreadable record"]),
            E("h_tracker_list", "the same streams read as a list, every base build", ["list"]),
            E("h_game_stream87", "streams of three game records out of a control group update, an unsupported event and a camera update, every value of every field, at most one structural choice (including the width of the delta) off its default; then nothing or an unreadable record; any version above 75689; one known user", ["stream", "unreadable record", "unsupported event"]),
            E("h_game_stream75", "as above, layout and versions up to 75689", ["stream", "unreadable record", "unsupported event"]),
            E("h_game_stream87_any", "streams of any of the 120 types, an unsupported event and a control group update, as above", ["stream", "unsupported event"]),
            E("h_game_stream75_any", "as above, layout and versions up to 75689", ["stream", "unsupported event"]),
            E("h_game_list87", "streams of three game records read as a list", ["list", "unsupported event"]),
            E("h_game_list75", "as above, base builds up to 75689", ["list", "unsupported event"]),
            E("h_msg_list", "streams of three message records read as a list", ["list", "unsupported event"]),
        ],
        deep=[
            E("h_tracker_stream_deep", "any two types and a player set up, one structural choice off its default", ["stream"]),
            E("h_game_stream87_deep", "two structural choices off their default", ["stream"]),
            E("h_game_stream75_deep", "two structural choices off their default", ["stream"]),
        ],
        outside="streams longer than three records (the iterators keep nothing but position and loop between records); texts that are not text",
    ),
    "P09": dict(
        entries=[
            E("h_merge", "every two tracker and two game records with any 32 bit deltas, with or without an unsupported game event in between", ["merged", "unsupported event"]),
            E("h_merge_deep", "three tracker and three game records", ["merged", "unsupported event"]),
        ],
        outside="longer streams (the iterator keeps one pending event of each)",
    ),
    "P10": dict(
        entries=[
            E("h_filter", "a tracker event of each type (every value, texts ascii, at most one structural choice off its default) and a game event, against each filter with every value, and with and without statistics", ["kept", "dropped"]),
            E("h_filter_max", "two tracker and two game events with any loops, limits 0..5 or none, alone or with a player filter or a loop range", ["kept", "dropped", "limit"]),
            E("h_filter_user", "two players with names of two characters, any slot or none", ["found"]),
        ],
        deep=[E("h_filter_max_deep", "all combinations of limit, player, lower and upper loop", ["kept", "dropped", "limit"])],
        outside="the filters event_type and unit_tag, which the code never uses; more than four events",
    ),
    "P11": dict(
        entries=[
            E("h_version_game87", "any of the 120 event types and two more, every base build above 75689", ["list"]),
            E("h_version_game75", "as above, every base build up to 75689", ["list"]),
            E("h_version_init", "well formed init data, every base build", ["read"]),
            E("h_version_details", "well formed details, every base build", ["read"]),
            E("h_signature_ok", "every part of a well formed replay, every base build", ["read"]),
            E("h_signature", "signatures that differ in one byte or in length, every part of the replay", ["other signature"], panic_ok=True, min_asserts=0),
            E("h_missing_sector", "a replay without one of its parts", ["missing"]),
        ],
        outside="the MPQ container itself (a third party crate, replaced by a list of sectors)",
    ),
    "P12": dict(
        entries=[E("h_tag", "every index below 2^14 and recycle count below 2^18, every 32 bit tag", ["tag"])],
        outside="indices and recycle counts that do not fit a tag",
    ),
    "P13": dict(
        entries=[
            E("h_unit_init", "one event, any values, on any state of two units (any tags, any values, one of them selected or not) and three players; the unit known or not", ["known unit", "new unit"]),
            E("h_unit_born", "as above, creator known, unknown, absent or the unit itself", ["known unit", "new unit"]),
            E("h_unit_change", "as above", ["known unit", "new unit"]),
            E("h_unit_done", "as above", ["known unit", "unknown unit"]),
            E("h_unit_died", "as above, killer known, unknown, absent or the unit itself", ["known unit", "unknown unit"]),
            E("h_unit_other", "as above, player statistics, upgrades, player set up, cameras, clicks, highlights, buttons", ["other event"]),
        ],
        outside="which colour belongs to which unit type; changes of owner, which the registry does not follow; names other than four representative types",
    ),
    "P14": dict(
        entries=[
            E("h_groups", "every operation on every control group 0..9, four units (any tags) spread over selection and groups, two players", ["group update", "recall"]),
            E("h_groups_sets", "every operation, every subset of four units (one of them unknown) as selection and as group", ["group update", "recall"]),
            E("h_selection", "every pair of subsets of four units as old and new selection, every group id 0..15", ["selection", "group"]),
            E("h_groups_death", "every subset of four units in selection and in all groups of two players, any of the four dies", ["death"]),
            E("h_unit_change", "a type change of a selected or unselected unit", ["known unit"]),
        ],
        deep=[E("h_groups_deep", "groups 0 and 9, every three subsets as selection, group and other groups", ["group update", "recall"])],
        outside="remove masks, which the code ignores; units selected by several players; players without lobby slot; operations on group 10 other than selecting; groups of more than four units",
    ),
    "P15": dict(
        entries=[
            E("h_cmd", "any command (every value; with or without ability, each kind of target, known or unknown target) by a player with up to three selected units of which some are unknown", ["command", "named ability", "target"]),
            E("h_target_point", "any point, as above", ["target point"]),
            E("h_target_unit", "any target, known or unknown, as above", ["target unit", "unknown target"]),
            E("h_ability_name", "a unit type with an ability of two commands, a train, a build and a research command, each with any numbers; any link and command index; an unknown type", ["ability", "train", "build", "research", "none"]),
        ],
        outside="more than three selected units; exactness of the division by 4096 (the reference computes it the same way)",
    ),
    "P16": dict(
        entries=[
            E("h_positions", "up to two positions of any of three units or unknown ones, with 0..2 surplus numbers; coordinates and index steps within 2^20", ["moved", "positions"]),
            E("h_positions_list", "lists of up to three positions, values within 2^28", ["list"]),
        ],
        deep=[E("h_positions_deep", "up to three positions", ["moved", "positions"])],
        outside="values beyond the ranges above (positions saturate there)",
    ),
    "P21": dict(
        entries=[
            E("h_player_setup", "two players in any state, any set up event, then an upgrade of any player id", ["set up", "named", "nobody"]),
            E("h_unit_init", "a unit of any player id", ["new unit"]),
            E("h_unit_born", "a unit of any player id", ["new unit"]),
            E("h_camera", "two players, any camera event of one of them or of somebody unknown", ["camera"]),
        ],
        outside="several players with the same tracker player id",
    ),
    "P18": dict(
        entries=[
            E("h_date", "three days (2013, 1970, 1969), stretches of 1.7 s from midnight and ending a second after midnight, offsets from -80 to 95 hours and a few ticks", ["date"]),
            E("h_date_ends", "times and offsets within 2^20 ticks of the ends of the range and of 0: no crash", ["any"], min_asserts=0),
            E("h_game_seconds", "loops from -2^24 to 2^15", ["seconds"]),
            E("h_tracker_seconds", "loops from -2^24 to 2^11", ["seconds"]),
        ],
        deep=[
            E("h_date_deep", "eight days from 1969 to 2106, stretches of 107 s", ["date"]),
            E("h_date_any", "no crash at any time and offset", ["any"], min_asserts=0),
            E("h_tracker_seconds_deep", "loops from 2^10 to 2^15", ["seconds"]),
        ],
        outside="loops from 2^15 (9.5 hours at 16 loops per second would be 2^19: floating point division beyond reach of the solver); days other than those listed; dates are compared to a microsecond, as the code computes them by floating point or by whole microseconds",
    ),
    "P19": dict(
        entries=[
            E("h_join", "two players and two lobby slots, every slot number and user number, present or absent", ["both", "nobody", "one", "user", "without user"]),
            E("h_state_of_players", "as above, users and players' slots distinct", ["both", "nobody", "one"]),
            E("h_flat_row", "every value, up to two cache handles with any digits", ["no handle", "one handle", "two handles"]),
            E("h_flat_row_short", "one cache handle of 0 to 22 digits", ["too short", "whole"]),
            E("h_names", "three players, any observer state", ["none", "some", "all"]),
            E("h_metadata", "any id and version, times in a stretch of 6.5 ms; the digest of one text", ["metadata"]),
        ],
        outside="more than two players and slots; the digest of other contents (SHA-256 is a third party crate)",
        assumptions=["hex digits of cache handles are those the conversion of the details writes (checked by P09)"],
    ),
    "P20": dict(
        entries=[
            E("h_map_info", "any version, size and playable area, texts of 0..5 ASCII letters in four combinations, 0..2 zeros before them", ["accepted", "rejected"]),
            E("h_map_info_short", "every truncation of a file, any values", ["truncated"]),
            E("h_map_info_magic", "files that differ in one byte of the magic number", ["rejected"]),
            E("h_height_map", "maps of 2..3 by 2..3 terrain points, any size in the file, any data", ["accepted", "rejected"]),
            E("h_height_map_short", "every truncation, every change of one byte of magic number, version and size", ["rejected"]),
            E("h_document", "any numbers, up to two fields of six names (known, ignored, unknown, empty) with values of 0..3 ASCII letters, 0..2 bytes after them", ["no field", "one field", "two fields"]),
            E("h_document_short", "every truncation, every change of one byte of the fixed parts", ["rejected"]),
            E("h_document_any", "any number of fields, any two sizes", ["accepted", "rejected"], min_asserts=0),
            E("h_coords", "all places 0..1023", ["coordinates"]),
            E("h_coords_nearest", "all places below 256 in steps of 1/256", ["place"]),
        ],
        outside="texts other than ASCII; the first text empty (the format does not tell its end from padding); terrain_right_top, whose meaning is not documented; maps larger than 3 by 3 points in the height map",
    ),
    "P23": dict(
        entries=[
            E("h_row_stats", "every value of player statistics and upgrades", ["rows"]),
            E("h_row_born", "units born, done and changed, every value, every kind of report", ["born", "done", "changed", "no row"]),
            E("h_row_died", "every value, every kind of report", ["died", "no row"]),
            E("h_row_cmd", "every command and target, reports of 0..2 units and other reports", ["point", "unit"]),
            E("h_row_users", "0..3 users", ["none", "some"]),
            E("h_rows_stats", "replays of three tracker events (any type; statistics or upgrade; any type) and one game event", ["rows"]),
            E("h_rows_units", "replays of two tracker events (unit born or begun; any type) and one game event", ["rows", "no row"]),
            E("h_rows_cmd", "replays of one command with up to three optional parts, two users with a selected unit each", ["point", "unit", "rows", "no row"]),
        ],
        deep=[E("h_rows_units_deep", "replays of a born unit and two more tracker events of any type", ["rows", "no row"])],
        outside="the conversion of rows to Arrow arrays and the Arrow files (third party crates, file system); longer replays",
        assumptions=["seconds are compared with those of the conversion functions, which P18 checks", "rows of a replay are compared with the rows of the events it yields, which P10, P13 to P17 check"],
    ),
}
