#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = {k: "check under construction" for k in ()}

A = "src/adaptation/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="exploration", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, level=level, note=note))


SAMPLE = "The tests read a handful of fixed, well-formed fixtures from a healthy disk on one thread, once; "

prop(
    "P01", "Damaged or hostile storage never crashes a reader or a query",
    "Whatever bytes the configuration files hold (truncated, torn, bit-flipped, duplicated, spliced, wrong encoding, out-of-range numbers) and whatever error the file system answers, every reader and every adaptation loader returns a value or an error: it does not panic, abort, overflow the stack, hang or exhaust memory. The same holds for every query on an adaptation that did load, and one damaged load does not stop later loads of repaired files.",
    ["inputs", "fault_sequences", "crash_points"],
    "every content of every file of an installation reached by damage to valid files, every sequence of failing, short or interrupted calls, every later query argument",
    SAMPLE + "malformed content, I/O errors and arbitrary query arguments are never tried.",
    ["src/lib.rs", "src/sct.rs", "src/ese.rs", "src/asr.rs", "src/isec.rs", "src/prf.rs", "src/airway.rs", "src/symbology.rs", "src/topsky/mod.rs", "src/topsky/map/mod.rs", A + "mod.rs", A + "locations/mod.rs"],
    [("pest grammars reject what they do not know; per-record errors are logged and skipped", "src/*.rs parse functions"), ("errors of files are AdaptationError", A + "mod.rs Adaptation::from_prf")],
    note="Seeded damage to generated installations, API calls on the result; bounded file sizes (a few kB).")
prop(
    "P02", "Loading is deterministic",
    "Loading the same files twice gives the same adaptation, or the same error, down to every value: independently of process, thread, hash seeds, scheduling, I/O latency, other loads running at the same time and crashes between the loads.",
    ["schedules", "configurations", "histories", "crash_points"],
    "all hash seeds, thread interleavings, latencies, restart points, over generated installations including duplicated and colliding records",
    "A test run sees one hash seed and one schedule; equality across seeds, threads and restarts is never compared.",
    [A + "mod.rs", A + "sectors.rs", A + "line_styles.rs", A + "locations/mod.rs", "src/prf.rs", "src/ese.rs"],
    [("collections keyed by name, results independent of iteration order", A + "sectors.rs, " + A + "line_styles.rs, src/prf.rs plugin directories")],
    note="Two or more loads per run under independent hash seeds/schedules/latencies, compared value by value.")
prop(
    "P03", "Transient I/O trouble is invisible",
    "Interrupted system calls, short reads, wrong file size hints, failing metadata calls and slow storage change nothing: a load that meets them returns the same adaptation, or the same error, as a load of the same files from perfect storage.",
    ["fault_sequences", "schedules"],
    "all sequences of EINTR, short reads of any length, size lies, fstat failures and latencies over every file of an installation",
    "The tests only ever see whole-file reads from a healthy local disk.",
    [A + "mod.rs", "src/topsky/mod.rs", "src/lib.rs", "src/prf.rs"],
    [("whole files are read before they are parsed", A + "mod.rs from_prf, src/topsky/mod.rs")],
    note="Each faulted load is compared with an unfaulted load of the same bytes in the same run.")
prop(
    "P04", "A missing or invalid mandatory file is reported, never papered over",
    "If a mandatory file (.prf, .sct, .ese, airway.txt, symbology, ICAO airports/aircraft/airlines, airport coordinates, adaptation.toml or an overlay) or a mandatory .prf setting is missing, unreadable or unparsable, the load fails with an error of that file's kind that names what failed. No handle is leaked, nothing is cached: once the file is back the next load succeeds completely, and a load of a complete installation never fails.",
    ["fault_sequences", "configurations", "histories"],
    "every mandatory file and setting, every way of losing it (removed, empty path, EACCES/EIO/ENOENT/EMFILE/ELOOP at open, at any read offset, invalid text), alone or with transient faults, and every later repair",
    SAMPLE + "no test removes or breaks a file.",
    [A + "mod.rs", "src/prf.rs", "src/airway.rs", "src/icao_aircraft.rs", "src/icao_airlines.rs", "src/icao_airports.rs", "src/navdata_airports.rs", "src/symbology.rs"],
    [("required settings checked up front", "src/prf.rs check_required_settings"), ("? on every mandatory read and parse; AdaptationError variants", A + "mod.rs")],
    note="Expected error kind and name computed from the injected failure and the documented file roles.")
prop(
    "P05", "A failing optional file degrades only what depends on it",
    "squawks.json and the TopSky plugin files are optional: if one is missing, unreadable or invalid the load still succeeds, everything that does not come from it is exactly as with the healthy file, and what does come from it takes the documented defaults. TopSky is lost as a whole if its settings or its maps file is unavailable or any of its files is invalid; a missing or unreadable symbol file only loses the symbols in it.",
    ["fault_sequences", "configurations"],
    "every optional file, every way of losing it, combined with updates and concurrent readers",
    "The tests load installations where every optional file is present and readable, or a single file on its own.",
    [A + "mod.rs", "src/topsky/mod.rs", A + "settings/mod.rs", A + "symbols.rs", A + "maps/mod.rs"],
    [("optional reads collapse to None", A + "mod.rs from_prf squawks/topsky"), ("missing symbol file tolerated", "src/topsky/mod.rs Topsky::parse")],
    note="Expected adaptation from the reference model with that file absent.")
prop(
    "P06", "Every load reflects file versions that existed while it ran",
    "While an updater replaces the files of an installation one by one, each load yields for every file the contents of one complete version that was in place at some moment of that load, and the parts derived from several files come from that same choice; concurrent loads do not influence each other, and an adaptation already returned never changes.",
    ["schedules", "histories", "crash_points"],
    "all interleavings of up to three concurrent loads with updates of any subset of files, restarts between loads",
    "No test loads while files change or loads concurrently.",
    [A + "mod.rs", "src/topsky/mod.rs", A + "sct_items.rs", A + "locations/mod.rs"],
    [("each file is opened and read once per load; no shared state", A + "mod.rs from_prf")],
    note="Checked against the set of admissible version assignments recorded from the simulated opens.")
prop(
    "P07", "Files are found exactly where the configuration says",
    "Paths in a .prf are resolved against the directory the real .prf file had when it was parsed (leading backslash) or the working directory of the moment (relative ones), and paths in adaptation.toml against the toml's directory when it was parsed, through symlinks, dot segments and either slash; later changes of the working directory or of links redirect nothing else. The .ese belongs to the .sct's base name, plugin files live beside the configured plugin, and look-alike files elsewhere are never read.",
    ["configurations", "histories"],
    "all layouts, spellings, working directories, link targets and decoy files, and all chdir/retarget histories between parse and load",
    "The fixtures use one layout, one spelling and one working directory.",
    ["src/prf.rs", A + "mod.rs", "src/topsky/mod.rs"],
    [("path of the .prf canonicalised when parsed", "src/prf.rs parse"), ("AdaptationSetup::parse normalises against the toml", A + "mod.rs")],
    note="The set of files opened and the resulting content are both compared with a path model.")
prop(
    "P08", "Sector and volume queries agree with a plain scan",
    "For every coordinate, line and level, looking up the sector, the volumes at a point and the volumes near a line gives exactly what a scan over the adaptation's sectors and volumes gives: only sectors that have responsible positions, exact borders, lower level included and upper excluded, the lowest sector id on overlap. This holds on a fresh load, a clone, a deserialised copy, after overlays, after mutation plus rebuild, and when several threads make the first query at once.",
    ["inputs", "schedules", "histories"],
    "all airspaces (concave, overlapping, touching, degenerate), all query points incl. vertices and edges, all sequences of clone/save/restore/mutate/rebuild/overlay and all races of first queries",
    "Tests query a few points of square volumes on one thread.",
    [A + "sector_index.rs", A + "mod.rs", A + "sectors.rs"],
    [("R-tree of bounding boxes, then exact containment", A + "sector_index.rs"), ("OnceLock lazily built", A + "sector_index.rs get_or_build")],
    state=[("sector_index", "cached tree, must equal the one built from sectors/volumes", A + "sector_index.rs")],
    note="Oracle: linear scan with the geo predicates over the public sectors/volumes.")
prop(
    "P09", "Overlays merge in order, completely, or fail cleanly",
    "Applying overlays yields exactly the base adaptation merged with each overlay in the order given (plain fields replace, +: fields merge, super refers to what came before), leaving everything not mentioned unchanged (numbers to within their last digit); an overlay that is missing, unreadable, raises an error or produces an invalid adaptation makes the whole load fail with an error saying so. Faults and concurrent loads do not change the outcome, and queries on the result see the merged data.",
    ["inputs", "fault_sequences", "schedules", "histories"],
    "all sequences of generated overlays over generated installations, via the toml or directly, with faulted reads and racing replacements",
    "One fixture overlay is applied once.",
    [A + "mod.rs", A + "settings/mod.rs"],
    [("serde_json -> jsonnet + -> serde_json, then index rebuild", A + "mod.rs apply_jsonnet_overlays"), ("precedence of timings", A + "settings/mod.rs CoordinationSettings::resolve")],
    note="Oracle: a JSON merge model executed on the base adaptation.")
prop(
    "P10", "A saved adaptation survives storage or is recognisably broken",
    "An adaptation written as JSON through a faulty writer and read back is equal to the one saved in every value (numbers to within their last digit) and answers every query the same. A file left behind by a crash or a failed write is either rejected or equal to a complete version that was saved, never a mixture or a partial adaptation.",
    ["crash_points", "fault_sequences", "histories", "schedules"],
    "all save/replace/crash/restore histories with torn, short, lost and failing writes at any byte, and concurrent readers",
    "No test writes and re-reads an adaptation.",
    [A + "mod.rs", A + "colours.rs", A + "locations/mod.rs", A + "locations/airways.rs", A + "sectors.rs", "src/lib.rs"],
    [("serde derives, custom (de)serialisers of colours, keyed maps and graph", A + "colours.rs, " + A + "locations/airways.rs, src/lib.rs")],
    note="Equality on canonical values; queries sampled.")
prop(
    "P11", "Navigation data and designators resolve to the right places",
    "Airports, runways, VORs, NDBs, fixes, SIDs and STARs of the files are all present with their positions and attributes, coordinates given in any supported notation mean the same place, and every designator or location that can be resolved (by name, by coordinates, by bearing and distance) resolves to the right position while unknown ones resolve to nothing.",
    ["inputs", "histories", "fault_sequences"],
    "all generated .sct/.ese/airport files with duplicates, all notations, all designators incl. malformed and foreign-alphabet ones, over faulted and racing loads",
    SAMPLE + "name precedence, notations and duplicates are hardly sampled.",
    [A + "locations/mod.rs", "src/lib.rs", "src/sct.rs", "src/ese.rs", "src/icao_airports.rs", "src/navdata_airports.rs"],
    [("Locations::from_euroscope, convert_designator, convert_location", A + "locations/mod.rs"), ("coordinate grammar and parsing", "src/pest/base.pest, src/lib.rs")],
    note="Executable reference model of the location tables and of geodesic displacement.")
prop(
    "P12", "The airway graph contains exactly the published airways",
    "Every segment of airway.txt is present with its direction, level and type, nothing else is, and expanding a segment between two fixes of an airway returns exactly the fixes in between in order when the airway can be flown that way, and nothing otherwise; a point of it prints as airway.txt writes it.",
    ["inputs", "histories", "schedules"],
    "all airway networks incl. loops, branches, one-way segments, equal names at different places, and all expansion queries, by concurrent clients",
    SAMPLE + "a few expansions of one network are checked.",
    [A + "locations/airways.rs", "src/airway.rs", "src/pest/airway.pest"],
    [("insert_or_update_segment, expand_airway_segment", A + "locations/airways.rs")],
    note="Reference graph and path model.")
prop(
    "P13", "Airspace sectors and volumes match the .ese",
    "Every sector of the .ese becomes a volume with its limits and its border assembled from the sectorlines in the right order, grouped into sectors with the owners, activation conditions and aerodromes as defined, and a volume whose border cannot be assembled does not disturb the others; of a sectorline defined twice the last definition counts.",
    ["inputs", "histories", "fault_sequences"],
    "all generated sectorline/sector definitions (circles, shared lines, any order, reversed, duplicates, gaps) over faulted and racing loads",
    SAMPLE + "only a few fixed sectors are compared.",
    [A + "sectors.rs", "src/ese.rs", "src/pest/ese.pest"],
    [("Sectors::from_ese", A + "sectors.rs"), ("border assembly", "src/ese.rs")],
    note="Reference model of border joining and grouping.")
prop(
    "P14", "Controller positions and coordination constraints match the .ese",
    "All positions (identifier, name, frequency, prefix, suffix and visibility points) and all departure and destination constraints (route, runway, sector, level conditions in either direction) of the .ese are present with the values written, a record that states no level is no constraint and does not affect its neighbours, and of constraints written for the same route and sectors the last one counts.",
    ["inputs", "histories", "fault_sequences"],
    "all generated position and COPX/FIR_COPX records, incl. missing optional fields and neighbours without a level",
    SAMPLE + "optional field combinations are not covered.",
    [A + "mod.rs", A + "constraints.rs", "src/ese.rs"],
    [("Position::from_ese_positions", A + "mod.rs"), ("extract_constraints", A + "constraints.rs")],
    note="Reference model.")
prop(
    "P15", "Everything drawn from the .sct is complete, in place and in colour",
    "All geo, region, label, SID, STAR, ARTCC and airway lines of the .sct appear under their names with all their points resolved and in order, joined where they are continuous, each with its own colour or the default of its kind; unresolvable or malformed lines drop only themselves.",
    ["inputs", "histories", "fault_sequences"],
    "all generated .sct files (section order, comments, notations, names, mixed ends, repeated names, discontinuities) over faulted and racing loads",
    SAMPLE + "layout variations and colour fallbacks are rarely covered.",
    [A + "sct_items.rs", "src/sct.rs", "src/pest/sct.pest"],
    [("SctItems::from_sct, ColouredLines", A + "sct_items.rs"), ("record grammar", "src/pest/sct.pest")],
    note="Reference model compares segments as sets of coloured point pairs plus labels and polygons.")
prop(
    "P16", "TopSky maps are translated faithfully",
    "Every map of TopSkyMaps appears in its folder and group with its drawing commands in order, each with the colour, line style, font and alignment in force at that point, symbols and texts at the right coordinates, zoom, layer, visibility and activation conditions intact; overrides replace, definitions can come in any order the format allows, and invalid lines affect only themselves.",
    ["inputs", "histories", "fault_sequences"],
    "all generated map files over the supported commands, attribute changes mid-map, references to undefined things",
    SAMPLE + "the fixtures use a small subset of the commands.",
    [A + "maps/mod.rs", A + "maps/active.rs", "src/topsky/map/mod.rs", "src/topsky/map/active.rs", "src/pest/topsky.pest"],
    [("from_topsky, Map", A + "maps/mod.rs"), ("rule state machine", "src/topsky/map/mod.rs")],
    note="Reference model of the drawing state.")
prop(
    "P17", "Every colour follows the documented precedence",
    "Each colour of the adaptation is the one its source defines (symbology entry, #define, TopSky setting or map colour, plugin default), by a fixed precedence, decoded with red/green/blue in the right places, and looking a colour up by name gives the value in force; undefined or out-of-range ones fall back to the default of that very item.",
    ["inputs", "configurations", "histories"],
    "all subsets and orders of definitions in all sources, incl. duplicates, invalid values, plugin absent or degraded",
    SAMPLE + "one combination of sources is checked.",
    [A + "colours.rs", "src/symbology.rs", "src/topsky/settings.rs"],
    [("Colours::from_euroscope, get", A + "colours.rs")],
    note="Reference model with the defaults table transcribed from the documented behaviour.")
prop(
    "P18", "Symbols and line styles follow definition and fallback rules",
    "Each symbol is drawn by exactly the commands of its definition (plugin symbols override EuroScope's, otherwise the built-in default), in order and at its coordinates, and each line style name gives the dash pattern defined for it, independent of definition order.",
    ["inputs", "configurations", "histories"],
    "all subsets of symbol and line style definitions with duplicates and invalid commands, with the symbol file absent or broken",
    SAMPLE + "one symbol file is checked.",
    [A + "symbols.rs", A + "line_styles.rs", "src/topsky/symbol.rs", "src/symbology.rs"],
    [("Symbols::from_euroscope, get", A + "symbols.rs"), ("line_styles_from_topsky", A + "line_styles.rs")],
    note="Reference model.")
prop(
    "P19", "Display and tool settings come from the right source with right defaults",
    "Line, label, map, track, transponder and coordination settings are each taken from the item that defines them (symbology, TopSky settings, squawks.json), converted to the right unit and type; whatever is missing or unparsable takes the default of that setting alone. Coordination timing resolves field by field to the most specific override given (constraint, then partner FIR, then the global value).",
    ["inputs", "configurations", "histories"],
    "all subsets of settings with valid, invalid and extreme values and degraded sources",
    SAMPLE + "two fixture combinations are checked.",
    [A + "settings/mod.rs", A + "settings/track.rs", "src/topsky/settings.rs", "src/squawks.rs", "src/symbology.rs"],
    [("Settings::from_euroscope", A + "settings/mod.rs"), ("parse_with_default", "src/topsky/settings.rs")],
    note="Reference model.")
prop(
    "P20", "Aircraft and airline data are complete and queried correctly",
    "Every aircraft type and airline of the ICAO files is available under its designator with the values written, unknown types have the documented default wake category, categories print as their letter, and comment lines, blank lines and continued aircraft names affect nothing else.",
    ["inputs", "histories", "schedules"],
    "all generated ICAO files with duplicates and odd lines, all lookups incl. unknown designators",
    SAMPLE + "a few records are compared.",
    [A + "icao.rs", "src/icao_aircraft.rs", "src/icao_airlines.rs"],
    [("AircraftMap::wtc", A + "icao.rs"), ("record grammars", "src/pest/icao_*.pest")],
    note="Reference model.")
prop(
    "P21", "A sector file written back reads as the same sector file",
    "Writing a parsed .sct as text, through storage that delays, shortens or fails writes, and reading it again gives the same sector data (positions to the format's resolution), and doing it again changes nothing further. Readers racing the writer see a complete version if it is put in place atomically, and a damaged remainder is never a crash.",
    ["inputs", "crash_points", "fault_sequences", "histories"],
    "all generated sector files, all save/crash/read histories with torn, short and failing writes and racing readers",
    "One fixture is round-tripped in memory.",
    ["src/sct.rs", "src/lib.rs", "src/pest/sct.pest"],
    [("Display for Sct, ToEuroscope", "src/sct.rs"), ("DegMinSec formatting", "src/lib.rs")],
    note="Oracle: parsed original vs parsed copy, plus the reference model of the generated text.")
prop(
    "P22", "The two encodings of a file mean the same",
    "A configuration file saved as UTF-8 and the same text saved as Windows-1252 load to the same values, for every file, and for any mixture of encodings among the files of an installation, however the reads are split.",
    ["inputs", "configurations", "fault_sequences"],
    "all generated installations with non-ASCII letters, every subset of files in either encoding, reads split inside characters",
    "The fixtures contain few non-ASCII bytes and every file has one encoding.",
    ["src/lib.rs", "src/sct.rs", "src/ese.rs", "src/prf.rs", "src/topsky/mod.rs"],
    [("read_to_string: UTF-8, else Windows-1252", "src/lib.rs")],
    note="Relation between two loads in one run.")
prop(
    "P23", "Radar view (.asr) files are read completely and correctly",
    "Every setting of a view file (display switches, filters, window area, plugin data) and every displayed or hidden item of every kind is read as written, in any order and notation, by concurrent readers and through faulty storage; unknown lines are ignored.",
    ["inputs", "fault_sequences", "schedules"],
    "all generated .asr files over all item kinds and settings, read while being replaced",
    "Two fixture files are compared.",
    ["src/asr.rs", "src/pest/asr.pest"],
    [("Asr::parse, AsrMap", "src/asr.rs")],
    note="Reference model.")
prop(
    "P24", "Intersection (isec) files are read completely and survive rewriting",
    "Every named point of an isec file is read with all its positions, a file with a malformed line is rejected as a whole, and writing the data back through faulty storage and reading it again gives the same data; a torn copy yields only points that were saved.",
    ["inputs", "fault_sequences", "crash_points", "histories"],
    "all generated isec files with duplicates and malformed lines, all save/crash/read histories",
    "One small text is parsed.",
    ["src/isec.rs", "src/pest/isec.pest"],
    [("parse_isec_txt, Display for IsecMap", "src/isec.rs")],
    note="Reference model plus round trip.")

prop(
    "P25", "An .ese file parsed on its own reads as written",
    "The .ese reader alone, whatever the storage does and whoever else reads or replaces the file, yields every controller position with all its fields (callsign parts, middle letter, frequency, squawk range, visibility points), every sector with its limits, owners, borders, runway filters and aerodromes, every coordination constraint in the order written with its route, levels and readable one-line form, and every SID and STAR with its waypoints.",
    ["inputs", "fault_sequences", "schedules"],
    "all generated .ese files in any notation, line order and record mixture, read while being replaced and through faulty storage",
    SAMPLE + "one fixture is compared; fields the adaptation does not use are hardly looked at.",
    ["src/ese.rs", "src/pest/ese.pest", "src/lib.rs"],
    [("Ese::parse", "src/ese.rs"), ("record grammar", "src/pest/ese.pest")],
    note="Reference model of the file's records.")
prop(
    "P26", "Symbology and squawk files parsed on their own read as written",
    "The symbology reader alone yields every item with its colour, size, line weight, line style and alignment and every EuroScope symbol with its drawing commands in order, and the squawk reader every discrete and non-discrete code with its message and colour, exactly as the file in place says, for concurrent readers and through faulty storage.",
    ["inputs", "fault_sequences", "schedules"],
    "all generated symbology and squawk files over all item and symbol kinds, read while being replaced and through faulty storage",
    SAMPLE + "one fixture of each is compared.",
    ["src/symbology.rs", "src/squawks.rs", "src/pest/symbology.pest"],
    [("Symbology::parse", "src/symbology.rs"), ("parse_squawks_json", "src/squawks.rs")],
    note="Reference model of the files' records.")

prop(
    "P27", "TopSky files parsed on their own read as written",
    "The TopSky reader alone, given the directory in any spelling, yields every setting, colour, symbol with its drawing commands, line style, override and map with its records in order exactly as the three files in place say (later definitions replace earlier ones, those of the maps file replace the others, sections of single callsigns do not apply), looks settings up by type or else gives the caller's default, does without a symbol file, and refuses what it cannot read, while the files are replaced or removed one by one.",
    ["inputs", "fault_sequences", "schedules", "histories"],
    "all generated settings, symbol and map files over all supported records, read by concurrent readers while being replaced, removed and through faulty storage",
    SAMPLE + "one fixture directory is compared.",
    ["src/topsky/mod.rs", "src/topsky/map/mod.rs", "src/topsky/map/active.rs", "src/topsky/settings.rs", "src/topsky/symbol.rs", "src/pest/topsky.pest", "src/pest/topsky_settings.pest"],
    [("Topsky::parse", "src/topsky/mod.rs"), ("record grammars", "src/pest/topsky.pest, src/pest/symbol_rule.pest")],
    note="Reference model of the records, over every state the three files went through during the read.")

prop(
    "P28", "ICAO, airport position and airway files parsed on their own read as written",
    "Each of the five reference readers alone (aircraft types, airlines, airports, airport positions, airways), whatever the storage does and whoever else reads or replaces the file, yields every record with all its fields, the first definition of a designator where it is repeated and for airways exactly the published fixes and directed segments with their levels and types; in either encoding and line ending, with comments and blank lines among the records of the ICAO files and with or without an end of the last line. A file with a line that is no record is rejected as a whole, never read in part, and a reader racing a replacement sees one of the two versions.",
    ["inputs", "fault_sequences", "schedules"],
    "all generated reference files incl. duplicates, odd values, noise lines and malformed lines, read while being replaced and through faulty storage",
    SAMPLE + "a few records are compared, none repeated.",
    ["src/icao_aircraft.rs", "src/icao_airlines.rs", "src/icao_airports.rs", "src/navdata_airports.rs", "src/airway.rs", "src/pest/icao_aircraft.pest", "src/pest/airway.pest"],
    [("parse_aircraft, parse_airlines, parse_airports, parse_navdata_airports, parse_airway_txt", "src/icao_*.rs, src/navdata_airports.rs, src/airway.rs"), ("record grammars", "src/pest/icao_*.pest, src/pest/airway.pest")],
    note="Reference model of the files' records.")

prop(
    "P29", "Loading only reads: disk, process and environment are left as they were",
    "Whatever a load meets (any readable or damaged installation, missing or malformed files, I/O errors at any call, files replaced while it runs, other loads beside it) and however it ends, it creates, changes, renames, links or removes no file or directory and asks for none to be opened for writing, does not change the working directory or the environment of the process, writes nothing to standard output, and has closed every file and directory it opened by the time it returns.",
    ["inputs", "fault_sequences", "schedules", "histories"],
    "all generated installations, histories of updates, damage, crashes and concurrent loads, with transient and hard I/O errors at any call",
    SAMPLE + "tests load intact packs once and look only at the result, never at what else the load did.",
    ["src/lib.rs", "src/prf.rs", "src/adaptation/mod.rs", "src/topsky/mod.rs"],
    [("read, read_to_string", "src/lib.rs"), ("normalise_path, plugin paths", "src/prf.rs"), ("from_prf, apply_jsonnet_overlays, from_adaptation_toml", "src/adaptation/mod.rs"), ("Topsky::parse", "src/topsky/mod.rs")],
    note="The simulated OS records every request that would change the disk or the process and every descriptor left open.")

prop(
    "P30", "Queries depend on the adaptation alone and change nothing",
    "For every loaded, copied or edited adaptation, every question (designators, locations, containment, airway expansion, sectors and volumes at a place or near a line, sector of a volume, colours, symbols, wake categories, coordination timing) has the same answer whatever was asked, loaded, edited, copied or dropped before in the process, in whichever order and from however many threads at once, namely that of a process that holds the same adaptations and was never asked anything; and no question changes the adaptation it is asked of or any other.",
    ["schedules", "histories", "inputs"],
    "all generated sequences of loads, copies, client edits and drops of several versions of a pack, with 1-4 concurrent clients asking mixed questions while others load",
    SAMPLE + "a query is asked once, of one adaptation, from one thread; memoised or shared answers show only on the second adaptation, after an edit, or in one order of two threads.",
    ["src/adaptation/locations/mod.rs", "src/adaptation/locations/airways.rs", "src/adaptation/sector_index.rs", "src/adaptation/colours.rs", "src/adaptation/icao.rs"],
    [("convert_designator, contains_*", "src/adaptation/locations/mod.rs"), ("expand_airway_segment", "src/adaptation/locations/airways.rs"), ("SectorIndex", "src/adaptation/sector_index.rs"), ("Colours::get", "src/adaptation/colours.rs")],
    note="Oracle: forked processes with the same adaptations, asked one batch each in reverse order.")

TECH = "deterministic simulation with fault injection (seeded schedules, I/O faults, crashes) of the real code"
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in P:
        q = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]} if p["state"] else {}),
                "hook_needed": None,
            },
        }
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "checks": [
        {
            "property": p["id"], "quick_cmd": f"bash check.sh check {p['id']}", "thorough_cmd": f"bash check.sh check {p['id']} --thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": p["level"],
            "level_note": p["note"] + " Seeded search: no violation among the runs explored, not a proof. Trusts the reference model/oracle, the simulated file system at the libc boundary and the scheduler's interception points.",
        }
        for p in P if p["id"] not in PENDING
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in PENDING.items()],
    "notes": "No hooks in /repo: every seam is at the libc boundary (simulated file system, scheduler, entropy, clock).",
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
print(len(P), "properties", len(m["checks"]), "checks")
