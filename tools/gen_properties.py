#!/usr/bin/env python3
# Source of properties.jsonl (one dict per property, kept readable here).
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

add("P01", "Satellite-system letters and systems map one-to-one",
 "Each satellite system (GPS G, GLONASS R, SBAS S, Galileo E, BeiDou C, QZSS J, IRNSS I, mixed M) has exactly its RINEX letter, also through the per-system traits, and converting system to letter and back gives the same system. Every other character is rejected with a catchable runtime error and never becomes a system.",
 ["inputs"], "all 256 character values and all 8 systems",
 "No test converts letters at all; the mapping is a total statement over every byte, including the 248 that must be refused.",
 ["src/satsys.hpp", "src/satsys.cpp"],
 [("letter switch in both directions", "src/satsys.cpp"), ("per-system traits identifiers", "src/satsys.hpp")],
 ["satsys_to_char", "char_to_satsys", "satellite_system_traits<>::identifier"])

add("P02", "Observation codes parse and print losslessly",
 "An observation code text made of a type letter (C, L, D, S, I, X), a band digit and an optional attribute parses into exactly that type, band and attribute and prints back as those three characters; a missing or blank attribute means any ('?') and characters after the third are ignored. Type letters and observable types correspond one-to-one; a text shorter than two characters or with another first letter is rejected with a catchable runtime error. Two codes are equal exactly when type, band and attribute are all equal, and every accessor (getters, structured bindings, references) shows and changes the same three components.",
 ["inputs", "histories"], "every text of 0-2 characters over all bytes, every type/band/attribute combination with every suffix of up to two characters, and every sequence of component changes up to the bound",
 "The unit test constructs a handful of codes and checks bindings; it never parses invalid text, never prints a code, and never compares unequal codes component by component.",
 ["src/gnssobs.hpp", "src/gnssobs.cpp"],
 [("ObservationCode parsing, printing, comparison", "src/gnssobs.cpp"), ("get<N> accessors / tuple protocol", "src/gnssobs.hpp")],
 ["ObservationCode", "char_to_observabletype", "observabletype_to_char"])

add("P03", "Observable equality ignores term order and respects multiplicity",
 "Two linear combinations of GNSS observables compare equal exactly when they contain the same terms (system, code and coefficient) the same number of times, in any order. Equality is therefore reflexive, symmetric and transitive, inequality is its exact negation, and comparing never changes either operand.",
 ["inputs", "histories"], "all pairs (and triples) of observables built by construct/add sequences up to the depth bound over a term alphabet that differs in one component at a time",
 "No test compares two multi-term observables; agreement with multiset equality is a statement over all pairs of term lists.",
 ["src/gnssobsrv.hpp", "src/gnssobsrv.cpp"],
 [("term-wise comparison of the two lists", "src/gnssobsrv.cpp operator==")],
 ["GnssObservable::operator==", "GnssRawObservable::operator==", "__ObsPart::operator=="])

add("P04", "Nominal frequency is the coefficient-weighted sum of RINEX band frequencies",
 "The nominal frequency (MHz) of a linear combination is the sum over its terms of coefficient times the RINEX 3.04 nominal frequency of the term's system and band; GLONASS (channel dependent) and mixed terms contribute zero. The per-system band tables hold exactly the RINEX bands, each with its valid tracking attributes including '?' for any. A band missing from a tabulated system's table yields a catchable error, never a number and never process termination.",
 ["inputs", "histories"], "all 8 systems x bands 0..9 (and out-of-range bands), all coefficient values of the alphabet, all term sequences up to the depth bound",
 "No test asks for a frequency; the statement is over every system, band and term list, including the invalid bands that must fail catchably.",
 ["src/satsys.hpp", "src/satsys.cpp", "src/gnssobsrv.cpp", "src/gnssobsrv.hpp"],
 [("static band tables", "src/satsys.cpp"), ("per-term frequency dispatch and sum", "src/gnssobsrv.cpp, gnssobsrv.hpp")],
 ["GnssObservable::frequency", "satellite_system_traits<>::band2frequency", "frequency_map", "valid_atributes"])

add("P05", "An observable is exactly the list of terms it was built from",
 "After any sequence of construction, additions and in-place edits, an observable holds precisely those terms (system, code, coefficient, defaulting to 1) in that order. It reports mixed satellite systems exactly when two of its terms differ in system, and prints every term in order as 'S::CODE*coefficient' (coefficient with six decimals) joined by '+'; const access hands out copies, so changing them changes nothing.",
 ["histories"], "all operation sequences (construct, add by either overload, edit a term, clear/pop, copy, move, assign) up to the depth bound",
 "The tests build one-term observables only and never look at order, mixedness or text after several operations.",
 ["src/gnssobsrv.hpp", "src/gnssobsrv.cpp"],
 [("term vector and its two constructors/add overloads", "src/gnssobsrv.hpp"), ("text rendering", "src/gnssobsrv.cpp")],
 ["underlying_vector", "is_of_mixed_satsys", "to_string"])

add("P06", "Receiver antenna names follow the 20-column model and radome layout",
 "A receiver antenna built from text always holds exactly 20 columns: the first 20 characters of the text, blank padded, with radome NONE in columns 17-20 whenever the text gives no radome; characters beyond the 20th are ignored and no serial number is set. A radome that is given is kept. Building from a C string or a string object gives the same antenna, and a default antenna is blank without serial.",
 ["inputs"], "all texts over a blank/letter/digit alphabet for every length 0..45 around every column boundary, and every prior memory content",
 "testAntenna asserts nothing; the layout must hold for every text length and for every position of the first blank.",
 ["src/antenna.hpp", "src/antenna.cpp"],
 [("copy with padding and default radome", "src/antenna.cpp copy_from_cstr")],
 ["ReceiverAntenna::__underlying_char__", "compare_model", "has_serial"],
 [("name buffer", "model+radome in columns 1-20, serial in 21-40", "src/antenna.hpp")])

add("P07", "Receiver antenna serial numbers and identity relations are exact",
 "After any sequence of setting serial numbers, copying and assigning, an antenna's serial is the first 20 characters of the last one set, and its model and radome are unchanged. An antenna has a serial exactly when that serial contains a non-blank character; the serial comparison is true exactly when the 20 serial columns are equal (ignoring trailing blank padding). Same-model holds exactly when the 20 model/radome columns agree, and same-antenna exactly when both have a serial and model, radome and serial all agree; both relations are symmetric.",
 ["histories", "inputs"], "all operation sequences up to the depth bound over an alphabet of models and serials (empty, blank, short, 20 and more characters, embedded blanks, common prefixes)",
 "testAntenna prints comparisons but asserts none; correctness is over every order of serial updates and every pair of antennas.",
 ["src/antenna.hpp", "src/antenna.cpp"],
 [("serial columns, padding and comparisons", "src/antenna.cpp set_serial_nr, compare_serial, has_serial, is_same, compare_model")],
 ["set_serial_nr", "has_serial", "compare_serial", "compare_model", "is_same"])

add("P08", "Satellite antenna types are stored and compared exactly",
 "A satellite antenna holds the first 20 characters of the type text last given to it, regardless of what it held before; an antenna never given a type is empty. Comparing with a text is true exactly when their first 20 characters are the same.",
 ["histories", "inputs"], "all sequences of constructions, re-assignments and comparisons up to the depth bound over texts of length 0..25 with shared prefixes, and every prior memory content",
 "No test exercises the satellite antenna's comparison or re-assignment of a shorter type.",
 ["src/antenna.hpp", "src/antenna.cpp"],
 [("bounded copy and bounded comparison", "src/antenna.cpp SatelliteAntenna")],
 ["SatelliteAntenna::is_same", "set_from_cstr", "to_string", "__underlying_char__"])

add("P09", "A satellite's identity text shows exactly its system, PRN, SVN and COSPAR id",
 "After any sequence of updates, a satellite reports exactly the system, PRN, SVN, antenna and COSPAR id last set, changing one never affects another, and unset numbers read -1. Its compact text is the system letter and the PRN in at least two digits; its full text adds '-', the SVN in at least three digits, '/', and the complete COSPAR id (YYYY-XXXA), which is empty until set. The text never depends on prior memory content.",
 ["histories", "inputs"], "all field-update sequences up to the depth bound, all PRN and SVN values 0..999, and every prior memory content",
 "No test touches the satellite class; the digits boundaries, the COSPAR width and never-set fields are not sampled at all.",
 ["src/satellite.hpp", "src/satellite.cpp"],
 [("text rendering with zero padding", "src/satellite.cpp"), ("COSPAR buffer", "src/satellite.hpp")],
 ["Satellite::to_string", "prn", "svn", "system", "antenna", "cospar"])

add("P10", "String trimming and exponent conversion are exact for every string",
 "Considering only the characters before the given stop (or the terminator): the default right trim returns everything before the first blank, the from-the-end right trim drops exactly the trailing blanks, the left trim drops exactly the leading blanks, each also reporting the cut position, and a string counts as empty exactly when it has no non-blank character. Exponent conversion turns every D and d into E and changes nothing else. None of them touches memory outside the string.",
 ["inputs"], "all strings up to the length bound over an alphabet containing blank, tab and letters, each with every stop value 0..length+2 and without stop",
 "The existing tests never call these helpers, on which every file reader depends.",
 ["src/nvarstr.hpp", "src/nvarstr.cpp"],
 [("trim policies, emptiness test, D-to-E replacement", "src/nvarstr.cpp")],
 ["rtrim", "ltrim", "string_is_empty", "__for2cpp__"])

add("P11", "Fixed-width numeric fields decode independently of their neighbours",
 "Decoding a run of N numbers written in consecutive fields of M columns yields for each number exactly the value written in its own M columns, whatever the other fields contain, and reports success. If some field holds no number the call reports failure, and the fields before it are still decoded. It never writes beyond the N results.",
 ["inputs"], "all combinations of field contents (blank-padded, full-width, signed, exponent, garbage, blank) for N = 1..4 and several widths, in the compile-time and run-time variants",
 "No test decodes a field; adjacency effects only appear for particular combinations of neighbouring contents.",
 ["src/nvarstr.hpp"],
 [("column stepping numeric decoder", "src/nvarstr.hpp __char2double__")],
 ["__char2double__"])

add("P12", "The receiver-state filter equals the extended Kalman filter equations",
 "For every history of updates, the filter's position, clock offset, clock drift and their standard deviations equal those of the textbook extended Kalman filter for the pseudorange model (range plus receiver clock, minus satellite clock), with the constant-drift clock transition over the given time step, the fixed clock process noise, and 100 plus the given weight as measurement variance of every satellite. Each update uses only that update's satellites and the state left by the previous ones; separate filters never influence each other.",
 ["histories", "inputs"], "all sequences of updates up to the depth bound over geometries of 4..8 satellites, time steps, weights, clock errors and interleavings of two filters",
 "No test instantiates the filter (the header is only syntax-checked); equality must hold along every update history.",
 ["src/gauss_newton.hpp"],
 [("predict/update recursion", "src/gauss_newton.hpp Kalman::update")],
 ["Kalman::update", "Kalman::print_state"])

add("P13", "Observation headers are decoded completely for any number of observation types",
 "Opening an observation RINEX 3 file reports the header's version, file system, marker name and number, antenna with radome and serial, receiver, approximate position, eccentricities and time of first observation exactly as written in their columns, and whether receiver clock offsets were applied. For every satellite system it keeps all declared observation codes, in order, whatever their number (including multiples of 13, which fill continuation lines) and whatever the order of header lines. The total numbers it derives follow from those lists. A header with an entry it reports that cannot be read is refused with a runtime error.",
 ["inputs"], "all headers generated from the grammar: 1..40 observation types per system, 1..3 systems in any order, each optional line present or absent, in every position",
 "The observation reader is not even built by the tests; header correctness depends on counts and line orders no sample covers.",
 ["src/obsrnx.cpp", "src/obsrnx.hpp"],
 [("header line dispatch and continuation-line handling", "src/obsrnx.cpp read_header")],
 ["ObservationRnx constructor, accessors, print_members"])

add("P14", "Observation epochs decode to exactly the requested values per satellite",
 "For each satellite of an epoch the reader returns, for each requested combination, exactly the sum of coefficient times the value in the columns of the matching observation code of that satellite's system, and the missing-value marker if any term's value is blank. Loss-of-lock and signal-strength digits never alter a value, omitted trailing fields are missing, the last field on a line is read whether or not its flag digits are written, and satellites of systems not asked for are left out. The epoch's time is that of its epoch line; event records between epochs are not taken for observations.",
 ["inputs", "configurations"], "all epochs generated by the grammar: satellites x presence pattern x LLI/SSI pattern x line truncation x requested combinations, for one and two systems",
 "The reader is not built by the tests; which columns combine with which depends on presence patterns and line lengths that must all work.",
 ["src/obsrnx.cpp", "src/obsrnx.hpp"],
 [("column resolution of one satellite line", "src/obsrnx.cpp"), ("map from requested observables to columns", "src/obsrnx.cpp set_read_map")],
 ["ObservationRnx::set_read_map", "ObservationRnx::read_next_epoch"])

add("P15", "Observation reading is history independent and ends cleanly",
 "Reading epoch after epoch yields every epoch of the file once and in order, then an end-of-file status; after a rewind the same epochs are read again with identical contents, in any interleaving of reads and rewinds, also after the reader was moved to another object. An epoch's result depends on that epoch alone, never on what was read before. A file cut off at any byte yields the complete epochs before the cut and then end of file or an error, without hanging or crashing. An epoch line whose date, time, flag or number of satellites is missing or impossible, and a satellite line whose system, number or requested value cannot be read, gives an error status, never an epoch, and leaves the epochs around it as they are.",
 ["histories", "crash_points"], "all read/rewind/move operation sequences up to the depth bound, and every truncation point of a generated file",
 "No test reads a file twice, moves a reader, or reads a truncated file.",
 ["src/obsrnx.cpp", "src/obsrnx.hpp"],
 [("stream position and buffer management", "src/obsrnx.cpp")],
 ["ObservationRnx::read_next_epoch", "rewind", "move construction"])

add("P16", "Navigation blocks decode field by field for every system",
 "Reading a navigation RINEX 3 block of GPS, GLONASS, Galileo, BeiDou, QZSS, IRNSS or SBAS yields its system, PRN, clock epoch and every broadcast number from its own columns, with D or E exponents in either case, GLONASS positions, velocities and accelerations converted to metres. Reading into an object that held another block leaves nothing of the old block in the fields the new block defines. Malformed blocks are refused with an error status, never by terminating the process.",
 ["inputs", "histories"], "every system x every field position x number formats, all ordered pairs of blocks read into one object, every truncation and corruption point of a block",
 "The navigation reader is not built by the tests.",
 ["src/navrnx.cpp", "src/navrnx.hpp"],
 [("block decoder", "src/navrnx.cpp set_from_rnx3")],
 ["NavDataFrame::data", "prn", "satsys", "toc"])

add("P17", "Navigation file traversal visits each block once, in file order",
 "Any sequence of peeking, skipping, reading, finding by system and PRN (or any PRN) and rewinding on a navigation file behaves like the same sequence on the list of its blocks: peeking never consumes, skipping consumes exactly one block, finding returns the next match and consumes up to and including it, the end of the list is reported as end of file and rewinding restores the start or any saved position. It never loops forever, whatever the file contains, and a block some of whose lines are missing at the end of the file is not passed as a block. A file with an incomplete header, of a type other than navigation or of an unknown satellite system is refused.",
 ["histories", "inputs"], "all operation sequences up to the depth bound over generated files mixing systems with different block lengths",
 "The navigation reader is not built by the tests; traversal state after failed or partial searches is never sampled.",
 ["src/navrnx.cpp", "src/navrnx.hpp"],
 [("stream position management", "src/navrnx.cpp")],
 ["NavigationRnx::peak_satsys", "ignore_next_block", "read_next_record", "find_next", "rewind"])

add("P18", "GPS, Galileo and BeiDou orbits follow the ICD user algorithm",
 "For every ephemeris and epoch within the fit interval, on either side of a day or week boundary, the Earth-fixed satellite position of GPS, Galileo and BeiDou MEO/IGSO satellites equals that of the ICD user algorithm computed from the same ephemeris, to well under a millimetre. Computing positions changes nothing in the ephemeris: the result depends only on the ephemeris and the epoch.",
 ["inputs", "histories"], "a grid of all combinations of ephemeris parameter alphabets (eccentricity, angles, harmonics, rates) x times from ephemeris x reference epochs around day and week boundaries",
 "The orbit code is not built by the tests; agreement must hold over the whole parameter and time range, not one sample file.",
 ["src/navrnx.hpp", "src/gpsnav.cpp", "src/galnav.cpp", "src/bdsnav.cpp"],
 [("Kepler solution and rotation to Earth-fixed frame", "src/navrnx.hpp kepler2state")],
 ["NavDataFrame::stateNclock"])

add("P19", "Satellite clock corrections equal the broadcast polynomial plus relativity",
 "For every ephemeris and epoch the clock correction of a GPS, Galileo or BeiDou satellite equals offset, drift and drift-rate terms evaluated from the clock reference epoch plus the relativistic eccentricity term at the true eccentric anomaly, and that of a GLONASS satellite the broadcast offset and frequency terms, across day and week boundaries and when clock and ephemeris reference epochs differ.",
 ["inputs"], "a grid of all combinations of clock parameters, eccentricity, reference-epoch separation and query epochs around boundaries",
 "The clock code is not built by the tests.",
 ["src/navrnx.hpp", "src/glonav.cpp"],
 [("clock polynomial and relativistic term", "src/navrnx.hpp sv_clock; src/glonav.cpp")],
 ["NavDataFrame::stateNclock", "sv_clock"])

add("P20", "GLONASS orbits integrate the broadcast equations of motion to any epoch",
 "For any epoch within the validity interval, before or after the reference epoch and not only at multiples of the integration step, the GLONASS satellite state equals the numerical integration of the ICD equations of motion from the broadcast state to exactly that epoch. At the reference epoch it is the broadcast state itself.",
 ["inputs"], "all query offsets on a fine grid over the validity interval x broadcast states x reference epochs around day and week boundaries",
 "The orbit code is not built by the tests and the one sample program checks a single epoch.",
 ["src/glonav.cpp", "src/navrnx.hpp"],
 [("Runge-Kutta integration in the inertial or Earth-fixed frame", "src/glonav.cpp")],
 ["NavDataFrame::stateNclock", "glo_ecef"])

add("P21", "Ephemeris reference times resolve to the right date across boundaries",
 "The reference epoch of an ephemeris is the date its week and second-of-week (or, for GLONASS, its broadcast clock epoch and frame time converted to its time scale) denote, for every day and time including the first and last seconds of days, weeks, months and years, and for every time scale offset in use.",
 ["inputs"], "all clock epochs on a grid that surrounds every day, week, month and year boundary x systems",
 "The date code is not built by the tests.",
 ["src/glonav.cpp", "src/navrnx.hpp", "src/gpsnav.cpp"],
 [("toe resolution per system", "src/navrnx.hpp toe2date; src/glonav.cpp glo_toe2date")],
 ["NavDataFrame::toe", "toc"])

add("P22", "Ephemeris search returns the next usable block of the satellite",
 "Searching a navigation file whose blocks are in chronological order for a satellite at an epoch returns the first block of that satellite, from the current position on, that is healthy and whose validity interval contains the epoch (GPS, Galileo and BeiDou: from the clock epoch for the fit interval; GLONASS: 15 minutes either side of the reference epoch), and reports that there is none when the rest of the file, or the part of it up to 4 hours past the epoch, has none. The search can be continued or repeated after a rewind with the same results, and never loops forever.",
 ["histories", "inputs"], "all generated files of up to the bound blocks x satellites x query epochs, in all call orders up to the depth bound",
 "The search is not built by the tests.",
 ["src/navrnx.hpp", "src/navrnx.cpp"],
 [("search loop with validity test", "src/navrnx.hpp find_next_valid")],
 ["NavigationRnx::find_next_valid"])

add("P23", "SP3 records decode to exactly the written positions, clocks and flags",
 "Reading an SP3-c or SP3-d file yields for every epoch its time and, for every satellite position line in the file's order, the satellite, its position in metres and its clock exactly as written in their columns, and the clock-event, clock-prediction, manoeuvre and orbit-prediction flags exactly as set in that line's flag columns, independent of any other line. Lines without the optional trailing columns carry no flags; a zero coordinate marks the position and a clock of 999999 marks the clock as bad or absent. Velocity, correlation and comment lines change nothing.",
 ["inputs"], "all combinations of line lengths, flag columns and value patterns, in all ordered pairs of lines, for one to three satellites, with and without velocity records",
 "The SP3 reader is not built by the tests; stale data between lines shows only for particular pairs.",
 ["src/sp3c.cpp", "src/sp3c.hpp"],
 [("record decoder", "src/sp3c.cpp get_next_position/velocity")],
 ["Sp3c::get_next_epoch", "Sp3Flag"])

add("P24", "SP3 reading returns each epoch once, in order, and always ends",
 "Successive reads return the file's epochs once each and in order, then end of file on every later call, whatever stands behind the EOF line (the last epoch may come together with the end-of-file status); an epoch with more satellites than the header announces is an error, never a shortened epoch; rewinding starts over. The header's epoch count, interval, number of satellites, coordinate system, orbit type, agency and time system are those written. A header with an impossible entry, or whose start date and GPS week, seconds of week or MJD contradict each other, is refused. A file cut off at any byte, or with a corrupted line, leads to the intact epochs before that point and then an end-of-file or error status, never a hang, crash or invented epoch (an epoch whose end is in doubt because no line follows may be refused).",
 ["histories", "crash_points"], "every truncation point and single-line corruption of generated files, all read sequences beyond the end",
 "The SP3 reader is not built by the tests, and no test reads a truncated file.",
 ["src/sp3c.cpp", "src/sp3c.hpp"],
 [("epoch loop and end detection", "src/sp3c.cpp")],
 ["Sp3c::get_next_epoch", "Sp3c::rewind"])

add("P25", "Receiver antenna calibrations are found by model, radome and serial",
 "Looking up a receiver antenna in an ANTEX file finds the calibration with the same model, radome and serial if there is one; otherwise, unless the serial must match, the generic calibration (without serial) of that model and radome; otherwise it returns an error status and an empty list (1: no such model and radome; 10: there is a generic calibration but the serial must match). The phase centre offsets returned are those of the block found, for exactly its frequencies with their system, band and north, east, up values, whatever the list held before and whatever other blocks and comments the file contains, in whatever order. A file with an incomplete header, of relative calibrations, or of an unknown version or satellite system is refused.",
 ["inputs", "configurations"], "all files of up to the bound antenna blocks in every order x all queries (model, radome, serial, must-match)",
 "The ANTEX reader is not built by the tests.",
 ["src/antex.cpp", "src/antex.hpp"],
 [("block search by type and serial", "src/antex.cpp find_antenna"), ("offset collection", "src/antex.cpp collect_pco")],
 ["Antex::get_antenna_pco"])

add("P26", "Satellite antenna calibrations are found by PRN and epoch",
 "Looking up a satellite antenna by system, PRN and epoch finds the block for that satellite whose validity interval contains the epoch, where a missing end means still valid, and reports not found otherwise; a block whose interval cannot be read is not used. The satellite's SVN, COSPAR id and antenna type, and the offsets returned, are those of that block alone.",
 ["inputs", "configurations"], "all files of up to the bound satellite blocks in every order x validity intervals x satellites x query epochs before, at and after every interval end",
 "The ANTEX reader is not built by the tests.",
 ["src/antex.cpp", "src/antex.hpp"],
 [("block search by satellite and validity", "src/antex.cpp find_satellite_antenna, check_time_interval")],
 ["Antex::get_antenna_pco"])

add("P27", "ANTEX answers depend on the file and the query only, and always arrive",
 "The answer to any lookup in an ANTEX file is the same whatever lookups were made before, whether they succeeded, failed or reached the end of file. On a file cut off at any byte every lookup returns an answer or an error status, without hanging, crashing or reading stale data.",
 ["histories", "crash_points"], "all lookup sequences up to the depth bound, every truncation point of a generated file",
 "The ANTEX reader is not built by the tests.",
 ["src/antex.cpp", "src/antex.hpp"],
 [("stream repositioning per query", "src/antex.cpp")],
 ["Antex::get_antenna_pco"])

add("P28", "Bernese satellite information lookups are exact and repeatable",
 "Looking up an SVN and epoch in a Bernese SATELLIT file returns the PRN and frequency channel, as written in their columns, of the first microwave (MW) entry of part 2 with that SVN whose interval contains the epoch (start included, end excluded, no end: still valid), and reports not found (-1) when there is none. Other entries, their names, dates and signal lists of any length, short lines and the other parts of the file change nothing. Answers do not depend on earlier lookups, whether found, not found or reaching the end of the file; a malformed entry of the satellite gives an error status, and a file cut off at any byte never makes a lookup hang or crash.",
 ["histories", "inputs", "crash_points"], "all files of up to the bound entries x all query sequences up to the depth bound, every truncation point and byte damage",
 "The reader is not built by the tests.",
 ["src/bern_utils.cpp", "src/bern_utils.hpp"],
 [("table scan and interval test", "src/bern_utils.cpp")],
 ["BernSatellit::get_frequency_channel"])

add("P29", "Reader and value objects used side by side never influence each other",
 "Using two objects of the library in any interleaving (two readers over different or the same file, two antennas, observables or filters) gives each the results it would give alone. No result depends on what other objects were created, used or destroyed before.",
 ["schedules", "histories"], "all interleavings of two operation scripts over two objects of every class, including creation and destruction",
 "The tests use one object at a time; shared static or global state shows only in interleavings.",
 ["src/obsrnx.cpp", "src/navrnx.cpp", "src/sp3c.cpp", "src/antex.cpp", "src/bern_utils.cpp", "src/antenna.cpp", "src/satsys.cpp", "src/gnssobsrv.cpp"],
 [("all state is per object; tables are constant", "src/")],
 ["all public classes"])

add("P30", "Ephemeris health, accuracy, validity and time accessors report the block",
 "For every navigation block read, and after any sequence of edits and copies: the health is the broadcast health word of the system; the validity is 15 minutes for GLONASS, the broadcast fit interval in hours for GPS and 4 hours for Galileo and BeiDou; the GPS accuracy is the broadcast one in metres (no usable value, i.e. the largest float, from 8192 m on), the Galileo SISA and issue of data are those broadcast; clock and ephemeris times name the same instant in every resolution, and setting the clock time changes only it. Systems the library has no model for are refused with a runtime error that touches neither outputs nor the ephemeris, and no accessor ever changes the ephemeris.",
 ["inputs", "histories"], "every health word, accuracy and fit interval value x system, every data field alone x all accessors, all operation sequences (read, edit, copy, move) on two ephemerides up to the depth bound",
 "The navigation code is not built by the tests.",
 ["src/navrnx.hpp", "src/gpsnav.cpp", "src/galnav.cpp"],
 [("per-system dispatch on the data block", "src/navrnx.hpp sv_health, fit_interval, toe2date, stateNclock"), ("named fields", "src/gpsnav.cpp gps_ura, src/galnav.cpp gal_sisa")],
 ["NavDataFrame::sv_health", "fit_interval", "gps_ura", "gal_sisa", "gal_iod_nav", "toc", "toe"])

add("P31", "Antenna phase offset entries and lists hold exactly what was put in",
 "An antenna phase offset entry prints exactly the satellite system, observation code and the three offsets it was made with, values not given being zero, whatever memory it is made in and whatever happens later to the objects it was made from. A list of entries keeps them in order, with repetitions, through every sequence of insertions, removals, copies, moves and swaps; separate lists never influence each other.",
 ["inputs", "histories"], "every code and system x offset alphabets, all operation sequences on two lists up to the depth bound",
 "The tests never make an offset entry.",
 ["src/antenna_pcv.hpp", "src/antenna_pcv.cpp"],
 [("value class and list", "src/antenna_pcv.hpp AntennaPco, AntennaPcoList")],
 ["AntennaPco::dummy_print", "AntennaPcoList::__vecref__"])

add("P32", "File readers release what they hold, survive moves and leave files alone",
 "Whatever sequence of opening, refused opening, reading, moving and destroying is applied to readers (observation, navigation, SP3, ANTEX, satellite information): at any time no more files are open than there are readers, destroying them all leaves no file open and no memory allocated, a reader moved to another object goes on exactly where it was, and no file is ever changed or created. A file that is absent, empty, a directory or without a complete header is refused every time with a runtime error.",
 ["histories", "fault_sequences"], "all operation sequences up to the depth bound on two readers of every class x eight kinds of file, with leak accounting over repeated runs",
 "The tests open no file; leaks and lost positions show only in histories with failures and moves.",
 ["src/obsrnx.cpp", "src/navrnx.cpp", "src/sp3c.cpp", "src/antex.cpp", "src/bern_utils.cpp", "src/obsrnx.hpp", "src/navrnx.hpp", "src/sp3c.hpp", "src/antex.hpp", "src/bern_utils.hpp"],
 [("stream ownership, constructors that throw", "src/ reader constructors and destructors")],
 ["constructors and destructors of all readers"])
add("P33", "Separate objects can be used from separate threads",
 "When two threads each create, use and destroy objects of their own (receiver and satellite antennas, observables, observation codes, Kalman filters, observation, navigation, SP3, ANTEX and satellite information readers, navigation frames, numeric fields), of the same class or of different ones, reading the same file or different ones, then every value, status and text each thread gets is what it would get running alone, wherever one thread is interrupted and however far the other goes meanwhile.",
 ["schedules", "histories"], "two threads under a controlled scheduler, all stop points for one preemption and a grid of pairs of them for two, over 13 kinds of objects",
 "The tests are single threaded; a scratch buffer shared by calls goes unnoticed in every sequential history.",
 ["src/obsrnx.cpp", "src/navrnx.cpp", "src/glonav.cpp", "src/gpsnav.cpp", "src/galnav.cpp", "src/sp3c.cpp", "src/antex.cpp", "src/bern_utils.cpp", "src/gnssobs.cpp", "src/gnssobsrv.cpp", "src/antenna.cpp", "src/satellite.cpp", "src/nvarstr.cpp", "src/gauss_newton.hpp"],
 [("no mutable data shared between objects: line buffers, integration arrays, matrices are local", "src/ all functions with local buffers")],
 ["all classes and readers"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
