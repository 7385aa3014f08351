#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run it to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe)}})

p("C01", "Satellite-system letters form a bijection and unknown letters are refused",
  "Each satellite system (GPS G, GLONASS R, SBAS S, Galileo E, BeiDou C, QZSS J, IRNSS I, mixed M) has exactly one identifying letter, and letter-to-system and system-to-letter are inverse to each other. Every other character, including lower case and non-ASCII ones, is refused with an exception and never mapped to a system.",
  ["inputs"], "all 256 characters, all 8 systems, in every order of calls",
  "No test converts more than a few letters; none tries an invalid one.",
  ["src/satsys.cpp", "src/satsys.hpp"],
  [("char_to_satsys", "src/satsys.cpp"), ("satsys_to_char", "src/satsys.cpp")],
  observe=["return value or exception of the two conversion functions"])

p("C02", "Observation codes parse, print and compare by type, band and attribute only",
  "An observation code text of at least two characters whose first is one of C L D S I X and whose second is a decimal digit is accepted and printed back as exactly those two characters plus the third one, where a missing or blank third character is the wildcard '?' and anything later is ignored; every other text is refused with an exception. Two codes (and two raw observables) are equal exactly when type, band and attribute (and system) are equal, whatever way they were built, copied or modified.",
  ["inputs", "histories"], "all one- to four-character texts over a byte alphabet; all sequences of constructing, re-banding, copying and comparing codes",
  "The tests print a handful of valid codes and assert nothing about refusals or equality.",
  ["src/gnssobs.cpp", "src/gnssobs.hpp", "src/gnssobsrv.hpp", "src/gnssobsrv.cpp"],
  [("ObservationCode(const char*)", "src/gnssobs.cpp"), ("ObservationCode::to_string", "src/gnssobs.cpp"),
   ("ObservationCode::operator==", "src/gnssobs.hpp"), ("GnssRawObservable", "src/gnssobsrv.hpp")],
  observe=["to_string(), ==, !=, get<N>(), band(), exceptions"])

p("C03", "Carrier frequencies and physical constants follow the RINEX 3.04 tables",
  "For every system and band defined by RINEX 3.04 the nominal carrier frequency is the published one, the attribute table of a system lists exactly the bands of its frequency table with the tracking attributes RINEX defines for each (and '?'), and gravitational constant, earth rotation rate and relativistic clock constant of GPS, Galileo and BeiDou are those of their interface documents. Asking for the frequency of an observable in a band its system does not define raises an exception that the caller can catch; GLONASS and mixed observables contribute zero because their carrier is not a property of the band.",
  ["inputs", "configurations"], "all 8 systems x bands 0..9 (and multi-digit, negative bands), all coefficients",
  "The tests print some frequencies for GPS bands and assert nothing; undefined bands are never asked for.",
  ["src/satsys.cpp", "src/satsys.hpp", "src/gnssobsrv.cpp", "src/gnssobsrv.hpp"],
  [("frequency_map / valid_atributes tables", "src/satsys.cpp"), ("band2frequency", "src/satsys.hpp"),
   ("__ObsPart::frequency", "src/gnssobsrv.cpp")],
  observe=["frequency(), band2frequency(), the public tables, mi(), omegae_dot(), f_clock()"])

p("C04", "Linear combinations of observables behave as multisets of weighted parts",
  "A combined observable is exactly the parts that were put in, with their coefficients: its frequency is the sum of coefficient times part frequency, it is of mixed systems exactly when two of its parts differ in system, and it prints every part in insertion order with its coefficient. Two combinations are equal exactly when one is a reordering of the other (same parts, same multiplicities, same coefficients); equality is reflexive, symmetric and transitive and != is its negation.",
  ["inputs", "histories"], "all sequences of building, extending, copying and comparing combinations of up to several parts",
  "The existing test builds a few combinations in one order and asserts nothing about repeated or reordered parts.",
  ["src/gnssobsrv.cpp", "src/gnssobsrv.hpp"],
  [("GnssObservable::operator==", "src/gnssobsrv.cpp"), ("GnssObservable::frequency / is_of_mixed_satsys", "src/gnssobsrv.hpp"),
   ("GnssObservable::to_string", "src/gnssobsrv.cpp")],
  state=[("__vec", "ordered list of weighted parts", "src/gnssobsrv.hpp")],
  observe=["==, !=, frequency(), is_of_mixed_satsys(), to_string(), underlying_vector()"])

p("C05", "Receiver antenna names are normalised to 20 columns with a radome",
  "Whatever text a receiver antenna is built from, its name afterwards is exactly 20 columns: the first 20 characters of the text padded with blanks, and with radome NONE when the radome columns 17-20 are blank; excess characters are ignored and a new antenna carries no serial number. A default-constructed antenna is 20 blanks without serial number.",
  ["inputs"], "all texts of length 0..45, blanks anywhere, built from C string or std::string",
  "The test prints five antennas and asserts nothing; full-width names with a blank radome never occur.",
  ["src/antenna.cpp", "src/antenna.hpp"],
  [("ReceiverAntenna::copy_from_cstr", "src/antenna.cpp"), ("ReceiverAntenna::radome_is_empty/set_none_radome", "src/antenna.cpp")],
  state=[("__name", "model, radome and serial as one fixed-width text", "src/antenna.hpp")],
  observe=["__underlying_char__(), has_serial()"])

p("C06", "Receiver antenna identity and serial numbers stay consistent in any history",
  "After setting a serial number the antenna carries exactly the first 20 characters of it, blank padded, whatever serial it had before, and its name is untouched; it has a serial exactly when one of those characters is not blank, and comparing against a serial text succeeds exactly for the text that was set (disregarding trailing blanks and characters past the 20th). Two antennas are of the same model exactly when their 20-column names agree, and the same antenna exactly when additionally both have serials and these agree; both relations are symmetric and copies carry everything.",
  ["inputs", "histories"], "all sequences of construct, set serial, copy and compare over several antennas",
  "The test prints comparison results of one sequence without asserting any of them.",
  ["src/antenna.cpp", "src/antenna.hpp"],
  [("set_serial_nr", "src/antenna.cpp"), ("has_serial", "src/antenna.cpp"), ("is_same", "src/antenna.cpp"),
   ("compare_model", "src/antenna.cpp"), ("compare_serial", "src/antenna.cpp")],
  state=[("__name", "model, radome and serial as one fixed-width text", "src/antenna.hpp")],
  observe=["is_same, compare_model, compare_serial, has_serial, __underlying_char__()"])

p("C07", "Satellite antennas and satellites keep and report exactly what was set",
  "A satellite antenna holds exactly the first 20 characters of the text it was last set from and is the same as a text exactly when their first 20 characters agree. A satellite reports the system, PRN, SVN and COSPAR id it was given, prints as system letter plus at least two-digit PRN (and, in long form, '-' plus at least three-digit SVN, '/' and the 9-character COSPAR id YYYY-XXXA), and a default-constructed one has PRN and SVN -1, an empty antenna and no COSPAR id; copies carry everything.",
  ["inputs", "histories"], "all texts of length 0..45, all sequences of set, copy, compare and print",
  "No test touches satellite antennas or prints satellites.",
  ["src/antenna.cpp", "src/satellite.cpp", "src/satellite.hpp"],
  [("SatelliteAntenna::copy_from_cstr / is_same", "src/antenna.cpp"), ("Satellite::to_string", "src/satellite.cpp"),
   ("Satellite constructors", "src/satellite.hpp")],
  observe=["SatelliteAntenna::is_same/to_string, Satellite accessors and to_string"])

p("C08", "Fixed-column text helpers respect their bounds and change nothing else",
  "Trimming returns exactly the text up to the first blank (search from the start), up to the last non-blank (search from the end), or from the first non-blank (left trim), reports the matching index, and never looks at or returns characters past the given limit; a field is empty exactly when all characters before the limit are blanks. Fortran exponents are rewritten (D and d become E, nothing else changes), N numbers in M-column fields are converted exactly when every field starts with a number, and two-digit years map to 1980-2079.",
  ["inputs"], "all texts over a small alphabet up to a bounded length x all limits; all two-digit years",
  "No test calls these helpers directly.",
  ["src/nvarstr.cpp", "src/nvarstr.hpp", "src/rinex.hpp"],
  [("rtrim/ltrim policies", "src/nvarstr.cpp"), ("string_is_empty", "src/nvarstr.cpp"), ("__for2cpp__", "src/nvarstr.cpp"),
   ("__char2double__", "src/nvarstr.hpp"), ("four2two_digit_year", "src/rinex.hpp")],
  observe=["return values and out-parameters"])

p("C09", "ANTEX receiver lookup returns the best calibration or says there is none",
  "Looking up a receiver antenna in an ANTEX file yields the block calibrated for that very serial number if there is one, otherwise the generic block of the same model and radome, and otherwise a positive status with no offsets. When the serial must match, a file that has the model but not the serial gives status 10 and a file without the model gives status 1.",
  ["inputs", "configurations"], "all small ANTEX files (any order and mix of receiver/satellite, generic/individual blocks) x all queried antennas",
  "No ANTEX test is built; the sample program looks up one antenna in one file.",
  ["src/antex.cpp", "src/antex.hpp", "src/antenna.cpp"],
  [("Antex::find_closest_antenna_match", "src/antex.cpp"), ("Antex::get_antenna_pco", "src/antex.cpp"),
   ("Antex::read_next_antenna_type", "src/antex.cpp")],
  state=[("__istream / __end_of_head", "file cursor and start of the blocks", "src/antex.hpp")],
  observe=["return status and collected offsets"])

p("C10", "ANTEX satellite lookup returns the block valid at the requested epoch",
  "Looking up a satellite by system, PRN and epoch yields the first block of that satellite whose validity interval contains the epoch (both ends included, a missing end meaning unbounded), never one outside its validity or of another satellite, and a positive status when there is none. The reported satellite carries that block's own antenna type, PRN, SVN and COSPAR id, with fields that the block leaves blank reported as absent. A block whose satellite code or dates cannot be read, whose SVN belongs to another system than its PRN, or which has no start of validity describes no satellite at all.",
  ["inputs", "configurations"], "all small files with several blocks per PRN and any validity intervals x all systems, PRNs and epochs",
  "No ANTEX test is built, and real files rarely have overlapping, open or metadata-free blocks side by side.",
  ["src/antex.cpp", "src/antex.hpp"],
  [("Antex::find_satellite_antenna", "src/antex.cpp"), ("check_time_interval", "src/antex.cpp"),
   ("resolve_satellite_antenna_line", "src/antex.cpp")],
  observe=["return status, Satellite fields, collected offsets"])

p("C11", "ANTEX phase-centre offsets are exactly those of the matched block",
  "The list of phase-centre offsets returned for a matched antenna has one entry per frequency section of that block, in file order, with that section's system, band and north/east/up values, whatever optional records, RMS sections, grid sizes or neighbouring blocks surround them. The list is replaced, never appended to, and is left empty when nothing matched. A block in which a line the offsets depend on is missing or unreadable, or which holds fewer sections than it announces, is answered with a positive status, never with the offsets of another block.",
  ["inputs", "configurations"], "all small blocks with 0..n frequencies, optional header records and RMS sections",
  "No ANTEX test is built.",
  ["src/antex.cpp", "src/antenna_pcv.hpp", "src/antenna_pcv.cpp"],
  [("collect_pco", "src/antex.cpp"), ("AntennaPcoList", "src/antenna_pcv.hpp")],
  observe=["AntennaPcoList contents"])

p("C12", "ANTEX answers depend only on the file and the query, never on earlier queries",
  "An ANTEX reader gives the same answer to the same query however many queries, successful or not, receiver or satellite, were made before, and after being re-targeted to another file it answers from that file only. Every query terminates.",
  ["histories", "inputs"], "all sequences of up to several queries and re-targetings over small files, including failing ones",
  "No ANTEX test is built; history dependence needs specific query sequences.",
  ["src/antex.cpp", "src/antex.hpp"],
  [("stream repositioning in every query", "src/antex.cpp"), ("Antex::reset_to_file", "src/antex.cpp")],
  state=[("__istream", "shared stream state (position, eof/fail flags)", "src/antex.hpp")],
  observe=["sequence of return statuses and results"])

p("C13", "Navigation file reading delivers every record once, in order, and can restart",
  "Reading a RINEX 3 navigation file delivers every data block once, in file order, then reports end of file, for any mix of systems; peeking reports the next block without consuming it, skipping consumes exactly one block, and searching by system returns the next block of that system and leaves the cursor just behind it. Rewinding restarts from the first block in every state, also after end of file.",
  ["histories", "inputs"], "all small files mixing all systems x all sequences of read, peek, skip, find and rewind",
  "No navigation test is built; the sample program reads one file front to back.",
  ["src/navrnx.cpp", "src/navrnx.hpp"],
  [("NavigationRnx::read_next_record/peak_satsys/ignore_next_block/find_next/rewind", "src/navrnx.cpp"),
   ("NavDataFrame::set_from_rnx3", "src/navrnx.cpp")],
  state=[("__istream/__end_of_head", "cursor", "src/navrnx.hpp")],
  observe=["status codes and decoded frames"])

p("C14", "Navigation records decode every broadcast field to its documented place",
  "A decoded navigation record carries the system, PRN, clock reference epoch and every broadcast number of its own block in its documented slot, for each system's block layout and every legal writing of the numbers (D, d, E or e exponents), with GLONASS positions, velocities and accelerations converted from km to m; slots its system does not broadcast are zero, never data of an earlier record. A record with an unreadable number, date or satellite, or one cut short, is an error and never decoded. Health, accuracy in metres (GPS, Galileo), fit interval and time-of-ephemeris (the week taken from the record, for GLONASS the one nearest to the clock epoch) reported from it follow the system's definition.",
  ["inputs", "histories"], "all systems, all values including negative and Fortran-exponent ones, frames reused across systems",
  "No navigation test is built.",
  ["src/navrnx.cpp", "src/navrnx.hpp", "src/gpsnav.cpp", "src/glonav.cpp", "src/galnav.cpp", "src/bdsnav.cpp"],
  [("NavDataFrame::set_from_rnx3", "src/navrnx.cpp"), ("sv_health, fit_interval, toe", "src/navrnx.hpp")],
  state=[("data__", "the 31 broadcast numbers", "src/navrnx.hpp")],
  observe=["NavDataFrame accessors"])

p("C15", "Ephemeris selection returns the first usable record for the epoch",
  "Asking a navigation file for a valid GPS, GLONASS, Galileo or BeiDou ephemeris of a satellite (or, with PRN -1, of any satellite of the system) at an epoch returns the first remaining healthy record of it whose validity contains the epoch: from its clock reference epoch (inclusive) for its fit interval, for GLONASS within 15 minutes of its reference epoch. It never returns a record of another satellite, an unhealthy one or one outside its validity. It ends with a failure status at the end of the file or at the first record of that satellite more than four hours ahead of the epoch, and the caller can go back to where the search began.",
  ["inputs", "histories"], "all small files with several records per satellite x all epochs, repeated queries",
  "No navigation test is built.",
  ["src/navrnx.cpp", "src/navrnx.hpp"],
  [("NavigationRnx::find_next_valid", "src/navrnx.cpp")],
  observe=["status and returned frame"])

p("C16", "Satellite clock and orbit evaluation follow the interface documents",
  "For a GPS, Galileo or BeiDou record the position at an epoch is the one the user algorithm of the interface document of its system computes, with the constants of that document, from the broadcast elements for exactly that epoch, in the Earth-fixed frame; for BeiDou GEO satellites with their tilted frame. For GLONASS position and velocity are those of integrating the equations of motion of its document from the record's time of ephemeris to exactly the epoch asked for; epochs more than 15 minutes away are computed, too, and marked with status -1. The clock correction is the broadcast polynomial about the clock reference epoch (GLONASS: the time of ephemeris) plus, except for GLONASS, the relativistic term of the satellite's place at the epoch. This holds when reference epochs and epoch lie on different days or weeks, and whatever the resolution of the epoch. Systems without such an algorithm are refused with a catchable exception. Evaluating neither changes the record nor depends on earlier evaluations.",
  ["inputs", "histories"], "all records and epochs within a few hours of the reference epochs",
  "No navigation test is built.",
  ["src/navrnx.hpp", "src/glonav.cpp", "src/satsys.hpp"],
  [("NavDataFrame::kepler2state / sv_clock / stateNclock", "src/navrnx.hpp"), ("NavDataFrame::glo_ecef / glo_clock", "src/glonav.cpp")],
  observe=["status, state vector and clock correction"])

p("C17", "Observation file headers are decoded completely",
  "Opening a RINEX 3 observation file yields its version, system, marker name and number, receiver number and type, antenna with serial number, approximate position, antenna offsets, receiver clock flag and time of first observation exactly as written in their columns (texts without trailing blanks), whatever the order of the records and however many comments or unknown records there are. For every system it yields exactly the declared list of observation codes in declared order, for any number of codes and continuation lines. Files that are not observation files, have no end of header, or have an unreadable record of one of these kinds are refused with a catchable exception.",
  ["inputs", "configurations"], "all headers with 1..n systems and 1..n codes each, any record order",
  "No observation test is built.",
  ["src/obsrnx.cpp", "src/obsrnx.hpp"],
  [("ObservationRnx::read_header / __resolve_obstypes_304__", "src/obsrnx.cpp")],
  observe=["constructor outcome, header accessors/members print"])

p("C18", "Requested observables are resolved against the file's declared codes",
  "A request for observables per system is matched against the codes the file declares for that system: each part is located at its declared column with its coefficient, in the order and multiplicity of the request. An observable with a part the file does not declare is removed from the request and from the answer when missing ones may be skipped, and otherwise makes the whole answer empty; so does an observable that mixes systems or is filed under another system than its own. No part is ever mapped to another code or system, and the answer does not depend on earlier requests or reads.",
  ["inputs", "configurations"], "all small requests x all small declarations, wildcard included",
  "No observation test is built.",
  ["src/obsrnx.cpp", "src/obsrnx.hpp"],
  [("ObservationRnx::set_read_map / obs_getter", "src/obsrnx.cpp")],
  observe=["the resolved map, the remaining request and the values read with it"])

p("C19", "Observation epochs are delivered once, in order, with the requested values",
  "Reading an observation file delivers every epoch once, in file order, with its time stamp and exactly its satellites of the requested systems in the order of the file, then reports end of file; special-event records (flag 2-6) are passed over. Every requested observable carries the value printed in its 14 columns (times its coefficient), or the missing marker if the field is blank or beyond the end of the line; a linear combination is the weighted sum when all its parts are present and missing otherwise. Loss-of-lock and strength digits never leak into values, an epoch with an unreadable mark, date, time, number of satellites or satellite, or with fewer lines than it announces, is reported as an error and never delivered, and rewinding restarts from the first epoch in every state.",
  ["inputs", "histories"], "all small files (any satellites, missing fields, line lengths) x all sequences of read and rewind",
  "No observation test is built.",
  ["src/obsrnx.cpp", "src/obsrnx.hpp"],
  [("ObservationRnx::read_next_epoch / sat_epoch_collect / collect_epoch", "src/obsrnx.cpp")],
  state=[("__buf/__istream", "line buffer and cursor", "src/obsrnx.hpp")],
  observe=["status codes, epoch, satellites and values"])

p("C20", "SP3 files deliver every epoch and satellite record with its flags",
  "Opening an SP3 file (version c or d) yields its start epoch, declared epoch count, interval, number of satellites, time system, agency, frame and orbit type, and reading it delivers every epoch once, in order, with its records in file order: each satellite's coordinates and clock, the absent-value flags (a zero coordinate; a clock of 999999 or more) and the clock event, clock prediction, manoeuvre and orbit prediction flags, all taken from the satellite's own line; velocity and correlation records, accuracy columns, comments and the lines' length do not matter. The last epoch comes together with the end-of-file status (without an EOF record the file may end with or without it) and further reads do not succeed; an epoch with unreadable lines or more records than the header's satellites is an error, never a different epoch; rewinding restarts in every state. Files that are not well-formed SP3 are refused.",
  ["inputs", "histories"], "all small files (c and d variants, any satellites, short lines) x all sequences of read and rewind",
  "No SP3 test is built.",
  ["src/sp3c.cpp", "src/sp3c.hpp"],
  [("Sp3c::read_header", "src/sp3c.cpp"), ("Sp3c::get_next_epoch", "src/sp3c.cpp")],
  state=[("__istream/__end_of_head", "cursor", "src/sp3c.hpp")],
  observe=["status codes, epoch, records, flags, header fields (print_members)"])

p("C21", "GLONASS frequency channels are those valid at the requested epoch",
  "Looking up a GLONASS satellite's frequency channel at an epoch in a Bernese satellite-information file returns the channel and PRN of a microwave (MW) record of that satellite (SVN) whose validity interval contains the epoch (start included, stop excluded, a blank stop is open), and a failure status when there is none; records of other sensors, line lengths and the size of the file do not matter, a damaged record may fail the query but never yields a wrong channel, and the answer does not depend on earlier queries or failures. Files without the expected headings are refused.",
  ["inputs", "histories"], "all small files with several records per PRN x all sequences of queries",
  "No test of it is built.",
  ["src/bern_utils.cpp", "src/bern_utils.hpp"],
  [("BernSatellit::get_frequency_channel / goto_part2", "src/bern_utils.cpp")],
  observe=["status and returned channel"])

p("C22", "The position filter is the Kalman solution of its measurement model",
  "An update of the pseudorange position filter (coefficient 1) first advances the clock state by drift times the elapsed time it is given and its covariance with it plus fixed process noise - the first update starts from sigma 50 m for position and clock and a drift variance of 30 -, then combines that prediction with the nsats measurements (pseudorange plus c times satellite clock, variance 100 plus the weight given) as the linear least-squares (Kalman) solution linearized at the predicted state. So measurements equal to the predicted ones leave the predicted state as it is, the order of the satellites and entries behind the first nsats do not matter, up to four independent satellites without weights are solved exactly, and other filters or copies made earlier are not affected.",
  ["inputs", "histories"], "all sequences of updates with any geometry, elapsed times, weights and satellite clocks",
  "The header is only parsed by the build, never executed by a test.",
  ["src/gauss_newton.hpp"],
  [("Kalman::update", "src/gauss_newton.hpp")],
  state=[("state_, P_, F_", "filter state", "src/gauss_newton.hpp")],
  observe=["print_state()"])

p("C23", "Damaged or truncated files are reported, never crash or hang the program",
  "Whatever bytes a file contains - cut at any point, lines missing, doubled, shortened, lengthened or with a character replaced - opening and reading it ends with data, an error status or a catchable exception after a number of calls bounded by the file size; it never terminates the process, never loops forever, and never reads or writes outside its own memory. A reader that refused one file or reached its end is still usable.",
  ["fault_sequences", "inputs"], "every single truncation point and line/character fault of small valid files of every format, through every public read call",
  "No reader test is built, and sample programs only read well-formed files.",
  ["src/antex.cpp", "src/navrnx.cpp", "src/obsrnx.cpp", "src/sp3c.cpp", "src/bern_utils.cpp"],
  [("status returns of every reader function", "src/*.cpp"), ("iteration guards", "src/*.cpp")],
  observe=["process outcome, statuses and exceptions of every call"])

p("C24", "Readers can be moved; the new object continues where the old one stood",
  "Moving a file reader (construction or assignment) transfers it completely: the new object continues with exactly the cursor, header and requests the old one had, the old one can be destroyed or assigned to, and nothing is released twice or leaked.",
  ["histories"], "all interleavings of move construction, move assignment, reads and destruction",
  "No test moves a reader.",
  ["src/antex.hpp", "src/navrnx.hpp", "src/obsrnx.hpp", "src/sp3c.hpp", "src/bern_utils.hpp"],
  [("defaulted move operations", "src/*.hpp"), ("ObservationRnx::__buf ownership", "src/obsrnx.hpp")],
  observe=["results read through the moved-to object; memory checker"])

p("C25", "Objects of the library do not disturb each other",
  "Several readers (of the same or of different kinds, of the same or of different files), frames, observables, antennas, satellites and text helpers can be used side by side in one program: in whatever order calls on different objects alternate, and also when each object is used by a thread of its own, every call gives the result it would give if the other objects did not exist. No call leaves anything behind (buffers, positions, remembered answers, conversion errors) that another object's calls could see, and calls on different objects from different threads are free of data races.",
  ["schedules", "histories", "programs"], "all interleavings of the calls of two or three users of the library",
  "Tests use one object at a time in one thread.",
  ["src/antex.cpp", "src/navrnx.cpp", "src/navrnx.hpp", "src/obsrnx.cpp", "src/sp3c.cpp", "src/bern_utils.cpp", "src/satsys.cpp", "src/gnssobs.cpp", "src/gnssobsrv.cpp", "src/antenna.cpp", "src/satellite.cpp", "src/nvarstr.cpp"],
  [("local buffers of every reading function", "src/*.cpp"), ("constant tables of the satellite systems", "src/satsys.cpp")],
  observe=["results of the calls on each object; thread sanitizer"])

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
