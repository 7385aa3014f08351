#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (and keeps not_applicable current)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {  # property -> (specification, level note)
    "C01": ("Codes", "All 256 characters and 8 systems, exhaustively, plus seeded call sequences."),
    "C02": ("Codes", "All texts of up to 3 characters over a 17-character alphabet (deep: 26), all short construct/modify/copy/compare histories over two codes."),
    "C03": ("Codes", "All systems x bands -1..11 x coefficients; tables transcribed from RINEX 3.04 and the interface documents."),
    "C04": ("Codes", "All pairs of combinations of up to 2 (deep: 3) parts from a pool of 4-5, larger ones sampled."),
    "C05": ("Antennas", "All blank patterns around the radome columns for all lengths up to 23, lengths up to 45 sampled patterns, both constructors."),
    "C06": ("Antennas", "All states of two antennas over small name/serial pools, every call in every state; longer histories sampled."),
    "C07": ("Antennas", "As C06 for satellite antennas and satellites; the COSPAR id of a satellite without one is compared modulo trailing blanks."),
    "C08": ("Strings", "All texts up to length 4 (deep: 6) over 3-4 characters x all limits x all helpers; number fields over 7 field shapes."),
    "C09": ("Antex", "All files of up to 3 (deep: 4) blocks from a pool of 6 x all queries over 3 models and 4 serials; larger files and real-size grids sampled."),
    "C10": ("Antex", "All files of up to 3 (deep: 4) blocks from a pool of 7 x 36 queries at all interval ends; larger files sampled. Blocks without VALID FROM are left open."),
    "C11": ("Antex", "All frequency lists of a pool x 12 block layouts (optional records, RMS sections, azimuth grids), pairs of blocks; others sampled."),
    "C12": ("Antex", "All histories of up to 3 (deep: 4) loads, refused loads and queries over 5 files; longer ones sampled."),
    "C13": ("Nav", "All files of up to 2 (deep: 3) records of all systems, damaged ones included, x all call sequences up to length 3 (deep: 4); one file of 5200 records; larger ones sampled."),
    "C14": ("Nav", "All systems x PRN, epochs around day and week ends, number patterns, healths, fit intervals, exponent letters; pairs of records in one frame; others sampled. Blank required fields are left open."),
    "C15": ("Nav", "All files of up to 2 (deep: 3) records from a pool of 8 x 27 epochs at all interval ends x systems x PRN or any; larger ones sampled."),
    "C17": ("Obs", "Headers with 1..40 codes per system in all continuation shapes, all combinations of small pools of every header record in several record orders; headers with up to 130 codes per system and 700 comments sampled."),
    "C18": ("Obs", "All requests of up to 2 (deep: 3) observables per system over pools of 38 and 4, skipping or not, against 2 declarations; larger ones sampled. An observable both mixed and missing is left open."),
    "C19": ("Obs", "All files of up to 2 (deep: 3) epochs from a pool of 6, damaged epochs, all call sequences up to length 3 (deep: 4); 1620 value layouts x 9 line layouts; larger files sampled."),
    "C20": ("Sp3", "All files of up to 2 (deep: 3) epochs from a pool of 4 and 9 kinds of damaged epochs, 4 file ends, all call sequences up to length 3 (deep: 4); 400 headers; 4500 value, flag and line layouts; larger files sampled."),
}
CLAIMED["C16"] = ("Orbit", "All orientations x places x harmonic corrections x rates x clock polynomials of the lattice of elements with exact closed forms (angles in eighths of a turn, a 3-4-5 angle, e 0, .6, .8), all systems, epochs around day and week ends; GLONASS equilibria, circular orbits, free motion and the worked example of the ICD. Positions to 1e-8 of the semi-major axis, clocks to 1e-15 s.")
CLAIMED["C21"] = ("Bern", "All files of up to 2 (deep: 3) records from a pool of 5, 5 kinds of damaged records, all sequences of up to 2 queries; 5000 record layouts x 7 queries; files up to 1500 records and 2000 lines of part 1 sampled.")
CLAIMED["C22"] = ("Kalman", "Up to two filters and their copies, all sequences of up to 2 (deep: 3) updates from pools of geometries with rational directions, elapsed times, deviations, satellite clocks, weights and satellite counts; the specification computes the filter in fixed point with tracked error bounds and decides what they allow. Sigmas before the first update and unweighted updates with more than four satellites are left open.")
CLAIMED["C23"] = ("Faults", "One fault of 9 kinds at every line and every 4th column (deep: every column; pairs of faults at every 24th) of 7 valid files of the 5 formats, healthy readers alongside; up to 4 faults and random bytes sampled. What a reader makes of a damaged file is left open.")
CLAIMED["C24"] = ("Moves", "All sequences of 5 (deep: 6) constructions, refused constructions, move constructions, move assignments, reads, rewinds and destructions over 3 objects and files of each of the 5 readers, allocations tracked; moves between the calls of the readers' own specifications. Self-assignment is left out.")
CLAIMED["C25"] = ("Many", "All interleavings of 4 (deep: 5) calls each of two users (deep: also three) of every pair of readers and of the other parts, programs seeded; long random interleavings of up to four users; up to six users with a thread each, under ASan and under the thread sanitizer. Header printing is left out of concurrent runs; Kalman filters are covered by C22 only.")
NOT = {}
TRUST = (" Trusted: TLC, the specification in specs/, the harness and the projection of results it prints;"
         " the real code is compiled from /repo's working tree with ASan/UBSan.")

def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in CLAIMED:
            spec, note = CLAIMED[p]
            checks.append({"property": p,
                           "quick_cmd": "python3 tools/check.py %s quick" % p,
                           "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                           "technique": "TLA+ specification (specs/%s.tla) model-checked with TLC; its behaviours replayed on the real code and recorded traces validated by TLC" % spec,
                           "level": "model_checking",
                           "level_note": note + TRUST})
    na = [{"property": p, "reason": NOT.get(p, "Not claimed yet: its specification and harness are still being built.")}
          for p in props if p not in CLAIMED]
    m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed: every check observes the public API. Known findings: known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")
main()
