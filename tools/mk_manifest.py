"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing, differential against an independent SPA implementation", "Every generated (instant, zone, place, atmosphere) is compared with a second implementation of the SPA, itself checked against 1044 USNO positions at setup; both backends. Trusts the SPA tables copied into lib/spa_tables.py."),
 "C02": ("property-based testing against independent tables and exact rational arithmetic; every month 1965-2035 enumerated", "Instants of all eras, weighted to boundaries; Julian days compared with Fractions to 4 ulp. Trusts the copied IERS and USNO tables."),
 "C03": ("metamorphic property-based testing: one instant in generated time zones, three backends", "Every timed function, each instant in up to four zones; the UTC answer is the oracle."),
 "C04": ("property-based testing of generated call shapes against Python's binding rules", "All checked functions with every split of arguments; a violation is a returned value or another exception."),
 "C05": ("property-based testing aimed at singular configurations found with the reference model", "Finite and in range at sub- and antisolar points, poles, meridian, horizon, facing panels."),
 "C06": ("metamorphic property-based testing over pairs of places", "Geometric consistency, independent of any ephemeris; catches place-dependent errors."),
 "C07": ("metamorphic property-based testing over pairs and runs of instants", "Motion over 1 ms to 30 min compared with the rotation of the earth, across every calendar boundary."),
 "C08": ("property-based testing against the SPA formula, metamorphic scaling and order laws", "Altitudes weighted to the horizon, the cut-off and the pole of the formula."),
 "C09": ("differential property-based testing: fast against precise, and against a rotation model", "Whole sky, 1950-2050 for closeness (1.7 degrees), all eras for the formula."),
 "C10": ("property-based testing against the published series and the true hour angle; all day numbers enumerated", "Clock, declination and equation of time of the UTC day, any longitude and zone."),
 "C11": ("stateful property-based testing: switch histories against copies that never switched", "Every call after any switch is compared with a single-backend copy and a copy loaded without numpy."),
 "C12": ("differential property-based testing: arrays against scalars", "Random shapes, dtypes, layouts and broadcasts; every element compared."),
 "C13": ("property-based testing against the published model and monotonicity", "Altitudes concentrated at the horizon, days at year and zone boundaries."),
 "C14": ("property-based testing against the published day-number model and the SPA sun at the returned instants", "Tolerances are the measured error of the model 1950-2050."),
 "C15": ("metamorphic property-based testing over zones and times of one local day", "Fixed, named and generated daylight-saving zones, aimed at switch days."),
 "C16": ("property-based testing against exact grid arithmetic and pointwise calls", "Horizons are set near the sun's altitude so that shading is decided both ways."),
 "C17": ("property-based testing against the barometric formula and hydrostatic laws", "Any subset of the parameters, both call styles, below and above 11 km."),
 "C18": ("property-based testing against the angle between vectors", "All sun directions and panels, symmetries, tracked sun."),
 "C19": ("property-based testing of every stage against formulas from the publication", "Independent arguments for every stage over its domain."),
 "C20": ("property-based testing against published formulas, sums over years", "Solar constants, zones, years; ratios scalar and array."),
 "C21": ("property-based testing against published formulas", "Any subset of the atmosphere's parameters; three recorded deviations accepted in exactly their recorded form."),
 "C22": ("property-based testing against an independent REST2 model", "Every published transmittance and the beam; unfinished functions are known findings."),
 "C23": ("stateful property-based testing: call histories, threads and suspended generators against fresh copies", "State, arguments, results, module tables and process state compared after near-repeated calls."),
 "C24": ("property-based testing of the script: print, evaluate, install, look up; generated corruptions", "Round trip through the real script and the real lookup."),
 "C25": ("property-based testing of calls generated from the parsed type stubs", "Every declared function, every split of its parameters, kinds of results checked recursively."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
doc = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": T[i][0], "level": "exploration", "level_note": T[i][1] + " Explored cases only, no proof."} for i in ids],
       "not_applicable": [], "notes": "No hooks. Checks import pysolar from /repo's working tree (VERIF_REPO overrides the path), in copies; nothing is written there. Replays: ./check CNN --replay FILE."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
