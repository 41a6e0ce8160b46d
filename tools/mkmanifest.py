#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TRUST = "Bounded by what the generators reach within the run; trusts the hive builder and the reference code in harness/src (written from the format, not from the crate)."
C = {}
def c(i, technique, note):
    C[i] = (technique, note + " " + TRUST)
c("P01", "property-based fuzzing: generated, damaged and raw hives under the whole API, access-budget and panic oracle (libFuzzer in thorough)",
  "Every public operation run on generated hostile hives in an overflow-checked build with a counting buffer; panics, aborts, budget overruns, hangs and slices outside the buffer are failures.")
c("P02", "property-based testing plus exhaustive small domains against an independent header predicate",
  "Every header bit flip, every short length and special values of every field are enumerated; combinations are random.")
c("P03", "property-based testing of generated hives: round trip tree -> bytes -> walk",
  "Random trees in random layouts plus fixed boundary shapes (65535 entries, deep chains).")
c("P04", "property-based testing against the generated tree and a reference order",
  "Sibling sets rich in case pairs, prefixes and near names; every sibling and its neighbours are asked for.")
c("P05", "metamorphic and model-based property testing of paths",
  "Successive lookups and the stored tree are both oracles.")
c("P06", "property-based testing: lookup against first match over enumeration and a raw-bytes reference",
  "Duplicated, empty, recased and damaged value names.")
c("P07", "property-based testing with enumerated size boundaries: stored bytes come back",
  "All small sizes and all sizes around segment boundaries are enumerated.")
c("P08", "property-based testing with an enumerated type x size x form table",
  "All type codes around the known ones, all small sizes, both storage forms.")
c("P09", "property-based testing against an independent UTF-16 decoder",
  "Terminators, surrogates and odd bytes are placed around every segment boundary.")
c("P10", "property-based testing with all 65536 units and all 256 Latin-1 bytes enumerated",
  "Names are read through key names, value names and class names of a hive.")
c("P11", "property-based testing against an independent case table (Java 17)",
  "All 65536 units are compared with their neighbours and their mapping; pairs and triples are random. Trusts that table where it is defined.")
c("P12", "model-based (stateful) property testing of iterator operation sequences",
  "Oracle: the vector obtained by stepping.")
c("P13", "property-based fuzzing of damaged hives against a fault-set reference reader",
  "Random and targeted corruption of every field kind; errors must name a fault that is true of the bytes.")
c("P14", "metamorphic property testing: targeted damage changes only its own entries",
  "")
c("P15", "property-based testing: byte-exact expected buffer after the pass",
  "Cyclic key graphs are excluded from generation (recorded finding).")
c("P16", "metamorphic property testing: pairs of layouts of the same tree",
  "")
c("P17", "stateful property testing over operation histories and buffer kinds",
  "Oracle: the same question asked of a freshly opened hive over a copy of the bytes.")
c("P18", "differential fuzzing between builds of the crate",
  "Six builds (std, alloc, none; overflow checks on and off) must print the same transcript.")
c("P19", "differential fuzzing between platforms (native 64-bit, native 32-bit build, Miri interpreters)",
  "32-bit little-endian on every case; 32-bit big-endian (Miri) on one case in a hundred, in thorough 64-bit big-endian too. Small inputs.")
c("P20", "property-based testing with work counters: buffer accesses, list pages touched, siblings that influence the answer",
  "Generated families of growing size; the bounds are several times what binary search needs and far below linear.")
c("P21", "property-based end-to-end testing of the built example program",
  "Order, nesting and content of the dump are checked, not its exact punctuation.")
BUILT = os.environ.get("BUILT", open(os.path.join(ROOT, "tools/built.txt")).read()).split()
NA = {}
m = dict(version=1, setup_cmd="./setup.sh",
  checks=[dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
               technique=C[i][0], level="exploration", level_note=C[i][1].strip()) for i in ids if i in BUILT],
  not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in BUILT])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
