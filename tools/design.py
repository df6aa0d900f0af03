"""Writes the per-property part of DESIGN.md (below the marker) from properties.jsonl, the notes in
tools/oracles.json and the evidence of the last quick run."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/design.py from here on -->"
notes = json.load(open(os.path.join(H, "tools", "oracles.json"), encoding="utf8"))
out = ["", "## Property by property", "",
       "Bounds, assumptions and what lies outside are quoted from `props/<ID>.py`; paths, queries and times are those of a quick run",
       "(the thorough tier adds the cases named there and raises the time limit).", ""]
seeds = {}
sd = os.path.join(H, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json"), encoding="utf8"))
    seeds.setdefault(m["property"], []).append(s)
for line in open(os.path.join(H, "properties.jsonl"), encoding="utf8"):
    d = json.loads(line)
    i = d["id"]
    ev = json.load(open(os.path.join(H, "evidence", i + ".json"), encoding="utf8"))
    c = ev["coverage"]
    out += ["### %s %s" % (i, d["title"]), "", "* decided against: %s" % notes[i],
            "* code executed symbolically: %s" % ", ".join(c["functions_under_test"])]
    cut = lambda t: t if len(t) < 420 else t[:400].rsplit(" ", 1)[0] + " ... (in full in the module)"
    for name, key in (("bounds", "bounds"), ("assumes", "assumptions"), ("outside", "outside")):
        v = ev["assumptions"] if key == "assumptions" else c[key]
        if v:
            out.append("* %s: %s" % (name, cut("; ".join(v))))
    out.append("* cost: %d cases, %d paths, %d solver queries, %.0f s" % (c["cases"], c["states"], c["solver_queries"], ev["wall_s"]))
    if i in seeds:
        out.append("* planted bugs caught: %s" % ", ".join(seeds[i]))
    out.append("")
p = os.path.join(H, "DESIGN.md")
text = open(p, encoding="utf8").read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n" + "\n".join(out).rstrip() + "\n"
open(p, "w", encoding="utf8").write(text)
