#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and the checks that exist."""
import json, os
V = "/verif"
T = {
 "C01": ("Session.tla model checked; recorded output of real sessions validated by TLC (SessionTrace, FramingJudge)", "Design: all interleavings of up to 3 (5 thorough) frames. Binding: sessions generated from the specification, response sizes around powers of two and above 16 MB, stalled and bytewise readers, noisy Emacs, every log mode. Trusted: Python frame splitter and JSON parser."),
 "C02": ("Session.tla refines SessionAbs.tla (TLC); traces of the real backend accepted by SessionTrace.tla", "Design: all schedules of up to 3 (5) requests. Binding: chosen completion orders through a scripted Emacs client and floods of concurrent requests; schedules inside the Go runtime are sampled, not enumerated."),
 "C03": ("Framing.tla model checked on byte level; real codecs on enumerated cuts judged by FramingJudge.tla", "All single cuts and bytewise delivery of generated streams, value ends around decoder buffer sizes, sampled multiple cuts; server and client codecs and the whole program."),
 "C04": ("SessionAbs/Framing model checked; broken frames replayed on codecs and program, judged by TLC", "Limit boundary exact for several reconfigured limits and the default; truncation at every byte of generated streams; 22 kinds of bodies that are not requests."),
 "C05": ("Api.tla: all names x parameter kinds enumerated by TLC, replayed on the real program, judged by ApiJudge.tla", "Every name of the product of 20 prefixes and 22 suffixes; every published name with 11 kinds of parameters in 3 configurations."),
 "C16": ("Api.tla capability model; hello requests replayed and judged by ApiJudge.tla", "All lists of up to two offers, sampled longer ones, 6 configurations; advertised capabilities are compared with what really works."),
 "C06": ("Mentions.tla: answer tree computed by TLC from the file model, compared with the real program's answers", "Files and queries are generated (all documented equivalences, near misses); the answer is judged completely by the specification. Documents are sampled, not enumerated."),
 "C07": ("Outline.tla model checked; all small outlines enumerated by TLC and replayed, answers judged by Mentions.tla", "All outlines up to 5 (6) elements over 3 levels exhaustively, larger random documents."),
 "C08": ("CountLimit.tla model checked; answers of the real program judged by Mentions.tla", "All small heading trees for the design, random documents with all limits 0..total+2, negative and huge limits for the real program."),
}
EXTRA = os.path.join(V, "tools", "manifest_notes.json")
if os.path.exists(EXTRA):
    T.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in T:
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s thorough" % i,
                           technique=T[i][0], level="model_checking", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "The check is not built yet.")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="TLA+ specifications in specs/, checked with TLC; see DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
