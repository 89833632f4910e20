#!/usr/bin/env python3
"""regenerates DESIGN.md from design.head.md, the registry, the properties, the seeds' meta data and known_findings.txt"""
import json, os, re, sys, glob
V = os.environ.get("VERIF_DIR", "/verif")
sys.path.insert(0, V + "/tools")
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"] if "property" in x else x.get("id"): x.get("reason", "") for x in man.get("not_applicable", [])}
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j))
kf = {}
for l in open(V + "/known_findings.txt"):
    r = re.match(r"(fixed|KNOWN-FINDING|known): property=(\S+) (.*)", l)
    if r: kf.setdefault(r.group(2), []).append(r.group(1) + ": " + r.group(3))
out = open(V + "/tools/design.head.md").read()
out += "## Properties\n\n"
for p in props:
    i = p["id"]
    out += f"### {i} {p['title']}\n\n{p['statement']}\n\n"
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        out += f"*Deciding method:* {c['technique']}.\n\n*Bounds:* {c['note']}.\n\n"
        src = open(V + "/" + c["src"][0]).read()
        sp = re.findall(r'\{"([a-z0-9_-]+)", *sp_?\w+, *\w+, *"((?:[^"\\]|\\.)*)"\}', src) or re.findall(r'\{"([a-zA-Z0-9_-]+)", *[\w:<>]+, *[\w()]+, *"((?:[^"\\]|\\.)*)"\}', src)
        if sp:
            out += "*Spaces explored:*\n\n" + "".join(f"- `{a}`: {b}\n" for a, b in sp) + "\n"
        ex = re.search(r'\},\s*\{((?:\s*"(?:[^"\\]|\\.)*",?\s*)+)\}\);\s*\}?\s*$', src)
        if ex:
            out += "*Not judged:*\n\n" + "".join(f"- {b}\n" for b in re.findall(r'"((?:[^"\\]|\\.)*)"', ex.group(1)) if b) + "\n"
    else:
        out += f"*Not claimed:* {na.get(i, 'see MANIFEST.json')}\n\n"
    if i in kf: out += "*Defects found:*\n\n" + "".join(f"- {x}\n" for x in kf[i]) + "\n"
    if i in seeds: out += "*Planted bugs (all caught by this check):*\n\n" + "".join(f"- `{n}`: {j['what_it_breaks']} (needs: {j['needs']})\n" for n, j in seeds[i]) + "\n"
open(V + "/DESIGN.md", "w").write(out)
