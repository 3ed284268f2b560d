#!/usr/bin/env python3
"""Refresh the generated parts of DESIGN.md (contract tables, findings, planted bugs)."""
import json
import os
import re
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)


def part(s, name, text):
    return re.sub(r"(<!-- %s:begin -->\n).*?(<!-- %s:end -->)" % (name, name), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)


def main():
    from pyvc import load
    lv = json.load(open(H + "/tools/levels.json"))
    props = [json.loads(x) for x in open(H + "/properties.jsonl") if x.strip()]
    t = ""
    for p in props:
        l = lv[p["id"]]
        t += "### %s %s\n\n" % (p["id"], p["title"])
        if "na" in l:
            t += "Not applicable: %s\n\n" % l["na"]
            continue
        note = re.sub(r"\s*Trusted: .*", "", l["note"])
        t += "%s%s\n\n" % ("" if l["level"] == "proof" else "Level: %s. " % l["level"], note)
        for k, c in load.contracts(p["id"]).items():
            fl = c.opt.get("concrete_only") and " *(sampled on the real code: bounded)*" or \
                c.opt.get("bounded") and " *(bounded%s)*" % (": " + c.opt["bounded"] if isinstance(c.opt["bounded"], str) else "") or ""
            doc = " ".join(c.doc.split())
            tg = ", ".join(sorted({x.split(":")[-1] for x in c.targets}))
            t += "* `%s`%s: %s [%s]\n" % (k, fl, doc, tg)
        t += "\n"
    kf = json.load(open(H + "/known_findings.json"))["findings"]
    fx = "".join("* %s\n" % k["what"] for k in kf if k["status"] == "fixed")
    op = "".join("* `%s`, obligation \"%s\": %s\n" % (k["contract"], k["obligation"], k["what"]) for k in kf if k["status"] == "open")
    caught = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
    sd = ""
    for d in sorted(os.listdir(H + "/seeded")) if os.path.isdir(H + "/seeded") else []:
        m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
        sd += "* `%s` (%s): %s Needs: %s **%s**\n" % (d, m["property"], m["what_it_breaks"], m["needs"],
                                                     caught.get(d, "not recorded"))
    f = H + "/DESIGN.md"
    s = open(f).read()
    for n, x in (("contracts", t), ("fixed", fx), ("open", op), ("seeded", sd)):
        s = part(s, n, x)
    open(f, "w").write(s)


main()
