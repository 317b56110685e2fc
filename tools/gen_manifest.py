#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claim table below (and checks it against properties.jsonl)."""
import json
VALUE = "static value-flow summaries (gated SSA over the type-checked syntax tree) compared with a specification by algebraic normal forms and random interpretation of the value numbers"
NOTE = ("Decided from the current source on every run; nothing is executed. Equal normal forms are a proof over the reals for all inputs, "
        "agreement under random interpretation of the value numbers is probabilistic; obligations whose code leaves the supported language are "
        "reported as undecided in the evidence and raise no alarm.")
CLAIMED = {
    "C01": (VALUE, NOTE),
    "C02": (VALUE, NOTE),
    "C03": (VALUE, NOTE),
    "C04": (VALUE, NOTE),
    "C05": (VALUE, NOTE),
    "C06": (VALUE, NOTE),
    "C07": (VALUE, NOTE),
    "C08": (VALUE, NOTE),
    "C09": (VALUE, NOTE),
    "C10": (VALUE, NOTE),
    "C11": (VALUE, NOTE),
    "C12": (VALUE, NOTE),
    "C13": (VALUE, NOTE),
    "C14": (VALUE, NOTE),
    "C15": (VALUE, NOTE),
    "C16": (VALUE, NOTE),
    "C17": (VALUE, NOTE),
    "C18": (VALUE, NOTE),
    "C19": (VALUE, NOTE),
    "C20": (VALUE, NOTE),
    "C21": (VALUE, NOTE),
    "C22": (VALUE, NOTE),
    "C23": (VALUE, NOTE),
    "C24": (VALUE, NOTE),
    "C25": (VALUE, NOTE),
    "C26": (VALUE, NOTE),
    "C27": (VALUE, NOTE),
    "C28": (VALUE, NOTE),
    "C29": (VALUE, NOTE),
    "C33": (VALUE, NOTE),
    "C34": (VALUE, NOTE),
}
NA = {
    "C30": "a limit statement over step sizes and the unknown exact solution; no static argument in reach bounds the global error. The update formulas themselves are decided under C03.",
    "C31": "convergence depends on the spectrum of the user's Jacobian and on the basin of attraction at run time; the residual and the update that the iterations use are decided under C03 and C05.",
    "C32": "a statement about the distribution of a pseudo random generator's output; the deterministic part (scaling, reality, zero mean component) is decided under C11, C12 and C13.",
}
DEFAULT_NA = "not claimed yet: no check built so far"
def main():
    ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    m = dict(version=1, setup_cmd="./check.sh build", checks=[], not_applicable=[],
             notes="See DESIGN.md. All checks analyse /repo's working tree as it is; none reads seeded/.")
    for i in ids:
        if i in CLAIMED:
            t, n = CLAIMED[i]
            m["checks"].append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                                    evidence_file="evidence/%s.json" % i, technique=t, level="other", level_note=n))
        else:
            m["not_applicable"].append(dict(property=i, reason=NA.get(i, DEFAULT_NA)))
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
    print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
main()
