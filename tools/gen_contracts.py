#!/usr/bin/env python3
"""writes engine/contracts.json: what the functions of the reference consume at least and can start with"""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../engine"))
sys.dont_write_bytecode = True
import equivcheck
import runner
import summaries


def job(x):
    w, c = x
    m = equivcheck.load(w, c)
    out = {}
    summaries.parser_contracts(m, save=out)
    return out


def main():
    w = runner.Work()
    w.driver()
    out = {}
    for r in runner.pool(job, [(w, c) for c in list(runner.CONFIGS) + list(runner.VARIANTS)]):
        if "detail" in r:
            raise SystemExit(r["detail"])
        r.pop("wall")
        out.update(r)
    json.dump(out, open(summaries.CACHE, "w"), indent=0, sort_keys=True)
    print({k[:8]: len(v["minlen"]) for k, v in out.items()})


main()
