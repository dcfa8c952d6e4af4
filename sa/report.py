"""Findings, known-findings file, evidence and exit status of a check."""
import json
import os
import re
import sys
import time
from .extract import AnalysisError, VERIF

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.found = {}       # key -> (where, message)
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.rules = []
        self.errors = []
        self.t0 = time.time()

    def bad(self, key, where, msg):
        key = re.sub(r"\s+", " ", key.replace("stateObservation::", ""))
        self.found.setdefault(key, (where, msg))

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def need(self, name, least):
        """the rule must have had instances, otherwise the analysis is broken"""
        if self.cov.get(name, 0) < least:
            self.errors.append("%s: only %d %s analysed, at least %d expected (vanished anchors?)" % (
                self.prop, self.cov.get(name, 0), name, least))

    def sample(self, s):
        if len(self.samples) < 400:
            self.samples.append(s)


def parallel(rep, tasks, work):
    """runs work(report, task) for every task in forked workers and merges the reports"""
    import multiprocessing as mp
    global _W
    _W = (work, rep.prop)
    n = min(8, os.cpu_count() or 1, len(tasks))
    if n < 2:
        for t in tasks:
            work(rep, t)
        return
    with mp.get_context("fork").Pool(n) as pool:
        for found, cov, samples, errors, fail in pool.imap(_one, tasks):
            if fail:
                rep.errors.append(fail)
            for k, v in found.items():
                rep.found.setdefault(k, v)
            for k, v in cov.items():
                rep.cov[k] = rep.cov.get(k, 0) + v
            for x in samples:
                rep.sample(x)
            rep.errors.extend(errors)


def _one(task):
    work, prop = _W
    r = Report(prop)
    fail = None
    try:
        work(r, task)
    except AnalysisError as e:
        fail = stopped(r, e)
    return r.found, r.cov, r.samples, r.errors, fail


def stopped(rep, e):
    """an analysis that could not go on: what it found before still counts -> error text, if it is not itself a finding"""
    for key, where, msg in getattr(e, "items", ()):
        rep.bad(key, where, msg)
    return None if getattr(e, "items", ()) else str(e)


def known_keys(prop):
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)$", line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def finish(rep, level, technique, tier):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    known = known_keys(rep.prop)
    new = {k: v for k, v in rep.found.items() if k not in known}
    old = {k: v for k, v in rep.found.items() if k in known}
    cov = {"explanation": "Static analysis of the resolved program (clang AST of every library unit and public header). "
                          + " ".join(rep.rules)}
    cov.update(rep.cov)
    cov["samples"] = rep.samples
    cov["known_findings"] = sorted(old)
    vio = [{"key": k, "where": v[0], "message": v[1]} for k, v in sorted(new.items())]
    doc = {"property": rep.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
           "coverage": cov, "wall_s": round(time.time() - rep.t0, 3), "violations": len(vio),
           "assumptions": rep.assumptions}
    p = os.path.join(ev, rep.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    os.replace(p + ".tmp", p)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s [%s] %s (%s)" % (rep.prop, k, known[k], old[k][0]))
    rp = os.path.join(ev, rep.prop + ".replay.json")
    if vio:
        with open(rp, "w") as f:
            json.dump(vio, f, indent=1)
        for v in vio:
            print("VIOLATION property=%s replay=%s" % (rep.prop, rp))
            print("  [%s]\n  at %s: %s" % (v["key"], v["where"], v["message"]))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    if rep.errors:
        raise AnalysisError("; ".join(rep.errors))
    nums = {k: v for k, v in rep.cov.items() if isinstance(v, int)}
    print("OK property=%s %s" % (rep.prop, " ".join("%s=%d" % kv for kv in sorted(nums.items()))))
    return 0
