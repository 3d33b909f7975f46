"""Obligations, violations, known findings and evidence files."""
import hashlib
import json
import os
import re
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known(prop):
    """lines 'known: property=<id> key=<key> <what fails>' (the 'fixed:' lines suppress nothing)"""
    out = {}
    try: lines = open(KNOWN).read().splitlines()
    except OSError: return out
    for l in lines:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.n = {"ok": 0, "undecided": 0, "violated": 0}
        self.rules = {}
        self.undecided, self.und_at = {}, set()
        self.viol = {}
        self.sites = set()
        self.samples = []
        self.notes = []
        self.broken = []

    def ok(self, rule, site=None, k=1):
        self.n["ok"] += k
        self.rules.setdefault(rule, {"ok": 0, "undecided": 0, "violated": 0})["ok"] += k
        if site: self.sites.add(site)

    def und(self, rule, site, why=""):
        self.n["undecided"] += 1
        self.rules.setdefault(rule, {"ok": 0, "undecided": 0, "violated": 0})["undecided"] += 1
        if site: self.sites.add(site)
        k = f"{rule}: {str(why)[:100]}"
        self.undecided[k] = self.undecided.get(k, 0) + 1
        if len(self.und_at) < 60: self.und_at.add(f"{rule} @ {site}: {str(why)[:100]}")

    def bad(self, rule, construct, what, **detail):
        """construct: 'file: function' (no line number, so that it survives edits)"""
        self.n["violated"] += 1
        self.rules.setdefault(rule, {"ok": 0, "undecided": 0, "violated": 0})["violated"] += 1
        key = re.sub(r"\s+", "_", f"{rule}@{construct}")
        if key not in self.viol:
            self.viol[key] = {"rule": rule, "construct": construct, "what": what, "count": 1, **detail}
        else: self.viol[key]["count"] += 1

    def check(self, rule, site, cond, what="", construct=None, **detail):
        """cond: True / False / None (undecided)"""
        if cond is True: self.ok(rule, site)
        elif cond is None: self.und(rule, site, what)
        else: self.bad(rule, construct or site, what, **detail)

    STATS = ("n", "rules", "undecided", "und_at", "viol", "sites", "notes", "broken")

    def dump(self, w):
        I = w.I
        return {**{k: getattr(self, k) for k in self.STATS}, "world": (w.npaths, w.truncated, w.aborts, set(I.analysed), dict(I.unknown), I.calls)}

    def merge(self, d, w):
        """add the findings of another process"""
        for k, v in d["n"].items(): self.n[k] += v
        for r, c in d["rules"].items():
            t = self.rules.setdefault(r, {"ok": 0, "undecided": 0, "violated": 0})
            for k, v in c.items(): t[k] += v
        self.und_at |= d["und_at"]
        for k, v in d["undecided"].items(): self.undecided[k] = self.undecided.get(k, 0) + v
        for k, v in d["viol"].items():
            if k in self.viol: self.viol[k]["count"] += v["count"]
            else: self.viol[k] = v
        self.sites |= d["sites"]
        self.notes += [n for n in d["notes"] if n not in self.notes]
        self.broken += d["broken"]
        n, t, ab, an, un, ca = d["world"]
        w.npaths += n; w.truncated += t
        for k, v in ab.items(): w.aborts[k] = w.aborts.get(k, 0) + v
        w.I.analysed |= an
        for k, v in un.items(): w.I.unknown[k] = max(w.I.unknown.get(k, 0), v)
        w.I.calls += ca

    def finish(self, world=None, extra=None):
        known = load_known(self.prop)
        new = {k: v for k, v in self.viol.items() if k not in known}
        for k in self.viol:
            if k in known: print(f"KNOWN-FINDING: property={self.prop} {known[k]}")
        cov = {
            "explanation": f"static analysis of the source tree: {self.n['ok']} obligations discharged, "
                           f"{self.n['undecided']} left undecided by the abstract domain, {self.n['violated']} violated",
            "rules": self.rules, "undecided": dict(sorted(self.undecided.items(), key=lambda x: -x[1])[:40]),
            "undecided_at": sorted(self.und_at)[:60],
            "subjects": sorted(self.sites)[:400], "n_subjects": len(self.sites), "notes": self.notes,
        }
        if world is not None:
            I = world.I
            cov["analysed_functions"] = sorted(q for q in I.analysed if q.startswith("qmat"))
            cov["paths_explored"] = world.npaths
            cov["paths_truncated"] = world.truncated
            cov["paths_aborted"] = dict(sorted(world.aborts.items(), key=lambda x: -x[1])[:20])
            cov["unmodelled_operations"] = dict(sorted(I.unknown.items(), key=lambda x: -x[1])[:20])
            cov["calls_analysed"] = I.calls
        if extra: cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        if self.viol: cov["violations"] = list(self.viol.values())
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        if self.broken:
            for b in self.broken: print("CHECK-BROKEN:", b)
        rc = 0
        if new:
            os.makedirs(os.path.join(d, "replay"), exist_ok=True)
            for k, v in sorted(new.items()):
                h = hashlib.sha1(k.encode()).hexdigest()[:10]
                p = os.path.join(d, "replay", f"{self.prop}-{h}.json")
                with open(p, "w") as f: json.dump({"property": self.prop, "key": k, **v}, f, indent=1, default=str)
                print(f"  [{v['rule']}] {v['construct']}: {v['what']}")
                print(f"VIOLATION property={self.prop} replay={p}")
            rc = 1
        elif self.broken or self.n["ok"] == 0:
            print(f"no answer: property={self.prop} {self.broken or 'nothing was analysed'}")
            rc = 2
        print(f"{self.prop}: {self.n['ok']} ok, {self.n['undecided']} undecided, {len(new)} new violations "
              f"({len(self.viol) - len(new)} known), {time.time() - self.t0:.1f}s")
        return rc
