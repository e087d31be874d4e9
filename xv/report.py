"""Obligations, violations, evidence and known findings."""
from __future__ import annotations
import json, os, sys, time, inspect, traceback
from . import graph as G

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorLost(Exception):
    """the construct a rule has to inspect no longer exists: the check cannot answer"""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.obs = 0
        self.ok = 0
        self.viol = []
        self.rules = {}
        self.funcs = set()
        self.eqns = 0
        self.samples = []
        self.notes = []
        self.configs = 0
        self.assume = []
        self.undec = []         # (what, why): programs the engine could not interpret

    def undecided(self, what, e):
        """a program outside what the engine can interpret: reported, counted neither as held nor as violated"""
        self.undec.append([str(what), f"{type(e).__name__}: {e}"[:300]])

    # -------------------------------------------------- obligations
    def ob(self, rule, inst, good, detail="", where=None):
        """one obligation of `rule` at instance `inst`"""
        self.obs += 1
        if where and where[0] != "?":
            self.funcs.add((where[0], where[2]))
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if good:
            self.ok += 1
            r[1] += 1
            if r[1] == 1:
                self.samples.append(dict(rule=rule, instance=str(inst)))
        else:
            self.viol.append(dict(rule=rule, instance=str(inst), detail=str(detail)[:600], where=where or ("?", 0, "?")))
        return good

    def saw(self, I):
        self.funcs |= {f for f in I.funcs if f[0] != "?"}
        self.eqns += I.eqns
        self.configs += 1

    # -------------------------------------------------- helpers
    def eq(self, rule, inst, got, exp, where=None, sub=None):
        """elementwise equality of value numbers"""
        from .interp import lift_arr, isobj, loc
        import numpy as np
        if tuple(np.shape(got)) != tuple(np.shape(exp)):
            return self.ob(rule, inst, False, f"shape {np.shape(got)} instead of {np.shape(exp)}", where)
        g, e = lift_arr(got).reshape(-1), lift_arr(exp).reshape(-1)
        for i, (a, b) in enumerate(zip(g, e)):
            if a is not b:
                ix = tuple(int(q) for q in np.unravel_index(i, np.shape(got))) if np.shape(got) else ()
                w = loc(a.origin) if a.origin is not None and a.op != "const" else None
                if w is None or w[0] == "?":
                    w = where
                return self.ob(rule, inst, False, f"element {list(ix)} is {G.show(a)} instead of {G.show(b)}", w)
        return self.ob(rule, inst, True)

    def eqbits(self, rule, inst, got, exp, where=None):
        """elementwise equality of values as bit vectors (bit-provenance domain)"""
        from .interp import lift_arr, loc
        from . import bits as B
        import numpy as np
        if tuple(np.shape(got)) != tuple(np.shape(exp)):
            return self.ob(rule, inst, False, f"shape {np.shape(got)} instead of {np.shape(exp)}", where)
        g, e = lift_arr(got).reshape(-1), lift_arr(exp).reshape(-1)
        for i, (a, b) in enumerate(zip(g, e)):
            if a is not b and not B.same_bits(a, b):
                ix = tuple(int(q) for q in np.unravel_index(i, np.shape(got))) if np.shape(got) else ()
                w = loc(a.origin) if a.origin is not None and a.op != "const" else None
                if w is None or w[0] == "?":
                    w = where
                return self.ob(rule, inst, False, f"element {list(ix)} has bits {B.show(B.bits(a))} instead of {B.show(B.bits(b))}", w)
        return self.ob(rule, inst, True)

    def crash(self, rule, inst, te):
        """a repository function rejects an input the property covers"""
        if te.where[0] == "?":
            return self.undecided(inst, te.exc)
        return self.ob(rule, inst, False, f"cannot be evaluated for a valid input: {te}", te.where)

    # -------------------------------------------------- partitioned analysis in parallel worker processes
    def dump(self, path):
        d = dict(obs=self.obs, ok=self.ok, viol=self.viol, rules=self.rules, funcs=sorted(self.funcs), eqns=self.eqns,
                 samples=self.samples, notes=self.notes, configs=self.configs, assume=self.assume, undec=self.undec)
        with open(path, "w") as f:
            json.dump(d, f, default=str)

    def merge(self, d):
        self.obs += d["obs"]; self.ok += d["ok"]; self.eqns += d["eqns"]; self.configs += d["configs"]
        self.undec += d["undec"]
        self.viol += [dict(v, where=tuple(v["where"])) for v in d["viol"]]
        for k, v in d["rules"].items():
            r = self.rules.setdefault(k, [0, 0])
            r[0] += v[0]; r[1] += v[1]
        self.funcs |= {tuple(f) for f in d["funcs"]}
        have = {s["rule"] for s in self.samples}
        self.samples += [s for s in d["samples"] if s["rule"] not in have]
        self.notes += [n for n in d["notes"] if n not in self.notes]
        self.assume += [n for n in d["assume"] if n not in self.assume]

    def fan(self, parts, workers=8):
        """run `part(ck, label)` of this check for every (label, environment) in worker processes and merge the obligations"""
        import subprocess, tempfile
        from concurrent.futures import ThreadPoolExecutor

        def one(p):
            label, env = p
            fd, out = tempfile.mkstemp(suffix=".json")
            os.close(fd)
            try:
                e = dict(os.environ, XV_PARTOUT=out, **env)
                r = subprocess.run([sys.executable, "-B", "-m", "xv.run", self.pid, self.tier, label], env=e, cwd=ROOT, capture_output=True, text=True)
                txt = open(out).read()
            finally:
                os.unlink(out)
            return label, r, (json.loads(txt) if txt else None)
        err = None
        with ThreadPoolExecutor(workers) as ex:
            for label, r, d in ex.map(one, parts):
                if d is not None:
                    self.merge(d)
                if r.returncode != 0:
                    err = (label, r.returncode, (r.stdout + r.stderr)[-3000:])
        if err:
            raise RuntimeError(f"worker {err[0]} ended with {err[1]}: {err[2]}")

    # -------------------------------------------------- end
    def finish(self):
        known = load_known(self.pid)
        new, old = [], []
        for v in self.viol:
            k = next((x for x in known if x["rule"] == v["rule"] and x.get("func") in (None, v["where"][2]) and x["instance"] in v["instance"]), None)
            (old if k else new).append((v, k))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other",
                  coverage=dict(explanation="static analysis; each obligation is one rule instance decided on the IR/syntax of the current tree, no repository kernel is executed on data",
                                obligations=self.obs, discharged=self.ok, rules={k: dict(instances=v[0], discharged=v[1]) for k, v in self.rules.items()},
                                programs=self.configs, ir_equations_interpreted=self.eqns,
                                undecided=[dict(what=w, why=y) for w, y in self.undec[:40]], undecided_count=len(self.undec),
                                functions_analysed=sorted(f"{a}:{b}" for a, b in self.funcs), samples=self.samples[:40], notes=self.notes),
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        edir = os.environ.get("XV_EVIDENCE") or os.path.join(ROOT, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.obs == 0:
            print(f"ERROR property={self.pid}: no obligation was generated")
            return 2
        seen = set()
        for v, k in old:
            if k["id"] not in seen:
                seen.add(k["id"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if new:
            rp = os.path.join(edir, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for v, _ in new:
                    f.write(f"{v['where'][0]}:{v['where'][1]} in {v['where'][2]}\n  rule {v['rule']} [{v['instance']}]\n  {v['detail']}\n")
            for v, _ in new[:5]:
                print(f"  {v['where'][0]}:{v['where'][1]} {v['where'][2]}: {v['rule']} [{v['instance']}] {v['detail'][:300]}")
            print(f"({len(new)} failed obligations of {self.obs})")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.undec:
            print(f"UNDECIDED property={self.pid}: {len(self.undec)} programs are outside what the analysis can interpret, e.g. {self.undec[0][0]} ({self.undec[0][1]}); everything below holds without them")
            if self.obs < 20 and len(self.undec) > self.obs:
                print(f"ERROR property={self.pid}: the analysis could not be completed")
                return 3
        print(f"property={self.pid} held: {self.ok}/{self.obs} obligations over {self.configs} analysed programs, {len(self.funcs)} functions, {ev['wall_s']}s")
        return 0


def load_known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for i, line in enumerate(open(p)):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid:
                    d["id"] = i
                    out.append(d)
    return out


def where_of(obj):
    """source position of a repository callable"""
    from .interp import rel
    try:
        o = inspect.unwrap(obj.fget if isinstance(obj, property) else obj)
        o = getattr(o, "__func__", o)
        return (rel(inspect.getsourcefile(o)), inspect.getsourcelines(o)[1], o.__name__)
    except Exception:
        return ("?", 0, getattr(obj, "__name__", "?"))
