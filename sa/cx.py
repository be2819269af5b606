"""Rule context: obligations, violations, evidence."""
import json, os, pickle, re, sys, time
import interp
from interp import Interp, Opts, Incomplete, show


class Abort(Exception):
    pass


class Cx:
    def __init__(self, P, pid, tier, info):
        self.P, self.pid, self.tier, self.info = P, pid, tier, info
        self.viol = []       # (key, message, detail)
        self.obl = 0
        self.rules = {}      # rule -> [discharged, failed]
        self.samples = []
        self.functions = set()
        self.paths = 0
        self.opaque = set()
        self.assumptions = []
        self.cur = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---------------- obligations
    def check(self, rule, key, ok, msg="", detail=None):
        """one obligation of a rule; key identifies the construct (no line numbers)"""
        r = self.rules.setdefault(rule, [0, 0])
        self.obl += 1
        if ok:
            r[0] += 1
            if sum(1 for s in self.samples if s["rule"] == rule) < 3:
                self.samples.append({"rule": rule, "obligation": key, "result": "holds"})
            return True
        r[1] += 1
        self.viol.append((f"{rule}: {key}", msg, detail))
        return False

    def fail(self, rule, key, msg, detail=None):
        return self.check(rule, key, False, msg, detail)

    def floor(self, rule, what, n, lo):
        """anti-vacuity: at least lo constructs were found"""
        return self.check(rule, f"coverage of {what}", n >= lo,
                          f"only {n} {what} found in the source, at least {lo} expected: the rule no longer sees the code it is about")

    def guard(self, rule, key, f, *a):
        """run f; an analysis that cannot be completed leaves the obligation undischarged"""
        try:
            return f(*a)
        except Incomplete as e:
            self.fail(rule, key, f"not established: analysis incomplete: {e}")
        except Abort as e:
            self.fail(rule, key, f"not established: {e}")
        except RecursionError:
            self.fail(rule, key, "not established: recursion limit")
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            import traceback
            self.fail(rule, key, f"not established: the analysis met a shape it does not know: {type(e).__name__} {e}", traceback.format_exc())
        return None

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    # ---------------- analysis
    def key(self, pat, what=None, many=False):
        ks = [k for k in self.P.find(pat) if "::promoted[" not in k]
        if not ks:
            raise Abort(f"no function matching /{pat}/ in the source ({what or ''})")
        return ks if many else ks[0]

    def run(self, key, args=None, setup=None, **opts):
        it = Interp(self.P, Opts(**opts))
        outs = it.run(key, args, setup)
        self.note(it, outs)
        return it, outs

    def note(self, it, outs):
        self.functions |= it.entered
        self.opaque |= it.opaque_seen
        self.paths += len(outs)

    # ---------------- several processes
    def spread(self, items, f):
        """f(item) for each item, in parallel; the values (plain data) in the order of the items, obligations merged in that order"""
        items = list(items)
        w = min(len(items), len(os.sched_getaffinity(0)), 8)
        if w < 2:
            return [f(x) for x in items]
        kids = []
        sys.stdout.flush()
        for i in range(w):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                rc = 1
                try:
                    out = []
                    for j in range(i, len(items), w):
                        self.viol, self.obl, self.rules, self.samples, self.paths, self.assumptions = [], 0, {}, [], 0, []
                        self.functions, self.opaque = set(), set()
                        v = f(items[j])
                        out.append((j, v, self.viol, self.obl, self.rules, self.samples, self.paths, self.assumptions, sorted(self.functions), sorted(map(str, self.opaque))))
                    with os.fdopen(wr, "wb") as h:
                        pickle.dump(out, h)
                    rc = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(rc)
            os.close(wr)
            kids.append((pid, r))
        res, lost = [], False
        for pid, r in kids:
            with os.fdopen(r, "rb") as h:
                b = h.read()
            lost |= os.waitpid(pid, 0)[1] != 0
            if b:
                res += pickle.loads(b)
        if lost or len(res) != len(items):
            raise Abort("a worker process ended early")
        vals = []
        for j, v, viol, obl, rules, samples, paths, assumptions, functions, opaque in sorted(res, key=lambda x: x[0]):
            vals.append(v)
            self.viol += viol
            self.obl += obl
            self.paths += paths
            for k, (a, b) in rules.items():
                c = self.rules.setdefault(k, [0, 0])
                c[0] += a
                c[1] += b
            for x in samples:
                if sum(1 for y in self.samples if y["rule"] == x["rule"]) < 3:
                    self.samples.append(x)
            for x in assumptions:
                self.assume(x)
            self.functions |= set(functions)
            self.opaque |= set(opaque)
        return vals

    # ---------------- driver
    def run_rule(self, mod):
        try:
            mod.run(self)
        except Incomplete as e:
            self.fail("analysis", "whole rule", f"not established: analysis incomplete: {e}")
        except Abort as e:
            self.fail("analysis", "whole rule", f"not established: {e}")
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
            import traceback
            self.fail("analysis", "whole rule", f"not established: the analysis met a shape it does not know: {type(e).__name__} {e}", traceback.format_exc())
        self.mod = mod

    def finish(self, t0, here, verbose=False):
        known = {}
        kf = os.path.join(here, "known_findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf)):
                if e.get("property") == self.pid and "key" in e:
                    known[e["key"]] = e
        rep = os.path.join(here, "work", "reports")
        os.makedirs(rep, exist_ok=True)
        rc = 0
        seen_known = []
        outv = []
        n = 0
        keys = set()
        for key, msg, detail in self.viol:
            if key in keys:
                continue
            keys.add(key)
            if key in known:
                seen_known.append(key)
                print(f"KNOWN-FINDING: property={self.pid} {key}: {known[key].get('what', msg)}")
                continue
            n += 1
            path = os.path.join(rep, f"{self.pid}-{n}.txt")
            with open(path, "w") as f:
                f.write(f"property: {self.pid}\nobligation: {key}\n\n{msg}\n\n{detail or ''}\n")
            if n <= 40:
                print(f"VIOLATION property={self.pid} replay={path}")
                print(f"  {key}\n  {msg}"[:1500])
            outv.append({"obligation": key, "message": msg[:1000], "report": path})
            rc = 1
        doc = (self.mod.__doc__ or "").strip() if hasattr(self, "mod") else ""
        cov = {
            "explanation": "Static analysis of the MIR of the current tree. " + doc,
            "obligations": self.obl,
            "discharged": sum(r[0] for r in self.rules.values()),
            "rules": {k: {"discharged": v[0], "failed": v[1]} for k, v in sorted(self.rules.items())},
            "functions_analysed": len(self.functions),
            "paths_analysed": self.paths,
            "functions": sorted(k for k in self.functions if "tket" in k or "qis" in k)[:200],
            "source_files": self.info.get("source_files"),
            "samples": self.samples[:40],
        }
        ev = {
            "property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
            "wall_s": round(time.time() - t0, 2), "assumptions": self.assumptions, "violations": len(outv),
        }
        if outv:
            cov["violation_list"] = outv
        if seen_known:
            ev["coverage"]["known_findings"] = seen_known
        os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
        with open(os.path.join(here, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid}: {cov['discharged']}/{self.obl} obligations discharged, {len(self.functions)} functions, "
              f"{self.paths} paths, {time.time() - t0:.1f} s")
        return rc
