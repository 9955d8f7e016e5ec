"""Framework shared by all the checks.

A check (checks/Cxx.py) defines ``run(ctx)``: it executes the real code of
/repo on generated inputs, records what happened (``ctx.rec``), replays
behaviours generated by TLC (``ctx.generate``), and model checks specification
modules (``ctx.model``).  The records are then judged by TLC against the
validator module spec/CxxTrace.tla.  The verdict on every record is given by
the TLA+ specification, never by this file.
"""

import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.environ.get("VERIF_OUT") or os.path.join(ROOT, "out")
BIG = 2147483646  # sentinel: value not representable / not an integer
NANV = 2147483645  # sentinel: nan or inf
LIM = 2147480000
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class CheckError(Exception):
    """The check itself failed (not a verdict)."""


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout("call exceeded its time limit")


signal.signal(signal.SIGALRM, _alarm)


# ------------------------------------------------------------- projections
def to_int(x, scale=1, tol=1e-6):
    """Project a number to an integer (after scaling); sentinel otherwise."""
    try:
        v = float(np.real(x)) * scale
        if isinstance(x, complex) or np.iscomplexobj(x):
            if abs(np.imag(x)) > tol:
                return BIG
    except Exception:
        return BIG
    if not np.isfinite(v):
        return NANV
    r = round(v)
    if abs(v - r) > tol * max(1.0, abs(v)):
        return BIG
    if abs(r) > LIM:
        return BIG
    return int(r)


def fix(x, scale=10**6):
    """Fixed-point projection (rounding allowed): nearest integer of x*scale."""
    try:
        v = float(x) * scale
    except Exception:
        return BIG
    if not np.isfinite(v):
        return NANV
    if abs(v) > LIM:
        return LIM if v > 0 else -LIM
    return int(round(v))


def ints(a, scale=1, tol=1e-6):
    """Flat (Fortran order) list of integers of an array."""
    a = np.asarray(a)
    return [to_int(v, scale, tol) for v in np.ravel(a, order="F")]


def fixs(a, scale=10**6):
    a = np.asarray(a)
    return [fix(v, scale) for v in np.ravel(a, order="F")]


def arr(a, scale=1, tol=1e-6):
    """Array -> abstract tensor record."""
    a = np.asarray(a)
    if a.dtype == object:
        a = np.asarray(a.tolist(), dtype=float)
    return {"shape": [int(n) for n in a.shape], "data": ints(a, scale, tol)}


def farr(a, scale=10**6):
    a = np.asarray(a, dtype=float)
    return {"shape": [int(n) for n in a.shape], "data": fixs(a, scale)}


def ilist(a):
    return [to_int(v) for v in np.ravel(np.asarray(a))]


def rat(x, den=20000, tol=0.0):
    """Nearest rational of small denominator, as [numerator, denominator]."""
    x = float(x)
    if not np.isfinite(x):
        return [NANV, 1]
    f = Fraction(x).limit_denominator(den)
    if abs(float(f) - x) > max(tol, 1e-9 * max(1, abs(x))) or abs(f.numerator) > LIM:
        return [BIG, 1]
    return [f.numerator, f.denominator]


def rats(a, den=20000):
    return [rat(v, den) for v in np.ravel(np.asarray(a, dtype=float))]


def one(a):
    """1-based version of 0-based indices."""
    return [to_int(v) + 1 for v in np.ravel(np.asarray(a))]


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        h = int(hashlib.sha256(("%s/%d" % (prop, self.seed)).encode()).hexdigest()[:8], 16)
        self.rng = np.random.RandomState(h % (2**31))
        self.records = []
        self.meta = []
        self.bad = []  # (meta, record, clauses)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.models = []
        self.notes = []
        self.work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.call_limit = 30

    def sub_rng(self, *key):
        h = hashlib.sha256(repr((self.prop, self.seed) + key).encode()).hexdigest()[:8]
        return np.random.RandomState(int(h, 16) % (2**31))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -------------------------------------------------------------- calling
    def call(self, fn, *args, **kwargs):
        """Run the code under test.  Returns (value, err) with err '' if ok."""
        np.random.seed(12345)
        signal.alarm(self.call_limit)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                old = sys.stdout
                sys.stdout = open(os.devnull, "w")
                try:
                    val = fn(*args, **kwargs)
                finally:
                    sys.stdout.close()
                    sys.stdout = old
            return val, ""
        except Timeout as e:
            return None, "Timeout: %s" % e
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            for f in reversed(tb):
                if "/tensap/" in f.filename:
                    where = " at %s:%d" % (f.filename, f.lineno)
                    break
            return None, ("%s: %s%s" % (type(e).__name__, e, where))[:300]
        finally:
            signal.alarm(0)

    def rec(self, op, sig=None, repro=None, **fields):
        """Record one observation.  sig: signature for known findings."""
        r = {"op": op, "err": ""}
        r.update(fields)
        self.records.append(r)
        self.meta.append({"sig": sig or op, "repro": repro})
        return r

    def observe(self, op, fn, out, sig=None, repro=None, **fields):
        """Call fn, project its value with out (-> dict of fields), record."""
        val, err = self.call(fn)
        res = {}
        if not err:
            # projecting the result is part of the observation: a result that
            # cannot be read back is an error of the code under test
            res, err = self.call(lambda: out(val))
            if err:
                res = {}
                err = "projection: " + err
        r = dict(fields)
        r.update(res or {})
        rr = self.rec(op, sig=sig, repro=repro, **r)
        rr["err"] = err
        return val

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg_text, env=None, extra=(), workers=None, timeout=800):
        mdir = tempfile.mkdtemp(dir=self.work)
        cfg = os.path.join(mdir, "M.cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = "-Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=" + self.work
        if env:
            e.update(env)
        cmd = ["tlc", "-config", cfg, "-workers", str(workers or WORKERS), "-metadir",
               os.path.join(mdir, "meta"), "-noGenerateSpecTE"] + list(extra)
        cmd.append(module + ".tla")
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            pass
        out = p.stdout.decode("utf8", "replace")
        shutil.rmtree(mdir, ignore_errors=True)
        return p.returncode, out

    @staticmethod
    def _stats(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            m2 = re.findall(r"(\d+) states checked", out)
            return (int(m2[-1]), int(m2[-1])) if m2 else (0, 0)
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model(self, module, invariants=(), properties=(), constants=(), init="Init",
              next_="Next", spec=None, deadlock=False, extra_cfg="", timeout=600):
        """Model check a specification module; a failure is a CheckError."""
        cfg = []
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg += ["INIT " + init, "NEXT " + next_]
        cfg += ["INVARIANT " + i for i in invariants]
        cfg += ["PROPERTY " + i for i in properties]
        cfg += ["CONSTANT " + c for c in constants]
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        cfg.append(extra_cfg)
        t = time.time()
        rc, out = self._tlc(module, "\n".join(cfg) + "\n", timeout=timeout)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking of %s failed:\n%s" % (module, out[-3000:]))
        g, d = self._stats(out)
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "constants": list(constants),
                            "invariants": list(invariants) + list(properties),
                            "states": d, "transitions": g, "wall_s": round(time.time() - t, 1)})

    def generate(self, module, constants=(), init="Init", next_="Next", simulate=None,
                 depth=None, invariants=("Emit",), timeout=600, key=None, extra_cfg=""):
        """Run TLC on a generator module; every PrintT'ed JSON value is a case.

        simulate=None: exhaustive breadth-first exploration; otherwise the
        number of random behaviours (seeded)."""
        cfg = ["INIT " + init, "NEXT " + next_]
        cfg += ["INVARIANT " + i for i in invariants]
        cfg += ["CONSTANT " + c for c in constants]
        cfg.append("CHECK_DEADLOCK FALSE")
        cfg.append(extra_cfg)
        extra = []
        if simulate is not None:
            extra += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed + 17)]
            if depth:
                extra += ["-depth", str(depth)]
        t = time.time()
        rc, out = self._tlc(module, "\n".join(cfg) + "\n", extra=extra,
                            workers=1 if simulate is not None else None, timeout=timeout)
        if rc != 0:
            raise CheckError("generation with %s failed:\n%s" % (module, out[-3000:]))
        res = self._printed(out)
        g, d = self._stats(out)
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "constants": list(constants), "mode":
                            "simulate" if simulate is not None else "exhaustive",
                            "behaviours": len(res), "distinct": len({json.dumps(v, sort_keys=True) for v in res}), "states": d, "transitions": g,
                            "wall_s": round(time.time() - t, 1)})
        if not res:
            raise CheckError("%s generated nothing:\n%s" % (module, out[-2000:]))
        if simulate is not None and len(res) > 50 and self.models[-1]["distinct"] < len(res) // 10:
            raise CheckError("%s keeps generating the same behaviours" % module)
        res.sort(key=lambda v: json.dumps(v, sort_keys=True))
        return res

    @staticmethod
    def _printed(out):
        res = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"'):
                try:
                    res.append(json.loads(json.loads(line)))
                except ValueError:
                    pass
        return res

    def validate(self, module=None):
        """Judge all the records with TLC."""
        module = module or self.prop + "Trace"
        recs = list(range(len(self.records)))
        if not recs:
            raise CheckError("nothing was recorded")
        t = time.time()
        bad = {}
        total_states = 0
        for attempt in range(7):
            path = os.path.join(self.work, "trace%d.ndjson" % attempt)
            with open(path, "w") as f:
                for j in recs:
                    f.write(json.dumps(self.records[j], default=_np_default) + "\n")
            k = min(64, len(recs))
            cfg = "INIT Init\nNEXT Next\nINVARIANT Chk\nCONSTANT K = %d\nCHECK_DEADLOCK FALSE\n" % k
            rc, out = self._tlc(module, cfg, env={"TRACE": path},
                                timeout=800 if self.quick else 6000)
            for v in self._printed(out):
                if not (isinstance(v, dict) and "line" in v):
                    continue
                bad.setdefault(recs[v["line"] - 1], set()).update(v["bad"])
            if rc == 0 and "No error has been found" in out:
                g, d = self._stats(out)
                total_states = d
                break
            m = re.findall(r"(?m)^/\\ vLine = (\d+)", out)
            if not m:
                raise CheckError("validation of %s failed:\n%s" % (module, out[-3500:]))
            # TLC could not even evaluate the specification on this record
            idx = recs[int(m[-1]) - 1]
            mm = re.search(r"(?s)Error: (.*?)(?:The behavior|Error: The behavior)", out)
            self.notes.append("record %d not evaluable: %s" % (idx, (mm.group(1) if mm else "")[:400]))
            bad.setdefault(idx, set()).add("malformed")
            recs = [j for j in recs if j != idx]
            if not recs:
                break
        else:
            self.notes.append("gave up after 7 malformed records")
        self.states += total_states
        self.transitions += max(0, total_states)
        self.traces += len(recs)
        self.models.append({"module": module, "mode": "trace validation", "records": len(recs),
                            "states": total_states, "wall_s": round(time.time() - t, 1)})
        for j in sorted(bad):
            self.bad.append((self.meta[j], self.records[j], sorted(bad[j])))

    # -------------------------------------------------------------- finish
    def finish(self):
        known = load_known(self.prop)
        hit = {}
        new = []
        for meta, r, clauses in self.bad:
            for k in known:
                if k["sig"] == meta["sig"] and set(clauses) <= set(k["clauses"]):
                    hit.setdefault(k["id"], []).append(r)
                    break
            else:
                new.append((meta, r, clauses))
        for k in known:
            if k["id"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        rc = 0
        if new:
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, "%s-%d-%s.json" % (self.prop, self.seed, self.tier))
            with open(path, "w") as f:
                json.dump([{"clauses": c, "sig": m["sig"], "repro": m["repro"], "record": r}
                           for m, r, c in new[:200]], f, indent=1, default=_np_default)
            groups = {}
            for m, r, c in new:
                groups.setdefault((m["sig"], tuple(c)), []).append(r)
            for (sg, c), rs in sorted(groups.items())[:40]:
                print("  %-40s %-40s x%d %s" % (sg, ",".join(c), len(rs), rs[0].get("err", "")[:150]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        self.write_evidence(len(new))
        print("%s: %d records judged, %d model states, %d violations, %d known, %.1fs"
              % (self.prop, self.traces, self.states, len(new), len(hit), time.time() - self.t0))
        for nte in self.notes:
            print("  note:", nte.replace("\n", " ")[:300])
        return rc

    def write_evidence(self, nviol):
        ops = {}
        for r in self.records:
            ops[r["op"]] = ops.get(r["op"], 0) + 1
        distinct = len({json.dumps(r, sort_keys=True, default=_np_default) for r in self.records})
        samples = []
        seen = set()
        for r in self.records:
            if r["op"] not in seen and len(samples) < 6:
                txt = json.dumps(r, default=_np_default)
                if len(txt) < 1500:
                    seen.add(r["op"])
                    samples.append(r)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "distinct_records": distinct,
                "records_per_operation": ops,
                "tlc_runs": self.models,
                "samples": json.loads(json.dumps(samples, default=_np_default)) or ["(records too long)"],
            },
            "assumptions": ["TLC and its CommunityModules; NumPy; projection of floats to integers in harness/vp.py"],
            "wall_s": round(time.time() - self.t0, 2), "violations": nviol,
        }
        evd = OUT if os.environ.get("VERIF_OUT") else os.path.join(ROOT, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _np_default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.floating):
        return to_int(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == prop]
