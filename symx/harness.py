"""Runs the harnesses of one property, replays what the solver finds, writes
the evidence file and prints the verdict."""
import importlib
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class H:
    """one harness: fn(E) runs on both engines; one run per configuration"""

    def __init__(self, name, fn, quick=(None,), thorough=None, budget=40,
                 tbudget=None, bounds="", opts=None, samples=24):
        self.name = name
        self.fn = fn
        self.quick = list(quick)
        # the thorough tier runs the quick configurations too
        self.thorough = self.quick + [c for c in thorough or []
                                      if c not in self.quick]
        self.budget = budget
        self.tbudget = tbudget or budget * 6
        self.bounds = bounds
        self.opts = opts or {}
        self.samples = samples


def load_check(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module("checks." + pid.lower())


# ------------------------------------------------------------------- replays
class Hang(BaseException):
    pass


def _on_alarm(sig, frame):
    raise Hang()


HANG_S = 25


def concrete_run(h, cfg, inputs, hang=False, zero=False):
    """-> ('ok', n) | ('fail', label) | ('assume', None) | ('error', text)"""
    from .engine import CEngine, Replayed, AssumeFail
    import warnings
    import io
    C = CEngine(h.name, cfg, inputs)
    old = sys.stdout
    sys.stdout = io.StringIO()
    if hang:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(HANG_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            if not zero:
                with np.errstate(all="ignore"):
                    h.fn(C)
            else:
                # a failure counts when the code really divided by zero
                hit = []

                def rec(kind, flag):
                    f = sys._getframe(1)
                    while f is not None and \
                            "/discorpy/" not in f.f_code.co_filename:
                        f = f.f_back
                    if f is not None:
                        hit.append(kind)
                with np.errstate(divide="call", invalid="call",
                                 over="ignore", under="ignore", call=rec):
                    try:
                        h.fn(C)
                    except Replayed:
                        if not hit:
                            return "other", None
                        raise
                    except (ZeroDivisionError, np.linalg.LinAlgError):
                        raise
                    except AssumeFail:
                        raise
                    except Exception:
                        if not hit:
                            return "other", None
                        raise
        return "ok", C.checked
    except Replayed as e:
        return "fail", str(e)
    except AssumeFail:
        return "assume", None
    except Hang:
        return "fail", "no end within %d s" % HANG_S
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/discorpy/" in f.filename for f in tb)
        txt = "%s: %s" % (type(e).__name__, e)
        if inrepo:
            return "fail", "unexpected exception " + txt
        return "error", txt + " " + repr(tb[-1])
    finally:
        if hang:
            signal.alarm(0)
        sys.stdout = old
        C.cleanup()


def forked(f, timeout=60):
    """run f() in a forked child; None on crash/timeout"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            try:
                out = f()
            except BaseException as e:
                out = ("error", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    import select
    data = b""
    t_end = time.time() + timeout
    res = None
    with os.fdopen(r, "rb") as fh:
        while True:
            left = t_end - time.time()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                res = ("timeout", None)
                break
            rd, _, _ = select.select([fh], [], [], left)
            if rd:
                b = os.read(fh.fileno(), 65536)
                if not b:
                    break
                data += b
    os.waitpid(pid, 0)
    if res is not None:
        return res
    try:
        return pickle.loads(data)
    except Exception:
        return ("error", "replay crashed")


def jitter(inputs, rng):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, Fraction) and v.denominator != 1:
            out[k] = v * (1 + Fraction(rng.randint(-100, 100), 10 ** 7))
        else:
            out[k] = v
    return out


def runs(h, cfg, list_inputs, timeout=60, hang=False, zero=False):
    def f():
        return [concrete_run(h, cfg, x, hang, zero) for x in list_inputs]
    r = forked(f, timeout)
    if isinstance(r, tuple):
        return [r] * len(list_inputs)
    return r


# ------------------------------------------------------------------ one task
def random_inputs(decl, rng):
    out = {}
    for n, (kind, lo, hi) in decl.items():
        if kind == "bool":
            out[n] = rng.random() < 0.5
        elif kind == "int":
            a = -4 if lo is None else int(lo)
            b = a + 8 if hi is None else int(hi)
            if b - a > 60 and rng.random() < 0.5:
                b = a + 30
            out[n] = rng.randint(a, b)
        else:
            a = Fraction(-10) if lo is None else Fraction(lo)
            b = a + 20 if hi is None else Fraction(hi)
            q = rng.choice([1, 4, 64, 997])
            out[n] = a + (b - a) * Fraction(rng.randint(0, 64 * q), 64 * q)
    return out


def with_pixel(inp, rng):
    """a position for E.pixel, when the run did not get that far"""
    if "i" in inp:
        return inp
    n = rng.choice([12, 60, 100000])
    return dict(inp, i=rng.randrange(n), j=rng.randrange(n))


def run_task(args):
    pid, hname, ci, tier, seed, deadline = args
    t0 = time.time()
    res = dict(h=hname, ci=ci, viol=None, err=None, wit_ok=0, wit_bad=0,
               fallback=0, fb_ok=0)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        mod = load_check(pid)
        h = [x for x in mod.HARNESSES if x.name == hname][0]
        cfg = (h.quick if tier == "quick" else h.thorough)[ci]
        res["cfg"] = repr(cfg)
        from . import engine as EN
        from . import terms as T
        b = h.budget if tier == "quick" else h.tbudget
        b = min(b, max(3.0, deadline - time.time()))
        E = EN.Engine(hname, cfg, budget=b, seed=seed, **h.opts)
        if tier != "quick":
            E.want_witness = 12
            E.full_ms, E.long_ms = 10000, 40000
        viol = []

        def on_cex(label, inp):
            r = runs(h, cfg, [inp])[0]
            if r[0] == "fail" and any(
                    isinstance(v, Fraction) and v.denominator > 1 << 40
                    for v in inp.values()):
                # a tie that only rounding decides is not a violation
                g = random.Random(7)
                if all(x[0] == "ok" for x in runs(
                        h, cfg, [jitter(inp, g) for _ in range(5)])):
                    r = ("rounding",)
            if r[0] == "fail":
                viol.append((r[1], inp, label))
                return True
            res.setdefault("nonreplay", []).append(
                [label, r[0], {k: str(v) for k, v in inp.items()}])
            return False
        E.on_cex = on_cex

        def on_zero(inp):
            r = runs(h, cfg, [inp], zero=True)[0]
            res["zero_probes"] = res.get("zero_probes", 0) + 1
            if r[0] == "fail":
                viol.append((r[1], inp, "division by zero"))
                return True
            return False
        E.on_zero = on_zero
        decl = {}

        def fn(E):
            try:
                h.fn(E)
            except Hang as e:
                # a loop without decisions: does the real code end?
                tb = traceback.extract_tb(e.__traceback__)
                E.st.complete = False
                if any("/discorpy/" in f.filename for f in tb):
                    E.t_end = time.time() + 20
                    m = E.model_of([], 3000, light=True)
                    r = runs(h, cfg, [m], hang=True)[0] if m is not None \
                        else ("error", None)
                    if r[0] == "fail":
                        viol.append((r[1], m, "loop"))
                        res["hang"] = True
                E.stop = True
                raise EN.Budget()
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if "/discorpy/" in f.filename]
                txt = "%s: %s" % (type(e).__name__, str(e)[:120])
                E.st.exc_paths += 1
                if loc:
                    ok = E.check(False, "unexpected exception " + txt)
                    E.st.unsupported.append(
                        "exception not reproduced: %s at %s:%d" % (
                            txt, loc[-1].filename, loc[-1].lineno))
                else:
                    E.st.unsupported.append("model error %s at %r" % (
                        txt, [(f.filename.rpartition("/")[2], f.lineno)
                              for f in tb[-3:]]))
            finally:
                for n, (k, s, lo, hi) in E.inputs.items():
                    decl.setdefault(n, (k, lo, hi))
        st = None
        try:
            signal.signal(signal.SIGALRM, _on_alarm)
            signal.alarm(int(b) + 10)
            try:
                st = E.explore(fn)
            finally:
                signal.alarm(0)
        except Hang:
            E.st.complete = False
            T.set_engine(None)
        except MemoryError:
            E.st.unsupported.append("out of memory")
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            E.st.unsupported.append("engine error %s: %s at %r" % (
                type(e).__name__, str(e)[:200],
                [(f.filename.rpartition("/")[2], f.lineno)
                 for f in tb[-4:]]))
            E.st.complete = False
            T.set_engine(None)
        st = E.st
        rng = random.Random(seed)
        if not viol and E.witnesses:
            rs = runs(h, cfg, E.witnesses, 90)
            for inp, r in zip(E.witnesses, rs):
                if r[0] == "ok":
                    res["wit_ok"] += 1
                elif r[0] == "fail":
                    js = [jitter(inp, rng) for _ in range(3)]
                    rr = runs(h, cfg, js)
                    if sum(1 for x in rr if x[0] == "fail") >= 2:
                        viol.append((r[1], inp, "witness of an explored "
                                                "path"))
                        break
                    res["wit_bad"] += 1
                    res.setdefault("badwit", []).append(
                        [r[1], {k: str(v) for k, v in inp.items()}])
                elif r[0] == "error":
                    res.setdefault("witerr", []).append(r[1])
        undecided = bool(st.unknown or st.unsupported or not st.complete)
        # self-test: sample decided runs as well, to expose false alarms
        stress = int(os.environ.get("VERIF_STRESS", "0") or 0)
        if (undecided or stress) and not viol and decl:
            # not decided by the solver: exercise the real code on inputs
            # inside the bounds, which can only add alarms that replay
            left = deadline - time.time()
            n = stress or (h.samples if tier == "quick" else h.samples * 5)
            ins = [with_pixel(x, rng) for x in E.partial for _ in range(6)]
            ins += [with_pixel(random_inputs(decl, rng), rng)
                    for _ in range(n)]
            rs = runs(h, cfg, ins, max(5, min(60, left)))
            for inp, r in zip(ins, rs):
                if r[0] == "ok":
                    res["fb_ok"] += 1
                elif r[0] == "fail":
                    js = [jitter(inp, rng) for _ in range(3)]
                    rr = runs(h, cfg, js)
                    if sum(1 for x in rr if x[0] == "fail") >= 2:
                        viol.append((r[1], inp, "undecided obligation"))
                        break
            res["fallback"] = n
        if viol:
            label, inp, why = viol[0]
            res["viol"] = dict(label=label, why=why, hang=res.get("hang"),
                               inputs={
                k: (str(v) if isinstance(v, Fraction) else v)
                for k, v in inp.items()})
        d = dict(vars(st))
        d["assumed_nonzero"] = sorted(d["assumed_nonzero"])[:12]
        d["unsupported"] = d["unsupported"][:4]
        res["st"] = d
        res["funcs"] = sorted(E.funcs)
        res["files"] = sorted(E.files)
        res["samples"] = E.samples[:2]
        res["witness"] = [{k: str(v) for k, v in w.items()}
                          for w in E.witnesses[:1]]
    except BaseException as e:
        res["err"] = "".join(traceback.format_exception(e))[-1500:]
    res["time"] = time.time() - t0
    return res


# ---------------------------------------------------------------- processes
class Pool:
    """one forked process per task; no threads, so forking is safe"""

    def __init__(self, n):
        self.n = n
        self.live = {}           # fd -> [pid, task, data, killed after]

    def _start(self, task):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                for fd in [r] + list(self.live):
                    os.close(fd)
                out = pickle.dumps(run_task(task))
                while out:
                    out = out[os.write(w, out):]
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(w)
        self.live[r] = [pid, task, b"", task[5] + 150]

    def _end(self, fd):
        pid = self.live[fd][0]
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        os.close(fd)
        return self.live.pop(fd)

    def run(self, tasks):
        import select
        todo = list(tasks)[::-1]
        while todo or self.live:
            while todo and len(self.live) < self.n:
                self._start(todo.pop())
            rd, _, _ = select.select(list(self.live), [], [], 5)
            done = []
            for fd in rd:
                b = os.read(fd, 1 << 20)
                if b:
                    self.live[fd][2] += b
                else:
                    done.append(fd)
            now = time.time()
            done += [fd for fd, v in self.live.items()
                     if now > v[3] and fd not in done]
            for fd in done:
                pid, task, data, _ = self._end(fd)
                try:
                    yield pickle.loads(data)
                except Exception:
                    yield dict(h=task[1], ci=task[2], viol=None, wit_ok=0,
                               wit_bad=0, fallback=0, fb_ok=0, time=0.0,
                               err="the process ended without a result")

    def kill(self):
        for fd in list(self.live):
            self._end(fd)


# ------------------------------------------------------------------ driver
def parse_inputs(d):
    return {k: (Fraction(v) if isinstance(v, str) else v)
            for k, v in d.items()}


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    mod = load_check(d["property"])
    h = [x for x in mod.HARNESSES if x.name == d["harness"]][0]
    cfg = (h.quick if d["tier"] == "quick" else h.thorough)[d["config_index"]]
    return d, concrete_run(h, cfg, parse_inputs(d["inputs"]),
                           d.get("hang", False))


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid
                and x.get("status") == "known"]


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = float(os.environ.get("VERIF_LIMIT",
                                 "420" if tier == "quick" else "3000"))
    deadline = t0 + limit
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    mod = load_check(pid)
    # models and the library's dependencies are imported once, before forking
    import numpy, scipy.ndimage, scipy.optimize    # noqa
    try:
        import skimage.transform, skimage.filters, skimage.segmentation  # noqa
        import skimage.morphology, skimage.measure, h5py, PIL.Image  # noqa
        import matplotlib.pyplot, cv2     # noqa
    except Exception:
        pass
    from . import engine, loader, models     # noqa
    try:
        from . import larr    # noqa
    except ImportError:
        pass
    tasks = []
    only = os.environ.get("VERIF_ONLY")
    for h in mod.HARNESSES:
        if only and h.name != only:
            continue
        cfgs = h.quick if tier == "quick" else h.thorough
        for i in range(len(cfgs)):
            tasks.append((pid, h.name, i, tier, seed, deadline))
    rnd = random.Random(7)
    order = list(tasks)
    if tier != "quick":
        rnd.shuffle(order)
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    results = []
    viols = []
    known_hit = []
    kf = known_findings(pid)
    pool = Pool(min(nproc, len(order)))
    try:
        for r in pool.run(order):
            results.append(r)
            if os.environ.get("VERIF_VERBOSE"):
                s = r.get("st") or {}
                print("# %s %s %.1fs paths=%s obl=%s proved=%s unk=%s wit=%s/"
                      "%s %s %s %s" % (
                          r["h"], r.get("cfg"), r["time"], s.get("paths"),
                          s.get("obligations"), s.get("proved"),
                          s.get("unknown_labels"), r["wit_ok"],
                          r["wit_ok"] + r["wit_bad"],
                          s.get("unsupported") or "", r["err"] or "",
                          "VIOL %s" % r["viol"] if r["viol"] else ""),
                      "" if s.get("complete", True) else "INCOMPLETE",
                      r.get("nonreplay", "")[:2], r.get("badwit", ""),
                      r.get("witerr", ""), flush=True)
            if r["viol"]:
                k = [f for f in kf if f["harness"] == r["h"] and
                     f["label"] in r["viol"]["label"]]
                if k:
                    known_hit.append(k[0])
                    continue
                path = write_replay(pid, r, tier, len(viols))
                if confirm(path):
                    viols.append((path, r))
                    break
                r["unconfirmed"] = True
    finally:
        pool.kill()
    for f in kf:
        if f in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    write_evidence(pid, tier, mod, results, viols, t0, len(tasks), known_hit)
    errs = [r for r in results if r["err"]]
    for r in errs[:3]:
        print("note: harness %s failed to run: %s" % (r["h"],
                                                      r["err"][-300:]))
    und = sum(1 for r in results if undecided(r))
    print("property %s %s: %d/%d harness runs, %d undecided, %d violations, "
          "%.1f s" % (pid, tier, len(results), len(tasks), und, len(viols),
                      time.time() - t0))
    if viols:
        for path, r in viols:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  harness %s config %s: %s" % (r["h"], r["cfg"],
                                                  r["viol"]["label"]))
        return 1
    return 0


def undecided(r):
    s = r.get("st")
    return bool(r["err"] or s is None or s["unknown"] or s["unsupported"] or
                not s["complete"])


def write_replay(pid, r, tier, n):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s_%d_%d.json" % (pid, r["h"], r["ci"], n))
    with open(path, "w") as f:
        json.dump(dict(property=pid, harness=r["h"], config_index=r["ci"],
                       config=r["cfg"], tier=tier, label=r["viol"]["label"],
                       found_by=r["viol"]["why"],
                       hang=bool(r["viol"].get("hang")),
                       inputs=r["viol"]["inputs"]), f, indent=1)
    return path


def confirm(path):
    p = subprocess.run([sys.executable, "-m", "symx.replay", path],
                       cwd=VERIF, capture_output=True, timeout=120)
    return p.returncode == 1


def write_evidence(pid, tier, mod, results, viols, t0, ntasks, known):
    ev = dict(property=pid)
    tot = dict(paths=0, branches=0, queries=0, obligations=0, proved=0,
               unknown=0, trivial=0, violated=0, forks=0)
    qt = 0.0
    funcs, files, nz = set(), set(), set()
    labels, unk, uns, cfgs, samples = {}, {}, [], {}, []
    wit = bad = fb = 0
    incomplete = 0
    nonreplay = []
    for r in results:
        s = r.get("st")
        if s is None:
            uns.append("%s %s: %s" % (r["h"], r.get("cfg"),
                                      (r["err"] or "")[-200:]))
            continue
        for k in tot:
            tot[k] += s[k]
        qt += s["qtime"]
        funcs.update(r["funcs"])
        files.update(r["files"])
        nz.update(s["assumed_nonzero"])
        for k, v in s["labels"].items():
            a = labels.setdefault(r["h"] + ": " + k, [0, 0, 0, 0])
            for i in range(4):
                a[i] += v[i]
        for k, v in s["unknown_labels"].items():
            unk[r["h"] + ": " + k] = unk.get(r["h"] + ": " + k, 0) + v
        for u in s["unsupported"]:
            uns.append("%s %s: %s" % (r["h"], r["cfg"], u))
        cfgs.setdefault(r["h"], []).append(r["cfg"])
        if not s["complete"]:
            incomplete += 1
        wit += r["wit_ok"]
        bad += r["wit_bad"]
        fb += r["fb_ok"]
        samples.extend(r["samples"][:1])
        for w in r["witness"][:1]:
            samples.append(dict(harness=r["h"], config=r["cfg"],
                                witness_input=w, replayed_on_real_code=True))
        nonreplay += [[r["h"], r["cfg"]] + x for x in r.get("nonreplay", [])]
    bounds = {h.name: h.bounds for h in mod.HARNESSES}
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=int(
            os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        technique="symbolic execution of the /repo sources with z3",
        held=not viols, wall_s=round(wall, 2),
        coverage=dict(
            states=tot["paths"], transitions=tot["branches"],
            traces_validated_against_impl=wit, fallback_runs_ok=fb,
            harness_runs=len(results), harness_runs_planned=ntasks,
            obligations=tot["obligations"], obligations_discharged=tot[
                "proved"], obligations_unknown=tot["unknown"],
            closed_by_normal_form=tot["trivial"], solver_queries=tot[
                "queries"], solver_time_s=round(qt, 2),
            incomplete_runs=incomplete, witness_mismatch_not_robust=bad,
            samples=samples[:8],
            meaning="states: explored symbolic paths; transitions: symbolic "
                    "branch decisions; traces: models of explored paths "
                    "replayed on the real code"),
        functions_encoded=sorted(funcs), files=sorted(files), bounds=bounds,
        configurations={k: v[:60] for k, v in cfgs.items()},
        obligation_labels={k: dict(checked=v[0], proved=v[1], unknown=v[2],
                                   violated=v[3])
                           for k, v in sorted(labels.items())},
        undecided=dict(unknown_obligations=unk, not_encoded=uns[:20],
                       counterexamples_that_did_not_replay=nonreplay[:6]),
        divisors_assumed_nonzero=sorted(nz)[:20],
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        known_findings=[k["what"] for k in known],
        violations=len(viols), violation_details=[dict(replay=p, harness=r["h"], config=r["cfg"],
                         label=r["viol"]["label"],
                         inputs=r["viol"]["inputs"]) for p, r in viols])
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, pid + ".json"))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"))
