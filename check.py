#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current source. See DESIGN.md.

  check.py setup                 build the engine
  check.py run ID [quick|thorough]
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANGXX = "/usr/lib/llvm-18/bin/clang++"
if not os.path.exists(CLANGXX):
    CLANGXX = shutil.which("clang++-18") or shutil.which("clang++")
GXX = "/usr/bin/g++" if os.path.exists("/usr/bin/g++") else "g++"
NCPU = min(8, os.cpu_count() or 4)
sys.path.insert(0, VERIF)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode("utf-8", "replace")


class BuildError(Exception):
    pass


def must(cmd):
    rc, out = run(cmd)
    if rc != 0:
        raise BuildError(" ".join(cmd) + "\n" + out[-6000:])
    return out


# ------------------------------------------------------------------ engine
def atomic(path, make):
    """make(tmp) builds into tmp, which is then renamed to path."""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    make(tmp)
    os.rename(tmp, path)
    return path


def engine():
    e = os.path.join(VERIF, "engine")
    pas = os.path.join(BUILD, "engine", "symfp-" + sha(read(e + "/pass.cpp")) + ".so")
    rt = os.path.join(BUILD, "engine", "rt-" + sha(read(e + "/rt.cpp"), read(e + "/sym.h")) + ".o")
    rr = os.path.join(BUILD, "engine", "replay-" + sha(read(e + "/rt_replay.cpp"), read(e + "/sym.h")) + ".o")
    jobs = [
        lambda: atomic(pas, lambda t: must([GXX, "-O1", "-fPIC", "-shared", "-fno-rtti", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include", e + "/pass.cpp", "-o", t])),
        lambda: atomic(rt, lambda t: must([GXX, "-O2", "-std=c++17", "-w", "-c", e + "/rt.cpp", "-o", t])),
        lambda: atomic(rr, lambda t: must([GXX, "-O1", "-std=c++17", "-w", "-c", e + "/rt_replay.cpp", "-o", t])),
    ]
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda f: f(), jobs))
    return pas, rt, rr


# ------------------------------------------------------------------ repository sources
def repo_files():
    fs = []
    for root in ("src", "external", "example"):
        for d, dn, fn in os.walk(os.path.join(REPO, root)):
            dn[:] = [x for x in dn if not x.startswith(("_build", "build", ".git"))]
            for f in fn:
                if f.endswith((".h", ".cc", ".hpp", ".cpp", ".cxx", ".inc", ".tpp")):
                    fs.append(os.path.join(d, f))
    return sorted(fs)


_repo_hash = None


def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = sha(*[x for f in repo_files() for x in (os.path.relpath(f, REPO), read(f))])
    return _repo_hash


def include_dirs(comps):
    inc = []
    for d, dn, fn in os.walk(os.path.join(REPO, "src")):
        if any(f.endswith(".h") for f in fn):
            inc.append(d)
    for d, dn, fn in os.walk(os.path.join(REPO, "external")):
        if any(f.endswith((".h", ".hpp")) for f in fn):
            inc.append(d)
    if "iga" in comps:
        for d, dn, fn in os.walk(os.path.join(REPO, "example", "iga")):
            if "test" in os.path.relpath(d, REPO).split(os.sep):
                continue
            if any(f.endswith(".h") for f in fn):
                inc.append(d)
    return inc


def sources(comps):
    out = []
    for c in comps:
        if c in ("baf", "spl", "util"):
            out += glob.glob(os.path.join(REPO, "src", c, "**", "*.cc"), recursive=True)
        elif c == "io":
            out += glob.glob(os.path.join(REPO, "src", "io", "*.cc"))
            for f in glob.glob(os.path.join(REPO, "src", "io", "executables", "*.cc")):
                if not re.search(rb"\bint\s+main\s*\(", read(f)):
                    out.append(f)
            out += glob.glob(os.path.join(REPO, "external", "**", "pugixml.cpp"), recursive=True)
    return sorted(set(out))


BASE = ["-std=c++17", "-w", "-include", "cstdint", "-include", "stdexcept", "-D_GLIBCXX_ASSERTIONS"]


def build_unit(harness, comps, mode, extra=(), extra_src=()):
    """mode: 'sym' or 'replay'. Returns the executable."""
    pas, rt, rr = engine()
    inc = [x for d in include_dirs(comps) for x in ("-I", d)]
    if mode == "sym":
        flags = BASE + ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno", "-fpass-plugin=" + pas]
    else:
        flags = BASE + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
    hsrc = [os.path.join(VERIF, "harness", harness + ".cc")]
    if "irx" in comps and mode == "sym":  # integer code: the IR is executed by irx.py
        h, x = hsrc[0], os.path.join(VERIF, "irx.py")
        fl = BASE + ["-DIRX", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-exceptions", "-S", "-emit-llvm"] + list(extra)
        ll = os.path.join(BUILD, "obj-sym", "%s-%s.ll" % (harness, sha(repo_hash(), read(h), *fl)))
        atomic(ll, lambda t: must([CLANGXX] + fl + inc + [h, "-o", t]))
        exe = os.path.join(BUILD, "bin", "%s-irx-%s" % (harness, sha(ll, read(x))))

        def wrapper(t):
            with open(t, "w") as f:
                f.write('#!/bin/sh\nexec python3-vt %s %s "$@"\n' % (x, ll))
            os.chmod(t, 0o755)
        return atomic(exe, wrapper)
    hdrs = glob.glob(os.path.join(VERIF, "harness", "*.h")) + [os.path.join(VERIF, "engine", "sym.h")]
    key = sha(mode, repo_hash(), *flags[:-1])
    odir = os.path.join(BUILD, "obj-" + mode, key)
    pkey = os.path.basename(pas) if mode == "sym" else ""
    hkey = sha(key, pkey, *[read(f) for f in sorted(hdrs)])
    objs, jobs = [], []
    for s in sources(comps):
        o = os.path.join(odir, pkey + sha(s) + "-" + os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append((s, o, []))
    if "exe" in comps:  # the command line tools, their main functions under names of their own
        for s in sorted(glob.glob(os.path.join(REPO, "src", "io", "executables", "*.cc"))):
            if re.search(rb"\bint\s+main\s*\(", read(s)):
                pre = os.path.join(BUILD, "main-" + os.path.basename(s) + ".h")
                line = 'int main(int argc, char *argv[]) __asm__("vf_main_%s");\n' % os.path.basename(s)[:-3]
                atomic(pre, lambda t: open(t, "w").write(line))
                o = os.path.join(odir, pkey + sha(s) + "-" + os.path.basename(s) + ".o")
                objs.append(o)
                jobs.append((s, o, ["-include", pre]))
    for s in hsrc + [os.path.join(VERIF, "harness", x) for x in extra_src]:
        o = os.path.join(BUILD, "obj-" + mode, "h", os.path.basename(s) + "-" + sha(hkey, read(s), *extra) + ".o")
        objs.append(o)
        jobs.append((s, o, list(extra)))

    def comp(j):
        s, o, x = j
        atomic(o, lambda t: must([CLANGXX] + flags + inc + x + ["-c", s, "-o", t]))

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(comp, jobs))
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (harness, mode, sha(*objs, rt, rr)))
    if mode == "sym":
        atomic(exe, lambda t: must([GXX] + objs + [rt, "-lz3", "-lgmpxx", "-lgmp", "-lstdc++fs", "-lpthread", "-o", t]))
    else:
        atomic(exe, lambda t: must([CLANGXX, "-fsanitize=address"] + objs + [rr, "-lpthread", "-o", t]))
    return exe


# ------------------------------------------------------------------ running
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) match=(\{.*?\}) (.*)$", line)
            if m and m.group(1) == prop:
                out.append({"match": json.loads(m.group(2)), "what": m.group(3)})
    return out


def is_known(v, unit, kfs):
    for k in kfs:
        m = k["match"]
        if "harness" in m and m["harness"] != unit["harness"]:
            continue
        if "label" in m and not re.fullmatch(m["label"], v["label"]):
            continue
        if "cfg" in m and not re.fullmatch(m["cfg"], " ".join(map(str, v["cfg"]))):
            continue
        return k
    return None


# properties whose exact statement depends on tolerances of a few ulps: a single run in doubles decides nothing
NOPROBE = {"C08", "C09", "C10", "C26"}


class Check:
    def __init__(self, prop, tier):
        import props
        self.prop, self.tier = prop, tier
        self.spec = props.PROPS[prop]
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", self.spec.get("budget", {}).get(tier, 560 if tier == "quick" else 3000)))
        self.kfs = known_findings(prop)
        self.sums, self.events, self.viol, self.knownhit, self.unconf = [], [], [], {}, []
        self.skipped, self.notbuilt = [], []
        self.replay_exe = {}
        self.nrep = 0
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.stop = False
        self.procs = set()

    def left(self):
        return self.budget - (time.time() - self.t0)

    def run_cfg(self, exe, unit, cfg, limit):
        if self.stop or self.left() < 3:
            return cfg, None, []
        log = os.path.join(self.scratch, "log-%s" % sha(exe, *cfg))
        lim = max(3, min(limit, self.left()))
        cwd = tempfile.mkdtemp(prefix="cfg-", dir=self.scratch)
        env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        p = subprocess.Popen([exe, log, str(lim), str(unit.get("z3ms", 10000))] + [str(x) for x in cfg], cwd=cwd, env=env,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        self.procs.add(p)
        try:
            p.wait(timeout=lim + 40)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        self.procs.discard(p)
        ev = []
        if os.path.exists(log):
            for line in open(log, errors="replace"):
                try:
                    ev.append(json.loads(line))
                except ValueError:
                    pass
            os.unlink(log)
        shutil.rmtree(cwd, ignore_errors=True)
        s = [e for e in ev if e.get("kind") == "summary"]
        return cfg, (s[0] if s else {"lost": True}), [e for e in ev if e.get("kind") != "summary"]

    def confirm(self, unit, v):
        """replay the counterexample on the plain library; returns the replay directory or None"""
        if unit["name"] not in self.replay_exe:
            self.replay_exe[unit["name"]] = build_unit(unit["harness"], unit["comps"], "replay", unit.get("defs", ()), unit.get("extra_src", ()))
        exe = self.replay_exe[unit["name"]]
        for m in v.get("models") or [{}]:
            self.nrep += 1
            txt = ["cfg %d" % c for c in v["cfg"]] + ["choice %s %d" % (k, x) for k, x in v.get("choices", {}).items()]
            for k, q in m.items():
                txt.append("real %s %.17g" % (k, float(Fraction(q))))
            mf = os.path.join(self.scratch, "model-%d.txt" % self.nrep)
            open(mf, "w").write("\n".join(txt) + "\n")
            cwd = tempfile.mkdtemp(prefix="rep-", dir=self.scratch)
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
            p = subprocess.Popen([exe, mf], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            hang = False
            try:
                out, _ = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                hang = True
            out = out.decode("utf-8", "replace")
            shutil.rmtree(cwd, ignore_errors=True)
            labels = set(re.findall(r"CHECK FAILED: (.*?) \(", out))
            ok = hang or p.returncode == 99 or p.returncode < 0 or (p.returncode == 1)
            if ok:
                d = os.path.join(VERIF, "replays", self.prop, "%d" % (len(os.listdir(os.path.join(VERIF, "replays", self.prop))) if os.path.isdir(os.path.join(VERIF, "replays", self.prop)) else 0))
                os.makedirs(d, exist_ok=True)
                shutil.copy(mf, os.path.join(d, "model.txt"))
                open(os.path.join(d, "output.txt"), "w").write(out[-20000:])
                open(os.path.join(d, "violation.json"), "w").write(json.dumps(v, indent=1))
                open(os.path.join(d, "replay.sh"), "w").write(
                    "#!/bin/sh\n# rebuilds the harness against /repo and runs it on model.txt: exit 1 = property violated\nexec python3 %s replay %s %s \"$(dirname \"$0\")/model.txt\"\n" % (os.path.join(VERIF, "check.py"), self.prop, unit["name"]))
                os.chmod(os.path.join(d, "replay.sh"), 0o755)
                return d, out, labels
        return None

    def handle(self, unit, v):
        k = is_known(v, unit, self.kfs)
        if k is not None:
            key = k["what"]
            if key in self.knownhit:
                return
            r = self.confirm(unit, v)
            if r:
                self.knownhit[key] = r[0]
            return
        if self.viol and len(self.viol) >= 3:
            return
        seen = (unit["name"], v["label"])
        cnt = sum(1 for x in self.unconf if (x[0], x[1]) == seen)
        if cnt >= 6:
            return
        r = self.confirm(unit, v)
        if r:
            self.viol.append((unit, v, r))
            self.stop = True
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        else:
            self.unconf.append((unit["name"], v["label"], v["cfg"]))

    def main(self):
        try:
            units = self.spec["units"](self.tier)
            # build all units first
            built = []
            for u in units:
                try:
                    u["exe"] = build_unit(u["harness"], u["comps"], "sym", u.get("defs", ()), u.get("extra_src", ()))
                    built.append(u)
                except BuildError as e:  # an interface moved: the rest is still decided, the evidence says so
                    self.notbuilt.append((u["name"], str(e)))
            if not built:
                print("%s: no unit could be built against the tree\n%s" % (self.prop, self.notbuilt[0][1]))
                return 2
            units = built
            self.tbuild = time.time() - self.t0
            todo = [(u, c) for u in units for c in u["configs"]]
            # interleave units so that a budget cut hits none of them completely
            todo = [x for _, _, x in sorted(((i / max(1, len(u["configs"])), k, (u, c)) for k, u in enumerate(units) for i, c in enumerate(u["configs"])), key=lambda t: t[:2])]
            with cf.ThreadPoolExecutor(NCPU) as ex:
                futs = {ex.submit(self.run_cfg, u["exe"], u, c, u.get("limit", self.budget)): (u, c) for u, c in todo}
                for f in cf.as_completed(futs):
                    u, c = futs[f]
                    cfg, s, ev = f.result()
                    if s is None:
                        if not self.stop:
                            self.skipped.append((u["name"], c))
                        continue
                    s["unit"] = u["name"]
                    s.setdefault("cfg", c)
                    self.sums.append(s)
                    for e in ev:
                        if e["kind"] in ("check", "crash", "hang"):
                            if not self.stop:
                                self.handle(u, e)
                        elif e["kind"] == "probe":
                            if not self.stop and self.prop not in NOPROBE:
                                self.handle(u, e)
                        else:
                            e["unit"], e["cfg"] = u["name"], c
                            self.events.append(e)
            self.units = units
            return self.finish()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def finish(self):
        tot = {}
        for k in ("paths", "pruned", "forks", "obligations", "trivial", "z3q", "z3sat", "z3unsat", "z3unknown", "quick", "viol", "undecided", "witness", "crashes", "unsup", "timeouts", "values", "z3time"):
            tot[k] = sum(s.get(k, 0) for s in self.sums)
        labels, fns = {}, set()
        for s in self.sums:
            for k, n in s.get("labels", {}).items():
                labels[k] = labels.get(k, 0) + n
            fns.update(s.get("functions", []))
        vac = [s for s in self.sums if not s.get("lost") and s.get("witness", 0) == 0 and not s.get("viol")]
        lost = [s for s in self.sums if s.get("lost")]
        cov = {
            "explanation": self.spec["explanation"],
            "method": self.spec.get("technique") or "symbolic execution of the compiled /repo sources (LLVM IR instrumented, doubles as exact rational functions over symbolic reals), path exploration by solver-checked forking, every obligation discharged by Z3",
            "bounds": self.spec["bounds"](self.tier) if callable(self.spec["bounds"]) else self.spec["bounds"],
            "outside_the_claim": self.spec.get("outside", []),
            "configurations_explored": len(self.sums) - len(lost),
            "configurations_skipped_on_budget": len(self.skipped),
            "units_not_built": [n for n, _ in self.notbuilt],
            "paths_completed": tot["paths"],
            "paths_pruned_infeasible": tot["pruned"],
            "paths_with_satisfiable_condition": tot["witness"],
            "vacuous_configurations": len(vac),
            "obligations": tot["obligations"],
            "obligations_undecided": tot["undecided"],
            "obligations_closed_by_normal_form_before_solver": tot["trivial"],
            "solver_queries": tot["z3q"],
            "solver_unsat": tot["z3unsat"],
            "solver_sat": tot["z3sat"],
            "solver_unknown": tot["z3unknown"],
            "branch_decisions_by_interval_or_cache": tot["quick"],
            "solver_seconds": round(tot["z3time"], 2),
            "symbolic_values_built": tot["values"],
            "unsupported_paths": tot["unsup"],
            "lost_runs": len(lost),
            "timeouts": tot["timeouts"],
            "obligation_labels": labels,
            "functions_encoded": sorted(fns),
            "counterexamples_replayed": self.nrep,
            "counterexamples_not_reproduced": len(self.unconf),
            "samples": [{"unit": s["unit"], "configuration": s["cfg"], "paths": s.get("paths"), "obligations": s.get("obligations"), "solver_seconds": s.get("z3time")} for s in self.sums[:4]],
            "notes": sorted(set("%s %s: %s" % (e["unit"], e["kind"], e.get("note") or e.get("label")) for e in self.events))[:20],
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.spec.get("level", "other"),
              "coverage": cov, "assumptions": self.spec.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d configurations (%d skipped), %d paths, %d obligations (%d undecided), %d solver queries, %.1f s solver, build %.0f s, wall %.0f s"
              % (self.prop, self.tier, len(self.sums), len(self.skipped), tot["paths"], tot["obligations"], tot["undecided"], tot["z3q"], tot["z3time"], self.tbuild, time.time() - self.t0))
        for n, e in self.notbuilt:
            print("  note: unit %s does not build against this tree and is left out: %s" % (n, " | ".join(l for l in e.splitlines() if "error" in l)[:300]))
        if vac or lost or tot["unsup"] or self.unconf:
            print("  note: vacuous=%d lost=%d unsupported=%d unreproduced=%d" % (len(vac), len(lost), tot["unsup"], len(self.unconf)))
            for x in self.unconf[:5]:
                print("   unreproduced:", x)
            for n in cov["notes"][:8]:
                print("   ", n)
            for x in (vac + lost)[:5]:
                print("    vacuous/lost:", x.get("unit"), x.get("cfg"))
        for what in self.knownhit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for u, v, (d, out, labels) in self.viol:
            print("  violated: [%s] %s, configuration %s" % (u["name"], v["label"], v["cfg"]))
            for l in out.splitlines():
                if "CHECK FAILED" in l or "ERROR" in l or "exception" in l:
                    print("   ", l)
                    break
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
        return 1 if self.viol else 0


def prune_build():
    """keep the cache small: drop objects of older trees"""
    for base in ("obj-sym", "obj-replay"):
        d = os.path.join(BUILD, base)
        if os.path.isdir(d):
            es = sorted((os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d) if e != "h")
            for _, e in es[:-6]:
                shutil.rmtree(os.path.join(d, e), ignore_errors=True)
            h = os.path.join(d, "h")
            if os.path.isdir(h):
                es = sorted((os.path.getmtime(os.path.join(h, e)), e) for e in os.listdir(h))
                for _, e in es[:-150]:
                    try:
                        os.unlink(os.path.join(h, e))
                    except OSError:
                        pass
    d = os.path.join(BUILD, "bin")
    if os.path.isdir(d):
        es = sorted((os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d))
        for _, e in es[:-120]:
            try:
                os.unlink(os.path.join(d, e))
            except OSError:
                pass


def main():
    if sys.argv[1] == "setup":
        engine()
        print("engine ready")
        return 0
    if sys.argv[1] == "run":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        prune_build()
        return Check(sys.argv[2], tier).main()
    if sys.argv[1] == "replay":
        import props
        for u in props.PROPS[sys.argv[2]]["units"]("quick"):
            if u["name"] == sys.argv[3]:
                exe = build_unit(u["harness"], u["comps"], "replay", u.get("defs", ()), u.get("extra_src", ()))
                d = tempfile.mkdtemp(prefix="verif-replay-")
                try:
                    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99")
                    return subprocess.call([exe, os.path.abspath(sys.argv[4])], cwd=d, env=env)
                finally:
                    shutil.rmtree(d, ignore_errors=True)
    return 2


if __name__ == "__main__":
    sys.exit(main())
