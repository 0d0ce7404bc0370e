#!/usr/bin/env python3
"""Builds and runs the explorations that decide one property.

  run.py ID                 explore within the bounds of VERIF_TIER (quick by default)
  run.py ID --tier thorough
  run.py ID --replay FILE   execute one recorded history again and print it
  run.py --list             list the checks

Exit 0: the property held on everything explored.  Exit 1: violation (with a VIOLATION line).
Exit 2: the check itself failed, no verdict.
"""
import argparse
import concurrent.futures as cf
import ctypes
import hashlib
import json
import os
import resource
import shutil
import struct
import subprocess
import sys
import threading
import time
import traceback

HARNESS = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HARNESS)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")

sys.path.insert(0, HARNESS)
from checks import CHECKS, CONFIGS  # noqa: E402

CXX = "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COMMON = ["-O1", "-g1", "-w", "-pthread"]
JOBS = max(2, min(8, os.cpu_count() or 2))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_hash(root, suffixes):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith(suffixes):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_hashes = {}
_hashes_lock = threading.Lock()


def source_hash():
    with _hashes_lock:
        if "harness" not in _hashes:
            _hashes["repo"] = tree_hash(os.path.join(REPO, "include"), (".hpp", ".h", ".inc"))
            _hashes["harness"] = tree_hash(HARNESS, (".hpp", ".h", ".inc"))
        return _hashes["repo"], _hashes["harness"]


class CheckError(Exception):
    pass


class Unit:
    """One binary: a source file, a part of it, and a build configuration."""

    def __init__(self, src, part, config, defines=(), extra=()):
        self.extra = list(extra)
        self.src, self.part, self.config, self.defines = src, part, config, tuple(defines)
        self.name = "%s-%s-%s" % (os.path.splitext(src)[0], part, config)
        if self.defines:
            self.name += "-" + sha(*self.defines)[:6]
        self.binary = None
        self.compile_log = None

    def command(self, out, objects=()):
        cfg = CONFIGS[self.config]
        cmd = [cfg.get("cxx", CXX)] + COMMON + (SAN if cfg.get("san", True) else [])
        cmd += cfg["flags"] + ["-DPART=%s" % self.part] + ["-D" + d for d in self.defines]
        cmd += ["-I", os.path.join(REPO, "include"), "-I", os.path.join(HARNESS, "stub")]
        cmd += [os.path.join(HARNESS, "src", self.src)] + list(objects) + ["-o", out]
        return cmd

    def build(self):
        r, h = source_hash()
        texts = []
        for name in [self.src] + [x["src"] for x in self.extra]:
            with open(os.path.join(HARNESS, "src", name), "rb") as f:
                texts.append(f.read())
        key = sha(r, h, *(self.command("X") + texts + [json.dumps(self.extra)]))[:20]
        self.binary = os.path.join(BUILD, "%s-%s" % (self.name, key))
        if os.path.exists(self.binary):
            return True
        tmp = self.binary + ".%d.%d" % (os.getpid(), threading.get_ident())
        objects = []
        for i, x in enumerate(self.extra):
            # further translation units with flags of their own, linked in as objects
            obj = "%s.%d.o" % (tmp, i)
            p = subprocess.run([CXX] + COMMON + CONFIGS[self.config]["flags"] + x.get("flags", [])
                               + ["-I", os.path.join(REPO, "include"), "-c", os.path.join(HARNESS, "src", x["src"]), "-o", obj],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode != 0:
                break
            objects.append(obj)
        else:
            p = subprocess.run(self.command(tmp, objects), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace")
        for obj in objects:
            os.unlink(obj)
        if p.returncode == 0 and os.path.exists(tmp):
            os.rename(tmp, self.binary)
            return True
        self.compile_log = "$ " + " ".join(self.command("OUT")) + "\n" + p.stdout[-20000:]
        if p.returncode < 0 or "internal compiler error" in p.stdout or "cc1plus: out of memory" in p.stdout \
                or "Killed signal" in p.stdout or "No space left" in p.stdout:
            raise CheckError("compiler failed: " + p.stdout[-500:])
        return False


_ADDR_NO_RANDOMIZE = 0x0040000


def _preexec():
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(_ADDR_NO_RANDOMIZE)
    except Exception:  # noqa: BLE001  (only makes addresses repeatable)
        pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(cmd, timeout):
    """Returns (code, output); code None if the time ran out."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_"))}
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         preexec_fn=_preexec, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out


def read_trail(path):
    """(list of (value, n), message) from the shared mapping left behind by a run."""
    try:
        with open(path, "rb") as f:
            data = f.read()
    except OSError:
        return [], ""
    if len(data) < 24:
        return [], ""
    magic, _progress, count, _pad = struct.unpack_from("<QQII", data, 0)
    if magic != 0x4D43545241494C:
        return [], ""
    trail = [struct.unpack_from("<HH", data, 24 + 4 * i) for i in range(min(count, 4096))]
    msg = data[24 + 4 * 4096:].split(b"\0", 1)[0].decode(errors="replace")
    return trail, msg


def describe(code, out, msg):
    if code == 96 or code == 97:
        return msg or "violation"
    for line in out.splitlines():
        if "runtime error:" in line:
            return line.split("runtime error:", 1)[1].strip()[:300] + " [" + os.path.basename(line.split(": runtime", 1)[0]) + "]"
        if "ERROR: AddressSanitizer" in line:
            return line.split("ERROR: ", 1)[1].split(" on address")[0].split(" 0x")[0].strip()[:300]
        if "terminate called" in line:
            return line.strip()
    return "process ended with status %s" % code


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.check = CHECKS[prop]
        self.work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(EVIDENCE, "replays")
        self.start = time.time()
        self.budget = self.check.get("budget", {}).get(tier, 420 if tier == "quick" else 3300)
        self.results, self.violations, self.errors, self.skipped = [], [], [], []
        self.stop = threading.Event()

    def left(self):
        return self.budget - (time.time() - self.start)

    # ------------------------------------------------------------------ building
    def units(self):
        r = []
        for u in self.check["units"]:
            if self.tier not in u.get("tiers", ("quick", "thorough")):
                continue
            for config in u["configs"] if self.tier == "quick" else u.get("configs_thorough", u["configs"]):
                for part in u.get("parts", [0]):
                    r.append(Unit(u["src"], part, config, u.get("defines", ()), u.get("extra", ())))
        return r

    def sanity(self):
        """The compiler works at all."""
        src = os.path.join(self.work, "sanity.cpp")
        with open(src, "w") as f:
            f.write("#include <vector>\nint main() { std::vector<int> v(1); return v[0]; }\n")
        p = subprocess.run([CXX] + COMMON + SAN + ["-std=c++14", src, "-o", os.path.join(self.work, "sanity")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0

    # ------------------------------------------------------------------ running
    def one(self, unit, scenario):
        if self.stop.is_set():
            return
        left = self.left()
        if left < 5:
            self.skipped.append((unit.name, scenario))
            return
        limit = min(left - 3, self.check.get("limit", {}).get(self.tier, 200 if self.tier == "quick" else 1500))
        tag = sha(unit.name, scenario)[:16]
        trailf, outf = os.path.join(self.work, tag + ".trail"), os.path.join(self.work, tag + ".json")
        code, out = execute([unit.binary, "--scenario", scenario, "--tier", self.tier, "--trail", trailf,
                             "--out", outf, "--limit", "%.1f" % limit], limit + 60)
        if code == 0:
            with open(outf) as f:
                st = json.load(f)
            st["unit"] = unit.name
            st["config"] = unit.config
            self.results.append(st)
            return
        if code is None:
            self.skipped.append((unit.name, scenario))
            return
        trail, msg = read_trail(trailf)
        self.confirm(unit, scenario, code, out, trail, msg)

    def confirm(self, unit, scenario, code, out, trail, msg):
        """Replays the violation before it is believed, and shortens the history if that is quick."""
        what = describe(code, out, msg)
        tag = sha(unit.name, scenario)[:16]
        if code == -9 or "hard rss limit exhausted" in out:
            # ended from outside, or memory limit: believed only if it repeats
            code2, out2 = execute([unit.binary, "--scenario", scenario, "--tier", self.tier, "--trail",
                                   os.path.join(self.work, tag + ".t3"), "--limit", "60"], 120)
            if code2 in (0, None) or (code2 == -9 and "hard rss" not in out2):
                self.errors.append("%s %s: ended with %s" % (unit.name, scenario, code))
                return
        if code == 3:
            if "nondeterministic" not in out and "execution ended after" not in out:
                self.errors.append("%s %s: %s" % (unit.name, scenario, out[-400:]))
                return
            what = "the same history behaves differently when repeated: " + out[-300:].strip()
        best = (trail, code, out, msg, None)
        # a shorter history, by exploring with smaller depth bounds first
        t0 = time.time()
        for depth in range(0, 4):
            if time.time() - t0 > 20:
                break
            tf = os.path.join(self.work, tag + ".t2")
            c, o = execute([unit.binary, "--scenario", scenario, "--tier", self.tier, "--depth", str(depth),
                            "--trail", tf, "--out", os.path.join(self.work, tag + ".j2"), "--limit", "10"], 25)
            if c not in (0, None, 3):
                t, m = read_trail(tf)
                best = (t, c, o, m, depth)
                break
        trail, code, out, msg, depth = best
        tf = os.path.join(self.work, tag + ".choices")
        with open(tf, "w") as f:
            f.write(" ".join("%d/%d" % c for c in trail) + "\n")
        cmd = [unit.binary, "--scenario", scenario, "--tier", self.tier, "--replay", tf]
        if depth is not None:
            cmd += ["--depth", str(depth)]
        rcode, rout = execute(cmd, 60)
        level = "history"
        if rcode in (0, 3) or rcode is None:
            # the recorded history alone does not show it: believed only if the whole scenario shows it again
            c2, o2 = execute([unit.binary, "--scenario", scenario, "--tier", self.tier, "--trail",
                              os.path.join(self.work, tag + ".t4"), "--limit", "150"], 200)
            if c2 in (0, None) or (c2 == 3 and code != 3):
                self.errors.append("%s %s: violation not reproducible (%s)" % (unit.name, scenario, what))
                return
            level, rout = "scenario", o2
        if code != 3:
            what = describe(code, out, msg)
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s-%s-%s.txt" % (self.prop, unit.name, scenario.replace("/", "_")))
        with open(path, "w") as f:
            f.write("property: %s\nviolation: %s\nsource: %s\npart: %s\nconfig: %s\ndefines: %s\nscenario: %s\n"
                    "tier: %s\ndepth: %s\nlevel: %s\nchoices: %s\n\n--- execution ---\n%s\n"
                    % (self.prop, what.replace("\n", " "), unit.src, unit.part, unit.config, " ".join(unit.defines),
                       scenario, self.tier, "" if depth is None else depth, level,
                       " ".join("%d/%d" % c for c in trail), rout[-20000:]))
        self.violations.append((unit.name + " " + scenario, what, path))
        if len(self.violations) >= 3 and not known_any(self.prop):
            self.stop.set()

    def go(self):
        units = self.units()
        os.makedirs(BUILD, exist_ok=True)
        with cf.ThreadPoolExecutor(JOBS) as pool:
            futs = []

            def work(unit):
                if not unit.build():
                    if not self.sanity():
                        raise CheckError("the compiler does not work")
                    os.makedirs(self.replays, exist_ok=True)
                    path = os.path.join(self.replays, "%s-%s-compile.txt" % (self.prop, unit.name))
                    with open(path, "w") as f:
                        f.write(unit.compile_log)
                    err = [x for x in unit.compile_log.splitlines() if "error" in x][:1]
                    self.violations.append((unit.name + " compile", "a valid program is rejected: " + " ".join(err)[:300], path))
                    return []
                code, out = execute([unit.binary, "--list"], 60)
                if code != 0:
                    raise CheckError("%s --list: %s %s" % (unit.name, code, out[-300:]))
                return [(unit, line.split()[0]) for line in out.splitlines() if line.strip()]

            build = {pool.submit(work, u): u for u in units}
            for f in cf.as_completed(build):
                try:
                    for u, s in f.result():
                        futs.append(pool.submit(self.one, u, s))
                except CheckError as e:
                    self.errors.append(str(e))
            for f in futs:
                try:
                    f.result()
                except Exception as e:  # noqa: BLE001
                    self.errors.append("%s: %s" % (type(e).__name__, e))

    # ------------------------------------------------------------------ comparing between units
    def compare(self):
        """Checks that require equal results of several builds (configuration independence)."""
        groups = {}
        for r in self.results:
            if r.get("digest"):
                groups.setdefault(r["scenario"], {}).setdefault(r["digest"], []).append(r["unit"])
        for sc, d in sorted(groups.items()):
            if len(d) > 1:
                yield sc, d

    def differ(self, scenario, groups):
        """Reports the first history that two builds answer differently."""
        units = {u.name: u for u in self.units()}
        sides = sorted(groups.values(), key=len, reverse=True)[:2]
        a, b = (units[s[0]] for s in sides)
        hashes = []
        for u in (a, b):
            u.build()
            hf = os.path.join(self.work, "hashes-" + u.name)
            execute([u.binary, "--scenario", scenario, "--tier", self.tier, "--hashes", hf, "--out",
                     os.path.join(self.work, "again")], 300)
            with open(hf, "rb") as f:
                hashes.append(f.read())
        n = next((i for i in range(0, min(map(len, hashes)), 8) if hashes[0][i:i + 8] != hashes[1][i:i + 8]), None)
        if n is None:
            n = min(map(len, hashes))
        if hashes[0] == hashes[1]:
            self.errors.append("%s: a difference between builds does not repeat" % scenario)
            return
        longer = a if len(hashes[0]) >= len(hashes[1]) else b
        _, choices = execute([longer.binary, "--scenario", scenario, "--tier", self.tier, "--nth", str(n // 8)], 300)
        choices = choices.strip()
        tf = os.path.join(self.work, "differ.choices")
        with open(tf, "w") as f:
            f.write(choices + "\n")
        outs = [execute([u.binary, "--scenario", scenario, "--tier", self.tier, "--replay", tf], 60)[1] for u in (a, b)]
        what = "results differ between builds: " + " / ".join(",".join(v) for v in groups.values())
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s-%s-compare.txt" % (self.prop, scenario.replace("/", "_")))
        with open(path, "w") as f:
            f.write("property: %s\nviolation: %s\nsource: %s\npart: %s\nconfig: %s\nother: %s\ndefines: %s\nscenario: %s\n"
                    "tier: %s\ndepth: \nlevel: compare\nchoices: %s\n\n--- execution ---\n"
                    % (self.prop, what, a.src, a.part, a.config, b.config, " ".join(a.defines), scenario, self.tier, choices))
            for u, o in zip((a, b), outs):
                f.write("--- %s\n%s\n" % (u.name, o[-20000:]))
        self.violations.append((scenario, what, path))

    def evidence(self):
        lvl = self.check["level"]
        tot = lambda k: sum(r[k] for r in self.results)  # noqa: E731
        samples = []
        for r in sorted(self.results, key=lambda r: (r["unit"], r["scenario"])):
            for s in r["samples"][2:5] or r["samples"][:1]:
                if s and len(samples) < 16:
                    samples.append("%s: %s" % (r["scenario"], s))
        exhaustive = bool(self.results) and all(r["exhaustive"] for r in self.results) and not self.skipped \
            and not self.stop.is_set()
        cov = {"exhaustive": exhaustive}
        if lvl == "model_checking":
            cov.update(states=tot("states"), transitions=tot("transitions"),
                       traces_validated_against_impl=tot("executions"), samples=samples)
        else:
            # a scenario without evaluations of its own counts its executions and the states they reach
            cov.update(evaluations=sum(r["evaluations"] or r["executions"] for r in self.results),
                       distinct_nontrivial=sum(r["outcomes"] if r["evaluations"] else r["states"] for r in self.results),
                       rule=self.check["rule"], samples=samples)
            if tot("states"):
                cov.update(states=tot("states"), transitions=tot("transitions"))
        cov["merged"] = tot("merged")
        cov["bounds"] = self.check["bounds"]
        cov["scenarios"] = [
            {k: r[k] for k in ("unit", "scenario", "depth", "faults", "states", "transitions", "executions",
                               "evaluations", "outcomes", "exhaustive", "wall")}
            for r in sorted(self.results, key=lambda r: (r["unit"], r["scenario"]))]
        cov["not_run"] = ["%s %s" % s for s in self.skipped]
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": lvl, "coverage": cov,
               "assumptions": self.check.get("assumptions", []), "wall_s": round(time.time() - self.start, 3),
               "violations": len(self.violations)}
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1)
        os.rename(tmp, os.path.join(EVIDENCE, self.prop + ".json"))
        return doc


def known(prop):
    """finding lines: `finding: property=<id> where=<substring> what=<substring>`"""
    r = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    rest = line.split(" where=", 1)[1]
                    where, what = rest.split(" what=", 1)
                    r.append((where.strip(), what.strip()))
    return r


def known_any(prop):
    return bool(known(prop))


def clean_build():
    """Keeps the build directory small: drops binaries that were not used for a while."""
    try:
        files = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        files = [(os.path.getmtime(f), f) for f in files if os.path.isfile(f)]
        files.sort(reverse=True)
        for _, f in files[400:]:
            os.unlink(f)
    except OSError:
        pass


def replay(prop, path):
    info = {}
    with open(path) as f:
        for line in f:
            if line.startswith("--- execution"):
                break
            if ": " in line or line.rstrip().endswith(":"):
                k, _, v = line.partition(":")
                info[k] = v.strip()
    os.makedirs(BUILD, exist_ok=True)
    extra = [x.get("extra", ()) for x in CHECKS[prop]["units"] if x["src"] == info["source"]][0]
    tf = os.path.join(BUILD, "replay-%d" % os.getpid())
    with open(tf, "w") as f:
        f.write(info["choices"] + "\n")
    outs = []
    for config in [info["config"]] + ([info["other"]] if info["level"] == "compare" else []):
        u = Unit(info["source"], info["part"], config, info.get("defines", "").split(), extra)
        if not u.build():
            print(u.compile_log)
            return 1
        cmd = [u.binary, "--scenario", info["scenario"], "--tier", info["tier"]]
        cmd += ["--limit", "300"] if info["level"] == "scenario" else ["--replay", tf]
        if info["depth"]:
            cmd += ["--depth", info["depth"]]
        code, out = execute(cmd, 400)
        outs.append(out)
        print("--- " + config)
        print(out)
    os.unlink(tf)
    if len(outs) == 2 and outs[0] != outs[1]:
        code = 1
    if code == 0:
        print("no violation in this history")
        return 0
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    if a.list:
        for k in CHECKS:
            print(k)
        return 0
    if a.prop not in CHECKS:
        print("unknown check", a.prop)
        return 2
    if a.replay:
        return replay(a.prop, a.replay)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    run = Run(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        run.go()
        for sc, d in run.compare():
            run.differ(sc, d)
        doc = run.evidence()
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    clean_build()
    cov = doc["coverage"]
    print("%s %s: %s, %d scenarios, exhaustive within bounds: %s, %.1f s" % (
        a.prop, a.tier,
        ", ".join("%s=%s" % (k, cov[k]) for k in ("states", "transitions", "traces_validated_against_impl", "evaluations",
                                                  "distinct_nontrivial") if k in cov),
        len(run.results), cov["exhaustive"], doc["wall_s"]))
    for s in run.skipped:
        print("not completed in time: %s %s" % s)
    findings = known(a.prop)
    bad = []
    for where, what, path in run.violations:
        hit = [f for f in findings if f[0] in where and f[1] in what]
        if hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, where, what))
        else:
            bad.append((where, what, path))
    for where, what, path in bad[:1]:
        print("  %s: %s" % (where, what))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    for where, what, path in bad[1:]:
        print("  also %s: %s (%s)" % (where, what, path))
    if bad:
        return 1
    if run.errors:
        for e in run.errors:
            print("ERROR:", e)
        return 2
    if not run.results:
        print("ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    try:
        status = main()
    except Exception:
        traceback.print_exc()
        status = 2  # no answer, rather than a violation
    sys.exit(status)
