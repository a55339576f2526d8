"""Runs TLC and the conformance harness for a check and writes its evidence."""
import concurrent.futures
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
GO = {
    "GOFLAGS": "-mod=readonly",
    "GOPROXY": "off",
    "GOTOOLCHAIN": "local",
    "GOWORK": "off",
    "GOSUMDB": "off",
}
CPUS = sorted(os.sched_getaffinity(0))


class Broken(Exception):
    """The check itself failed."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo():
    """The folder of the code, which the harness names."""
    return re.search(r"=> (/\S+)", open(os.path.join(ROOT, "harness", "go.mod")).read()).group(1)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.start = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.scratch = os.path.join(self.work, "scratch")
        os.mkdir(self.scratch)
        self.lock = threading.Lock()
        self.states = self.transitions = 0
        self.counts = {}
        self.samples = []
        self.violations = []
        self.specs = []
        self.level = "model_checking"
        self.assumptions = []
        self.built = {}
        self.building = {}
        self.n = 0
        self.env = dict(os.environ, **GO)
        self.env.setdefault("HOME", "/root")
        self.env["VERIF_SCRATCH"] = self.scratch

    # --- building -------------------------------------------------------
    def build(self, race=False, cmd="harness", sched=False, arch=None):
        """sched builds it such that goroutines can be stopped before every statement of the code."""
        key = (cmd, race, sched, arch)
        out = os.path.join(self.work, cmd + ("-race" if race else "") + ("-sched" if sched else "") + (arch or ""))
        with self.lock:
            lock = self.building.setdefault(key, threading.Lock())
        with lock:
            return self.build_locked(key, out, race, cmd, sched, arch)

    def build_locked(self, key, out, race, cmd, sched, arch):
        if key in self.built:
            return out
        args = ["go", "build", "-o", out] + (["-race"] if race else [])
        if sched:
            tool = self.build(cmd="instrument")
            files = os.path.join(self.work, "instrumented")
            os.mkdir(files)
            p = subprocess.run([tool, repo(), files], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise Broken("/repo cannot be instrumented:\n" + p.stdout)
            args += ["-tags", "sched", "-overlay", os.path.join(files, "overlay.json")]
        args += ["./cmd/" + cmd]
        env = dict(self.env, GOARCH=arch, CGO_ENABLED="0") if arch else self.env
        p = subprocess.run(args, cwd=os.path.join(ROOT, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("the harness does not build against /repo:\n" + p.stdout)
        self.built[key] = out
        return out

    def narrow(self):
        """Whether what is built for processors of 32 bits runs here."""
        try:
            p = subprocess.run([self.build(arch="386"), "selftest", "-out", os.path.join(self.work, "narrow.json")],
                               env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            return p.returncode >= 0
        except (OSError, subprocess.TimeoutExpired):
            return False

    # --- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, workers=2, mem="4g", simulate=None, timeout=1500, extra=None,
            want_error=False, dump=True, env=None):
        """Checks spec/<module>.tla with spec/cfg/<cfg>.cfg, and returns the
        file of the JSON values it printed, one per line, in a fixed order."""
        cfg = cfg or module
        with self.lock:
            self.n += 1
            tag = "%s-%d" % (cfg, self.n)
        meta = os.path.join(self.work, "tlc-" + tag)
        os.mkdir(meta)
        cfgpath = os.path.join(SPEC, "cfg", cfg + ".cfg")
        if extra:
            text = open(cfgpath).read()
            for a, b in extra:
                if a not in text:
                    raise Broken("%s: nothing to replace: %s" % (cfg, a))
                text = text.replace(a, b)
            cfgpath = os.path.join(meta, "x.cfg")
            open(cfgpath, "w").write(text)
        raw = os.path.join(meta, "out")
        cmd = ["tlc"]
        cmd += ["-workers", str(workers), "-metadir", meta, "-config", cfgpath, "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += [os.path.join(SPEC, module + ".tla")]
        env = dict(self.env, JAVA_TOOL_OPTIONS="-Xmx%s -Xss64m -XX:ParallelGCThreads=2" % mem, **(env or {}))
        with open(raw, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken("TLC did not end on " + cfg)
        out = os.path.join(self.work, tag + ".ndjson")
        states = trans = 0
        rest = []
        lines = set()
        with open(raw, errors="replace") as f:
            for line in f:
                if line.startswith('"{') or line.startswith('"['):
                    if dump:
                        try:
                            v = json.loads(json.loads(line))
                        except ValueError:
                            raise Broken("%s: cannot parse %r" % (cfg, line[:300]))
                        lines.add(json.dumps(v, sort_keys=True, separators=(",", ":")))
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct", line)
                if m:
                    trans, states = int(m.group(1)), int(m.group(2))
                rest.append(line)
        ok = p.returncode == 0
        if ok == want_error:
            raise Broken("TLC on %s returned %d:\n%s" % (cfg, p.returncode, "".join(rest[-60:])))
        with open(out, "w") as f:
            for l in sorted(lines):
                f.write(l + "\n")
        shutil.rmtree(meta, ignore_errors=True)
        with self.lock:
            self.states += states
            self.transitions += trans
            self.specs.append({"spec": module, "config": cfg, "states": states, "transitions": trans,
                               "emitted": len(lines)})
        log("tlc %s: %d states, %d transitions, %d emitted (%.1fs)" % (
            cfg, states, trans, len(lines), time.time() - self.start))
        return out

    def parallel(self, *fs):
        # A pool of its own, so that calls can be nested.
        with concurrent.futures.ThreadPoolExecutor(max(2, len(CPUS))) as pool:
            futures = [pool.submit(f) for f in fs]
            return [f.result() for f in futures]

    # --- harness ---------------------------------------------------------
    def harness(self, sub, *args, cpus=None, gomaxprocs=None, race=False, env=None, timeout=None, memory=12 << 30,
                sched=False, pin=None, arch=None):
        """cpus is how many of the processors it may use, and pin which ones."""
        exe = self.build(race, sched=sched, arch=arch)
        with self.lock:
            self.n += 1
            tag = "%s-%d" % (sub, self.n)
        out = os.path.join(self.work, tag + ".json")
        prog = os.path.join(self.work, tag + ".progress")
        e = dict(self.env, GOTRACEBACK="all", **(env or {}))
        if gomaxprocs:
            e["GOMAXPROCS"] = str(gomaxprocs)
        if race:
            e["GORACE"] = "halt_on_error=1 exitcode=66"

        def pre():
            if cpus:
                os.sched_setaffinity(0, set(CPUS[:cpus]))
            if pin:
                os.sched_setaffinity(0, set(pin))
            if memory and not race:
                resource.setrlimit(resource.RLIMIT_AS, (memory, memory))

        cmd = [exe, sub, "-prop", self.prop, "-tier", self.tier, "-seed", str(self.seed),
               "-out", out, "-progress", prog] + [str(a) for a in args]
        err = os.path.join(self.work, tag + ".stderr")
        t0 = time.time()
        timeout = timeout or (850 if self.quick else 7200)
        with open(err, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=self.work, env=e, stdout=f, stderr=subprocess.STDOUT,
                                   preexec_fn=pre, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken("harness %s did not end" % " ".join(cmd[1:]))
        text = open(err, errors="replace").read()
        log("harness %s %s: exit %d (%.1fs)" % (sub, " ".join(os.path.basename(str(a)) for a in args)[:120],
                                                p.returncode, time.time() - t0))
        if p.returncode in (0, 1) and os.path.exists(out):
            r = json.load(open(out))
            with self.lock:
                for k, v in (r["counts"] or {}).items():
                    self.counts[k] = self.counts.get(k, 0) + v
                self.samples += (r["samples"] or [])
                for v in r["violations"] or []:
                    v["replay_cmd"] = {"sub": sub, "args": [str(a) for a in args]}
                    self.violations.append(v)
            return r
        # The process died.  That is the code's doing if its frames are in the
        # report, and ours otherwise.
        if p.returncode == 3 or "harness error" in text or "harness panic" in text:
            raise Broken("harness %s failed:\n%s" % (" ".join(cmd[1:]), text[-6000:]))
        bad = re.search(r"DATA RACE|^panic: |^fatal error: |stack overflow|unexpected fault", text, re.M)
        if bad and "github.com/bodgit/sevenzip" in text[bad.start():]:
            at = open(prog).read() if os.path.exists(prog) else ""
            what = text[bad.start():bad.start() + 6000]
            with self.lock:
                self.violations.append({"property": self.prop, "key": "crash:%s" % sub,
                                        "what": "the process died: " + what.split("\n")[0],
                                        "replay": {"running": at, "report": what},
                                        "replay_cmd": {"sub": sub, "args": [str(a) for a in args]}})
            return None
        raise Broken("harness %s ended with %d:\n%s" % (" ".join(cmd[1:]), p.returncode, text[-6000:]))

    def count(self, name, n):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + n

    def violate(self, key, what, replay):
        with self.lock:
            self.violations.append({"property": self.prop, "key": key, "what": what, "replay": replay})

    # --- the end ---------------------------------------------------------
    def known(self):
        path = os.path.join(ROOT, "KNOWN-FINDINGS.txt")
        out = {}
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    out[m.group(2)] = m.group(3).strip()
        return out

    def finish(self):
        known = self.known()
        for k, what in known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        new = [v for v in self.violations if v["key"].replace(" ", "_") not in known]
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": int(self.counts.get("walks", 0) + self.counts.get("cases", 0)),
            "samples": self.samples[:6],
            "specifications": self.specs,
            "counts": self.counts,
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 2), "violations": len(new),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not new:
            if not cov["traces_validated_against_impl"]:
                raise Broken("nothing was run against the code")
            return 0
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(new[:5]):
            path = os.path.join(d, "%s-%d.json" % (self.prop, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("  " + v["what"].split("\n")[0][:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: check ID [quick|thorough]", sorted(registry))
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    r = Run(prop, tier, seed)
    try:
        registry[prop](r)
        return r.finish()
    except Broken as e:
        # What was found before the check broke still counts.
        if r.violations:
            try:
                if r.finish() == 1:
                    log("(the rest of the check failed: %s)" % e)
                    return 1
            except Broken:
                pass
        log("check %s is broken: %s" % (prop, e))
        return 2
    finally:
        r.close()
