#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the harness for the property from /repo's working tree, runs generated cases on all cores,
shrinks and replays a failure and writes evidence/<property>.json.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
"""
import concurrent.futures, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as builder
import catalog

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NWORK = int(os.environ.get("VERIF_JOBS", "8"))
R_FAIL, R_KNOWN, R_HANG, R_ASAN = 10, 11, 12, 86
SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=86:allocator_may_return_null=1:quarantine_size_mb=8:malloc_context_size=6"
                    ":abort_on_error=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86",
    "TSAN_OPTIONS": "exitcode=86:halt_on_error=1:ignore_noninstrumented_modules=1:history_size=4",
}


def load_known():
    """known_findings.txt: lines 'finding: property=<id> key=<key> <what fails>'."""
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                w = line.split()
                if len(w) >= 3 and w[0] == "finding:" and w[1].startswith("property=") and w[2].startswith("key="):
                    out[(w[1][9:], w[2][4:])] = " ".join(w[3:])
    except FileNotFoundError:
        pass
    return out


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            d = f.read()
        return d[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def crash_line(err):
    for l in err.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l or "Assertion" in l \
                or "HANG" in l:
            return l.strip()[:300]
    return err.strip().splitlines()[-1][:300] if err.strip() else "no output"


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.p = catalog.BY_ID[prop]
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.known = load_known()
        self.evals = self.nontriv = 0
        self.distinct = set()
        self.labels, self.knownhits, self.samples = {}, {}, []
        self.rule = ""
        self.variants = []
        self.env = dict(os.environ)
        self.env.update(SAN)
        self.env["VERIF_KEYS"] = os.path.join(VERIF, "keys")

    def wenv(self, d):
        e = dict(self.env)
        e["VERIF_SCRATCH"] = d
        if "cpu" in self.p:
            e["VERIF_CASE_CPU"] = str(self.p["cpu"])
        return e

    def one_worker(self, exe, w, budget, minc):
        """Returns None or a failure dict."""
        d = os.path.join(self.scratch, "w%d-%s" % (w, os.path.basename(exe)))
        os.makedirs(d, exist_ok=True)
        shm, out, fp, err = (os.path.join(d, x) for x in ("shm", "out.json", "fp", "err"))
        with open(err, "wb") as ef:
            pr = subprocess.Popen([exe, "work", self.prop, str(SEED), str(w), str(budget), str(minc), "1000000000", shm, out, fp],
                                  stdout=subprocess.DEVNULL, stderr=ef, env=self.wenv(d), cwd=d, start_new_session=True)
            self.procs.append(pr)
            hard = time.time() + 7 * budget + 150
            while pr.poll() is None:
                time.sleep(0.05)
                stuck = False
                try:
                    with open(shm, "rb") as f:
                        h = f.read(24)
                    if len(h) == 24:
                        _, ms, _, st = struct.unpack("<QQII", h)
                        # A case blocked without using CPU (deadlock).
                        stuck = st == 1 and time.monotonic() * 1000 - ms > 120000
                except OSError:
                    pass
                if stuck or time.time() > hard:
                    os.killpg(pr.pid, signal.SIGKILL)
                    pr.wait()
                    if stuck:
                        return dict(kind=R_HANG, msg="case did not finish within 120 s", choices=self.read_shm(shm), err="")
                    break
                if self.stop:
                    os.killpg(pr.pid, signal.SIGKILL)
                    pr.wait()
                    return None
        rc = pr.returncode
        if rc in (0, R_FAIL):
            with open(out) as f:
                o = json.load(f)
            with self.lock:
                self.evals += o["evaluations"]
                self.nontriv += o["nontrivial"]
                self.rule = o["rule"]
                for k, v in o["labels"].items():
                    self.labels[k] = self.labels.get(k, 0) + v
                for k, v in o["known"].items():
                    self.knownhits[k] = self.knownhits.get(k, 0) + v
                if len(self.samples) < 6:
                    self.samples += o["samples"][:2]
                with open(fp, "rb") as f:
                    b = f.read()
                self.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            if rc == R_FAIL:
                return dict(kind=R_FAIL, msg=o["fail"]["msg"], choices=o["fail"]["choices"], err="")
            return None
        e = tail(err)
        if rc == 3 or rc == -signal.SIGKILL:
            return dict(kind=-1, msg="worker could not run (%s): %s" % (rc, e[-500:]), choices=None, err=e)
        return dict(kind=R_HANG if rc == R_HANG else R_ASAN, msg=crash_line(e), choices=self.read_shm(shm), err=e)

    @staticmethod
    def read_shm(path):
        with open(path, "rb") as f:
            b = f.read(24)
            n = struct.unpack("<QQII", b)[2]
            return list(struct.unpack("<%dQ" % n, f.read(8 * n)))

    def replay(self, exe, ch, times=3):
        """Replays the choice file; returns (number of failures, output)."""
        bad, text = 0, ""
        for i in range(times):
            d = os.path.join(self.scratch, "r%d" % i)
            os.makedirs(d, exist_ok=True)
            try:
                r = subprocess.run([exe, "replay", self.prop, ch, "-v"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=self.wenv(d), cwd=d, timeout=150)
                rc, out = r.returncode, r.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired as x:
                rc, out = R_HANG, "timeout"
            if rc not in (0, R_KNOWN, 3):
                bad += 1
                text = out
        return bad, text

    def explore(self, variant, share):
        import threading
        self.lock = threading.Lock()
        self.stop = False
        self.procs = []
        exe = builder.build(variant)
        self.variants.append(variant)
        tb = catalog.TIERS[self.tier]
        budget = tb["seconds"] * share * self.p.get("time_factor", 1.0)
        minc = max(1, int(self.p.get("min_cases", 400) * tb["min_factor"] * share / NWORK))
        unrepro = 0
        fails = []
        with concurrent.futures.ThreadPoolExecutor(NWORK) as ex:
            futs = [ex.submit(self.one_worker, exe, w, budget, minc) for w in range(NWORK)]
            for f in concurrent.futures.as_completed(futs):
                r = f.result()
                if r:
                    fails.append(r)
                    if len(fails) >= 3:
                        self.stop = True
        errs = [f for f in fails if f["kind"] == -1]
        fails = [f for f in fails if f["kind"] != -1]
        for f in sorted(fails, key=lambda f: len(f["choices"])):
            v = self.confirm(exe, f, variant)
            if v:
                return v
            unrepro += 1
        if unrepro:
            # A failure that no replay reproduces is reported only where the schedule is not owned by the harness and a
            # sanitizer gave a report, which is evidence by itself.
            f = next((f for f in fails if "Sanitizer" in f["err"]), None)
            if f and self.p.get("racy"):
                path = self.save(f["choices"], f["msg"], f["err"], variant, False)
                return dict(msg=f["msg"], path=path)
            print("note: %d failure(s) did not reproduce; ignored: %s" % (unrepro, fails[0]["msg"][:300]))
        if errs:
            print("note: " + errs[0]["msg"])
            if self.evals == 0:
                raise RuntimeError(errs[0]["msg"])
        return None

    def confirm(self, exe, f, variant):
        ch = os.path.join(self.scratch, "choices")
        with open(ch, "w") as o:
            o.write(" ".join(map(str, f["choices"])) + "\n")
        n = self.p.get("confirm", 3)
        bad, text = self.replay(exe, ch, n)
        if bad < (1 if self.p.get("racy") else n):
            return None
        sh = os.path.join(self.scratch, "shrunk")
        if f["kind"] != R_HANG or True:
            try:
                subprocess.run([exe, "shrink", self.prop, ch, "20" if self.tier == "quick" else "60", sh, str(f["kind"])],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=self.wenv(self.scratch),
                               cwd=self.scratch, timeout=200)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(sh):
                b2, t2 = self.replay(exe, sh, n)
                if b2 == n:
                    with open(sh) as i:
                        f["choices"] = [int(x) for x in i.read().split()]
                    text = t2
        return dict(msg=f["msg"], path=self.save(f["choices"], f["msg"], text, variant, True), text=text)

    def save(self, choices, msg, text, variant, repro):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, variant))
        with open(path, "w") as o:
            json.dump(dict(property=self.prop, variant=variant, seed=SEED, message=msg, choices=choices, reproducible=repro,
                           output=text[-6000:], rerun="python3 check.py %s --replay %s" % (self.prop, os.path.relpath(path, VERIF))),
                      o, indent=1)
        return path

    def evidence(self, wall, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        top = dict(sorted(self.labels.items(), key=lambda kv: -kv[1])[:80])
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level="exploration",
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), nontrivial=self.nontriv,
                                rule=self.rule or "no case completed", samples=self.samples[:6] or ["none"], classes=top,
                                known_finding_hits=self.knownhits, builds=self.variants, workers=NWORK),
                  assumptions=catalog.ASSUMPTIONS + self.p.get("assumptions", []),
                  wall_s=round(wall, 2), violations=violations)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def go(self):
        t0 = time.time()
        viol = None
        try:
            vs = self.p.get("variants", ["asan"])
            for v in vs:
                viol = self.explore(v, 1.0 / len(vs))
                if viol:
                    break
        except builder.BuildError as e:
            # The tree does not compile: not a statement about the property, but never "held".
            print(str(e)[-3000:])
            print("the harness could not be built from the working tree")
            self.evidence(time.time() - t0, 0)
            return 2
        finally:
            self.cleanup()
        for k in sorted(self.knownhits):
            what = self.known.get((self.prop, k))
            if what is None:
                viol = viol or dict(msg="unlisted finding " + k, path="known_findings.txt")
            else:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        self.evidence(time.time() - t0, 1 if viol else 0)
        print("%s: %d cases, %d distinct non-trivial, %.1f s" % (self.prop, self.evals, len(self.distinct), time.time() - t0))
        if viol:
            print(viol["msg"][:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, viol["path"]))
            return 1
        return 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in catalog.TIERS:
        tier = "quick"
    r = Run(prop, tier)
    if "--replay" in a:
        with open(a[a.index("--replay") + 1]) as f:
            j = json.load(f)
        exe = builder.build(j["variant"])
        ch = os.path.join(r.scratch, "c")
        with open(ch, "w") as o:
            o.write(" ".join(map(str, j["choices"])))
        bad, text = r.replay(exe, ch, 1)
        print(text)
        r.cleanup()
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, a[a.index("--replay") + 1]))
        return 1 if bad else 0
    return r.go()


if __name__ == "__main__":
    sys.exit(main())
