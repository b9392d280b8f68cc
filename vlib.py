"""Shared machinery of the checks: build drivers against /repo's working tree, run histories, let TLC
judge the recorded traces, model-check the specifications, write the evidence file.

Outcome of a check: exit 0 (held on everything explored), exit 1 + VIOLATION line (a history of the real
code which the specification rejects, and rejects again when re-run), exit 2 (the machinery failed)."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = f"{VERIF}/spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = int(os.environ.get("VERIF_JOBS", "8"))


LIMIT = float(os.environ.get("VERIF_LIMIT", "600"))   # no new work after this many seconds


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=900, env=None, cwd=None, inp=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd,
                       input=inp)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = f"{VERIF}/build/{prop}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir + "/obj", exist_ok=True)
        os.makedirs(f"{VERIF}/evidence/replays", exist_ok=True)
        for f in os.listdir(f"{VERIF}/evidence/replays"):
            if f.startswith(prop + "-"):
                os.remove(f"{VERIF}/evidence/replays/{f}")
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.actions = {}
        self.models = []
        self.violations = []
        self.assumptions = []
        self.unrepeated = []
        self.extra = {}
        self.known = []

    # ---------------------------------------------------------------- build
    def build(self, name, drivers, repo_src=(), tsan=False, asan=False, vk=False, std="c++11", mem=True, defs=(),
              opt="-O1", libs=(), nort=False, rawdrv=False):
        """Compile /verif/drivers/* and /repo/src/* (as they are now) into one program."""
        env = dict(os.environ, CCACHE_DIR=f"{VERIF}/build/ccache")
        cc = (["ccache"] if shutil.which("ccache") else []) + ["g++"]
        base = ["-g", f"-std={std}", "-w", "-fno-strict-aliasing", f"-I{REPO}/include", f"-I{VERIF}/harness",
                f"-I{VERIF}/drivers"] + [f"-D{d}" for d in defs]
        inst = ["-fsanitize=thread"] if tsan else []
        if asan:
            inst = ["-fsanitize=address", "-fno-omit-frame-pointer"]
        jobs = []
        for s in repo_src:
            jobs.append((f"{REPO}/src/{s}", base + [opt] + inst))
        for s in drivers:
            jobs.append((f"{VERIF}/drivers/{s}", base + [opt] + ([] if rawdrv else inst)))
        if not nort:
            rt = ["vrt.cpp"] + (["vk.cpp"] if vk else []) + (["vrt_tsan.cpp"] if tsan else []) + \
                 (["vrt_mem.cpp"] if mem and not asan else [])
            for s in rt:
                jobs.append((f"{VERIF}/harness/{s}", ["-g", "-std=c++14", "-O1", "-w", f"-I{VERIF}/harness"]))
        objs = []

        def comp(j):
            src, fl = j
            o = f"{self.dir}/obj/{name}_{os.path.basename(src)}_{hashlib.md5((src + str(fl)).encode()).hexdigest()[:8]}.o"
            rc, out = sh(cc + fl + ["-c", src, "-o", o], env=env, timeout=600)
            return rc, out, o, src

        with cf.ThreadPoolExecutor(NCPU) as ex:
            for rc, out, o, src in ex.map(comp, jobs):
                if rc != 0:
                    raise MachineryError(f"does not compile: {src}\n{out[-3000:]}")
                objs.append(o)
        exe = f"{self.dir}/{name}"
        link = ["g++"] + objs + (["-fsanitize=address"] if asan else []) + ["-o", exe, "-lpthread", "-ldl"] + list(libs)
        rc, out = sh(link, timeout=300)
        if rc != 0 and "undefined reference" in out:
            # code may have moved to another file: offer everything else that compiles
            more = [(f"{REPO}/src/{f}", base + [opt] + inst) for f in sorted(os.listdir(f"{REPO}/src"))
                    if f.endswith((".cpp", ".cc")) and f not in repo_src]
            arch = f"{self.dir}/obj/{name}_more.a"
            with cf.ThreadPoolExecutor(NCPU) as ex:
                rest = [o for r, _, o, _ in ex.map(comp, more) if r == 0]
            if rest:
                sh(["ar", "rcs", arch] + rest)
                link.insert(1 + len(objs), arch)
                rc, out = sh(link, timeout=300)
        if rc != 0:
            raise MachineryError(f"does not link: {name}\n{out[-3000:]}")
        return exe

    # ---------------------------------------------------------------- drive
    def drive(self, exe, a, b, out, mode="", script="", timeout=20, seed=None, total=850):
        work = out + ".work"
        os.makedirs(work, exist_ok=True)
        cmd = [exe, "--seed", str(self.seed if seed is None else seed), "--from", str(a), "--to", str(b), "--out", out,
               "--timeout", str(timeout), "--work", work, "--tier", "1" if self.thorough else "0"]
        if mode:
            cmd += ["--mode", mode]
        if script:
            cmd += ["--script", script]
        env = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:handle_segv=1:allocator_may_return_null=1",
                   TZ="UTC")
        rc, txt = sh(cmd, timeout=total, env=env)
        shutil.rmtree(work, ignore_errors=True)
        if rc != 0:
            raise MachineryError(f"driver failed ({rc}): {' '.join(cmd)}\n{txt[-2000:]}")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, meta, env=None, workers="1", heap="2g", timeout=850, extra=(), dfs=False):
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               "-XX:TieredStopAtLevel=" + ("4"), f"-DTLA-Library={SPEC}"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE", "-config", cfg,
                *extra, module]
        try:
            rc, out = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC did not finish in {timeout}s: {module} {cfg}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    @staticmethod
    def _counts(out):
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model_check(self, module, cfg, workers="4", heap="6g", timeout=800, min_states=10, need_actions=()):
        """Exhaustive check of the design; an error here is an error of the specification."""
        extra = ["-coverage", "1"] if need_actions else []
        rc, out = self.tlc(f"{SPEC}/{module}.tla", f"{SPEC}/{cfg}.cfg", f"{self.dir}/meta_{cfg}", workers=workers,
                           heap=heap, timeout=timeout, extra=extra)
        g, d = self._counts(out)
        if rc != 0 or "No error has been found" not in out or d < min_states:
            raise MachineryError(f"model check of {module}/{cfg} failed (rc={rc}, {d} states):\n{out[-3000:]}")
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "config": cfg, "distinct_states": d, "transitions": g})
        log(f"[{self.prop}] model {module}/{cfg}: {d} distinct states, {g} transitions, no error")
        return out

    def generate(self, module, cfg, timeout=600, simulate=None, depth=None, seed=None, workers="1", heap="4g"):
        """Let TLC print behaviours/edges: lines starting with 'GEN ' hold JSON."""
        extra = []
        if simulate:
            extra = ["-simulate", f"num={simulate}", "-depth", str(depth or 50), "-seed", str(seed or self.seed)]
        rc, out = self.tlc(f"{SPEC}/{module}.tla", f"{SPEC}/{cfg}.cfg", f"{self.dir}/metagen_{cfg}", workers=workers,
                           timeout=timeout, extra=extra, heap=heap)
        res = []
        for ln in out.splitlines():
            k = ln.find("GEN ")
            if k in (0, 1):
                s = ln[k + 4:]
                if s.endswith('"') and k == 1:
                    s = s[:-1]
                    s = s.replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(s))
        if not res or ("Error:" in out):
            raise MachineryError(f"generation {module}/{cfg} failed (rc={rc}):\n{out[-3000:]}")
        g, d = self._counts(out)
        self.states += d
        self.transitions += g
        return res

    def judge(self, module, trace, cfg=None, dfs=False, timeout=800, heap="2g"):
        """TLC decides whether the trace is a behaviour. -> (accepted, matched_events, text)"""
        cfg = cfg or module
        meta = trace + ".meta"
        rc, out = self.tlc(f"{SPEC}/{module}.tla", f"{SPEC}/{cfg}.cfg", meta, env={"TRACE": trace}, dfs=dfs,
                           timeout=timeout, heap=heap)
        g, d = self._counts(out)
        n = -1
        m = re.search(r'<<"REJECT", (\d+)', out)
        if m:
            n = int(m.group(1))
        inv = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|property (\S+) was violated", out)
        if inv:
            ls = re.findall(r"/\\ l = (\d+)", out)
            if ls:
                return False, int(ls[-1]) - 1, f"invariant {inv.group(1) or inv.group(2) or inv.group(3)} violated", g, d
        if rc == 0 and "No error has been found" in out and n < 0:
            return True, -1, "", g, d
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if "TLC threw an unexpected exception" in out and ls and "OutOfMemory" not in out:
            return False, int(ls[-1]) - 1, "the next event makes no sense in the specification", g, d
        if n >= 0:
            return False, n, "no action of the specification explains the next event", g, d
        raise MachineryError(f"TLC failed on {trace} (rc={rc}):\n{out[:1500]}\n...\n{out[-2500:]}")

    # ---------------------------------------------------------------- the pipeline
    def conform(self, label, exe, module, nhist, chunk=40, mode="", script="", prep=None, dfs=False, cfg=None,
                timeout=20, maxviol=3, first=0, heap="2g", budget=None, keep_sample=True):
        """Run histories [first, first+nhist) of a driver and let TLC judge every trace."""
        chunks = [(a, min(a + chunk, first + nhist)) for a in range(first, first + nhist, chunk)]
        tstart = time.time()
        nviol0 = len(self.violations)

        def one(c):
            a, b = c
            if budget and time.time() - tstart > budget:
                return None
            if time.time() - self.t0 > LIMIT:
                return None
            if len(self.violations) - nviol0 >= maxviol:
                return None
            return self._chunk(label, exe, module, a, b, mode, script, prep, dfs, cfg, timeout, heap)

        done = 0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(one, chunks):
                if r is None:
                    continue
                done += r["n"]
                self.traces += r["n"]
                self.events += r["events"]
                self.states += r["states"]
                self.transitions += r["trans"]
                for k, v in r["actions"].items():
                    self.actions[k] = self.actions.get(k, 0) + v
                if keep_sample and len(self.samples) < 4 and r["sample"]:
                    self.samples.append({"driver": label, "history": r["a"], "trace": r["sample"]})
                for v in r["viol"]:
                    if len(self.violations) - nviol0 < maxviol:
                        self._report(v)
        log(f"[{self.prop}] {label}: {done} histories judged by {module}, {time.time()-tstart:.1f}s")
        return done

    def _chunk(self, label, exe, module, a, b, mode, script, prep, dfs, cfg, timeout, heap):
        base = f"{self.dir}/{label}_{a}"
        res = {"n": b - a, "a": a, "events": 0, "states": 0, "trans": 0, "viol": [], "actions": {}, "sample": None}
        ranges = [(a, b)]
        while ranges:
            x, y = ranges.pop(0)
            tr = f"{base}_{x}.ndjson"
            self.drive(exe, x, y, tr, mode, script, timeout)
            lines = load(tr)
            if prep:
                lines = prep(lines)
            starts = [i for i, e in enumerate(lines) if e["e"] == "Reset"]
            if 0 < len(starts) < y - x and lines[-1]["e"] in ("Hang", "TooLong"):
                y = x + len(starts)     # the driver gives up after two histories that do not end
            if len(starts) != y - x:
                raise MachineryError(f"{label}: {len(starts)} histories in the trace, {y-x} expected")
            save(tr, lines)
            ok, n, msg, g, d = self.judge(module, tr, cfg, dfs, heap=heap)
            res["states"] += d
            res["trans"] += g
            good = len(lines) if ok else n
            res["events"] += good
            for e in lines[:good]:
                res["actions"][e["e"]] = res["actions"].get(e["e"], 0) + 1
            if res["sample"] is None and starts:
                end = starts[1] if len(starts) > 1 else len(lines)
                res["sample"] = lines[starts[0]:min(end, starts[0] + 12)]
            if not ok:
                hi = max(i for i, s in enumerate(starts) if s <= min(n, len(lines) - 1))
                h = x + hi
                # the same history again, alone: only a repeated rejection counts
                one = f"{base}_re{h}.ndjson"
                self.drive(exe, h, h + 1, one, mode, script, timeout)
                l2 = load(one)
                if prep:
                    l2 = prep(l2)
                save(one, l2)
                ok2, n2, msg2, g2, d2 = self.judge(module, one, cfg, dfs, heap=heap)
                if not ok2:
                    res["viol"].append(dict(label=label, exe=exe, module=module, cfg=cfg, history=h, mode=mode, script=script,
                                            seed=self.seed, matched=n2, why=msg2, trace=l2))
                    if len(res["viol"]) >= 2:
                        os.remove(tr)
                        break
                else:
                    self.unrepeated.append({"driver": label, "history": h, "event": lines[min(n, len(lines) - 1)]})
                os.remove(one)
                if h + 1 < y:
                    ranges.append((h + 1, y))
            os.remove(tr)
        return res

    def _report(self, v):
        k = len(self.violations) + 1
        path = f"{VERIF}/evidence/replays/{self.prop}-{k}.json"
        rec = dict(property=self.prop, driver=v["label"], module=v["module"], history=v["history"], mode=v["mode"],
                   seed=v["seed"], matched_events=v["matched"], why=v["why"],
                   rejected_event=v["trace"][v["matched"]] if 0 <= v["matched"] < len(v["trace"]) else None,
                   trace=v["trace"])
        if v.get("script") and os.path.exists(v["script"]):
            ls = open(v["script"]).read().splitlines()
            if v["history"] < len(ls):
                rec["script_line"] = ls[v["history"]]
        with open(path, "w") as f:
            json.dump(rec, f, indent=0)
        self.violations.append({"replay": path, "driver": v["label"], "history": v["history"],
                                "rejected_event": rec["rejected_event"], "why": v["why"]})
        ctx = v["trace"][max(0, v["matched"] - 3):v["matched"] + 1]
        log(f"  rejected ({v['label']}, history {v['history']}): {v['why']}")
        for e in ctx:
            log("    ", json.dumps(e)[:400])
        log(f"VIOLATION property={self.prop} replay={path}")

    def known_finding(self, text):
        self.known.append(text)
        log(f"KNOWN-FINDING: property={self.prop} {text}")

    # ---------------------------------------------------------------- evidence
    def finish(self):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4],
               "events_validated": self.events, "events_by_name": self.actions, "design_models": self.models}
        if self.unrepeated:
            cov["unrepeated_rejections"] = self.unrepeated[:10]
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(wall, 2)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if self.known:
            cov["known_findings"] = self.known
        ev["violations"] = self.violations
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        log(f"[{self.prop}] {self.tier}: {self.traces} histories, {self.events} events, {self.states} states, "
            f"{len(self.violations)} violations, {wall:.1f}s")
        return 1 if self.violations else 0


def load(path):
    res = []
    with open(path, errors="replace") as f:
        for ln in f:
            ln = ln.strip()
            if ln:
                res.append(json.loads(ln))
    return res


def save(path, lines):
    with open(path, "w") as f:
        for e in lines:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")


def callret(lines):
    """Attach to every Call the result of its Ret (ok=1), or ok=0 if it never returned."""
    open_ = {}
    for e in lines:
        if e["e"] == "Reset":
            open_ = {}
        elif e["e"] == "Call":
            e["ok"] = 0
            open_[e["t"]] = e
        elif e["e"] == "Ret":
            c = open_.pop(e["t"], None)
            if c is not None:
                c["ok"] = 1
                c["r"] = e["r"]
    for e in lines:
        if e["e"] == "Call" and "r" not in e:
            e["r"] = 0
    return lines


def tours(edges, init, seed=1, maxlen=60):
    """edges: list of (from, op, to), hashable. Walks from init which together take every edge."""
    import random
    rnd = random.Random(seed)
    succ = {}
    for f, o, t in edges:
        succ.setdefault(f, []).append((o, t))
    for k in succ:
        seen = {}
        for o, t in succ[k]:
            seen[(json.dumps(o, sort_keys=True), t)] = (o, t)
        succ[k] = list(seen.values())
    todo = {s: list(range(len(v))) for s, v in succ.items()}
    for v in todo.values():
        rnd.shuffle(v)
    left = sum(map(len, todo.values()))
    walks = []

    def to_todo(s):
        """shortest path to a state with an untaken edge"""
        prev = {s: None}
        q = [s]
        for x in q:
            if todo.get(x):
                p = []
                while prev[x] is not None:
                    y, o = prev[x]
                    p.append((o, x))
                    x = y
                return list(reversed(p))
            for o, t in succ.get(x, []):
                if t not in prev:
                    prev[t] = (x, o)
                    q.append(t)
        return None

    while left:
        cur, walk = init, []
        while left and len(walk) < maxlen:
            if todo.get(cur):
                k = todo[cur].pop()
                left -= 1
                o, t = succ[cur][k]
                walk.append(o)
                cur = t
            else:
                p = to_todo(cur)
                if p is None:
                    break
                if walk and len(walk) + len(p) >= maxlen:
                    break
                for o, t in p:
                    walk.append(o)
                    cur = t
        if not walk:
            break
        walks.append(walk)
    return walks


def main(checks):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        checks[prop](ctx)
        rc = ctx.finish()
    except MachineryError as e:
        log(f"ERROR property={prop}: {e}")
        rc = 1 if ctx.violations else 2
    except subprocess.TimeoutExpired as e:
        log(f"ERROR property={prop}: timeout {e}")
        rc = 1 if ctx.violations else 2
    sys.exit(rc)
