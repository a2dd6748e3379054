"""Check runner: context, parallel jobs, evidence, violations, known findings."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
STUBS = os.path.join(VERIF, "stubs")
CFLAGS = ["-std=gnu99", "-w", "-D_Linux_", "-D_GNU_SOURCE", "-DLittle_Endian",
          f"-I{STUBS}", f"-I{REPO}/include", f"-I{REPO}/src/PUBLIC_INCLUDES",
          f"-I{REPO}/src/PUBLIC_INCLUDES/rmn", f"-I{REPO}/src"]
FFLAGS = ["-fconvert=big-endian", "-fcray-pointer", "-frecord-marker=4", "-fno-second-underscore",
          "-ffree-line-length-none", "-fallow-argument-mismatch", "-w", "-cpp", "-D_Linux_", "-DLittle_Endian",
          f"-I{REPO}/include", f"-I{REPO}/src/PUBLIC_INCLUDES", f"-I{REPO}/src/PUBLIC_INCLUDES/rmn", f"-I{REPO}/src"]
NCPU = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    """The machinery (not the property) failed: extraction, unsupported construct, tool crash."""


def sh(cmd, timeout=None, cwd=None, env=None, input=None, mem_gb=None):
    if mem_gb:
        cmd = ["bash", "-c", f'ulimit -v {int(mem_gb*1024*1024)}; exec "$@"', "x"] + list(cmd)
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, env=env,
                             stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             start_new_session=True, errors="replace")
        out, err = p.communicate(input=input, timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout"


class Ob:
    """One obligation: status in proved | failed | unknown."""
    __slots__ = ("name", "status", "backend", "secs", "detail", "func", "bounded")

    def __init__(self, name, status, backend, secs=0.0, detail="", func="", bounded=None):
        self.name, self.status, self.backend, self.secs, self.detail, self.func = name, status, backend, secs, detail, func
        self.bounded = bounded


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"vp_{pid}_")
        self.obs, self.native_fail, self.native_stats = [], [], []
        self.notes, self.assumptions, self.trusted, self.functions = [], [], [], []
        self.tool_errors, self.cmds, self.reach = [], [], []
        self.lock = threading.Lock()
        self.sem = threading.Semaphore(NCPU)

    # ---------------------------------------------------------------- helpers
    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self, budget=None):
        b = budget or (3000 if self.thorough else 780)
        return max(5, b - (time.time() - self.t0))

    def path(self, name):
        return os.path.join(self.work, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def under_contract(self, *fns):
        for f in fns:
            if f not in self.functions:
                self.functions.append(f)

    def add(self, ob):
        with self.lock:
            self.obs.append(ob)

    def parallel(self, jobs):
        """jobs: list of (label, callable). Each callable may raise ToolError."""
        def one(j):
            label, fn = j
            try:
                return fn()
            except ToolError as e:
                with self.lock:
                    self.tool_errors.append(f"{label}: {e}")
            except Exception as e:  # machinery bug: never a violation
                with self.lock:
                    self.tool_errors.append(f"{label}: internal {e!r} {traceback.format_exc()[-600:]}")
            return None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(one, jobs))

    # ---------------------------------------------------------------- native
    def cc(self, out, sources, extra=(), lang="c", timeout=240):
        comp = {"c": "gcc", "f": "gfortran"}[lang]
        cmd = [comp, "-O1", "-g"] + (CFLAGS if lang == "c" else FFLAGS) + list(extra) + list(sources)
        rc, o, e = sh(cmd + ["-o", out], timeout=timeout, cwd=self.work)
        if rc != 0:
            raise ToolError(f"native build failed: {' '.join(cmd)[:400]}\n{e[-1500:]}")
        return out

    def _once(self, key, fn):
        """run fn once per key (tasks run in parallel threads)"""
        with self.lock:
            lk = self.__dict__.setdefault("_onces", {}).setdefault(key, [threading.Lock(), None])
        with lk[0]:
            if lk[1] is None:
                lk[1] = fn()
            return lk[1]

    def _compile(self, tool, cmd, src, out):
        def go():
            rc, o, e = sh(cmd, timeout=240, cwd=self.work)
            if rc != 0:
                raise ToolError(f"{tool} failed on {src}: {e[-1500:]}")
            return out
        return self._once(tuple(cmd), go)

    def fobj(self, src, extra=(), name=None):
        out = self.path((name or os.path.basename(src)).replace(".", "_") + ".o")
        return self._compile("gfortran", ["gfortran", "-O1", "-g", "-c"] + FFLAGS + [f"-J{self.work}", f"-I{self.work}"] + list(extra) + [src, "-o", out], src, out)

    def app_module(self):
        """compile the stand-in App module into the work directory (module file and object)"""
        return self.fobj(os.path.join(STUBS, "app.F90"), name="vpstub_app")

    def cobj(self, src, extra=(), name=None, opt="-O1"):
        out = self.path((name or os.path.basename(src)).replace(".", "_") + ".o")
        return self._compile("gcc", ["gcc", opt, "-g", "-c"] + CFLAGS + list(extra) + [src, "-o", out], src, out)

    def native(self, name, exe, args=(), timeout=300, env=None):
        """Run an executable oracle. Protocol on stdout:
             VPFAIL key=<key> <text>     a concrete failing input on the real code
             VPOK evals=<n> distinct=<n> [text]
           A crash (signal) of the oracle counts as a failing run of the real code."""
        ev = dict(os.environ, VP_SEED=str(self.seed), VP_TIER=self.tier, ASAN_OPTIONS="detect_leaks=0")
        ev.update(env or {})
        cmd = [exe] + [str(a) for a in args]
        t = time.time()
        rc, o, e = sh(cmd, timeout=timeout, cwd=self.work, env=ev)
        fails = [l for l in o.splitlines() if l.startswith("VPFAIL ")]
        oks = [l for l in o.splitlines() if l.startswith("VPOK ")]
        rec = dict(name=name, cmd=" ".join(os.path.basename(c) for c in cmd), secs=round(time.time() - t, 2), ok=oks[:3])
        for k in oks:
            m = re.search(r"evals=(\d+)", k)
            rec["evals"] = rec.get("evals", 0) + (int(m.group(1)) if m else 0)
            m = re.search(r"distinct=(\d+)", k)
            rec["distinct"] = rec.get("distinct", 0) + (int(m.group(1)) if m else 0)
        with self.lock:
            self.native_stats.append(rec)
            for l in fails[:20]:
                self.native_fail.append(dict(oracle=name, cmd=" ".join(cmd), line=l, out=o[-4000:], err=e[-2000:]))
            if rc is None:
                self.notes.append(f"native oracle {name}: stopped at its time limit")
            elif rc < 0 and not fails:
                last = [l for l in o.splitlines() if l.strip()][-1:] or [""]
                self.native_fail.append(dict(oracle=name, cmd=" ".join(cmd), out=o[-4000:], err=e[-3000:],
                                             line=f"VPFAIL key=crash-{name} killed by signal {-rc}; last line: {last[0][:200]}"))
            elif rc != 0 and not fails and "ERROR: AddressSanitizer" in e:
                m = re.search(r"ERROR: AddressSanitizer: (.*)", e)
                fr = re.findall(r"#\d+ 0x\w+ in (\S+)", e)[:3]
                self.native_fail.append(dict(oracle=name, cmd=" ".join(cmd), out=o[-4000:], err=e[-6000:],
                                             line=f"VPFAIL key=memory-{fr[0] if fr else name} out-of-bounds access in {' < '.join(fr)}: {m.group(1)[:160]}"))
            elif rc != 0 and not fails:
                self.tool_errors.append(f"native oracle {name} exit {rc}: {e[-500:]}")
        return rec

    # ---------------------------------------------------------------- finish
    def finish(self, level, technique_note):
        known = load_known(self.pid)
        proved = [o for o in self.obs if o.status == "proved" and not o.bounded]
        failed = [o for o in self.obs if o.status == "failed"]
        unknown = [o for o in self.obs if o.status == "unknown"]
        bounded = [o for o in self.obs if o.status == "proved" and o.bounded]
        lines, viol = [], []
        rdir = os.path.join(VERIF, "replays", self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        seen = set()
        for nf in self.native_fail:
            m = re.search(r"key=(\S+)", nf["line"])
            key = m.group(1) if m else "?"
            if key in seen:
                continue
            seen.add(key)
            if key in known:
                lines.append(f"KNOWN-FINDING: property={self.pid} {known[key]}")
                continue
            viol.append(("native", key, nf))
        kn_obs = [o for o in failed if o.name in known]
        for o in kn_obs:
            l = f"KNOWN-FINDING: property={self.pid} {known[o.name]}"
            if l not in lines:
                lines.append(l)
        failed_new = [o for o in failed if o.name not in known]
        os.makedirs(rdir, exist_ok=True)
        nviol = 0
        if viol:
            for i, (_, key, nf) in enumerate(viol[:5]):
                rp = os.path.join(rdir, f"fail_{i}.json")
                json.dump(dict(property=self.pid, kind="concrete failing input on the natively compiled real code",
                               key=key, what=nf["line"], oracle=nf["oracle"], command=nf["cmd"], seed=self.seed,
                               how_to_replay=f"cd {VERIF} && VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 check.py {self.pid}",
                               failed_obligations=[dict(name=o.name, func=o.func, backend=o.backend, detail=o.detail[-3000:]) for o in failed_new[:20]],
                               stdout=nf["out"], stderr=nf["err"]), open(rp, "w"), indent=1)
                lines.append(f"VIOLATION property={self.pid} replay={rp}")
                lines.append("  " + nf["line"][:300])
                nviol += 1
            for o in failed_new[:8]:
                lines.append(f"  failed obligation: {o.name} [{o.func}]")
        elif failed_new:
            rp = os.path.join(rdir, "failed_obligations.json")
            json.dump(dict(property=self.pid, kind="failed proof obligation; no failing input found by replay/search",
                           failed_obligations=[dict(name=o.name, func=o.func, backend=o.backend, detail=o.detail[-6000:]) for o in failed_new],
                           searched=self.native_stats), open(rp, "w"), indent=1)
            for o in failed_new[:8]:
                lines.append(f"  failed obligation: {o.name} [{o.func}] {o.backend}")
            lines.append(f"VIOLATION property={self.pid} replay={rp} no-failing-input-found")
            nviol += 1
        evals = sum(r.get("evals", 0) for r in self.native_stats)
        total = len(self.obs)
        # If nothing at all was decided the run is an error of the check, not a verdict.
        dead = (total == 0 or (not proved and not bounded)) and evals == 0 and not nviol
        byb = {}
        for o in self.obs:
            b = byb.setdefault(o.backend, dict(obligations=0, proved=0, secs=0.0))
            b["obligations"] += 1
            b["proved"] += o.status == "proved"
            b["secs"] = round(b["secs"] + o.secs, 2)
        cov = dict(obligations=total, discharged=len([o for o in self.obs if o.status == "proved"]),
                   checker_cmd="; ".join(dict.fromkeys(self.cmds))[:1500] or "none",
                   trusted_base=self.trusted,
                   functions_under_contract=self.functions,
                   by_backend=byb, solver_secs=round(sum(o.secs for o in self.obs), 2),
                   discharged_unbounded=len(proved), discharged_bounded=len(bounded),
                   bounded=sorted({f"{o.func}: {o.bounded}" for o in self.obs if o.bounded})[:60],
                   undecided=[f"{o.name} [{o.func}]: {o.detail[-300:]}" for o in unknown][:40],
                   failed=[f"{o.name} [{o.func}]" for o in failed][:40],
                   tool_errors=self.tool_errors[:20],
                   vacuity=dict(reach_points=len(self.reach), reached=sum(1 for _, r in self.reach if r),
                                not_reached=[n for n, r in self.reach if not r][:20]),
                   obligation_names=sorted({o.name for o in self.obs})[:400],
                   native_oracle=dict(evaluations=evals, runs=self.native_stats[:60],
                                      note="executable form of the same contracts, run on the natively compiled real code; "
                                           "used to replay failed obligations and as a vacuity check; never counted as proof"),
                   notes=self.notes[:40], explanation=technique_note)
        if level == "exploration":
            cov.update(evaluations=evals, distinct_nontrivial=sum(r.get("distinct", 0) for r in self.native_stats),
                       rule=technique_note, samples=[r for r in self.native_stats[:5]])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for l in lines:
            print(l)
        for t in self.tool_errors:
            print("TOOL-ERROR (not a verdict):", t[:1500])
        for o in unknown[:10]:
            print("UNDECIDED:", o.name, o.func, o.detail[-200:].replace("\n", " "))
        bad_reach = [n for n, r in self.reach if not r]
        if bad_reach:
            print("VACUITY: not reached:", bad_reach[:10])
        print(f"{self.pid}: obligations={total} discharged={cov['discharged']} (unbounded {len(proved)}, bounded {len(bounded)}) "
              f"failed={len(failed)} undecided={len(unknown)} native_evals={evals} wall={ev['wall_s']}s")
        shutil.rmtree(self.work, ignore_errors=True)
        if nviol:
            return 1
        if dead:
            return 2
        return 0


def load_known(pid):
    """known_findings.txt lines:  known: property=<id> key=<key> <what fails>   |  fixed: ... (suppresses nothing)"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out
