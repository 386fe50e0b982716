"""Builds the tree under test in a scratch directory, runs harnesses over it in shards, and turns what the monitors
reported into a verdict, an evidence file and replay files."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 8


class Inconclusive(Exception):
    pass


def base_env():
    e = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS")}
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["LANG"] = "C.UTF-8"
    e["PYTHON"] = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    e.setdefault("MTARGET_ARCH", "x86-64-v3")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    return e


SAN = {
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,"
            "bounds,vla-bound,bool,enum,unreachable -fno-sanitize-recover=undefined,float-cast-overflow,bounds",
    "tsan": "-O1 -g1 -fsanitize=thread",
}


# Build variants: arguments of Tree.lib, plus flags for compiling (hflags) and linking (lflags) the harness.
VARIANTS = {
    "rel": dict(),
    "core": dict(core=True),
    "mpi": dict(mpi=True),
    "asan": dict(mode="rvasan", opt=SAN["asan"], hflags=["-O1", "-fsanitize=address"], lflags=["-fsanitize=address,undefined"]),
    "tsan": dict(mode="rvtsan", opt=SAN["tsan"], hflags=["-O1", "-fsanitize=thread"], lflags=["-fsanitize=thread"]),
    "o1": dict(mode="rvo1", opt="-O1"),
    "o0": dict(mode="debug"),
    "folds52": dict(folds=(5, 2)),
    "folds24": dict(folds=(2, 4)),
    "clang": dict(mode="rvclang", make=("CC=clang",)),
    "trap": dict(mode="rvtrap", make=("CC=clang",), opt="-O1 -g1 -fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,null,pointer-overflow,vla-bound,unreachable,return -fsanitize-trap=all"),
    "sse": dict(mode="rvsse", make=("AVX=false",)),
    "sisd": dict(mode="rvsisd", make=("AVX=false", "SSE2=false")),
    "defargs": dict(mode="rvdef", args="default_args.json"),
    "macargs": dict(mode="rvmac", args="tuned_args_peters_mac.json"),
    "pseudo": dict(mode="rvpse", pseudo=True),
    "random1": dict(mode="rvrn1", args="random:1"),
    "random2": dict(mode="rvrn2", args="random:2"),
    "random3": dict(mode="rvrn3", args="random:3"),
    "random4": dict(mode="rvrn4", args="random:4", make=("AVX=false",)),
    "random5": dict(mode="rvrn5", args="random:5", make=("AVX=false", "SSE2=false")),
}
SEED = 1                         # of this run: names the random tuning parameters


def random_args(path, out, seed):
    """Tuning parameters picked at random from the ranges the tuner explores."""
    r, a = random.Random(seed), {}
    for p in sorted(json.load(open(path))["parameters"].values(), key=lambda p: p["name"]):
        lo, hi, kind = p.get("minimum"), p.get("maximum"), p["flavor"]
        if kind == "boolean":
            a[p["name"]] = r.random() < 0.5
        elif kind == "integer":
            a[p["name"]] = r.randrange(lo, hi + 1, p["step"])
        else:
            n = 0
            while lo << (n + 1) <= hi:
                n += 1
            a[p["name"]] = lo << r.randint(0, n)
    with open(out, "w") as f:
        json.dump(a, f, indent=1, sort_keys=True)


def mpi_flags(what):
    return subprocess.run(["mpicxx", "--showme:" + what], stdout=subprocess.PIPE, text=True, env=base_env()).stdout.split()


class Tree:
    """A scratch copy of /repo's working tree, and the library variants built from it."""

    def __init__(self, keep=False):
        self.dir = tempfile.mkdtemp(prefix="rv-")
        if not keep:
            atexit.register(self.close)
        self.R = os.path.join(self.dir, "repo")
        os.mkdir(self.R)
        self.copy()
        self.env = base_env()
        self.cogged = {}           # args file -> directory of generated C files
        self.getter_done = False
        self.built, self.other = {}, {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def copy(self):
        try:
            names = subprocess.run(["git", "-c", "safe.directory=*", "ls-files", "-z", "--cached", "--others", "--exclude-standard"], cwd=REPO,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout.split(b"\0")
            names = [n.decode() for n in names if n]
        except Exception:
            names = []
        if not names:
            for d, dirs, fs in os.walk(REPO):
                dirs[:] = [x for x in dirs if x not in (".git", "build")]
                names += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
        for n in names:
            s, t = os.path.join(REPO, n), os.path.join(self.R, n)
            if not os.path.exists(s) or os.path.isdir(s):
                continue
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy2(s, t, follow_symlinks=False)

    def sh(self, cmd, what, timeout=600, env=None):
        p = subprocess.run(cmd, cwd=self.R, env=env or self.env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        if p.returncode:
            sys.stderr.write(p.stdout[-4000:] + "\n")
            raise Inconclusive(what + " failed")
        return p.stdout

    def out(self, mode):
        return os.path.join(self.R, "build", mode, "Linux-x86_64")

    def getter(self):
        if self.getter_done:
            return
        o = os.path.join(self.out("release"), "scripts", "obj", "getter")
        self.sh(["make", "-j%d" % NCPU, o], "building the generator's parameter reader")
        data = subprocess.run([o], stdout=subprocess.PIPE, check=True).stdout
        with open(os.path.join(self.R, "scripts", "getter.json"), "wb") as f:
            f.write(data)
        self.getter_done = True

    def lib(self, mode="release", opt=None, make=(), core=False, args=None, pseudo=False, mpi=False):
        """Build one variant with the project's own makefiles and return the archives to link."""
        if not pseudo:
            self.getter()
        mk = os.path.join(self.R, "mk", "build-%s.mk" % mode)
        if not os.path.exists(mk):
            shutil.copy(os.path.join(self.R, "mk", "build-release.mk"), mk)
        o = self.out(mode)
        cmd = ["make", "-j%d" % NCPU, "BUILD_MODE=" + mode] + list(make)
        if opt:
            cmd.append("OPTFLAGS=" + opt)
        if args and args.startswith("random:"):
            name = "rv_%s_args.json" % args.replace(":", "_")
            random_args(os.path.join(self.R, "src", "params.json"), os.path.join(self.R, "src", name), "%d/%s" % (SEED, args))
            args = name
        if args:
            cmd.append("ARGS=" + os.path.join(self.R, "src", args))
        src, objs = os.path.join(self.R, "src", "binnedBLAS"), os.path.join(o, "src", "binnedBLAS", "obj")
        gen = [] if core else [n[:-5] + ".c" for n in sorted(os.listdir(src)) if n.endswith(".ccog")]
        key = "pseudo" if pseudo else (args or "tuned_args.json")
        if gen and (pseudo or key in self.cogged):       # generated sources that need no generator run
            os.makedirs(objs, exist_ok=True)
            now = time.time() + 2
            for n in gen:
                shutil.copyfile(os.path.join(src, n + "cog") if pseudo else os.path.join(self.cogged[key], n), os.path.join(objs, n))
                os.utime(os.path.join(objs, n), (now, now))
        elif gen:
            # named as goals, the generated sources are not intermediate and make keeps them
            self.sh(cmd + [os.path.join(objs, n) for n in gen], "generating the kernels")
            self.cogged[key] = objs
        targets = [os.path.join(o, "src", "binned", "obj", "libbinned.a") if core else os.path.join(o, "src", "reproBLAS", "obj", "libreproblas.a")]
        self.sh(cmd + [os.path.join(objs, n) for n in gen] + targets, "building the %s library" % mode)
        libs = list(targets)
        if mpi:
            flags = subprocess.run(["mpicc", "--showme:compile"], stdout=subprocess.PIPE, text=True, env=self.env).stdout.strip()
            t = os.path.join(o, "src", "binnedMPI", "obj", "libbinnedmpi.a")
            self.sh(cmd + ["BUILD_MPI=true", "MPICFLAGS=" + flags, t], "building the MPI library")
            libs.insert(0, t)
        return libs

    def variant(self, name):
        if name not in self.built:
            v = {k: x for k, x in VARIANTS[name].items() if k not in ("hflags", "lflags")}
            t, folds = self, v.pop("folds", None)
            if folds:                # another tree, with these default folds set in config.h as its comments say
                t = self.other[name] = Tree()
                t.cogged, f = dict(self.cogged), os.path.join(t.R, "config.h")
                txt = open(f).read()
                for m, k in zip(("DIDEFAULTFOLD", "SIDEFAULTFOLD"), folds):
                    txt, n = re.subn(r"(?m)^(\s*#\s*define\s+%s)\s.*$" % m, r"\1 %d" % k, txt)
                    if n != 1:
                        raise Inconclusive("config.h does not set %s once" % m)
                with open(f, "w") as h:
                    h.write(txt)
            self.built[name] = t.lib(**v)
        return self.built[name]

    def harness(self, name, flags=(), tag=""):
        """Start compiling a harness; returns (process, object file)."""
        o = os.path.join(self.dir, "%s%s.o" % (name, tag))
        flags = list(flags)
        cmd = ["g++", "-std=c++17", "-g1", "-ffp-contract=off", "-w", "-I" + HARNESS, "-I" + os.path.join(self.R, "include"), "-c",
               os.path.join(HARNESS, name + ".cpp"), "-o", o] + (flags or ["-O1"])
        return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=self.env), o

    def link(self, job, libs, out, flags=(), cc="g++"):
        p, o = job
        if p is not None:
            txt = p.communicate()[0]
            if p.returncode:
                sys.stderr.write(txt[-4000:])
                raise Inconclusive("compiling the harness against the tree's headers failed")
        exe = os.path.join(self.dir, out)
        src = os.path.join(HARNESS, os.path.basename(o).split("-")[0].replace(".o", "") + ".cpp")
        flags = list(flags) + [x for l in open(src) if l.startswith("// LINK: ") for x in l[9:].split()]
        cmd = [cc, o, "-o", exe] + list(libs) + list(flags) + ["-lm", "-lpthread", "-lquadmath"]
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=self.env)
        if q.returncode:
            sys.stderr.write(q.stdout[-4000:])
            raise Inconclusive("linking the harness with the tree's library failed")
        return exe


class Result:
    def __init__(self):
        self.evals = self.distinct = self.viols = 0
        self.ctr, self.samples, self.viol = {}, [], []

    def add_stats(self, s):
        self.evals += s["evals"]
        self.distinct += s["distinct"]
        for k, v in s["ctr"].items():
            self.ctr[k] = self.ctr.get(k, 0) + v
        self.samples += s["samples"]

    def count(self, k, n=1):
        self.ctr[k] = self.ctr.get(k, 0) + n

    def violation(self, sig, detail, replay):
        self.viols += 1
        if sum(1 for v in self.viol if v[0] == sig) < 3:
            self.viol.append((sig, detail, replay))


def runs(wrap, env):
    """Can this launcher start a trivial program here?"""
    e = base_env()
    e.update(env or {})
    for t in range(3):
        with tempfile.TemporaryDirectory(prefix="rvs-") as d:
            try:
                if subprocess.run(list(wrap) + ["true"], env=dict(e, OMPI_MCA_orte_tmpdir_base=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0:
                    return True
            except Exception:
                pass
    return False


def report_lines(text):
    keep = [l for l in text.splitlines() if re.search(r"ERROR: |WARNING: ThreadSanitizer|runtime error:|SUMMARY:|^\s+#[0-3] ", l)]
    return " / ".join(l.strip() for l in keep[:8]) or text.strip()[-400:]


def run_sharded(res, exe, mode, seed, cases, limit, shards=NCPU, thorough=False, extra="", env=None, watchdog=None, only=None, wrap=(), meta=None, digests=None):
    """Run one harness mode over all shards and fold what it printed into res."""
    e = base_env()
    e.update(env or {})
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1")
    e.setdefault("UBSAN_OPTIONS", "halt_on_error=1:print_stacktrace=1:exitcode=66")
    e.setdefault("TSAN_OPTIONS", "halt_on_error=0:exitcode=66:report_thread_leaks=0")
    watchdog = watchdog or limit * 3 + 120
    meta = meta or dict(harness=os.path.basename(exe))
    mpi = (env or {}).get("OMPI_ALLOW_RUN_AS_ROOT") and (int(wrap[-1]) if wrap else 1)

    def start(s):
        cmd = list(wrap) + [exe, mode, "--seed", str(seed), "--cases", str(cases), "--limit", str(limit), "--shard", str(s), "--shards", str(shards)]
        if thorough:
            cmd.append("--thorough")
        if extra:
            cmd += ["--extra", extra]
        if only is not None:
            cmd += ["--case", str(only)]
        of = tempfile.TemporaryFile(mode="w+", errors="replace")
        ef = tempfile.TemporaryFile(mode="w+", errors="replace")
        if mpi:                                       # Open MPI's session files, apart from those of every other run
            e["OMPI_MCA_orte_tmpdir_base"] = tempfile.mkdtemp(dir=os.path.dirname(exe), prefix="s")
        return subprocess.Popen(cmd, stdout=of, stderr=ef, env=e, start_new_session=True), of, ef, s

    procs = [start(s) for s in range(1 if only is not None else shards)]
    end = time.time() + watchdog
    bad = None
    for p, of, ef, s in procs:
        tries = 4 if mpi else 1
        while tries:
            tries, late = tries - 1, False
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                late = True
            if mpi and p.returncode and not late:     # a launch that failed before the harness was up says nothing
                ef.seek(0)
                err = ef.read()
                if err.count("RV-READY") < mpi:
                    if not tries:
                        raise Inconclusive("MPI does not start: " + err.strip()[-300:])
                    res.count("launches-repeated")
                    time.sleep(2)
                    p, of, ef, s = start(s)
                    continue
            break
        if late:
            bad = "harness %s %s did not finish within %d s" % (os.path.basename(exe), mode, watchdog)
        of.seek(0)
        ef.seek(0)
        out, err = of.read(), ef.read()
        stats = None
        for line in out.splitlines():
            try:
                if line.startswith("VIOL "):
                    v = json.loads(line[5:])
                    res.violation(v["sig"], v["detail"], dict(meta, mode=mode, seed=seed, case=v["case"], extra=extra, thorough=thorough))
                elif line.startswith("DIG ") and digests is not None:
                    _, c, h, nm = line.split(" ", 3)
                    digests[int(c)] = (h, nm)
                elif line.startswith("STATS "):
                    stats = json.loads(line[6:])
            except ValueError:
                bad = bad or "unreadable monitor output: " + line[:200]
        if stats:
            res.add_stats(stats)
        rc = p.returncode
        if rc == -signal.SIGKILL:
            bad = bad or "harness was killed"
        elif rc == 3:
            bad = bad or "harness usage error: " + err[-300:]
        elif rc == 7 and "does not return" in out:
            pass
        elif rc != 0:
            last = re.findall(r"CASE (\d+)", err)
            res.violation("crash:" + crash_sig(rc, err), "exit %d in %s: %s" % (rc, mode, report_lines(err)),
                          dict(meta, mode=mode, seed=seed, case=int(last[-1]) if last else None, shard=s, shards=shards, extra=extra, cases=cases, thorough=thorough))
        elif not stats:
            bad = bad or "harness printed no statistics"
        of.close()
        ef.close()
    if bad:
        if not res.viol:
            raise Inconclusive(bad)
        sys.stderr.write(bad + "\n")


def crash_sig(rc, err):
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err) or re.search(r"WARNING: (ThreadSanitizer): ([\w ]+)", err)
    if m:
        f = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w*(?:binned|reproBLAS)\w*)", err)
        return m.group(2) + (":" + f[0] if f else "")
    m = re.search(r"(\S+?):\d+:\d+: runtime error: ([\w ]+)", err)
    if m:
        return "undefined:" + os.path.basename(m.group(1))
    return "signal%d" % -rc if rc < 0 else "exit%d" % rc
