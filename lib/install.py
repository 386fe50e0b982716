"""The installed package: headers, libraries and examples as a user meets them after `make install`."""
import itertools, math, os, random, re, shutil, subprocess, tempfile, time
import rvlib as R

LINK = {"binned.h": "-lbinned", "binnedBLAS.h": "-lbinnedblas", "reproBLAS.h": "-lreproblas", "binnedMPI.h": "-lbinnedmpi"}
STD = ["-std=c99", "-pedantic-errors", "-Wall", "-Werror=implicit-function-declaration"]


def sh(T, cmd, cwd, env=None, timeout=300):
    e = dict(T.env)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def declared(T, cc, inc, header, flags):
    """Names of the functions a header of this package declares, from the preprocessed text of that header alone."""
    rc, txt = sh(T, [cc] + flags + ["-E", "-I" + inc, os.path.join(inc, header)], T.dir)
    own, text = False, []
    for line in txt.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', line)
        if m:
            own = os.path.basename(m.group(1)) == header
        elif own and not line.startswith("#"):
            text.append(line)
    body = "\n".join(text)
    while True:                                       # bodies of inline functions and of structures
        b = re.sub(r"\{[^{}]*\}", ";", body)
        if b == body:
            break
        body = b
    names = []
    for stmt in body.split(";"):
        m = re.search(r"([A-Za-z_]\w*)\s*\(", stmt)
        if m and "typedef" not in stmt and re.match(r"\s*(extern\b|const\b|unsigned\b|[A-Za-z_])", stmt) and m.group(1) not in ("__attribute__", "sizeof"):
            names.append(m.group(1))
    return sorted(set(names))


def check(T, res, seed, thorough, phases):
    t0, rnd = time.time(), random.Random(seed)
    top = os.path.join(T.dir, "inst")
    dirs = {k: os.path.join(top, v) for k, v in (("BIN_DIR", "bin"), ("LIB_DIR", "lib"), ("INC_DIR", "include"), ("DOC_DIR", "doc"))}
    mpi = shutil.which("mpicc") is not None
    T.getter()
    make = ["make", "-j%d" % R.NCPU] + ["%s=%s" % kv for kv in dirs.items()]
    if mpi:
        flags = {w: subprocess.run(["mpicc", "--showme:" + w], stdout=subprocess.PIPE, text=True, env=T.env).stdout.strip() for w in ("compile", "link")}
        make += ["BUILD_MPI=true", "MPICFLAGS=" + flags["compile"], "MPILDFLAGS=" + flags["link"]]
    rc, txt = sh(T, make + ["install"], T.R, timeout=700)
    phases["install_s"] = round(time.time() - t0, 1)
    rp = dict(harness=None, case=None, seed=seed, thorough=thorough)

    def bad(sig, text):
        res.violation(sig, text[-900:], rp)

    if rc:
        return bad("install", "make install failed: " + txt)
    inc, lib = dirs["INC_DIR"], dirs["LIB_DIR"]
    heads = sorted(h for h in os.listdir(inc) if h.endswith(".h"))
    libs = sorted(l for l in os.listdir(lib) if l.endswith(".a"))
    res.count("installed-headers", len(heads))
    res.count("installed-libraries", len(libs))
    for h in ("binned.h", "binnedBLAS.h", "reproBLAS.h", "binnedMPI.h"):
        if h not in heads:
            bad("missing:" + h, "%s is not installed: %s" % (h, heads))
    for h in ("binned.h", "binnedBLAS.h", "reproBLAS.h") + (("binnedMPI.h",) if mpi else ()):
        l = "lib%s.a" % LINK[h][2:]
        if l not in libs:
            bad("missing:" + l, "%s is not installed: %s" % (l, libs))
    heads = [h for h in heads if h in LINK and (mpi or h != "binnedMPI.h")]
    if res.viols:
        return
    mcc = "mpicc" if mpi else "gcc"
    work = os.path.join(T.dir, "use")
    os.makedirs(work)

    def src(name, text):
        with open(os.path.join(work, name), "w") as f:
            f.write(text)
        return name

    # every order of every set of headers compiles as strict C99, twice over
    orders = [p for n in range(1, len(heads) + 1) for p in itertools.permutations(heads, n)]
    for n, o in enumerate(orders):
        res.evals += 1
        twice = list(o) + [rnd.choice(o)]
        f = src("o%d.c" % n, "".join("#include <%s>\n" % h for h in twice) + "int rv_order_%d(void){ return %d; }\n" % (n, n))
        for cc in ([mcc, "clang"] if "binnedMPI.h" not in o and shutil.which("clang") else [mcc]):
            rc, txt = sh(T, [cc] + STD + ["-I" + inc, "-c", f, "-o", "o%d.o" % n], work)
            if rc:
                bad("headers:" + cc, "%s does not compile %s: %s" % (cc, " ".join(twice), txt))
            res.count("header-orders")
    # all of those units in one program
    main = src("main.c", "#include <stdio.h>\n" + "".join("int rv_order_%d(void);\n" % n for n in range(len(orders))) + "int main(void){ int s = 0;\n" + "".join("s += rv_order_%d();\n" % n for n in range(len(orders))) + "printf(\"%d\\n\", s); return 0; }\n")
    if not res.viols:
        rc, txt = sh(T, [mcc, main] + ["o%d.o" % n for n in range(len(orders))] + ["-L" + lib] + [LINK[h] for h in heads] + ["-lm", "-o", "all"], work)
        if rc:
            bad("headers:together", "units that include the headers do not link together: " + txt)
        else:
            res.count("linked-together", len(orders))
    # every declared function is in the library its header belongs to, and in any order of libraries
    funcs = {h: declared(T, mcc, inc, h, ["-std=c99"]) for h in heads}
    for h in heads:
        names = funcs[h]
        res.count("declared:" + h, len(names))
        prog = "#include <%s>\n#include <stdio.h>\ntypedef void (*rv_fn)(void);\nstatic const struct { const char *n; rv_fn f; } t[] = {\n%s};\nint main(void){ unsigned n = 0; for(unsigned i = 0; i < sizeof(t) / sizeof(*t); i++) n += t[i].f != 0; printf(\"%%u\\n\", n); return 0; }\n" % (h, "".join('  {"%s", (rv_fn)%s},\n' % (x, x) for x in names))
        f = src("f_%s.c" % h[:-2], prog)
        sets = [[LINK[h]]] + [list(p) for p in itertools.permutations([LINK[x] for x in heads if x != "binnedMPI.h" or x == h]) if LINK[h] in p]
        rc, txt = sh(T, [mcc, "-w", "-std=c99", "-I" + inc, "-c", f, "-o", "f.o"], work)
        if rc:
            bad("declared:" + h, "taking the address of every function of %s fails: %s" % (h, txt))
            continue
        for s in (sets if len(sets) < 8 or thorough else sets[:1] + rnd.sample(sets[1:], 6)):
            if LINK[h] != s[0] and h == "binnedMPI.h" and not thorough and rnd.random() < 0.5:
                continue
            res.evals += 1
            rc, txt = sh(T, [mcc, "f.o", "-L" + lib] + s + ["-lm", "-o", "f"], work)
            if rc:
                bad("links:" + h, "a program that uses every function of %s does not link with %s: %s" % (h, " ".join(s), txt))
                break
            rc, txt = sh(T, ["./f"], work)
            if rc or txt.strip() != str(len(names)):
                bad("runs:" + h, "it prints %r for %d functions" % (txt, len(names)))
            res.count("functions-linked", len(names))
            res.distinct += len(names)
        res.samples.append("%s: %d functions, e.g. %s" % (h, len(names), ", ".join(names[:: max(1, len(names) // 4)][:4])))
    # the examples, built by their own makefile against the installation
    ex = os.path.join(T.dir, "examples")
    shutil.copytree(os.path.join(T.R, "examples"), ex)
    mk = ["make", "LDFLAGS=-L%s -lm" % lib]
    env = dict(C_INCLUDE_PATH=inc, LIBRARY_PATH=lib)
    rc, txt = sh(T, mk + (["MPICC=mpicc", "CC=mpicc"] if mpi else []), ex, env=env)
    if rc:
        return bad("examples:build", "the examples do not build: " + txt)

    exact = {}

    def rows(what, txt):
        good, sums = 0, set()
        for line in txt.splitlines():
            m = re.match(r"\s*(\w+) : \S+\s*: \|(\S+) - (\S+)\| = (\S+)", line)
            if m and re.match(r"binned|reproBLAS", m.group(1)):
                good += 1
                sums.add(m.group(2))
                if m.group(2) != m.group(3) or float(m.group(4)) != 0:
                    bad("examples:" + what, "%s is not reproducible in %s: %s" % (m.group(1), what, line))
                res.samples.append("%s: %s" % (what, line.strip()))
        if good < 1:
            bad("examples:" + what, "%s printed no reproducible sums: %s" % (what, txt))
        if len(sums) > 1:
            bad("examples:" + what, "%s: methods disagree: %s" % (what, sorted(sums)))
        n = re.search(r"n = (\d+)", txt)
        n = int(n.group(1)) if n else 0
        if n not in exact:
            exact[n] = math.fsum(math.sin(2 * math.pi * (i / n - 0.5)) for i in range(n))
        for x in sums:                                # the documented bound at fold 3
            if not abs(float(x) - exact[n]) <= n * 2.0 ** -81 + 7 * 2.0 ** -53 * abs(exact[n]):
                bad("examples:" + what, "%s: the sum of %d numbers is %s, exactly it is %r" % (what, n, x, exact[n]))
        res.count("example-rows", good)
        res.evals += good
        res.distinct += good
        return sums

    rc, txt = sh(T, ["./sum_sine"], ex)
    if rc:
        return bad("examples:sum_sine", "sum_sine ended with %d: %s" % (rc, txt))
    rows("sum_sine", txt)
    ref = None
    from specs import MPIENV
    for n in (1, 2, 3, 4) if mpi else ():
        wrap = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(n)]
        if not R.runs(wrap, MPIENV):
            res.count("launcher-unavailable")
            break
        for t in range(4):                            # a launch that prints nothing of the program says nothing
            menv = dict(MPIENV, OMPI_MCA_orte_tmpdir_base=tempfile.mkdtemp(dir=T.dir, prefix="s"))
            rc, txt = sh(T, wrap + ["./MPI_sum_sine"], ex, env=menv)
            if not rc or "MPI_INIT" not in txt and "orte" not in txt.lower():
                break
            time.sleep(2)
        if rc:
            bad("examples:MPI_sum_sine", "MPI_sum_sine on %d processes ended with %d: %s" % (n, rc, txt))
            break
        got = rows("MPI_sum_sine", txt)
        ref = ref or got
        if got != ref:
            bad("examples:MPI_sum_sine", "on %d processes the sum is %s, on one it was %s" % (n, sorted(got), sorted(ref)))
        res.count("example-processes", n)
    # the installation computes what it should: the harness of the default-fold routines against installed headers and libraries only
    exe, o = os.path.join(T.dir, "h_l1-inst"), os.path.join(T.dir, "h_l1-inst.o")
    rc, txt = sh(T, ["g++", "-std=c++17", "-O1", "-ffp-contract=off", "-w", "-I" + R.HARNESS, "-I" + inc, os.path.join(R.HARNESS, "h_l1.cpp"), "-o", exe, "-L" + lib, "-lreproblas", "-lm", "-lpthread", "-lquadmath"] + [x for l in open(os.path.join(R.HARNESS, "h_l1.cpp")) if l.startswith("// LINK: ") for x in l[9:].split()], T.dir)
    if rc:
        return bad("harness", "a program using the vector routines does not build against the installation: " + txt)
    for m in ("exact", "default"):
        R.run_sharded(res, exe, m, seed, 400000 if thorough else 20000, 60 if thorough else 4, thorough=thorough, meta=dict(harness=None, variant="installed"))
    # a second installation over the first leaves the same files
    before = {f: open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(top) for f in fs if not f.endswith(".a")}
    rc, txt = sh(T, make + ["install"], T.R, timeout=700)
    after = {f: open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(top) for f in fs if not f.endswith(".a")}
    if rc or before != after:
        bad("install:again", "installing again failed or changed files: " + txt)
    res.count("installed-again")
    phases["use_s"] = round(time.time() - t0, 1)
