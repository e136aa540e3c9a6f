#!/usr/bin/env python3
"""Builds the harness against the library sources of /repo's working tree.

The library is compiled by globbing the sources under /repo/lib, so added or moved source files are
picked up. Objects are cached in /verif/build (git-ignored) under a hash of the *contents* of every
file under /repo/lib (resp. the harness) and of the flags: any change of a source gives a new build.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

UBSAN = ("bounds,null,signed-integer-overflow,integer-divide-by-zero,unreachable,return,vla-bound,bool,"
         "shift-exponent")
VARIANTS = {
    # name: (sanitizer flags, plugin, extra defines)
    "asan": (["-fsanitize=address", "-fsanitize=" + UBSAN, "-fno-sanitize-recover=" + UBSAN], "unthreaded-signing", []),
    "athr": (["-fsanitize=address", "-fsanitize=" + UBSAN, "-fno-sanitize-recover=" + UBSAN], "threaded-signing", []),
    "tsan": (["-fsanitize=thread"], "threaded-signing", []),
    "psei": (["-fsanitize=address", "-fsanitize=" + UBSAN, "-fno-sanitize-recover=" + UBSAN], "unthreaded-signing",
             ["-DPRINT_DECODED_SEI"]),
}


# Threading primitives the deterministic scheduler (harness/sched.cpp) stands in for.
MODELLED = {"g_mutex_init", "g_mutex_clear", "g_mutex_lock", "g_mutex_trylock", "g_mutex_unlock", "g_cond_init", "g_cond_clear",
            "g_cond_wait", "g_cond_wait_until", "g_cond_signal", "g_cond_broadcast", "g_thread_try_new", "g_thread_new",
            "g_thread_join", "g_thread_unref", "g_thread_yield", "g_usleep"}
THREADING = re.compile(r"^(g_(mutex|cond|thread|rec_mutex|rw_lock|static|async_queue|private|once|bit|main|timeout|idle|task)_.*"
                       r"|g_usleep|pthread_.*|sem_.*|mtx_.*|cnd_.*|thrd_.*|call_once|eventfd|pipe|poll|usleep|nanosleep|sleep|fork)$")


def unmodelled(objs):
    """True if the plugin uses threading primitives the scheduler does not know: it is then run with real threads."""
    out = subprocess.run(["nm", "-u"] + objs, stdout=subprocess.PIPE, text=True).stdout
    used = {w.split()[-1].split("@")[0] for w in out.splitlines() if w.strip() and not w.endswith(":")}
    return any(THREADING.match(u) and u not in MODELLED for u in used)


class BuildError(Exception):
    pass


def file_hash(paths, extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(e.encode() + b"\0")
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def all_files(root):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs]
    return out


def glib_flags(kind):
    try:
        return subprocess.check_output(["pkg-config", kind, "glib-2.0"], text=True).split()
    except Exception:
        return []


def build(variant):
    san, plugin, defs = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, san, plugin, defs)


def _build(variant, san, plugin, defs):
    lib = os.path.join(REPO, "lib")
    libfiles = all_files(lib)
    csrc = [f for f in glob.glob(lib + "/src/**/*.c", recursive=True)]
    csrc += glob.glob(lib + "/plugins/%s/**/*.c" % plugin, recursive=True)
    csrc += glob.glob(lib + "/vendors/**/*.c", recursive=True)
    incdirs = ["-I" + lib + "/src", "-I" + lib + "/src/includes", "-I" + lib + "/vendors", "-I" + lib]
    gl_c = glib_flags("--cflags") if plugin == "threaded-signing" else []
    gl_l = glib_flags("--libs") if plugin == "threaded-signing" else []
    cflags = ["-O1", "-g1", "-w", "-std=gnu11", "-fno-omit-frame-pointer", "-DSV_VENDOR_AXIS_COMMUNICATIONS",
              "-Dmalloc=verif_malloc", "-Dfree=verif_free", "-Drealloc=verif_realloc", "-Dcalloc=verif_calloc"] + defs + san + incdirs + gl_c
    lhash = file_hash(libfiles, cflags + [variant])
    ldir = os.path.join(BUILD, variant, "lib-" + lhash)
    hfiles = [f for f in all_files(os.path.join(VERIF, "harness"))]
    hsrc = sorted(f for f in hfiles if f.endswith(".cpp"))
    pub = all_files(lib + "/src/includes")
    cxxflags = ["-O1", "-g1", "-w", "-std=c++17", "-fno-omit-frame-pointer",
                "-DHARNESS_VARIANT_" + variant] + (san if variant == "tsan" else []) + ["-I" + lib + "/src/includes"]
    hdrs = [f for f in hfiles if not f.endswith(".cpp")] + pub
    if plugin == "threaded-signing":
        cxxflags.append("-DHARNESS_THREADS")
    objs, jobs = [], []
    tmp = ".tmp%d" % os.getpid()
    if not os.path.isdir(ldir):
        # Drop older library builds of this variant.
        for old in glob.glob(os.path.join(BUILD, variant, "lib-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(ldir)
    for s in csrc:
        o = os.path.join(ldir, os.path.relpath(s, lib).replace("/", "_")[:-2] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((["clang"] + cflags + ["-c", s, "-o", o + tmp], o))

    def job(j):
        run(j[0])
        os.rename(j[1] + tmp, j[1])

    def all_jobs():
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(job, jobs))

    if plugin == "threaded-signing":
        all_jobs()
        jobs = []
        if unmodelled(objs):
            cxxflags.append("-DSCHED_REAL")
    hdir = os.path.join(BUILD, variant, "harness")
    os.makedirs(hdir, exist_ok=True)
    for s in hsrc:
        base = os.path.basename(s)[:-4]
        # The scheduler and the allocator must not look like synchronisation to the thread sanitizer.
        flags = [f for f in cxxflags if f != "-fsanitize=thread"] if base in ("sched", "alloc") else cxxflags
        hh = file_hash(hdrs + [s], flags)
        o = os.path.join(hdir, "%s-%s.o" % (base, hh))
        objs.append(o)
        if not os.path.exists(o):
            for old in glob.glob(os.path.join(hdir, base + "-*.o")):
                os.unlink(old)
            jobs.append((["clang++"] + flags + ["-c", s, "-o", o + tmp], o))

    all_jobs()
    exe = os.path.join(ldir, "pbt-" + file_hash([], objs))
    if not os.path.exists(exe):
        run(["clang++"] + san + objs + ["-o", exe + tmp, "-Wl,--wrap=EVP_PKEY_sign", "-Wl,--wrap=PEM_read_bio_PUBKEY", "-Wl,--wrap=PEM_read_bio_PrivateKey", "-Wl,--wrap=PEM_read_bio_X509", "-lcrypto", "-lssl", "-lpthread"] + gl_l)
        os.rename(exe + tmp, exe)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(build(v))
