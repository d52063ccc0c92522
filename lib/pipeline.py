"""Build and run steps shared by all checks: /repo's current sources plus a
harness are compiled to LLVM bitcode for the symbolic engine, and to native
sanitizer builds for the replay of what the engine reports."""
import os, subprocess, glob, json, shutil, tempfile, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PB_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
CLANG = "/usr/bin/clang-18"
OPT = "/usr/bin/opt-18"
LINK = "/usr/bin/llvm-link-18"
ENGINE_DIR = os.path.join(VERIF, "build")
PBSE = os.path.join(ENGINE_DIR, "pbse")

class BuildError(Exception):
    pass

def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")

def must(cmd, **kw):
    rc, o, e = sh(cmd, **kw)
    if rc:
        raise BuildError("command failed (%d): %s\n%s%s" % (rc, " ".join(cmd), o, e[-4000:]))
    return o

def build_engine():
    os.makedirs(ENGINE_DIR, exist_ok=True)
    with open(os.path.join(ENGINE_DIR, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        must(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine"), "B=" + ENGINE_DIR], timeout=1200)

def repo_sources():
    r = []
    for d in ("core", "message", "util"):
        r += sorted(glob.glob(os.path.join(REPO, "src", d, "**", "*.c"), recursive=True))
    if not r:
        raise BuildError("no sources found in " + REPO)
    return r

def base_flags(ndebug=True):
    return ["-std=c99", "-D_GNU_SOURCE", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HARN,
            "-w"] + (["-DNDEBUG"] if ndebug else [])

PASSES = "always-inline,function(sroa,early-cse,simplifycfg)"

def build_bc(work, harness, defines=(), repo_defines=(), ndebug=True, extra_inc=(), rename_main=False):
    """harness: list of C files. Returns the path of linked bitcode."""
    flags = base_flags(ndebug) + ["-O1", "-g", "-Xclang", "-disable-llvm-passes", "-fno-builtin-memcmp", "-emit-llvm", "-c"]
    jobs = []
    for i, s in enumerate(repo_sources()):
        jobs.append([CLANG] + flags + list(repo_defines) + [s, "-o", os.path.join(work, "r%d.bc" % i)])
    hf = list(harness) + [os.path.join(HARN, "rt.c")]
    for i, s in enumerate(hf):
        jobs.append([CLANG] + flags + ["-fno-builtin"] + list(defines) + ["-I" + x for x in extra_inc] + [s, "-o", os.path.join(work, "h%d.bc" % i)])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(must, jobs))
    ll = os.path.join(work, "all.bc")
    must([LINK] + [j[-1] for j in jobs] + ["-o", ll])
    out = os.path.join(work, "opt.bc")
    must([OPT, "-passes=" + PASSES, ll, "-o", out])
    return out

def run_engine(bc, out, entry="harness", workers=8, timeout=600, opts=()):
    cmd = [PBSE, bc, "--entry=" + entry, "--out=" + out, "--repo=" + REPO + "/", "--workers=%d" % workers, "--timeout=%d" % timeout] + list(opts)
    try:
        rc, o, e = sh(cmd, timeout=timeout + 300)
    except subprocess.TimeoutExpired:
        raise BuildError("engine did not stop")
    if rc not in (0, 1, 3):
        raise BuildError("engine failed (%d): %s%s" % (rc, o[-2000:], e[-2000:]))
    return json.load(open(out))

SAN = {
    "asan": ["-fsanitize=address", "-fno-omit-frame-pointer"],
    "msan": ["-fsanitize=memory", "-fno-omit-frame-pointer", "-fsanitize-memory-track-origins"],
    "ubsan": ["-fsanitize=address,shift,integer-divide-by-zero,null,bounds", "-fno-sanitize-recover=all"],
    "plain": [],
}

def build_native(work, harness, san="asan", defines=(), repo_defines=(), ndebug=True, extra_inc=()):
    d = os.path.join(work, "nat-" + san)
    os.makedirs(d, exist_ok=True)
    flags = base_flags(ndebug) + ["-O1", "-g", "-c"] + SAN[san]
    jobs = []
    for i, s in enumerate(repo_sources()):
        jobs.append([CLANG] + flags + list(repo_defines) + [s, "-o", os.path.join(d, "r%d.o" % i)])
    for i, s in enumerate(list(harness) + [os.path.join(HARN, "driver.c")]):
        jobs.append([CLANG] + flags + list(defines) + ["-I" + x for x in extra_inc] + [s, "-o", os.path.join(d, "h%d.o" % i)])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(must, jobs))
    out = os.path.join(d, "replay")
    must([CLANG] + SAN[san] + ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"] + [j[-1] for j in jobs] + ["-o", out])
    return out

def replay(binary, inputs, work, per=10):
    """Run inputs (hex strings); returns list of (verdict, hash, text)."""
    f = os.path.join(work, "inputs.txt")
    with open(f, "w") as h:
        for i in inputs:
            h.write(i + "\n")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:symbolize=0"
    env["MSAN_OPTIONS"] = "exitcode=98:symbolize=0"
    env["UBSAN_OPTIONS"] = "exitcode=97:symbolize=0"
    rc, o, e = sh([binary, f, str(per)], timeout=per * len(inputs) + 300, env=env)
    res = []
    for l in o.splitlines():
        p = l.split(" ", 2)
        res.append((p[0], p[1] if len(p) > 1 else "", p[2] if len(p) > 2 else ""))
    if len(res) != len(inputs):
        raise BuildError("replay driver returned %d results for %d inputs: %s" % (len(res), len(inputs), e[-500:]))
    return res

class RepoBuild:
    """The repository's sources compiled once per configuration and linked with each harness."""
    def __init__(self, work):
        self.work = work; self.repo_bc = {}; self.repo_o = {}; self.nat = {}
    def _compile(self, jobs):
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(must, jobs))
    def bc(self, name, harness, defines, ndebug=True):
        flags = base_flags(ndebug) + ["-O1", "-g", "-Xclang", "-disable-llvm-passes", "-fno-builtin-memcmp", "-emit-llvm", "-c"]
        jobs = []
        if ndebug not in self.repo_bc:
            self.repo_bc[ndebug] = []
            for i, s in enumerate(repo_sources()):
                o = os.path.join(self.work, "r%d-%d.bc" % (ndebug, i)); self.repo_bc[ndebug].append(o)
                jobs.append([CLANG] + flags + [s, "-o", o])
        hs = []
        for i, s in enumerate(list(harness) + [os.path.join(HARN, "rt.c")]):
            o = os.path.join(self.work, "h-%s-%d.bc" % (name, i)); hs.append(o)
            jobs.append([CLANG] + flags + ["-fno-builtin"] + list(defines) + [s, "-o", o])
        self._compile(jobs)
        ll = os.path.join(self.work, name + "-all.bc"); out = os.path.join(self.work, name + "-opt.bc")
        must([LINK] + self.repo_bc[ndebug] + hs + ["-o", ll])
        must([OPT, "-passes=" + PASSES, ll, "-o", out])
        return out
    def native(self, name, harness, defines, san, ndebug=True):
        key = (name, san, ndebug)
        if key in self.nat: return self.nat[key]
        flags = base_flags(ndebug) + ["-O1", "-g", "-c"] + SAN[san]
        jobs = []
        rk = (san, ndebug)
        if rk not in self.repo_o:
            self.repo_o[rk] = []
            for i, s in enumerate(repo_sources()):
                o = os.path.join(self.work, "r-%s-%d-%d.o" % (san, ndebug, i)); self.repo_o[rk].append(o)
                jobs.append([CLANG] + flags + [s, "-o", o])
        hs = []
        for i, s in enumerate(list(harness) + [os.path.join(HARN, "driver.c")]):
            o = os.path.join(self.work, "h-%s-%s-%d.o" % (name, san, i)); hs.append(o)
            jobs.append([CLANG] + flags + list(defines) + [s, "-o", o])
        self._compile(jobs)
        out = os.path.join(self.work, "replay-%s-%s" % (name, san))
        must([CLANG] + SAN[san] + ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"] + self.repo_o[rk] + hs + ["-o", out])
        self.nat[key] = out
        return out
