"""Compiles /repo's sources and the harnesses with instrumentation, through a
content-addressed object cache in /verif/build, so that a check recompiles only
what changed since setup_cmd ran (and everything when there is no cache)."""
import ast, hashlib, json, os, re, shlex, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
JOBS = int(os.environ.get("VP_JOBS", "0")) or (os.cpu_count() or 4)

OPTIONS = ("STRICT_FAILSAFE_PWM", "OFFLINE_FAILSAFE_PWM", "UNC_FAILSAFE",
           "HANDLE_MISSING_OBJECT_PATHS")
# build-option variants of the program
CONFIGS = {
    "def": {},
    "strict": {"STRICT_FAILSAFE_PWM": 1, "HANDLE_MISSING_OBJECT_PATHS": 1},
    "off": {"OFFLINE_FAILSAFE_PWM": 1, "UNC_FAILSAFE": 1},
}
COMMON = ["-std=c++23", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
          "-w", "-pthread"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all", "-DVP_ASAN=1"],
    "tsan": ["-O1", "-fsanitize=thread", "-DVP_TSAN=1"],
    "plain": ["-O1", "-DVP_PLAIN=1"],
}
FALLBACK_INC = [".", "buildjson", "dbus", "errors", "ipmi", "notimpl", "pid",
                "sensors", "sysfs"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_file_hash = {}


def file_hash(path):
    if path not in _file_hash:
        try:
            with open(path, "rb") as f:
                _file_hash[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _file_hash[path] = "absent"
    return _file_hash[path]


_compiler = None


def compiler_id():
    global _compiler
    if _compiler is None:
        _compiler = subprocess.run(["g++", "--version"], capture_output=True,
                                   text=True).stdout.split("\n")[0]
    return _compiler


def meson_list(name):
    try:
        with open(os.path.join(REPO, "meson.build")) as f:
            text = re.sub(r"#.*$", "", f.read(), flags=re.M)
        m = re.search(r"^%s\s*=\s*(?:files\()?(\[.*?^\])" % name, text, re.M | re.S)
        return [s for s in ast.literal_eval(m.group(1))]
    except Exception:
        return None


def include_dirs():
    try:
        with open(os.path.join(REPO, "meson.build")) as f:
            text = re.sub(r"#.*$", "", f.read(), flags=re.M)
        m = re.search(r"^root_inc = include_directories\((.*?)^\)", text, re.M | re.S)
        dirs = list(ast.literal_eval("[%s]" % m.group(1)))
    except Exception:
        dirs = []
    for d in FALLBACK_INC:
        if d not in dirs:
            dirs.append(d)
    return dirs


def repo_sources():
    srcs = (meson_list("libswampd_sources") or []) + (meson_list("libmanualcmds_sources") or [])
    if not srcs:
        for root, ds, fs in os.walk(REPO):
            ds[:] = [d for d in ds if d not in ("test", "_build", ".git", "subprojects", "build")]
            srcs += [os.path.relpath(os.path.join(root, f), REPO) for f in fs
                     if f.endswith(".cpp") and f != "failsafe_logger.cpp"]
    out = []
    for s in srcs:
        if s not in out:
            out.append(s)
    return [s for s in out if s != "failsafeloggers/failsafe_logger.cpp"
            or not _includes_logger()]


def _includes_logger():
    # dbuspassive.cpp includes failsafe_logger.cpp as text in the original tree
    try:
        with open(os.path.join(REPO, "dbus/dbuspassive.cpp")) as f:
            return "failsafe_logger.cpp" in f.read()
    except OSError:
        return False


def config_dir(cfg):
    d = os.path.join(BUILD, "cfg", cfg)
    os.makedirs(d, exist_ok=True)
    text = "#pragma once\n" + "".join(
        "#define %s %d\n" % (o, CONFIGS[cfg].get(o, 0)) for o in OPTIONS)
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    return d


def parse_deps(path):
    with open(path) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [d for d in shlex.split(t)]


def compile_one(src, cfg, san, extra=()):
    """Returns the path of an object for src (absolute path)."""
    cdir = config_dir(cfg)
    inc = ["-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(VERIF, "harness", "common")]
    inc += ["-I" + os.path.normpath(os.path.join(REPO, d)) for d in include_dirs()]
    flags = COMMON + SAN[san] + list(extra)
    key = sha(compiler_id(), " ".join(flags), " ".join(inc), src, file_hash(src))
    mpath = os.path.join(CACHE, key + ".dep")
    norm = lambda p: p.replace(cdir, "@CFG@")
    denorm = lambda p: p.replace("@CFG@", cdir)
    # a manifest holds several (dependency hashes -> object) entries
    entries = []
    if os.path.exists(mpath):
        try:
            entries = json.load(open(mpath))
        except Exception:
            entries = []
    for e in entries:
        if all(file_hash(denorm(d)) == h for d, h in e["deps"]) and \
                os.path.exists(os.path.join(CACHE, e["obj"])):
            return os.path.join(CACHE, e["obj"])
    os.makedirs(CACHE, exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=CACHE)
    os.close(fd)
    dep = tmp + ".d"
    cmd = ["g++"] + flags + ["-I" + cdir] + inc + ["-MD", "-MF", dep, "-c", src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    if r.returncode != 0:
        for p in (tmp, dep):
            if os.path.exists(p):
                os.unlink(p)
        raise BuildError("compile of %s failed:\n%s" % (src, r.stderr[:4000]))
    deps = []
    for d in parse_deps(dep):
        d = os.path.normpath(os.path.join(REPO, d))
        if d.startswith(REPO + "/") or d.startswith(VERIF + "/"):
            deps.append([norm(d), file_hash(d)])
    os.unlink(dep)
    obj = sha(key, json.dumps(deps)) + ".o"
    os.replace(tmp, os.path.join(CACHE, obj))
    entries.append({"deps": deps, "obj": obj})
    with tempfile.NamedTemporaryFile("w", dir=CACHE, delete=False) as f:
        json.dump(entries[-20:], f)
    os.replace(f.name, mpath)
    return os.path.join(CACHE, obj)


def compile_many(jobs):
    """jobs: list of (src, cfg, san, extra). Returns list of object path or
    BuildError."""
    def one(j):
        try:
            return compile_one(*j)
        except BuildError as e:
            return e
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def unit_jobs(name, cfg, san, harness):
    repo = repo_sources()
    if name == "tool":
        repo = repo + (meson_list("setsensor_sources") or ["setsensor.cpp"])
    jobs = []
    for s in repo:
        extra = {"main.cpp": ("-Dmain=swampd_main",), "setsensor.cpp": ("-Dmain=setsensor_main",)}.get(s, ())
        jobs.append((os.path.join(REPO, s), cfg, san, extra))
    own = ["stubs/simbus/simbus.cpp"] + ["harness/common/" + f for f in
           sorted(os.listdir(os.path.join(VERIF, "harness/common"))) if f.endswith(".cpp")]
    own += ["harness/" + h for h in harness]
    for s in own:
        jobs.append((os.path.join(VERIF, s), cfg, san, ()))
    return jobs, len(repo)


def prepare(units):
    """Compiles what several units need in one go: (name, cfg, san, src) each."""
    jobs = []
    for k in units:
        jobs += [j for j in unit_jobs(*k)[0] if j not in jobs]
    # the slow ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0)
    compile_many(jobs)


def sweep_helpers(outdir):
    """What the sweep script is run with."""
    for src, out, flags in (("jail.c", "sweep-jail.so", ["-shared", "-fPIC"]), ("standin.c", "sweep-standin", [])):
        path, out = os.path.join(VERIF, "harness/sweep", src), os.path.join(outdir, out)
        tag = file_hash(path)
        if os.path.exists(out) and os.path.exists(out + ".tag") and open(out + ".tag").read() == tag:
            continue
        tmp = out + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1"] + flags + [path, "-o", tmp, "-ldl"], check=True)
        os.replace(tmp, out)
        with open(out + ".tag", "w") as f:
            f.write(tag)


def link(name, cfg, san, harness, extra_link=()):
    """Builds the harness executable `name` and returns its path."""
    jobs, nrepo = unit_jobs(name, cfg, san, harness)
    objs = compile_many(jobs)
    errs = []
    robjs, direct = [], []
    for j, o in zip(jobs[:nrepo], objs[:nrepo]):
        if isinstance(o, BuildError):
            errs.append(o)
        elif name == "io" and os.path.basename(os.path.dirname(j[0])) == "ipmi":
            direct.append(o)  # registers itself from a constructor
        else:
            robjs.append(o)
    for o in objs[nrepo:]:
        if isinstance(o, BuildError):
            raise o
    outdir = os.path.join(BUILD, "bin")
    os.makedirs(outdir, exist_ok=True)
    if name == "tool":
        sweep_helpers(outdir)
    tag = sha(*[os.path.basename(o) for o in robjs + direct + objs[nrepo:]], " ".join(extra_link))[:16]
    exe = os.path.join(outdir, "%s-%s-%s" % (name, cfg, san))
    stamp = exe + ".tag"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == tag:
        return exe
    lib = exe + ".a"
    for p in (lib, exe, stamp):
        if os.path.exists(p):
            os.unlink(p)
    if robjs:
        subprocess.run(["ar", "rcsT" if False else "rcs", lib] + robjs, check=True)
    cmd = ["g++"] + [f for f in SAN[san] if f.startswith("-fsan")] + ["-rdynamic", "-o", exe] + \
        objs[nrepo:] + direct + [lib] + list(extra_link) + ["-ldl", "-pthread"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if os.path.exists(lib):
        os.unlink(lib)
    if r.returncode != 0:
        raise BuildError("link of %s failed:\n%s\n%s" % (
            name, r.stderr[:3000], "\n".join(str(e)[:1500] for e in errs)))
    with open(stamp, "w") as f:
        f.write(tag)
    return exe
