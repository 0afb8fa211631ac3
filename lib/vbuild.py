"""Content-addressed build of /repo's current working tree plus the harnesses in /verif/h.

Nothing here trusts time stamps or what an earlier run left behind: an object file is reused only if the
command line, the source and every non-system header it was compiled from hash to the same value.
"""
import hashlib, json, os, subprocess, sys, tempfile, concurrent.futures as cf, re, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
HL = "/usr/lib/x86_64-linux-gnu"

SYS_INC = ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial",
           "-isystem", "/usr/include/opencascade", "-isystem", "/usr/include/libxml2"]
LIBS = [f"-L{HL}/hdf5/serial", f"-L{HL}/xdmf/serial", f"-Wl,-rpath,{HL}/hdf5/serial", "-lhdf5_cpp", "-lhdf5", "-lnlopt",
        "-lXdmf", "-lXdmfCore", "-lxml2", "-lpthread", "-ldl"]

# profile -> (compiler flags, link flags, configuration overrides)
PROFILES = {
    "std":  (["-O1", "-fopenmp", "-DNDEBUG"], ["-fopenmp"], {"max_row": 4}),
    "row8": (["-O1", "-fopenmp", "-DNDEBUG"], ["-fopenmp"], {"max_row": 8}),
    "san":  (["-O1", "-g1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
             ["-fopenmp", "-fsanitize=address,undefined"], {"max_row": 4}),
    # every load and store calls into our own __tsan_* functions and the OpenMP runtime is ours too (h/ompx.hpp)
    "acc":  (["-O1", "-g1", "-fopenmp", "-DNDEBUG", "-fsanitize=thread", "-DVERIF_ACC", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"],
             ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free,--wrap=realloc,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"], {"max_row": 4}),
}

def sha(b):
    return hashlib.sha256(b).hexdigest()

_fh = {}
def fhash(path):
    if path not in _fh:
        try:
            with open(path, "rb") as f: _fh[path] = sha(f.read())
        except OSError:
            _fh[path] = "absent"
    return _fh[path]

def write_atomic(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, "wb") as f: f.write(data)
    os.replace(tmp, path)

class BuildError(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:])
    return p.stdout

def repo_sources():
    """library sources = everything in src/ except the executables"""
    out = []
    for f in sorted(os.listdir(f"{REPO}/src")):
        if f.endswith(".cpp") and f not in ("hexecute.cpp", "hil.cpp"): out.append(f"{REPO}/src/{f}")
    return out

def generate(max_row):
    """regenerates what the project's build generates (quadrature tables, constants.hil, configuration header)"""
    scripts = [f"{REPO}/script/{n}" for n in ("auto_generate.py", "Basis.py", "translate.py") if os.path.exists(f"{REPO}/script/{n}")]
    tmpl = f"{REPO}/hexed_config.hpp.in"
    me = os.path.abspath(__file__)
    key = sha(json.dumps([[fhash(s) for s in scripts], fhash(tmpl), fhash(f"{REPO}/include/constants.hpp"), fhash(f"{REPO}/config.cpp.in"), fhash(me), max_row, REPO]).encode())[:20]
    gen = f"{CACHE}/gen/{key}"
    if os.path.exists(gen + "/ok"): return gen
    tmp = tempfile.mkdtemp(dir=CACHE)
    os.makedirs(tmp + "/auto"); os.makedirs(tmp + "/include")
    cfg = open(tmpl).read()
    for k, v in {"CMAKE_SOURCE_DIR": REPO, "CMAKE_BINARY_DIR": gen, "CMAKE_PROJECT_VERSION_MAJOR": "0", "CMAKE_PROJECT_VERSION_MINOR": "2",
                 "CMAKE_PROJECT_VERSION_PATCH": "0", "MAX_BASIS_ROW_SIZE": str(max_row), "threaded": "ON", "n_threads": "8", "use_xdmf": "ON",
                 "use_tecplot": "OFF", "use_nlopt": "ON", "use_occt": "OFF", "obsessive_timing": "OFF"}.items():
        cfg = cfg.replace(f"@{k}@", v)
    open(tmp + "/auto/hexed_config.hpp", "w").write(cfg)
    open(tmp + "/config.cpp", "w").write(open(f"{REPO}/config.cpp.in").read().replace("@COMMIT@", "verif"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    run(["python3", f"{REPO}/script/auto_generate.py", tmp, str(max_row)], env=env, cwd=tmp)
    run(["python3", f"{REPO}/script/translate.py", f"{REPO}/include/constants.hpp"], env=env, cwd=tmp)
    os.symlink(f"{REPO}/include", tmp + "/include/hexed")
    open(tmp + "/ok", "w").close()
    os.makedirs(f"{CACHE}/gen", exist_ok=True)
    try: os.rename(tmp, gen)
    except OSError: shutil.rmtree(tmp)
    return gen

def compile_one(src, flags, incs):
    cmd = ["g++", "-std=c++20", "-w"] + flags + SYS_INC + incs
    ck = sha(json.dumps([src, cmd]).encode())[:24]
    man = f"{CACHE}/man/{ck}.json"
    entries = []
    if os.path.exists(man):
        try: entries = json.load(open(man))
        except ValueError: entries = []
    for e in entries:
        obj = f"{CACHE}/obj/{e['obj']}.o"
        if all(fhash(p) == h for p, h in e["deps"].items()) and os.path.exists(obj): return obj
    os.makedirs(f"{CACHE}/obj", exist_ok=True); os.makedirs(f"{CACHE}/man", exist_ok=True)
    tmp = tempfile.mkdtemp(dir=CACHE)
    try:
        run(cmd + ["-MMD", "-MF", tmp + "/d", "-c", src, "-o", tmp + "/o.o"])
        dtext = open(tmp + "/d").read().replace("\\\n", " ")
        deps = [d for d in dtext.split(":", 1)[1].split() if d]
        deps = {os.path.normpath(d): fhash(os.path.normpath(d)) for d in deps}
        name = sha((ck + json.dumps(deps, sort_keys=True)).encode())[:32]
        obj = f"{CACHE}/obj/{name}.o"
        os.replace(tmp + "/o.o", obj)
        entries = ([{"deps": deps, "obj": name}] + entries)[:6]
        write_atomic(man, json.dumps(entries).encode())
        return obj
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

SLOW = ["kernels_diffusive", "kernels_convective", "Boundary_condition", "Case", "Accessible_mesh", "Solver"]

def build(harness, profile="std", sources="ALL", **kw):
    """builds with a subset of the library if one is given, with all of it if that turns out not to link"""
    if sources != "ALL":
        try: return build_with(harness, profile, sources, **kw)
        except BuildError: pass
    return build_with(harness, profile, "ALL", **kw)

def build_with(harness, profile="std", sources="ALL", extra=(), defs=(), libs=True, jobs=None, harness_flags=None, max_row=None, extra_harness=()):
    """compile `harness` (a file in /verif/h) with the given library sources; returns the path of the executable"""
    cflags, lflags, cfg = PROFILES[profile]
    gen = generate(max_row or cfg["max_row"])
    incs = [f"-I{gen}/auto", f"-I{REPO}/include"]
    if sources == "ALL": srcs = repo_sources() + [f"{gen}/Gauss_legendre.cpp", f"{gen}/Gauss_lobatto.cpp", f"{gen}/config.cpp"]
    else: srcs = [(f"{gen}/{s}.cpp" if s in ("Gauss_legendre", "Gauss_lobatto", "config") else f"{REPO}/src/{s}.cpp") for s in sources]
    tasks = [(s, cflags + list(extra), incs) for s in srcs]
    hf = cflags if harness_flags is None else harness_flags
    for h in (harness,) + tuple(extra_harness):
        tasks.append((f"{VERIF}/h/{h}", hf + list(extra) + list(defs), incs + [f"-I{VERIF}/h", f"-I{gen}/include"]))
    order = {n: i for i, n in enumerate(SLOW)}
    tasks.sort(key=lambda t: order.get(os.path.basename(t[0])[:-4], 99))
    with cf.ThreadPoolExecutor(jobs or os.cpu_count() or 8) as ex:
        objs = list(ex.map(lambda t: compile_one(*t), tasks))
    key = sha(json.dumps([sorted(objs), lflags, bool(libs), LIBS]).encode())[:32]
    exe = f"{CACHE}/bin/{os.path.splitext(harness)[0]}-{key}"
    if not os.path.exists(exe):
        os.makedirs(f"{CACHE}/bin", exist_ok=True)
        tmp = exe + f".{os.getpid()}"
        run(["g++"] + lflags + objs + (LIBS if libs else []) + ["-o", tmp])
        os.replace(tmp, exe)
    return exe
