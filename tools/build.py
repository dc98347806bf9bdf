#!/usr/bin/env python3
"""Incremental build of the simulator and of /repo's unmodified sources against it.

An object is reused only if the compiler flags and the content of every file it
was compiled from are unchanged, so checks always run /repo's current tree.
Usage: build.py [TARGET ...]   (default: all targets)
"""
import glob, hashlib, json, os, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", VERIF + "/build")
GEN = ["generated", "generated/vm", "generated/contract", "generated/operation", "generated/solution"]
INC = [VERIF + "/simvnx/include", REPO + "/include"] + [f"{REPO}/{g}/include" for g in GEN]
CXX = ["g++", "-std=c++17"] + os.environ.get("SIM_OPT", "-O1 -g1").split() + ["-pipe", "-w", "-fno-strict-aliasing", "-msse4.2"]
# not part of the simulated system: process entry points, GUI, web front end, GPU code, the parts needing absent dependencies
SKIP = {"src/mmx.cpp", "src/mmx_node.cpp", "src/mmx_farmer.cpp", "src/mmx_harvester.cpp", "src/mmx_timelord.cpp", "src/mmx_wallet.cpp",
        "src/Qt_GUI.cpp", "src/WebAPI.cpp", "src/vm/Compiler.cpp", "src/upnp_mapper.cpp"}
FILE_FLAGS = {"src/sha256_avx2.cpp": ["-mavx2"], "src/sha256_ni.cpp": ["-msha", "-msse4.2"], "src/sha256_ni_rec.cpp": ["-msha", "-msse4.2"]}

TARGETS = {   # name: (needs generated types, harness sources)
    "db": (False, ["harness/db.cpp"]),
    "empty": (True, ["harness/empty.cpp"]),
    "node": (True, ["harness/node.cpp"]),
    "parts": (True, ["harness/parts.cpp"]),
}
if os.path.exists(VERIF + "/harness/demo.cpp"): TARGETS = {"demo": (True, ["harness/demo.cpp"])}
HAR_FLAGS = {"harness/node.cpp": ["-fno-access-control"], "harness/parts.cpp": ["-fno-access-control"], "harness/demo.cpp": ["-fno-access-control"]}
# memoise three pure, memory-hard functions of proof verification (harness/plots.h); each new input still runs the repository's code
WRAP = ["_ZN3mmx3pos13gen_mem_arrayEPjPKhj", "_ZN3mmx3pos13calc_mem_hashEPjPhi",
        "_ZN3mmx3pos6verifyERKSt6vectorIjSaIjEERKNS_6hash_tES8_iiib"]
LINK_FLAGS = {t: ["-Wl,-z,muldefs"] + ["-Wl,--wrap=" + w for w in WRAP] for t in ("node", "demo", "parts")}
LIBS = ["-lsecp256k1", "-lzstd", "-llz4", "-lz"]

_hash = {}
def fhash(p):
    if p not in _hash:
        try:
            with open(p, "rb") as f: _hash[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError: _hash[p] = ""
    return _hash[p]

class Obj:
    def __init__(self, src, extra=()):
        self.src = src
        key = src.replace(VERIF, "V").replace(REPO, "R").strip("/").replace("/", "__")
        self.out = f"{OUT}/obj/{key}.o"
        self.cmd = CXX + list(extra) + [x for i in INC for x in ("-I", i)] + ["-c", src, "-o", self.out]
        self.flags = hashlib.sha1(" ".join(self.cmd).encode()).hexdigest()
        self.err = None
        self.id = ""
    def fresh(self):
        try: m = json.load(open(self.out + ".json"))
        except Exception: return False
        if m["flags"] != self.flags or not (m.get("failed") or os.path.exists(self.out)): return False
        if any(fhash(p) != h for p, h in m["deps"].items()): return False
        self.id = m["id"]
        self.err = m.get("failed")
        return True
    def build(self):
        d = self.out + ".d"
        r = subprocess.run(self.cmd + ["-MMD", "-MF", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        deps = {self.src: fhash(self.src)}
        if os.path.exists(d):
            toks = open(d).read().replace("\\\n", " ").split()
            deps.update({t: fhash(t) for t in toks[1:] if t != self.src})
            os.unlink(d)
        self.err = None if r.returncode == 0 else r.stdout[-4000:]
        self.id = hashlib.sha1(json.dumps([self.flags, deps], sort_keys=True).encode()).hexdigest()
        m = {"flags": self.flags, "deps": deps, "id": self.id}
        if self.err:
            if os.path.exists(self.out): os.unlink(self.out)
            if not os.path.exists(d) and len(deps) == 1: return      # no dependency list: do not cache the failure
            m["failed"] = self.err
        json.dump(m, open(self.out + ".json", "w"))

def build(targets, quiet=False):
    os.makedirs(OUT + "/obj", exist_ok=True)
    os.makedirs(OUT + "/bin", exist_ok=True)
    lock = open(OUT + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    sim = [Obj(p) for p in sorted(glob.glob(VERIF + "/simvnx/src/*.cpp"))]
    need_gen = any(TARGETS[t][0] for t in targets)
    gen = unity([p for g in GEN for p in sorted(glob.glob(f"{REPO}/{g}/src/*.cpp"))]) if need_gen else []
    repo = []
    for p in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        rel = os.path.relpath(p, REPO)
        if rel in SKIP or (not need_gen and rel not in ("src/DataBase.cpp",) and not uses_plain(p)): continue
        repo.append(Obj(p, FILE_FLAGS.get(rel, ())))
    har = {t: [Obj(f"{VERIF}/{s}", HAR_FLAGS.get(s, ())) for s in TARGETS[t][1]] for t in targets}
    todo = [o for o in {o.out: o for o in sim + gen + repo + sum(har.values(), [])}.values()]
    stale = [o for o in todo if not o.fresh()]
    # largest first
    stale.sort(key=lambda o: -os.path.getsize(o.src))
    stale.sort(key=lambda o: "/unity/" not in o.src)
    with ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", "8"))) as ex:
        list(ex.map(lambda o: o.build(), stale))
        if any(o.err for o in gen):         # files that cannot share a translation unit: one by one
            single = [Obj(p) for o in gen if o.err for p in o.parts]
            gen = [o for o in gen if not o.err] + single
            list(ex.map(lambda o: o.build(), [o for o in single if not o.fresh()]))
    hard = [o for o in sim + gen + sum(har.values(), []) if o.err]
    if hard:
        for o in hard[:5]: sys.stderr.write(f"BUILD ERROR {o.src}\n{o.err}\n")
        return False
    bad = [o for o in repo if o.err]
    for o in bad:
        if not quiet: sys.stderr.write(f"note: {o.src} does not compile here\n{o.err[:1500]}\n")
    good = [o for o in repo if not o.err]
    ok = True
    for t in targets:
        objs = har[t] + sim + (gen if TARGETS[t][0] else [])
        binp = f"{OUT}/bin/{t}"
        ident = hashlib.sha1("".join(o.out + o.id for o in objs + good).encode()).hexdigest()
        if os.path.exists(binp) and os.path.exists(binp + ".id") and open(binp + ".id").read() == ident: continue
        lib = f"{OUT}/librepo.{t}.a"
        if os.path.exists(lib): os.unlink(lib)
        rsp = f"{OUT}/{t}.rsp"
        open(rsp, "w").write("\n".join(o.out for o in good))
        subprocess.run(["ar", "rcsT", lib, "@" + rsp], check=True)
        open(rsp, "w").write("\n".join(o.out for o in objs))
        r = subprocess.run(["g++", "-o", binp + ".new"] + LINK_FLAGS.get(t, []) + ["@" + rsp, "-Wl,--start-group", lib, "-Wl,--end-group"] + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            sys.stderr.write(f"LINK ERROR {t}\n{r.stdout[-4000:]}\n")
            ok = False
            continue
        os.rename(binp + ".new", binp)
        open(binp + ".id", "w").write(ident)
    if not quiet: print(f"build: {len(stale)} of {len(todo)} objects compiled, {time.time() - t0:.1f} s")
    return ok

def unity(files, n=32):
    "the generated sources in a few translation units: their headers dominate the build time"
    os.makedirs(OUT + "/unity", exist_ok=True)
    out = []
    for i in range(n):
        part = files[i::n]
        if not part: continue
        p = f"{OUT}/unity/u{i}.cpp"
        text = "".join(f'#include "{f}"\n' for f in part)
        if not os.path.exists(p) or open(p).read() != text: open(p, "w").write(text)
        o = Obj(p)
        o.parts = part
        out.append(o)
    return out

def uses_plain(p):
    "sources that do not include generated types (cheap to build for the storage target)"
    return False

if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:] or list(TARGETS)) else 1)
