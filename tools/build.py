#!/usr/bin/env python3
"""Build the simulator from /repo's working tree. Output: build/<key>/sim (key = hash of inputs)."""
import glob, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

GLIB_I = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include"]
CFLAGS = ["-g", "-O1", "-fno-omit-frame-pointer", "-std=gnu89", "-w", "-pthread", *GLIB_I, "-isystem", "/usr/include/mit-krb5",
          "-I/usr/include/p11-kit-1", "-DHAVE_CONFIG_H", '-DDEFAULT_CONFIG_DIR="/nonexistent"', '-DHELPFILE="cfg/no-help"',
          '-DMODULESDIR="nomods"', "-DSTRICT_MEMORY_ALLOCS=", '-DSYSCONFDIR="/nonexistent"', "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
          "-fno-pie", "-fsanitize=address", "-fno-common", "-fno-stack-protector",
          "-Dcmd_doc_unused=0", "-DSTATE_DUMP_INTERVAL=sim_dump_interval()"]
CXXFLAGS = ["-std=c++17", "-O1", "-g", "-w", "-fno-pie", "-pthread", *GLIB_I]
LIBS = ["-lgnutls", "-lgcrypt", "-lreadline", "-lgmodule-2.0", "-lglib-2.0",
        "-L/usr/lib/x86_64-linux-gnu/mit-krb5", "-lgssapi_krb5", "-pthread", "-ldl"]

def inputs():
    srcs = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/libirc/*.c"))
    srcs = [s for s in srcs if os.path.basename(s) not in ("admin-cmd.c",)]
    hdrs = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/libirc/*.h") + glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*.def"))
    return srcs, hdrs

def harness():
    return sorted(glob.glob(VERIF + "/sim/*.cpp")), sorted(glob.glob(VERIF + "/sim/*.h") + glob.glob(VERIF + "/sim/fallback/*"))

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def simsyms():
    t = open(VERIF + "/sim/kernel.cpp").read()
    return sorted(set(re.findall(r"\bsim_([A-Za-z_0-9]+)\s*\(", t)))

def build(verbose=False):
    srcs, hdrs = inputs()
    cpp, chdr = harness()
    me = open(os.path.abspath(__file__)).read()
    key = digest(srcs + hdrs + cpp + chdr, me + REPO)
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, "sim")
    if os.path.exists(exe):
        return exe
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    cache = os.path.join(BUILD, "hobj"); os.makedirs(cache, exist_ok=True)
    incs = ["-I" + REPO]
    if not os.path.exists(REPO + "/config.h"):
        incs.append("-I" + VERIF + "/sim/fallback")
    jobs, cobjs, hobjs = [], [], []
    for c in cpp:
        hk = digest([c] + chdr, " ".join(CXXFLAGS))
        o = os.path.join(cache, hk + ".o"); hobjs.append(o)
        if not os.path.exists(o):
            jobs.append((["g++", *CXXFLAGS, "-c", c, "-o", o + ".tmp%d" % os.getpid()], o))
    for s in srcs:
        o = os.path.join(tmp, s[len(REPO) + 1:].replace("/", "_")[:-2] + ".o"); cobjs.append(o)
        jobs.append((["gcc", *incs, "-I" + REPO + "/libirc", "-I" + REPO + "/src", *CFLAGS, "-c", s, "-o", o], None))
    def one(j):
        run(j[0], cwd=REPO)
        if j[1]:
            os.rename(j[0][-1], j[1])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    run(["ld", "-r", "-o", tmp + "/sut0.o", *cobjs])
    with open(tmp + "/syms", "w") as f:
        f.write("main sut_main\n")
        und = set(run(["nm", "-u", tmp + "/sut0.o"]).split())
        for s in simsyms():
            if s in und:      # only what the proxy takes from outside
                f.write("%s sim_%s\n" % (s, s))
    run(["objcopy", "--redefine-syms=" + tmp + "/syms",
         "--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section", ".bss=sutbss",
         "--rename-section", ".data=sutdata", tmp + "/sut0.o", tmp + "/sut.o"])
    run(["g++", "-no-pie", "-fsanitize=address", "-static-libasan", "-rdynamic", "-o", tmp + "/sim", *hobjs, tmp + "/sut.o", *LIBS])
    for o in cobjs:
        os.unlink(o)
    os.unlink(tmp + "/sut0.o"); os.unlink(tmp + "/sut.o")
    if os.path.exists(out):
        shutil.rmtree(tmp)
    else:
        os.rename(tmp, out)
    # keep the cache small
    ds = sorted((d for d in glob.glob(BUILD + "/*") if os.path.isdir(d) and not d.endswith("hobj") and ".tmp" not in d), key=os.path.getmtime)
    for d in ds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    return exe

if __name__ == "__main__":
    print(build())
