#!/usr/bin/env python3
"""Builds a check binary from the current /repo working tree (incremental, via ninja)."""
import glob, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/reference/src"
WRAPS = ["malloc", "calloc", "realloc", "free", "time", "clock_gettime", "gettimeofday", "timespec_get", "sleep", "usleep",
         "thrd_sleep", "thrd_yield", "sched_yield", "video_output_poll", "transport_authenticate_caller", "RAND_bytes",
         "RAND_priv_bytes", "ta_invoke_command_handler", "memory_is_valid_svp", "memory_is_valid_clear"]
SCHED_WRAPS = ["mtx_init", "mtx_lock", "mtx_unlock", "mtx_trylock", "mtx_timedlock", "mtx_destroy", "call_once",
               "pthread_mutex_init", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutex_destroy", "pthread_once", "nanosleep",
               "memcpy", "memset", "memmove", "memcmp", "atexit", "memory_memset_unoptimizable", "CRYPTO_set_mem_functions"]
import re
SCHED_WRAPS += re.findall(r"(?:TOUCH|DATA)\((\w+)\)", open(os.path.join(VERIF, "lib/sched_touch.inc")).read())
def repo_sources():
    s = []
    for d in ("taimpl/src", "clientimpl/src", "util/src"):
        s += glob.glob(f"{SRC}/{d}/**/*.c", recursive=True)
    return sorted(s)
def provider_sources():
    return sorted(glob.glob(f"{SRC}/client/src/*.c"))
INC = ["client/include", "taimpl/include", "taimpl/include/internal", "taimpl/include/porting", "util/include",
       "clientimpl/src", "clientimpl/src/internal", "clientimpl/src/porting", "client/src"]
def build(check, variant="asan", provider=False):
    out = os.path.join(VERIF, "build", variant) if REPO == "/repo" else os.path.join(REPO, "_mc", variant)
    os.makedirs(out, exist_ok=True)
    inc = " ".join(f"-I{SRC}/{i}" for i in INC) + f" -idirafter {REPO}/reference/include"
    defs = "-D_GNU_SOURCE -DENABLE_SOC_KEY_TESTS -DSA_VERIF_MC"
    if variant == "asan":
        cflags = f"-std=gnu11 -O1 -g1 -fPIC -w -fsanitize=address -fno-omit-frame-pointer {defs} {inc}"
        cxxflags = f"-std=c++17 -O1 -g1 -w -fsanitize=address -fno-omit-frame-pointer {defs} {inc} -I{VERIF}/lib"
        ldflags = "-fsanitize=address"
        wraps = WRAPS
        lib = ["mc.cpp", "env.cpp", "sah.cpp", "keys.cpp"]
    elif variant == "plain":
        cflags = f"-std=gnu11 -O1 -g1 -fPIC -w {defs} {inc}"
        cxxflags = f"-std=c++17 -O1 -g1 -w {defs} {inc} -I{VERIF}/lib"
        ldflags = ""
        wraps = WRAPS
        lib = ["mc.cpp", "env.cpp", "sah.cpp", "keys.cpp"]
    elif variant == "sched":
        cflags = f"-std=gnu11 -O1 -g1 -fPIC -w -fno-builtin -fno-inline-functions -fsanitize=thread --param tsan-instrument-func-entry-exit=0 {defs} {inc}"
        cxxflags = f"-std=c++17 -O1 -g1 -w {defs} {inc} -I{VERIF}/lib"
        ldflags = ""
        wraps = [w for w in WRAPS] + SCHED_WRAPS
        lib = ["mc.cpp", "env.cpp", "sah.cpp", "keys.cpp", "sched.cpp"]
    else:
        raise SystemExit("unknown variant")
    nj = ["ninja_required_version = 1.5",
          f"cflags = {cflags}", f"cxxflags = {cxxflags}",
          "rule cc\n command = gcc $cflags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
          "rule cxx\n command = g++ $cxxflags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
          "rule ln\n command = g++ -o $out $in $ldflags\n"]
    objs = []
    srcs = repo_sources() + (provider_sources() if provider else [])
    for s in srcs:
        o = "r_" + os.path.relpath(s, SRC).replace("/", "_")[:-2] + ".o"
        nj.append(f"build {o}: cc {s}"); objs.append(o)
    for s in lib:
        o = "l_" + s[:-4] + ".o"
        nj.append(f"build {o}: cxx {VERIF}/lib/{s}"); objs.append(o)
    o = f"c_{check}.o"
    nj.append(f"build {o}: cxx {VERIF}/checks/{check}.cpp"); objs.append(o)
    wl = " ".join(f"-Wl,--wrap={w}" for w in wraps)
    nj.append(f"build {check}: ln {' '.join(objs)}\n ldflags = {ldflags} {wl} -lcrypto -lyajl -lpthread -ldl -lm")
    nf = os.path.join(out, f"{check}.ninja")
    txt = "\n".join(nj) + "\n"
    # one shared build directory: ninja's log is shared, so builds of one variant are serialised
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    import fcntl
    with open(os.path.join(out, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["ninja", "-C", out, "-f", f"{check}.ninja", check], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        raise SystemExit(3)
    return os.path.join(out, check)
if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "asan", len(sys.argv) > 3))
