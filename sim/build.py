#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree. Prints the path of the binary."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")

def sources():
    out = []
    for d in ("spectator", "server", "util", "admin", "metatron"):
        for f in sorted(glob.glob(f"{REPO}/{d}/*.cc")):
            b = os.path.basename(f)
            if b.endswith("_test.cc") or b in ("test_utils.cc", "netflix_config.cc", "sample_config.cc", "http_server.cc", "metatron_config.cc"):
                continue
            out.append(f)
    out.append(f"{REPO}/bin/spectatord_main.cc")
    return out

def write_ninja(bd, lib=True):
    tsan = "-fsanitize=thread -fno-sanitize=undefined"
    inc = f"-I{HERE}/shim/x -I{HERE}/shim -I{bd}/gen -I{REPO}"
    nolib = "" if lib else "-DSIM_NO_LIB"
    defs = "-DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB -DSPDLOG_FMT_EXTERNAL -DASIO_STANDALONE"
    L = []
    L.append("rule app\n  command = g++ -std=c++17 -O1 -g1 -fno-omit-frame-pointer -w -fno-pie "
             f"-fsanitize=thread -U__SANITIZE_THREAD__ --param tsan-distinguish-volatile=0 {defs} {inc} $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append("rule sim\n  command = g++ -std=c++17 -O2 -g1 -fno-omit-frame-pointer -Wall -Wextra -Wno-unused-parameter -fno-pie "
             f"{defs} {nolib} {inc} -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append("rule tool\n  command = g++ -std=c++17 -O0 $in -o $out -lfmt")
    L.append("rule gen\n  command = $in > $out")
    wraps = ["memcpy", "memmove", "memset", "memcmp", "strlen", "_ZN9spectator8Registry5StartEv"]
    w = " ".join(f"-Wl,--wrap={x}" for x in wraps)
    absl = subprocess.run(["pkg-config", "--libs", "absl_synchronization", "absl_time", "absl_flags", "absl_flags_parse", "absl_strings"], capture_output=True, text=True).stdout.replace("\n", " ")
    L.append(f"rule link\n  command = g++ -no-pie -rdynamic $in -o $out {w} {absl} -lspdlog -lfmt -lcurl -lPocoNet -lPocoJSON -lPocoUtil -lPocoFoundation -lz -lxxhash -lssl -lcrypto -lpthread -ldl")
    gens = []
    for t, i in (("gen_perc_bucket_tags", "percentile_bucket_tags"), ("gen_perc_bucket_values", "percentile_bucket_values"), ("gen_valid_chars", "valid_chars")):
        L.append(f"build {bd}/{t}: tool {REPO}/tools/{t}.cc")
        L.append(f"build {bd}/gen/{i}.inc: gen {bd}/{t}")
        gens.append(f"{bd}/gen/{i}.inc")
    objs = []
    for s in sources():
        o = f"{bd}/o/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
        L.append(f"build {o}: app {s} || {' '.join(gens)}")
        if s.endswith("spectatord_main.cc"):
            L.append("  extra = -Dmain=daemon_main")
        objs.append(o)
    for s in sorted(glob.glob(f"{HERE}/*.cc")):
        if s.endswith("libmode.cc") and not lib: continue
        rule = "app" if os.path.basename(s) == "libmode.cc" else "sim"
        o = f"{bd}/o/sim_" + os.path.basename(s) + ".o"
        L.append(f"build {o}: {rule} {s} || {' '.join(gens)}")
        objs.append(o)
    L.append(f"build {bd}/sim: link {' '.join(objs)}")
    L.append(f"default {bd}/sim")
    os.makedirs(f"{bd}/gen", exist_ok=True)
    os.makedirs(f"{bd}/o", exist_ok=True)
    open(f"{bd}/build.ninja", "w").write("\n".join(L) + "\n")

def build(bd, quiet=True):
    # without the library workload when the registry's interface is not the one it was written for
    for lib in (True, False):
        write_ninja(bd, lib)
        r = subprocess.run(["ninja", "-C", bd, "-j", "10"], capture_output=True, text=True)
        if r.returncode == 0:
            if not lib: sys.stderr.write("built without the library workload\n")
            return f"{bd}/sim"
        sys.stderr.write(r.stdout[-8000:] + r.stderr[-4000:])
    return None

if __name__ == "__main__":
    bd = sys.argv[1] if len(sys.argv) > 1 else f"{VERIF}/build"
    b = build(bd)
    if not b:
        sys.exit(2)
    print(b)
