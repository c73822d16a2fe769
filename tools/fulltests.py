#!/usr/bin/env python3
"""Development aid: builds and runs all of the repository's unit tests, including those the sandbox's own
build leaves out for want of ska/flat_hash_map.hpp, against the stand-in header. usage: fulltests.py [BUILD_DIR]"""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); SIM = os.path.dirname(HERE) + "/sim"
REPO = os.environ.get("SIM_REPO", "/repo")
bd = sys.argv[1] if len(sys.argv) > 1 else "/tmp/fulltests"
sys.path.insert(0, SIM)
os.environ["SIM_REPO"] = REPO
import build as B
B.REPO = REPO
os.makedirs(bd + "/gen", exist_ok=True); os.makedirs(bd + "/o", exist_ok=True)
inc = f"-I{SIM}/shim/x -I{SIM}/shim -I{bd}/gen -I{REPO}"
L = ["rule cc\n  command = g++ -std=c++17 -O0 -g1 -w -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB -DSPDLOG_FMT_EXTERNAL -DASIO_STANDALONE %s -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % inc,
     "rule tool\n  command = g++ -std=c++17 -O0 $in -o $out -lfmt", "rule gen\n  command = $in > $out"]
gens = []
for t, i in (("gen_perc_bucket_tags", "percentile_bucket_tags"), ("gen_perc_bucket_values", "percentile_bucket_values"), ("gen_valid_chars", "valid_chars")):
    L += [f"build {bd}/{t}: tool {REPO}/tools/{t}.cc", f"build {bd}/gen/{i}.inc: gen {bd}/{t}"]; gens.append(f"{bd}/gen/{i}.inc")
absl = subprocess.run(["pkg-config", "--libs", "absl_synchronization", "absl_time", "absl_flags", "absl_flags_parse", "absl_strings"], capture_output=True, text=True).stdout.replace("\n", " ")
L.append(f"rule link\n  command = g++ $in -o $out -lgtest -lgtest_main -lgmock {absl} -lspdlog -lfmt -lcurl -lPocoNet -lPocoJSON -lPocoUtil -lPocoFoundation -lz -lxxhash -lssl -lcrypto -lpthread")
objs = []
src = [s for s in B.sources() if not s.endswith("spectatord_main.cc")]
src += [f"{REPO}/spectator/test_utils.cc", f"{REPO}/spectator/http_server.cc", f"{REPO}/spectator/sample_config.cc"]
src += sorted(glob.glob(f"{REPO}/*/*_test.cc"))
for s in src:
    o = f"{bd}/o/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
    L.append(f"build {o}: cc {s} || {' '.join(gens)}"); objs.append(o)
L.append(f"build {bd}/tests: link {' '.join(objs)}")
open(bd + "/build.ninja", "w").write("\n".join(L) + "\n")
r = subprocess.run(["ninja", "-C", bd, "-j", "8"], capture_output=True, text=True)
if r.returncode: print(r.stdout[-6000:]); sys.exit(2)
r = subprocess.run([bd + "/tests"] + sys.argv[2:], capture_output=True, text=True, cwd=REPO, timeout=300)
print("\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "PASSED" in l or "tests ran" in l or "Failure" in l)); sys.exit(r.returncode)
