#!/usr/bin/env python3
"""cov.py ID COUNT [file.c...]: runs a check on the cov variant and prints the functions (and lines) it never reached.  Dev helper."""
import collections, os, re, subprocess, sys, array
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V / "lib"), str(V / "checks"), str(V / "sim")]
import build
ids, count, files = sys.argv[1].split(","), sys.argv[2], sys.argv[3:]
out = "/dev/shm/simcov.%d" % os.getpid()
open(out, "wb").close()
exe, so = build.build("cov")
for i in ids:
    subprocess.run([sys.executable, "check.py", i, "quick", "--count", count], cwd=V, env=dict(os.environ, SIMCOV=out, IRCSIM_VARIANT="cov"), stdout=subprocess.DEVNULL)
a = array.array("I"); a.frombytes(open(out, "rb").read()); os.unlink(out)
hit = set(a)
dis = subprocess.run(["objdump", "-d", "--no-show-raw-insn", str(so)], capture_output=True, text=True).stdout
allpc, prev = set(), False
for l in dis.splitlines():
    m = re.match(r"\s*([0-9a-f]+):", l)
    if prev and m:
        allpc.add(int(m.group(1), 16))
    if m:
        prev = "call" in l and "__sanitizer_cov_trace_pc_guard" in l
allpc = sorted(allpc)
r = subprocess.run(["addr2line", "-f", "-e", str(so)], input="\n".join("%x" % (p - 1) for p in allpc), capture_output=True, text=True).stdout.splitlines()
fn = collections.defaultdict(lambda: [0, 0, set()])
for k, p in enumerate(allpc):
    f, loc = r[2 * k], r[2 * k + 1]
    path, _, line = loc.partition(":")
    line = int(re.match(r"\d+|", line).group() or 0)
    key = (os.path.basename(path), f)
    fn[key][0] += 1
    if p in hit:
        fn[key][1] += 1
    else:
        fn[key][2].add(line)
tot = [0, 0]
for (f, n), (t, h, miss) in sorted(fn.items()):
    tot[0] += t; tot[1] += h
    if (not files or f in files) and h < t and f[-2:] == ".c":
        if not (h == 0 and os.environ.get("REACHED")): print("%-22s %-34s %3d/%3d %s" % (f, n, h, t, " ".join(map(str, sorted(miss)[:60])) if h else "-- never"))
print("total %d/%d" % (tot[1], tot[0]))
