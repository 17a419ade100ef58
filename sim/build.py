"""Builds what the checks run, from /repo's working tree, into /verif/build.

Everything is keyed on the content of its inputs: an unchanged tree builds
nothing, a changed file recompiles that file (or, for a header, everything).
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("IRCSIM_REPO", "/repo"))
BUILD = VERIF / "build"
SIM = VERIF / "sim"

WRAPS = """epoll_create epoll_create1 epoll_ctl epoll_wait poll time gettimeofday clock_gettime alarm sleep
getuid geteuid getgid getegid getpid setuid setsid umask chdir setrlimit kill fork waitpid execv execvp
exit _exit openlog closelog syslog __syslog_chk sigaction signal open open64 access fstat stat close dup2
isatty ttyname fcntl ioctl socket setsockopt getsockopt bind listen accept accept4 connect getsockname
getpeername recv read send write writev sendto recvfrom socketpair pipe malloc calloc realloc free strdup
SSL_set_fd""".split()

VARIANTS = {
    # ASan + the UBSan groups the tree is clean under
    "asan": ["-DIRCD_NO_FREELIST", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,bounds", "-fno-sanitize-recover=all"],
    "plain": ["-O2", "-g"],
    # writes the offsets of all code reached to $SIMCOV (tools/cov.py)
    "cov": ["-O1", "-g", "-fsanitize-coverage=trace-pc-guard,no-prune", "-DSIMCOV"],
}
CC, CXX = "clang", "clang++"
CFLAGS = ["-std=gnu11", "-fPIC", "-w", "-fcommon", "-fno-strict-aliasing"]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(map(str, cmd)), r.stdout[-6000:]))
    return r.stdout


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def sources():
    """ircd's own source list, from the automake file."""
    am = (REPO / "ircd/Makefile.am").read_text().replace("\\\n", " ")
    m = re.search(r"^ircd_SOURCES\s*=(.*)$", am, re.M)
    names = m.group(1).split() + ["tls_openssl.c", "engine_epoll.c", "engine_poll.c"]
    out = []
    for n in names:
        n = n.replace(".y", ".c") if n.endswith(".y") else n
        if n.endswith(".c") and n not in out:
            out.append(n)
    return out


def headers_key():
    parts = []
    for d in (REPO / "include", REPO / "ircd"):
        for h in sorted(d.glob("*.h")):
            if h.name in ("ircd_parser.h", "patchlist.h"):
                continue  # generated
            parts += [h.name, h.read_bytes()]
    parts.append("2")
    parts.append((SIM / "config.h").read_bytes())
    parts.append((REPO / "ircd/ircd_parser.y").read_bytes())
    parts.append((REPO / "ircd/table_gen.c").read_bytes())
    return sha(*parts)


def generated(hkey):
    """bison parser, character table, version.c"""
    g = BUILD / "gen" / hkey
    if (g / ".done").exists():
        return g
    tmp = g.with_suffix(".tmp%d" % os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir(parents=True)
    shutil.copy(SIM / "config.h", tmp / "config.h")
    (tmp / "patchlist.h").write_text('#define PATCHLIST ""\n')
    run(["bison", "-y", "-d", "-o", str(tmp / "ircd_parser.c"), str(REPO / "ircd/ircd_parser.y")])
    run([CC, "-w", "-I", str(tmp), "-I", str(REPO / "include"), "-o", str(tmp / "table_gen"), str(REPO / "ircd/table_gen.c")])
    (tmp / "chattr.tab.c").write_text(run([str(tmp / "table_gen")]))
    # like version.c.SH's, without the changing checksums
    info = ["IRC --", "This program is free software", ""] + ["Contributor %d" % k for k in range(15)] + ["", "Sources:"]
    info += ["[ %s: 0 ]" % f.name for f in sorted((REPO / "ircd").glob("*.[cly]"))] + ["", "Headers:"]
    info += ["[ %s: 0 ]" % f.name for f in sorted((REPO / "include").glob("*.h"))]
    (tmp / "version.c").write_text(
        '#include "version.h"\n#include "patchlevel.h"\n#include "patchlist.h"\n'
        'const char *generation = "1";\nconst char *creation = "sim";\n'
        "const char *version = BASE_VERSION RELEASE PATCHLEVEL PATCHLIST;\n"
        "const char *infotext[] = {\n" + "".join('"%s",\n' % l for l in info) + "0 };\n")
    (tmp / ".done").touch()
    shutil.rmtree(g, ignore_errors=True)
    tmp.rename(g)
    return g


def objects(variant, extra=(), names=None, tag=""):
    flags = CFLAGS + VARIANTS[variant] + list(extra)
    hkey = headers_key()
    gen = generated(hkey)
    objdir = BUILD / "obj"
    objdir.mkdir(parents=True, exist_ok=True)
    jobs, objs = [], []
    names = names if names is not None else sources() + ["version.c"]
    for n in names:
        src = gen / n if n in ("ircd_parser.c", "version.c") else REPO / "ircd" / n
        body = src.read_bytes()
        dep = b""
        if n == "ircd_string.c":
            dep = (gen / "chattr.tab.c").read_bytes()
        key = sha(n, body, dep, hkey, " ".join(flags), CC)
        o = objdir / ("%s-%s.o" % (n[:-2], key))
        objs.append(o)
        if not o.exists():
            jobs.append((src, o))

    def comp(j):
        src, o = j
        t = str(o) + ".%d.tmp" % os.getpid()
        main = ["-Dmain=ircd_main"] if src.name == "ircd.c" else []
        run([CC, *flags, *main, "-DHAVE_CONFIG_H", "-I", str(gen), "-I", str(REPO / "ircd"), "-I", str(REPO / "include"),
             "-c", str(src), "-o", t])
        os.rename(t, o)

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(comp, jobs))
    return objs


class Lock:
    def __enter__(self):
        BUILD.mkdir(exist_ok=True)
        self.f = open(BUILD / ".lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(variant="asan"):
    """Returns (path of ircsim, path of libircd.so)."""
    variant = os.environ.get("IRCSIM_VARIANT", variant)
    with Lock():
        objs = objects(variant)
        key = sha(variant, *[o.name for o in objs], " ".join(WRAPS))
        so = BUILD / ("libircd-%s-%s.so" % (variant, key))
        if not so.exists():
            t = str(so) + ".tmp"
            run([CC, "-shared", *VARIANTS[variant], "-Wl,-Bsymbolic", "-o", t, *map(str, objs),
                 *["-Wl,--wrap=" + w for w in WRAPS], "-lssl", "-lcrypto", "-lcrypt"])
            os.rename(t, so)
        skey = sha((SIM / "sim.cpp").read_bytes(), variant, " ".join(VARIANTS[variant]))
        exe = BUILD / ("ircsim-%s-%s" % (variant, skey))
        if not exe.exists():
            t = str(exe) + ".tmp"
            run([CXX, "-std=c++17", "-w", *VARIANTS[variant], "-rdynamic", "-o", t, str(SIM / "sim.cpp"),
                 "-ldl", "-lssl", "-lcrypto"])
            os.rename(t, exe)
        prune()
    return exe, so


def unit(variant="plain"):
    """The server's functions as an ordinary shared library, for calling them one at a time."""
    with Lock():
        objs = objects(variant)
        so = BUILD / ("libunit-%s-%s.so" % (variant, sha(variant, *[o.name for o in objs])))
        if not so.exists():
            t = str(so) + ".tmp"
            run([CC, "-shared", *VARIANTS[variant], "-Wl,-Bsymbolic", "-o", t, *map(str, objs), "-lssl", "-lcrypto", "-lcrypt"])
            os.rename(t, so)
    return so


def prune(limit=3 << 30):
    """Keeps the build cache from growing without bound while developing."""
    files = [f for f in BUILD.rglob("*") if f.is_file() and (f.suffix == ".o" or f.suffix == ".so")]
    total = sum(f.stat().st_size for f in files)
    for f in sorted(files, key=lambda f: f.stat().st_mtime):
        if total < limit:
            break
        if f.stat().st_mtime > __import__("time").time() - 3600:
            continue
        total -= f.stat().st_size
        f.unlink()


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(*build(v))
