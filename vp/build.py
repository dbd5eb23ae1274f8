"""Builds armips from /repo's current working tree, out of tree, in /verif/.build."""
import os, subprocess, fcntl, hashlib, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
SKIP = {".git", "_build", "Tests", ".github"}

KINDS = {
    # plain optimised static binary: what a user runs, fast to spawn
    "rel": dict(cxx="g++", flags="-O1 -w", link="-static", target="armips-bin", out="armips"),
    # sanitized binary: memory errors, failed library assertions and the undefined behaviour that crashes
    "asan": dict(cxx="clang++", flags="-O1 -g1 -w -fsanitize=address,bounds,null,integer-divide-by-zero,return,unreachable -fno-sanitize-recover=all "
                 "-D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer", link="-fsanitize=address,bounds,null,integer-divide-by-zero,return,unreachable", target="armips-bin", out="armips"),
    # the library with a driver that runs several jobs in one process
    "lib": dict(cxx="g++", flags="-O1 -w", link="-static", target="armips", out="libarmips.a", dir="rel", harness="libdriver"),
}

def harness(k, src, bd, env):
    """Compile and link a driver of /verif/harness against the library just built."""
    h = os.path.join(VERIF, "harness", k["harness"] + ".cpp")
    cli = os.path.join(src, "Main", "CommandLineInterface.cpp")
    lib = os.path.join(bd, k["out"]); out = os.path.join(bd, k["harness"])
    newest = max(os.stat(f).st_mtime_ns for f in (h, cli, cli[:-3] + "h", lib))
    if os.path.exists(out) and os.stat(out).st_mtime_ns > newest: return out
    c = [k["cxx"], "-std=c++17"] + k["flags"].split() + ["-DARMIPS_USE_STD_FILESYSTEM", "-I" + src, "-I" + os.path.join(src, "ext", "tinyformat"), h, cli, lib, "-o", out + ".tmp", "-pthread"] + k["link"].split()
    # a static program has to contain all of the thread library
    if "-static" in k["link"]: c += ["-Wl,--whole-archive", "-lpthread", "-Wl,--no-whole-archive"]
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        raise SystemExit("build of the library driver failed")
    os.replace(out + ".tmp", out)
    return out

def sync_sources():
    """Copy /repo's sources to .build/src, touching only files whose content differs."""
    dst = os.path.join(BUILD, "src")
    seen = set()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP]
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            seen.add(p)
            try:
                data = open(os.path.join(REPO, p), "rb").read()
            except OSError:
                continue
            q = os.path.join(dst, p)
            try:
                if open(q, "rb").read() == data:
                    continue
            except OSError:
                pass
            with open(q, "wb") as o:
                o.write(data)
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.relpath(os.path.join(root, f), dst))
            if p not in seen:
                os.remove(os.path.join(dst, p))
    return dst

def build(kind):
    k = KINDS[kind]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = sync_sources()
        bd = os.path.join(BUILD, k.get("dir", kind))
        env = {k2: v for k2, v in os.environ.items() if k2 not in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS", "CXX", "CC")}
        env["LC_ALL"] = "C.UTF-8"
        cmd = ["cmake", "-S", src, "-B", bd, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=" + k["cxx"],
               "-DCMAKE_C_COMPILER=" + ("clang" if "clang" in k["cxx"] else "gcc"),
               "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + k["flags"],
               "-DCMAKE_EXE_LINKER_FLAGS=" + k["link"], "-DARMIPS_USE_STD_FILESYSTEM=ON"]
        for c in (cmd, ["ninja", "-C", bd, k["target"]]):
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            if r.returncode != 0:
                sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
                raise SystemExit("build of /repo (%s) failed" % kind)
        if "harness" in k: return harness(k, src, bd, env)
        return os.path.join(bd, k["out"])

if __name__ == "__main__":
    for kk in sys.argv[1:] or KINDS:
        print(build(kk))
