"""Builds the intermediate representation of /repo's current source and loads it.

build() compiles the single translation unit with clang into bitcode inside a scratch directory,
normalises it with opt, and dumps it with tools/irdump.  Nothing is executed from the repository.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CFLAGS = ["-w", "-funsigned-char", "-std=c17", "-Wno-pointer-sign", "-fno-math-errno", "-fno-builtin", "-fpic", "-ffp-contract=off"]


class ToolError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise ToolError("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode("utf8", "replace")[-4000:]))
    return p.stdout


def irdump_path():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, "build"), os.path.join(tempfile.gettempdir(), "sa-build-%d" % os.getuid())):
        out = os.path.join(d, "irdump-" + h)
        if os.path.exists(out):
            return out
        try:
            os.makedirs(d, exist_ok=True)
            flags = [f for f in run(["llvm-config-18", "--cxxflags"]).decode().split() if f != "-fno-exceptions"]
            ld = run(["llvm-config-18", "--ldflags"]).decode().split()
            tmp = out + ".%d" % os.getpid()
            run(["clang++-18", "-w", "-O1"] + flags + ["-std=c++17", src, "-o", tmp] + ld + ["-lLLVM-18"])
            os.replace(tmp, out)
            return out
        except OSError:
            continue
    raise ToolError("cannot build irdump")


def include_flags(repo, scratch):
    inc = os.path.join(scratch, "inc")
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "sph")
    if not os.path.islink(link):
        os.symlink(os.path.join(repo, "source/c/foreign/sph-sc-lib/sph-sp"), link)
    return ["-I" + os.path.join(repo, "source/c/foreign"), "-I" + os.path.join(repo, "source/c/foreign/sph-sc-lib"), "-I" + os.path.join(repo, "source/c-precompiled"), "-I" + inc]


MAIN = "source/c-precompiled/sph-sp/main.c"


def bitcode(scratch, passes, repo=REPO, opt0=True, name="a"):
    bc = os.path.join(scratch, name + ".bc")
    run(["clang-18"] + CFLAGS + include_flags(repo, scratch) + ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-emit-llvm", "-c", "-x", "c", os.path.join(repo, MAIN), "-o", bc])
    out = os.path.join(scratch, name + ".opt.bc")
    run(["opt-18", "-passes=" + passes, bc, "-o", out])
    return out


def load_protocols(scratch, repo=REPO):
    """the library together with the call sequences of protocols.c; -> (ir, names of the sequences, left out)"""
    lines = open(os.path.join(VERIF, "sa", "protocols.c")).read().split("\n")
    src = os.path.join(scratch, "protocols.c")
    bc = os.path.join(scratch, "protocols.bc")
    dropped = []
    for _ in range(20):
        open(src, "w").write('#include "%s"\n#line 1 "protocols.c"\n%s\n' % (os.path.join(repo, MAIN), "\n".join(lines)))
        p = subprocess.run(["clang-18"] + CFLAGS + include_flags(repo, scratch) + ["-Werror=implicit-function-declaration", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-fno-caret-diagnostics", "-emit-llvm", "-c", "-x", "c", src, "-o", bc], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode == 0:
            break
        # a sequence that does not fit the interface any more is left out
        bad = [int(m) for m in re.findall(r"^protocols\.c:(\d+):\d+: error", p.stderr.decode("utf8", "replace"), re.M)]
        if not bad:
            raise ToolError(p.stderr.decode("utf8", "replace")[-4000:])
        for n in bad:
            a = max([i for i in range(n) if lines[i].startswith("U ")] or [-1])
            if a < 0:
                raise ToolError("protocols.c:%d" % n)
            dropped.append(re.search(r"vp_\w+", lines[a]).group(0))
            while True:
                x = lines[a]; lines[a] = ""; a += 1
                if x == "}":
                    break
    out = os.path.join(scratch, "protocols.opt.bc")
    run(["opt-18", "-passes=function(sroa,lowerswitch)", bc, "-o", out])
    return json.loads(run([irdump_path(), "ir", out])), [m for l in lines if l.startswith("U ") for m in re.findall(r"\bvp_\w+(?=\()", l)[:1]], dropped


def load_ir(scratch, repo=REPO):
    out = bitcode(scratch, "function(sroa,lowerswitch)", repo, name="ir")
    return json.loads(run([irdump_path(), "ir", out]))


def scratch_dir():
    return tempfile.mkdtemp(prefix="sa-")
