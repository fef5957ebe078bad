#!/usr/bin/env python3
"""Builds lightgrep from /repo's CURRENT working tree, outside /repo.

Every artefact is keyed by the content of every source file that can influence
it, so a changed tree is always rebuilt and an unchanged object is reused.
Sources are found by globbing (a refactoring may add, rename or split files).
"""
import concurrent.futures as cf, hashlib, re, os, shutil, subprocess, sys, glob, time

REPO = os.environ.get("LG_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("LG_BUILD", os.path.join(VERIF, "build"))

ICU_DEFS = ["-DU_USING_ICU_NAMESPACE=0", "-DU_CHARSET_IS_UTF8=1",
            "-DUNISTR_FROM_CHAR_EXPLICIT=explicit", "-DUNSTR_FROM_STRING_EXPLICIT=explicit"]
CONFIG_H = """
#define HAVE_BOOST 1
#define HAVE_BOOST_PROGRAM_OPTIONS 1
#define HAVE_BOOST_ASIO 1
#define HAVE_CXX17 1
#define HAVE_ICU 1
#define PACKAGE "lightgrep"
#define PACKAGE_NAME "lightgrep"
#define PACKAGE_STRING "lightgrep"
#define PACKAGE_VERSION "1.5.0"
#define PACKAGE_VERSION_MAJOR 1
#define PACKAGE_VERSION_MINOR 5
#define PACKAGE_VERSION_MICRO 0
#define VERSION "1.5.0"
"""
try:
    ICU_SUFFIX = re.search(r"#define U_ICU_VERSION_SUFFIX (\w+)", open("/usr/include/unicode/uvernum.h").read()).group(1)
except (OSError, AttributeError):
    ICU_SUFFIX = ""
ACC_ICU = "ucnv_convertEx ucnv_getNextUChar ucnv_resetToUnicode ucnv_close uset_addRange uset_clear uset_closeOver uset_close uset_size uset_serialize".split()
VARIANTS = {
    "opt": dict(cxx="g++", flags=["-O2", "-g1"], ld=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 ld=["-fsanitize=address"]),
    # every load/store becomes a call into our own runtime (mcrt), not libtsan
    "acc": dict(cxx="clang++", flags=["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
                ld=["-rdynamic", "-Wl," + ",".join("--wrap=" + f for f in (
                    "strlen strcmp memcmp memchr pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock "
                    "pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort").split() + [f + ICU_SUFFIX for f in ACC_ICU])]),
    "accrt": dict(cxx="clang++", flags=["-O2", "-g1", "-UU_USING_ICU_NAMESPACE"], ld=[]),
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[:1500]))
    return p.stdout


def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def repo_files(*pats):
    r = []
    for p in pats:
        r += [f for f in glob.glob(os.path.join(REPO, p), recursive=True) if os.path.isfile(f)]
    return sorted(set(r))


GENERATED = {"re_grammar.cpp", "re_grammar.h", "re_grammar.hpp"}


def gen():
    """generated headers/sources: config.h, encodings.h, the bison parser"""
    ypp = repo_files("src/**/*.ypp")
    encsrc = repo_files("src/enc/*.cpp")
    pub = [f for f in repo_files("include/lightgrep/*.h") if not f.endswith("/encodings.h")]
    key = hash_files(ypp + encsrc + pub + [os.path.abspath(__file__)], CONFIG_H)
    d = os.path.join(OUT, "gen-" + key)
    if os.path.exists(d + "/ok"):
        return d
    os.makedirs(d + "/include/lightgrep", exist_ok=True)
    with open(d + "/include/config.h", "w") as f:
        f.write(CONFIG_H)
    for f in pub:   # the generated encodings.h includes its siblings by relative name
        shutil.copy(f, d + "/include/lightgrep/")
    for y in ypp:
        base = os.path.splitext(os.path.basename(y))[0]
        sh(["bison", "-Wno-all", "--defines=%s/include/%s.hpp" % (d, base),
            "-o", "%s/%s.cpp" % (d, base), y])
    sh(["g++", "-std=c++17", "-include", "functional", "-include", "cstdint", "-DHAVE_CONFIG_H",
        "-I" + d + "/include", "-I" + REPO + "/include"] + ICU_DEFS + encsrc +
       ["-o", d + "/enc", "-licuuc", "-licudata"])
    with open(d + "/include/lightgrep/encodings.h", "w") as f:
        subprocess.run([d + "/enc"], stdout=f, check=True)
    open(d + "/ok", "w").close()
    return d


def incs(g):
    # generated headers first so a stale /repo/include/lightgrep/encodings.h is never used:
    # "lightgrep/encodings.h" is looked up through -I only (never beside the includer) unless
    # the includer itself is in include/lightgrep.
    return ["-I" + g + "/include", "-I" + REPO + "/include"]


def hdr_files():
    return [f for f in repo_files("include/**/*.h", "include/**/*.hpp", "include/**/*.ipp", "include/**/*.inl",
                                  "src/**/*.h", "src/**/*.hpp")
            if os.path.basename(f) not in GENERATED and not f.endswith("/include/lightgrep/encodings.h")
            and "/jni/" not in f]


def compile_objs(variant, srcs, extra=(), pic=True, hdr_extra=()):
    v = VARIANTS[variant]
    g = gen()
    hk = hash_files(hdr_files() + list(hdr_extra), g + " ".join(v["flags"]) + v["cxx"] + " ".join(extra))
    od = os.path.join(OUT, "obj-" + variant)
    os.makedirs(od, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        key = hash_files([s], hk)
        o = os.path.join(od, os.path.basename(s) + "." + key + ".o")
        objs.append(o)
        if os.path.exists(o):
            os.utime(o)
            continue
        tmp = o + ".%d.tmp" % os.getpid()
        jobs.append((s, o, tmp, [v["cxx"], "-std=c++17", "-include", "functional", "-include", "cstdint",
                                 "-DHAVE_CONFIG_H"] + ICU_DEFS + v["flags"] + (["-fPIC"] if pic else []) +
                     list(extra) + incs(g) + ["-w", "-c", s, "-o", tmp]))

    def one(j):
        sh(j[3])
        os.rename(j[2], j[1])
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        list(ex.map(one, jobs))
    return objs


def prune(keep=1200):
    """bound the disk used by the object cache"""
    fs = [f for d in glob.glob(OUT + "/obj-*") for f in glob.glob(d + "/*")] 
    def mtime(f):
        try:
            return os.path.getmtime(f)
        except OSError:     # another run has removed it
            return 0
    fs.sort(key=mtime, reverse=True)
    for f in fs[keep:]:
        try:
            os.unlink(f)
        except OSError:
            pass


def lib_sources():
    g = gen()
    s = [f for f in repo_files("src/lib/**/*.cpp") if os.path.basename(f) not in GENERATED]
    s += sorted(glob.glob(g + "/*.cpp"))
    return s


LIBS = ["-licuuc", "-licudata", "-lpthread"]


def lib_objs(variant):
    return compile_objs(variant, lib_sources())


def link(variant, objs, out, extra=(), shared=False, ld=()):
    v = VARIANTS[variant]
    key = hash_files([o for o in objs], " ".join(list(extra) + list(ld)) + v["cxx"])
    path = os.path.join(OUT, out + "-" + key)
    if shared:
        path = os.path.join(path, out)
        os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path):
        tmp = path + ".%d.tmp" % os.getpid()
        sh([v["cxx"]] + (["-shared"] if shared else []) + v["ld"] + list(objs) + list(extra) + ["-o", tmp] + LIBS + list(ld))
        os.rename(tmp, path)
    return path


def harness(variant, name, extra_defs=(), ld=(), cmd=False):
    """link /verif/harness/<name>.cpp against the library objects of this variant"""
    hs = os.path.join(VERIF, "harness", name + ".cpp")
    hh = glob.glob(os.path.join(VERIF, "harness", "*.h"))
    objs = lib_objs(variant)
    ho = compile_objs(variant, [hs], extra=["-I" + VERIF + "/harness"] + list(extra_defs), hdr_extra=hh)
    if variant == "acc":
        ho += compile_objs("accrt", [os.path.join(VERIF, "harness", "mcrt.cc")], hdr_extra=hh)
    if cmd:   # the command's own objects, its main renamed, with two calls of its going through the harness
        for o in compile_objs(variant, repo_files("src/cmd/*.cpp")):
            r = o[:-2] + ".main.o"
            if not os.path.exists(r):
                sh(["objcopy", "--redefine-sym", "main=lg_main", o, r + ".%d.tmp" % os.getpid()])
                os.rename(r + ".%d.tmp" % os.getpid(), r)
            ho.append(r)
        ld = list(ld) + ["-Wl,--wrap=fread,--wrap=lg_search", "-lboost_program_options", "-lboost_system"]
    p = link(variant, ho + objs, name + "." + variant, ld=ld)
    prune()
    return p


def cli(variant="opt"):
    objs = lib_objs(variant)
    co = compile_objs(variant, repo_files("src/cmd/*.cpp"))
    return link(variant, co + objs, "lightgrep." + variant, ld=["-lboost_program_options", "-lboost_system"])


def shlib(variant="opt"):
    return link(variant, lib_objs(variant), "liblightgrep.so", shared=True)


def java(variant="opt"):
    """the Java bindings: a directory with the classes (also of harness/*.java) and libjlightgrep.so"""
    src = repo_files("src/java/src/main/java/**/*.java")
    mine = sorted(glob.glob(os.path.join(VERIF, "harness", "*.java")))
    key = hash_files(src + mine, "1")
    d = os.path.join(OUT, "java-" + key)
    if not os.path.exists(d + "/ok"):
        os.makedirs(d + "/jni", exist_ok=True)
        sh(["javac", "-nowarn", "-encoding", "UTF-8", "-d", d + "/classes", "-h", d + "/jni"] + src + mine)
        with open(d + "/jni/jlightgrep.h", "w") as f:
            for h in sorted(os.listdir(d + "/jni")):
                if h.startswith("com_"):
                    f.write('#include "%s"\n' % h)
        open(d + "/ok", "w").close()
    jdk = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac"))))
    # beside the source a stale jlightgrep.h may lie, so compile a copy of it
    cc = []
    for c in repo_files("src/java/jni/*.cpp"):
        t = d + "/" + os.path.basename(c)
        if not os.path.exists(t) or open(t).read() != open(c).read():
            shutil.copy(c, t)
        cc.append(t)
    objs = compile_objs(variant, cc, extra=["-I" + d + "/jni", "-I" + jdk + "/include", "-I" + jdk + "/include/linux"])
    lib = link(variant, objs + lib_objs(variant), "libjlightgrep.so", shared=True)
    return d + "/classes:" + os.path.dirname(lib)


if __name__ == "__main__":
    t = time.time()
    for a in sys.argv[1:]:
        print(a, {"cli": cli, "shlib": shlib, "java": java}[a]() if a in ("cli", "shlib", "java") else len(lib_objs(a)), time.time() - t)
