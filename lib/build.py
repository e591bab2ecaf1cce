"""Builds the odc libraries from /repo's current working tree (instrumented, out of tree) and one harness per property."""
import os, re, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ODC_REPO", "/repo")
ECKIT = "/opt/odc-deps/lib/python3.12/site-packages/eckitlib"
TEMPLATES = {"ConstantSetter.cc", "ODAUpdatingIterator.cc", "WriterDispatchingIterator.cc", "MDUpdatingIterator.cc"}

VARIANTS = {
    "asan": ("g++", "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer", "-fsanitize=address"),
    "tsan": ("g++", "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer", "-fsanitize=thread"),
    "plain": ("g++", "-O1 -g1", ""),
    # thread instrumentation, linked with our own runtime (src/ctlsched.cc) instead of libtsan
    "sched": ("g++", "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer -include " + VERIF + "/src/sched_prefix.h",
              "-rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"),
}
UNINSTRUMENTED = {"ctlsched.cc", "mc.cc"}


def parse_list(cmakefile, var):
    """the source files named in list( APPEND <var> ... )"""
    txt = re.sub(r"#.*", "", open(cmakefile).read())
    out = []
    for m in re.finditer(r"list\s*\(\s*APPEND\s+%s\b([^)]*)\)" % var, txt):
        out += m.group(1).split()
    return out


def core_sources(gen):
    base = REPO + "/src/odc/"
    src = []
    for f in parse_list(base + "CMakeLists.txt", "odclib_src_files"):
        if f.startswith("$"):
            continue
        if f.endswith(".cc") and f not in TEMPLATES and os.path.exists(base + f):
            src.append(base + f)
    sha = gen + "/ODBAPIVersionSHA1.cc"
    return src + [sha]


def tools_sources():
    base = REPO + "/src/odc/tools/"
    return [base + f for f in parse_list(base + "CMakeLists.txt", "odctools_src_files")
            if f.endswith(".cc") and os.path.exists(base + f)]


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def generated(gen):
    os.makedirs(gen, exist_ok=True)
    ver = "1.6.3"
    try:
        ver = open(REPO + "/VERSION").read().strip() or ver
    except OSError:
        pass
    p = (ver.split(".") + ["0", "0"])[:3]
    write_if_changed(gen + "/odc_ecbuild_config.h", "#pragma once\n")
    write_if_changed(gen + "/odc_config.h", """#ifndef odc_config_h
#define odc_config_h
#define odc_VERSION_STR "%s"
#define odc_VERSION "%s"
#define odc_VERSION_MAJOR %s
#define odc_VERSION_MINOR %s
#define odc_VERSION_PATCH %s
#define odc_INSTALL_PREFIX "/usr/local"
#define odc_BINARY_DIR "/nonexistent"
#define odc_GIT_SHA1 "0123456789abcdef0123456789abcdef01234567"
#endif
""" % (ver, ver, *p))
    t = open(REPO + "/src/odc/ODBAPIVersionSHA1.cc.in").read()
    t = re.sub(r"@[A-Za-z0-9_]+@", "0123456789abcdef0123456789abcdef01234567", t)
    write_if_changed(gen + "/ODBAPIVersionSHA1.cc", t)


def build(prop, harness, variant="asan", tools=False, extra_ldflags="", extra_cflags="", builddir=None, jobs=8, fortran=()):
    """returns the path of the check binary"""
    cxx, cflags, ldflags = VARIANTS[variant]
    bd = builddir or (VERIF + "/.build")
    gen = bd + "/gen"
    generated(gen)
    inc = " ".join("-I" + d for d in [gen, REPO + "/src", VERIF + "/src", ECKIT + "/include"])
    common = "%s -std=gnu++17 -DNDEBUG -fPIC -w -pthread %s" % (cflags, inc)
    lib = ECKIT + "/lib64"
    n = ["ninja_required_version = 1.3",
         "rule cxx", "  command = %s $cf -MMD -MF $out.d -c $in -o $out" % cxx, "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = %s -o $out @$out.rsp $lf" % cxx, "  rspfile = $out.rsp", "  rspfile_content = $in"]
    objs = []

    def compile(src, group, extra=""):
        rel = re.sub(r"[^A-Za-z0-9_.]", "_", src.replace(REPO + "/src/odc/", "").replace(VERIF + "/src/", "").replace(gen + "/", ""))
        o = "%s/%s/%s.o" % (bd, group, rel)
        n.append("build %s: cxx %s" % (o, src))
        n.append("  cf = %s %s" % (common, extra))
        objs.append(o)

    for s in core_sources(gen):
        compile(s, "odc-" + variant)
    if tools:
        for s in tools_sources():
            compile(s, "odctools-" + variant)
    # n.b. instrumented objects first, so that their copies of inline functions are the ones linked
    for h in sorted(harness, key=lambda h: h in UNINSTRUMENTED) + ["mc.cc"]:
        extra = extra_cflags if h != "mc.cc" else ""
        if variant == "sched" and h in UNINSTRUMENTED:
            extra += " -fno-sanitize=thread -DSCHED_TRACK"
        compile(VERIF + "/src/" + h, ("mc-" if h == "mc.cc" else "h-") + variant, extra)
    if fortran:  # a Fortran interface of REPO's (named from its root), then what uses its module, from here
        mods = "%s/fortran-%s" % (bd, variant)
        os.makedirs(mods, exist_ok=True)
        n.append("rule fc\n  command = gfortran %s -fPIC -w -I%s -J%s -c $in -o $out" % (cflags, mods, mods))
        before = ""
        for f in fortran:
            f = (REPO if f.startswith("src/") else VERIF + "/src") + "/" + f
            o = "%s/%s.o" % (mods, os.path.basename(f))
            n.append("build %s: fc %s %s" % (o, f, before))
            before = "| " + o
            objs.append(o)
        extra_ldflags += " -lgfortran"
    exe = "%s/bin/%s-%s" % (bd, prop, variant)
    n.append("build %s: link %s" % (exe, " ".join(objs)))
    n.append("  lf = %s -pthread -L%s -leckit_sql -leckit -Wl,-rpath,%s -ldl %s" % (ldflags, lib, lib, extra_ldflags))
    n.append("default " + exe)
    os.makedirs(bd + "/bin", exist_ok=True)
    nf = "%s/%s-%s.ninja" % (bd, prop, variant)
    write_if_changed(nf, "\n".join(n) + "\n")
    # a private ninja log directory per property keeps concurrent builds apart; objects are shared
    r = subprocess.run(["ninja", "-f", nf, "-j", str(jobs), "-C", bd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(3)
    return exe
