"""Builds libvoikko (and its tools) from /repo's current working tree into a scratch directory.

Every .cpp below libvoikko/src is compiled (the backends that are not available are empty behind their
#ifdefs), so an added source file is picked up.  Objects are cached by the content of the source, of every
header and of the flags: the cache is an optimisation only, and a run in a fresh sandbox starts without it.
"""
import hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
CACHE = Path(os.environ.get("VERIF_OBJ_CACHE", "/tmp/vp-objcache"))

DEFS = ["-DHAVE_VFST=1", "-DHAVE_EXPERIMENTAL_VFST=1", "-DHAVE_MMAP=1", "-DHAVE_GETPWUID_R=1",
        '-DPACKAGE_VERSION="verif"', '-DVERSION="verif"', '-DPACKAGE="libvoikko"', '-DDICTIONARY_PATH=""',
        "-DHAVE_LANGINFO_H=1", "-DHAVE_LOCALE_H=1", "-DHAVE_MBRLEN=1", "-DHAVE_SETLOCALE=1",
        "-DHAVE_WCHAR_H=1", "-DHAVE_WCTYPE_H=1", "-DGCC_VISIBILITY=1", "-DHAVE_PTHREAD=1"]
HFST = Path("/usr/include/hfst-ol.h").exists() or Path("/usr/include/ospell.h").exists()

FLAVOURS = {
    # name: (compiler, flags)
    "asan": ("g++", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment,shift"]),
    "tsan": ("g++", ["-O1", "-g", "-fsanitize=thread"]),
    "plain": ("g++", ["-O2", "-g"]),
}


class BuildError(Exception):
    pass


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _compile(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compilation failed: %s\n%s" % (" ".join(map(str, cmd)), r.stderr[-4000:]))


def src_root():
    return REPO / "libvoikko" / "src"


def lib_sources():
    src = src_root()
    # not part of the configured build (no vislcg3, no lttoolbox here)
    skip = ("CgRuleEngine", "CgGrammarChecker", "LttoolboxAnalyzer")
    return sorted(p for p in src.rglob("*.cpp")
                  if p.relative_to(src).parts[0] != "tools" and p.stem not in skip)


def _hdr_hash():
    src = src_root()
    return _hash(*[x for p in sorted(list(src.rglob("*.hpp")) + list(src.rglob("*.h")))
                   for x in (p.relative_to(src), p.read_bytes())])


def _flags(flavour):
    cxx, fl = FLAVOURS[flavour]
    defs = DEFS + (["-DHAVE_HFST=1"] if HFST else [])
    return cxx, ["-std=c++17", "-fPIC", "-w", "-pthread"] + fl + defs + ["-I", str(src_root())]


def _objs(sources, flavour, jobs=8, dictpath=""):
    cxx, flags0 = _flags(flavour)
    hh = _hdr_hash()
    in_header = dictpath and any("DICTIONARY_PATH" in p.read_text(errors="replace") for p in src_root().rglob("*.h*"))
    CACHE.mkdir(parents=True, exist_ok=True)
    todo, objs = [], []
    for s in sources:
        flags = flags0
        if dictpath and (in_header or b"DICTIONARY_PATH" in s.read_bytes()):
            flags = ['-DDICTIONARY_PATH="%s"' % dictpath if f.startswith("-DDICTIONARY_PATH") else f for f in flags0]
        key = _hash(cxx, " ".join(flags), hh, s.name, s.read_bytes())
        o = CACHE / (s.stem + "-" + key + ".o")
        objs.append(o)
        if not o.exists():
            todo.append((s, o, flags))

    def one(so):
        s, o, flags = so
        tmp = o.with_suffix(".%d.tmp.o" % os.getpid())
        _compile([cxx, *flags, "-c", str(s), "-o", str(tmp)])
        os.replace(tmp, o)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    return objs


def _libs():
    return (["-lhfstospell"] if HFST else []) + ["-pthread"]


def build_lib(out, flavour="asan", jobs=8):
    """Shared library; returns its path."""
    out = Path(out)
    cxx, flags = _flags(flavour)
    objs = _objs(lib_sources(), flavour, jobs)
    so = out / "libvoikko.so.1"
    _compile([cxx, *FLAVOURS[flavour][1], "-shared", "-Wl,-soname,libvoikko.so.1", "-o", str(so), *map(str, objs), *_libs()])
    link = out / "libvoikko.so"
    if not link.exists():
        link.symlink_to(so.name)
    return so


def build_driver(out, flavour="asan", jobs=8, source="driver.cpp", name=None, dictpath=""):
    """The API driver of /verif, linked with the objects of the library (dictpath: the fixed search path)."""
    out = Path(out)
    objs = _objs(lib_sources() + [VERIF / "driver" / source], flavour, jobs, dictpath)
    exe = out / (name or source.replace(".cpp", ""))
    cxx, _ = _flags(flavour)
    _compile([cxx, *FLAVOURS[flavour][1], "-rdynamic", "-o", str(exe), *map(str, objs), *_libs()])
    return exe


def build_tool(out, tool, flavour="asan", jobs=8, extra=()):
    """One of the command line tools (voikkospell, voikkogc, voikkohyphenate, voikkovfstc); extra: sources of /verif linked to it."""
    out = Path(out)
    srcs = [src_root() / "tools" / (tool + ".cpp")]
    if tool != "voikkovfstc":
        srcs = lib_sources() + srcs
    objs = _objs(srcs + [VERIF / "driver" / x for x in extra], flavour, jobs)
    exe = out / tool
    cxx, _ = _flags(flavour)
    _compile([cxx, *FLAVOURS[flavour][1], "-rdynamic", "-o", str(exe), *map(str, objs), *_libs()])
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    d = Path(sys.argv[1]); d.mkdir(parents=True, exist_ok=True)
    print(build_lib(d, sys.argv[2] if len(sys.argv) > 2 else "asan"), time.time() - t)
