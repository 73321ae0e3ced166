"""Builds the native drivers from /repo's working tree and runs them.

The drivers are the concrete side of a check: they replay counterexamples of the verifier against the
real code, search for a failing input when an obligation fails, validate the contracts that are assumed
(not proved), and stand in - bounded - for functions that are out of the verifier's reach.
"""
import glob, os, subprocess, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VFC_REPO", "/repo")
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,enum", "-fno-sanitize-recover=undefined"]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def stub_headers(work):
    """The build system generates VFC/Export.h; static linking needs only an empty definition."""
    d = os.path.join(work, "inc", "VFC")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "Export.h"), "w") as f:
        f.write("#pragma once\n#define VFC_EXPORT\n")
    return os.path.join(work, "inc")


def repo_sources(sub):
    return sorted(glob.glob(os.path.join(REPO, sub, "*.cpp")))


class Builder:
    def __init__(self, work, jobs=8):
        self.work = work
        self.inc = stub_headers(work)
        self.pool = cf.ThreadPoolExecutor(jobs)
        self.objs = {}

    def lib_inc(self):
        return ["-I" + os.path.join(REPO, "lib/include"), "-I" + self.inc]

    def tool_inc(self):
        return self.lib_inc() + ["-I" + os.path.join(REPO, "tool"), "-I/opt/vp/deps/include"]

    def obj(self, src, flags, tag):
        key = (src, tag)
        if key not in self.objs:
            out = os.path.join(self.work, tag + "_" + os.path.basename(src) + ".o")
            self.objs[key] = (out, self.pool.submit(_run, ["g++"] + flags + ["-c", src, "-o", out]))
        return self.objs[key]

    def wait(self, objs):
        for _, f in objs:
            f.result()
        return [o for o, _ in objs]

    def lib_objs(self, software_half=False):
        r = []
        for s in repo_sources("lib/src"):
            if software_half and os.path.basename(s) == "HalfFloat.cpp":
                stub = os.path.join(self.work, "HalfFloatSoftware.cpp")
                if not os.path.exists(stub):
                    with open(stub, "w") as f:
                        f.write("namespace vfc { extern const bool hasHardwareHalfFloat; "
                                "const bool hasHardwareHalfFloat = false; }\n")
                r.append(self.obj(stub, ["-std=c++14"] + SAN, "lib"))
                continue
            r.append(self.obj(s, ["-std=c++14"] + SAN + self.lib_inc(), "lib"))
        return r

    def tool_objs(self):
        return [self.obj(s, ["-std=c++14"] + SAN + self.tool_inc(), "tool") for s in repo_sources("tool")]

    def driver_obj(self, name):
        src = os.path.join(VERIF, "native", name + ".cpp")
        inc = self.tool_inc() if name == "drv_tool" else self.lib_inc()
        flags = ["-std=gnu++17", "-I" + os.path.join(VERIF, "native"), "-DDRV_ASAN"] + inc
        # drv_conv only generates cases and compares results; the instrumented code is the library.
        flags += ["-O2", "-g1"] if name == "drv_conv" else SAN
        return self.obj(src, flags, "drv")

    def link(self, out, objs):
        out = os.path.join(self.work, out)
        _run(["g++", "-fsanitize=address,undefined"] + objs + ["-o", out])
        return out

    def driver(self, name, software_half=False):
        parts = self.lib_objs(software_half)
        if name == "drv_tool":
            parts = parts + [o for o in self.tool_objs() if not o[0].endswith("_main.cpp.o")]
        parts = parts + [self.driver_obj(name)]
        return self.link(name + ("_sw" if software_half else ""), self.wait(parts))

    def tool(self):
        return self.link("vfc", self.wait(self.lib_objs() + self.tool_objs()))
