#!/usr/bin/env python3
"""Runtime-monitoring checks for pjbgf/sha1cd.

  check.py <ID>            run the check of one property (VERIF_TIER, VERIF_SEED)
  check.py --replay DIR    run a recorded violation again
  check.py setup           warm the build cache

Every check builds an instrumented-from-outside driver against /repo's working
tree in several configurations, executes generated workloads with it, and has
the offline checker (mon) judge the recorded event traces against a reference
model. Exit 0: held on everything observed. Exit 1: violated. Exit 2: no answer.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
CACHE = os.path.join(VERIF, ".cache")
WORK = os.path.join(VERIF, ".work")
GOROOT = "/opt/veriftools/go1.26.10"
NCPU = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
WALL = {"quick": 800, "thorough": 6 * 3600}

FLAG_BIG, FLAG_SLOW, FLAG_INJECT = 8, 16, 1


class Inconclusive(Exception):
    pass


# --------------------------------------------------------------- configurations

QX = ["qemu-x86_64", "-cpu"]


def x86(model):
    return dict(cgo=0, build="nocgo", run=QX + [model], emu=True)


CONFIGS = {
    "native": dict(),
    "noasm": dict(tags="noasm"),
    "nocgo": dict(cgo=0),
    "nocgo-noasm": dict(cgo=0, tags="noasm"),
    "qmax": dict(build="native", run=QX + ["max"], emu=True),
    "arm64": dict(arch="arm64", cc="aarch64-linux-gnu-gcc", run=["qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu"], emu=True),
    "arm64-noasm": dict(arch="arm64", cgo=0, tags="noasm", run=["qemu-aarch64", "-cpu", "max"], emu=True),
    "arm64-nocgo": dict(arch="arm64", cgo=0, run=["qemu-aarch64", "-cpu", "max"], emu=True),
    "arm": dict(arch="arm", cc="arm-linux-gnueabihf-gcc", env={"GOARM": "7"}, run=["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"], emu=True, small=True),
    "386": dict(arch="386", cgo=0, run=["qemu-i386"], emu=True, small=True),
    "s390x": dict(arch="s390x", cgo=0, run=["qemu-s390x", "-cpu", "max"], emu=True),
    "mips": dict(arch="mips", cgo=0, run=["qemu-mips"], emu=True, small=True),
    "mipsle": dict(arch="mipsle", cgo=0, run=["qemu-mipsel"], emu=True, small=True),
    "mips64": dict(arch="mips64", cgo=0, run=["qemu-mips64"], emu=True),
    "riscv64": dict(arch="riscv64", cgo=0, run=["qemu-riscv64"], emu=True),
    "ppc64": dict(arch="ppc64", cgo=0, run=["qemu-ppc64"], emu=True),
    "ppc64le": dict(arch="ppc64le", cgo=0, run=["qemu-ppc64le"], emu=True),
    "loong64": dict(arch="loong64", cgo=0, run=["qemu-loongarch64"], emu=True),
    "wasm": dict(arch="wasm", goos="js", cgo=0, run=["node", "--stack-size=8192", GOROOT + "/lib/wasm/wasm_exec_node.js"], emu=True, small=True, renv={"GOMAXPROCS": "1"}),
    "clang": dict(cc="clang", env={"CGO_CFLAGS": "-O3 -g"}),
    "cO0": dict(env={"CGO_CFLAGS": "-O0 -g"}),
    "cO3": dict(env={"CGO_CFLAGS": "-O3 -g -march=x86-64-v2 -funsigned-char"}),
    "caligned": dict(env={"CGO_CFLAGS": "-O2 -g -DSHA1DC_FORCE_ALIGNED_ACCESS"}),
    "noopt": dict(gcflags="all=-N -l"),
    "noopt-noasm": dict(gcflags="all=-N -l", tags="noasm"),
    "pie": dict(flags=["-buildmode=pie"]),
    "arm64-pie": dict(arch="arm64", cgo=0, flags=["-buildmode=pie"], run=["qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu"], emu=True),
    "noinline": dict(gcflags="all=-l"),
    "checkptr": dict(gcflags="all=-d=checkptr=2"),
    "race": dict(flags=["-race"], san="race"),
    "race-noasm": dict(flags=["-race"], tags="noasm", san="race"),
    "race-p2": dict(build="race", san="race", renv={"GOMAXPROCS": "2"}),
    "race-p1": dict(build="race", san="race", renv={"GOMAXPROCS": "1"}),
    "asan": dict(flags=["-asan"], san="asan", env={"CGO_CFLAGS": "-O1 -g -fno-omit-frame-pointer -fsanitize=undefined -fno-sanitize=alignment -fno-sanitize-recover=all", "CGO_LDFLAGS": "-fsanitize=undefined"}),
    "ubsan": dict(san="ubsan", cc="clang", env={"CGO_CFLAGS": "-O1 -g -DSHA1DC_FORCE_ALIGNED_ACCESS -fsanitize=undefined -fno-sanitize-recover=all", "CGO_LDFLAGS": "-fsanitize=undefined"}),
    "msan": dict(flags=["-msan"], san="msan", cc="clang", env={"CGO_CFLAGS": "-O1 -g"}),
    "gcstress": dict(build="native", renv={"GOGC": "1", "GODEBUG": "clobberfree=1,gcstoptheworld=1"}),
    "gcstress-noasm": dict(build="noasm", renv={"GOGC": "1", "GODEBUG": "clobberfree=1"}),
    "cgocheck2": dict(env={"GOEXPERIMENT": "cgocheck2"}, renv={"GODEBUG": "cgocheck=1"}),
    "p1": dict(build="native", renv={"GOMAXPROCS": "1"}),
    "p2": dict(build="native", renv={"GOMAXPROCS": "2"}),
    "p32": dict(build="native", renv={"GOMAXPROCS": "32"}),
    "stacks": dict(build="native", renv={"VMON_STACK": "1"}),
    "stacks-noasm": dict(build="noasm", renv={"VMON_STACK": "1"}),
    "stacks-gc": dict(build="native", renv={"VMON_STACK": "1", "GOGC": "1", "GODEBUG": "clobberfree=1"}),
    "watched": dict(build="native", renv={"VMON_TRACE": "1"}),
    "watched-noasm": dict(build="noasm", renv={"VMON_TRACE": "1"}),
    "go1.24": dict(tool="/opt/veriftools/go1.24.13"),
    "go1.25": dict(tool="/opt/veriftools/go1.25.14"),
    "go1.27": dict(tool="/opt/veriftools/go1.27.3"),
    "go1.27-nocgo-noasm": dict(tool="/opt/veriftools/go1.27.3", cgo=0, tags="noasm"),
    "v3": dict(env={"GOAMD64": "v3"}),
}
CPU_QUICK = ["max,-ssse3", "max,-sse4.1,-avx2", "max,-avx", "max,-avx2", "max,-sha-ni", "max,-sse3", "max,-bmi2", "Nehalem", "Haswell", "EPYC",
             "Denverton", "core2duo", "kvm64"]
CPU_MORE = ["max,-ssse3,-sha-ni", "max,-ssse3,-avx2", "max,-sha-ni,-avx2", "max,-sse4.1,-avx2,-avx", "max,-bmi1", "max,-popcnt", "max,-aes", "max,-movbe", "max,-fma",
            "qemu64", "Penryn", "Conroe", "Westmere", "SandyBridge", "IvyBridge", "Broadwell", "Skylake-Client", "Skylake-Server",
            "Cascadelake-Server", "Icelake-Server", "Opteron_G3", "Opteron_G5", "EPYC-Rome", "EPYC-Milan", "Snowridge", "max,-xsave", "max,-ssse3,-sse4.1,-avx,-avx2"]
# Just what the accelerated code asks for, and nothing else that can be switched off.
CPU_QUICK.append("max,-bmi1,-bmi2,-movbe,-popcnt,-sse4.2,-avx2,-fma,-f16c,-abm,-aes,-pclmulqdq,-adx,-vaes,-rdrand,-rdseed,-sse4a,-3dnow,-cx16,-lahf_lm")
for _m in CPU_QUICK + CPU_MORE:
    CONFIGS["x86:" + _m] = x86(_m)
for _m in ["cortex-a53", "cortex-a57", "cortex-a72", "neoverse-n1", "a64fx"]:
    CONFIGS["arm64:" + _m] = dict(arch="arm64", cgo=0, build="arm64-nocgo", run=["qemu-aarch64", "-cpu", _m], emu=True)

# An arm64 processor without the SHA-1 instructions: the runtime is built with an overlay that
# clears them in the auxiliary vector, and the instructions themselves are made undefined.
CONFIGS["arm64-nosha1"] = dict(arch="arm64", cgo=0, run=["qemu-aarch64", "-cpu", "max"], emu=True, nosha1=True)

CORE = ["native", "noasm", "qmax", "arm64"]


def jobs(group, cfgs):
    return [(group, c) for c in cfgs]


# property -> tier -> [(group, config)]
PLAN = {
    "C01": dict(quick=jobs("main", CORE + ["386", "s390x"]) + jobs("bulk", ["native", "noasm", "arm64"]),
                thorough=jobs("main", ["arm", "mips", "ppc64", "riscv64", "loong64", "clang", "noopt", "v3", "go1.24", "go1.27"])),
    "C02": dict(quick=jobs("main", CORE + ["nocgo", "386", "s390x"]) + jobs("ladder", ["native", "noasm"]),
                thorough=jobs("ladder", ["nocgo", "clang"]) + jobs("main", ["arm", "mips", "ppc64", "riscv64", "loong64", "clang", "cO0", "noopt", "go1.24", "go1.27"])),
    "C03": dict(quick=jobs("main", CORE + ["nocgo", "386"]),
                thorough=jobs("main", ["arm", "s390x", "mips", "riscv64", "clang", "caligned", "noopt", "go1.24", "go1.27"])),
    "C04": dict(quick=jobs("main", ["native", "noasm", "nocgo", "arm64", "386", "clang"]),
                thorough=jobs("main", ["qmax", "arm", "s390x", "mips", "ppc64", "riscv64", "loong64", "cO0", "cO3", "noopt", "go1.24", "go1.25", "go1.27"])),
    "C05": dict(quick=jobs("main", ["native", "noasm", "nocgo", "qmax", "arm64", "arm", "386", "s390x", "mips", "clang", "pie",
                                    "mipsle", "mips64", "riscv64", "ppc64", "ppc64le", "loong64", "wasm"]),
                thorough=jobs("main", ["arm64-noasm", "arm64-nocgo", "cO0", "cO3", "caligned",
                                       "noopt", "noopt-noasm", "noinline", "go1.24", "go1.25", "go1.27", "go1.27-nocgo-noasm", "v3", "arm64-pie"])),
    "C06": dict(quick=jobs("main", CORE + ["386", "s390x"]) + jobs("bulk", ["native", "noasm"]) + jobs("count", ["native"]) + jobs("ladder", ["native"]),
                thorough=jobs("ladder", ["noasm", "clang"]) + jobs("count", ["noasm", "nocgo", "qmax"]) + jobs("main", ["arm", "nocgo", "clang", "noopt", "gcstress", "go1.27"])),
    "C07": dict(quick=jobs("main", CORE + ["nocgo", "386"]) + jobs("bulk", ["native", "noasm"]) + jobs("count", ["native"]),
                thorough=jobs("count", ["noasm", "nocgo", "qmax"]) + jobs("main", ["arm", "s390x", "clang", "noopt", "gcstress", "go1.27"])),
    "C08": dict(quick=jobs("main", CORE + ["386", "s390x", "mips"]) + jobs("count", ["native"]),
                thorough=jobs("count", ["noasm", "nocgo"]) + jobs("main", ["arm", "nocgo", "ppc64", "riscv64", "loong64", "noopt", "go1.27"])),
    "C09": dict(quick=jobs("main", CORE + ["386", "s390x"]),
                thorough=jobs("main", ["arm", "mips", "nocgo", "ppc64", "checkptr", "noopt", "asan", "go1.27"])),
    "C10": dict(quick=jobs("par", ["native", "noasm", "p2", "p32", "arm64"]) + jobs("race", ["race", "race-noasm", "race-p2"])
                + jobs("cold", ["race", "race-noasm", "native", "nocgo"]),
                thorough=jobs("par", ["qmax", "p1", "gcstress", "nocgo", "clang"]) + jobs("race", ["race-p1"])),
    "C11": dict(quick=jobs("main", CORE + ["asan", "ubsan", "msan", "gcstress", "checkptr", "cgocheck2", "stacks", "stacks-noasm", "watched"]),
                thorough=jobs("main", ["stacks-gc", "watched-noasm", "gcstress-noasm", "noopt", "noinline", "nocgo", "arm", "386", "s390x", "race", "go1.27"])),
    "C12": dict(quick=jobs("main", CORE + ["386", "arm"]) + jobs("zeroGo", ["native", "noasm"]) + jobs("zeroCgo", ["native"]) + jobs("zero2", ["native"]) + jobs("crossCgo", ["native"]) + jobs("ladder", ["native"]),
                thorough=jobs("main", ["s390x", "mips", "nocgo", "caligned", "noopt"]) + jobs("zeroGo", ["nocgo", "noopt"]) + jobs("zeroCgo", ["clang", "caligned"])
                + jobs("zero2", ["noasm", "clang"]) + jobs("crossCgo", ["clang", "caligned"]) + jobs("crossGo", ["native", "noasm"])),
    "C13": dict(quick=jobs("main", ["native", "nocgo", "noasm", "qmax", "arm64", "arm64-noasm", "arm64-nosha1", "arm64:cortex-a53"] + ["x86:" + m for m in CPU_QUICK]),
                thorough=jobs("main", ["x86:" + m for m in CPU_MORE] + ["arm64:cortex-a57", "arm64:cortex-a72", "arm64:neoverse-n1", "arm64:a64fx", "v3"])),
    "C14": dict(quick=jobs("main", ["native", "nocgo", "nocgo-noasm", "clang", "caligned", "arm64", "arm", "386"]) + jobs("ladder", ["native", "nocgo"]),
                thorough=jobs("main", ["cO0", "cO3", "asan", "ubsan", "s390x", "mips", "arm64-nocgo", "noopt", "go1.24", "go1.27"])),
    "C15": dict(quick=jobs("main", CORE + ["nocgo", "386"]) + jobs("bulk", ["native", "noasm"]) + jobs("zeroGo", ["native", "noasm"]) + jobs("zeroCgo", ["native"]) + jobs("ladder", ["native", "noasm"]),
                thorough=jobs("main", ["arm", "s390x", "riscv64", "clang", "caligned", "noopt", "go1.27"]) + jobs("bulk", ["arm64", "qmax", "clang"])),
}
PLAN["C17"] = dict(quick=[], thorough=[])
PLAN["C16"] = dict(quick=[], thorough=[])
LENIENT = {"C01", "C06", "C07", "C08", "C09", "C10", "C11", "C12"}
TABLE = {"C03", "C05"}

RULES = {
    "default": "A case is a generated sequence of API calls; every call's observable result is one event, recorded by the driver and compared with the reference "
               "model's. A case is non-trivial when it makes the model compress at least one 64-byte block (or evaluates a bit-condition mask); two cases are distinct when the "
               "sequence of results the model expects of them differs (64-bit hash of it). evaluations counts the cases executed over all configurations; "
               "distinct_nontrivial counts distinct non-trivial cases once, whatever the number of configurations that ran them.",
}

# ---------------------------------------------------------------------- building


def base_env(tool=GOROOT):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO_", "GORACE", "ASAN", "MSAN", "UBSAN", "TSAN"))}
    e.update(PATH=tool + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off",
             GOFLAGS="-mod=mod", GOWORK="off", GOENV="off", GOPATH="/opt/vp/go", GOMODCACHE="/opt/vp/go/pkg/mod",
             GOCACHE=os.path.join(CACHE, "gocache"), CGO_ENABLED="1", CC="gcc", GOTELEMETRY="off")
    e.pop("CFLAGS", None)
    return e


def prep_cache():
    gc = os.path.join(CACHE, "gocache")
    if not os.path.isdir(gc):
        os.makedirs(CACHE, exist_ok=True)
        tmp = gc + ".%d" % os.getpid()
        if os.path.isdir("/opt/vp/go/cache"):
            subprocess.run(["cp", "-a", "/opt/vp/go/cache", tmp], check=False)
        else:
            os.makedirs(tmp)
        try:
            os.rename(tmp, gc)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)


def sh(cmd, env, cwd, timeout=600):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def write_modfile(work):
    """A go.mod for the driver: ours plus /repo and what /repo requires."""
    req = []
    txt = open(os.path.join(REPO, "go.mod")).read()
    for m in re.finditer(r"^\s*(?:require\s+)?([a-z0-9.\-]+\.[a-z]+/\S+)\s+(v\S+)", txt, re.M):
        req.append((m.group(1), m.group(2)))
    gov = re.search(r"^go\s+(\S+)", txt, re.M)
    s = "module vmon\n\ngo %s\n\nrequire github.com/pjbgf/sha1cd v0.0.0\n" % (gov.group(1) if gov else "1.24.0")
    for r in req:
        s += "require %s %s // indirect\n" % r
    s += "\nreplace github.com/pjbgf/sha1cd => %s\n" % REPO
    with open(os.path.join(work, "m.mod"), "w") as f:
        f.write(s)
    shutil.copyfile(os.path.join(REPO, "go.sum"), os.path.join(work, "m.sum"))


def cfg_env(c):
    e = base_env(c.get("tool", GOROOT))
    e["GOARCH"] = c.get("arch", "amd64")
    e["GOOS"] = c.get("goos", "linux")
    e["CGO_ENABLED"] = str(c.get("cgo", 1))
    if "cc" in c:
        e["CC"] = c["cc"]
    e.update(c.get("env", {}))
    return e


def cfg_flags(c):
    f = list(c.get("flags", []))
    if "tags" in c:
        f += ["-tags", c["tags"]]
    if "gcflags" in c:
        f += ["-gcflags", c["gcflags"]]
    return f


class Build:
    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.futs = {}
        self.pool = cf.ThreadPoolExecutor(4)

    def get(self, name):
        name = CONFIGS[name].get("build", name)
        with self.lock:
            if name not in self.futs:
                self.futs[name] = self.pool.submit(self._build, name)
            return self.futs[name]

    def _build(self, name):
        c = CONFIGS[name]
        out = os.path.join(self.work, "drv-" + name)
        if c.get("nosha1"):
            return self._nosha1(c, out)
        cmd = ["go", "build", "-modfile=" + os.path.join(self.work, "m.mod"), "-o", out] + cfg_flags(c) + ["./drv"]
        for attempt in range(2):
            r = sh(cmd, cfg_env(c), SRC)
            if r.returncode == 0 and os.path.exists(out):
                return dict(ok=True, path=out)
        lib = sh(["go", "build"] + cfg_flags(c) + ["./..."], cfg_env(c), REPO)
        return dict(ok=False, err=r.stdout[-3000:], lib_ok=lib.returncode == 0, lib_err=lib.stdout[-2000:])


    def _nosha1(self, c, out):
        """See CONFIGS. Not available (skip) unless the probe finds the disguise complete."""
        src = os.path.join(GOROOT, "src/runtime/os_linux.go")
        a = "\t\ttag, val := auxv[i], auxv[i+1]\n"
        txt = open(src).read()
        if txt.count(a) != 1:
            return dict(ok=False, skip="the runtime cannot be disguised")
        new = out + ".os_linux.go"
        with open(new, "w") as f:
            f.write(txt.replace(a, "\t\tif auxv[i] == 16 {\n\t\t\tauxv[i+1] &^= 1<<5 | 1<<11 // HWCAP_SHA1, HWCAP_CPUID\n\t\t}\n" + a))
        with open(out + ".json", "w") as f:
            json.dump({"Replace": {src: new}}, f)
        n = 0
        for pkg, o in (("./hwp", out + ".probe"), ("./drv", out)):
            r = sh(["go", "build", "-modfile=" + os.path.join(self.work, "m.mod"), "-overlay", out + ".json", "-o", o] + cfg_flags(c) + [pkg], cfg_env(c), SRC)
            if r.returncode:
                lib = sh(["go", "build"] + cfg_flags(c) + ["./..."], cfg_env(c), REPO)
                return dict(ok=False, err=r.stdout[-3000:], lib_ok=lib.returncode == 0, lib_err=lib.stdout[-2000:])
            k = drop_sha1(o)
            if pkg == "./hwp":
                r = sh(c["run"] + [o], cfg_env(c), self.work, 60)
                if r.returncode or "no-sha1 ok" not in r.stdout or not k:
                    return dict(ok=False, skip="the processor cannot be disguised: %s" % r.stdout[-300:])
            n = k
        return dict(ok=True, path=out, dropped=n)


def drop_sha1(path):
    """Make every arm64 SHA-1 instruction in the text section undefined; returns how many there were."""
    b = bytearray(open(path, "rb").read())
    shoff, = struct.unpack_from("<Q", b, 40)
    shsize, shnum, shstr = struct.unpack_from("<HHH", b, 58)
    secs = [struct.unpack_from("<IIQQQQ", b, shoff + i * shsize) for i in range(shnum)]
    stro = secs[shstr][4]
    n = 0
    for nm, _, _, _, off, size in secs:
        if bytes(b[stro + nm:stro + nm + 6]) != b".text\0":
            continue
        for o in range(off, off + size - 3, 4):
            w, = struct.unpack_from("<I", b, o)
            if w & 0xFF000000 != 0x5E000000:
                continue
            if w & 0xFFE0FC00 in (0x5E000000, 0x5E001000, 0x5E002000, 0x5E003000) or w & 0xFFFFFC00 in (0x5E280800, 0x5E281800):
                struct.pack_into("<I", b, o, 0)
                n += 1
    with open(path, "wb") as f:
        f.write(b)
    return n


def build_mon(work):
    out = os.path.join(work, "mon")
    e = base_env()
    e["CGO_ENABLED"] = "0"
    r = sh(["go", "build", "-o", out, "./mon"], e, SRC)
    if r.returncode:
        raise Inconclusive("cannot build the checker: " + r.stdout)
    return out


# ----------------------------------------------------------------------- running


def cpu_ticks(pid):
    try:
        s = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return int(s[11]) + int(s[12])
    except (OSError, IndexError):
        return None


def all_sleeping(pid):
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            s = open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()
            if s[0] not in "S":
                return False
        return True
    except (OSError, IndexError):
        return False


PROCS = set()
PLOCK = threading.Lock()


def run_proc(cmd, env, errpath, trace, deadline):
    """Run one driver. Returns (status, rc): status is exit, hang, deadlock or timeout."""
    with open(errpath, "wb") as ef:
        p = subprocess.Popen(cmd, env=env, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, start_new_session=True)
    with PLOCK:
        PROCS.add(p)
    tick = os.sysconf("SC_CLK_TCK")
    size, base, still, idle0 = -1, 0, 0, 0
    delay = 0.02
    status = "exit"
    try:
        while True:
            try:
                p.wait(delay)
                break
            except subprocess.TimeoutExpired:
                pass
            delay = min(delay * 1.5, 0.5)
            now = time.time()
            if now > deadline:
                status = "timeout"
                break
            try:
                sz = os.path.getsize(trace)
            except OSError:
                sz = -1
            t = cpu_ticks(p.pid) or 0
            if sz != size:
                size, base, still, idle0 = sz, t, 0, 0
                continue
            if (t - base) / tick > 200:
                status = "hang"
                break
            # A blocked process: every thread asleep, next to no CPU, for a minute on end.
            if all_sleeping(p.pid):
                if not still:
                    still, idle0 = now, t
                elif t - idle0 > 50:
                    still = 0
                elif now - still > 60:
                    status = "deadlock"
                    break
            else:
                still = 0
        if status != "exit":
            if status in ("hang", "deadlock"):
                try:
                    os.killpg(p.pid, signal.SIGQUIT)
                    p.wait(5)
                except (subprocess.TimeoutExpired, OSError):
                    pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    finally:
        with PLOCK:
            PROCS.discard(p)
    return status, p.returncode


INTERNAL = ("mmap:", "mprotect:", "out of memory", "cannot allocate memory", "no space left on device", "resource temporarily unavailable",
            "failed to create new OS thread", "drv:")
SAN_PAT = re.compile(r"ERROR: AddressSanitizer|runtime error:|WARNING: MemorySanitizer|ThreadSanitizer: data race|LeakSanitizer|WARNING: DATA RACE|checkptr:")


class Run:
    """One check run: builds, executes jobs, collects findings and coverage."""

    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.deadline = T0 + WALL[tier]
        self.build = Build(work)
        self.mon = build_mon(work)
        self.findings = []
        self.notes = []
        self.problems = []
        self.sigs = set()
        self.evals = self.events = 0
        self.counts, self.families, self.cfgstat = {}, {}, {}
        self.samples = []
        self.inter = set()
        self.overlaps = 0
        self.maxlanes = 0
        self.san_runs = {}
        self.lock = threading.Lock()
        self.extra = {}
        self.wls = {}
        self.meas = {}

    def gen(self, group):
        path = os.path.join(self.work, group + ".wl")
        r = subprocess.run([self.mon, "gen", "-p", self.prop, "-g", group, "-tier", self.tier, "-seed", str(self.seed),
                            "-data", os.path.join(VERIF, "data"), "-o", path], capture_output=True, text=True)
        if r.returncode:
            raise Inconclusive("generator: " + r.stderr)
        self.wls[group] = (path, int(r.stdout))

    def check_trace(self, wlpath, trace):
        cmd = [self.mon, "check", "-w", wlpath, "-t", trace]
        if self.prop in LENIENT:
            cmd.append("-lenient")
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=max(60, self.deadline - time.time() + 60))
        if r.returncode:
            raise Inconclusive("checker: " + (r.stderr or r.stdout)[-500:])
        res = json.loads(r.stdout)
        for k in ("findings", "sigs", "table", "table_c", "samples"):
            res[k] = res[k] or []
        for k in ("stats", "families", "counts"):
            res[k] = res[k] or {}
        return res

    def one(self, cfg, bpath, wlpath, shard, tag, only=None):
        """Execute and judge one shard once. Returns (result, crash-or-None)."""
        c = CONFIGS[cfg]
        stem = os.path.join(self.work, re.sub(r"[^A-Za-z0-9._-]", "_", tag))
        trace, err = stem + ".tr", stem + ".err"
        skip = 0
        if c.get("emu"):
            skip |= FLAG_SLOW
        if c.get("small"):
            skip |= FLAG_BIG
        env = base_env()
        if c.get("emu"):
            env["GODEBUG"] = "asyncpreemptoff=1"
            env["GOMAXPROCS"] = "4"
        logs = stem + ".san"
        san = c.get("san")
        if san == "race":
            env["GORACE"] = "halt_on_error=0 exitcode=66 history_size=5 log_path=" + logs
        elif san == "asan":
            env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=67"
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        elif san == "ubsan":
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        elif san == "msan":
            env["MSAN_OPTIONS"] = "halt_on_error=1:exitcode=68"
        env["GOTRACEBACK"] = "all"
        env.update(c.get("renv", {}))
        cmd = c.get("run", []) + [bpath, "-w", wlpath, "-o", trace, "-skip", str(skip)]
        if only is None and "-cold-" in tag:
            only = shard[0]
            cmd.append("-cold")
        cmd += ["-only", str(only)] if only is not None else ["-shard", "%d/%d" % shard]
        for f in [trace] + glob.glob(logs + "*"):
            if os.path.exists(f):
                os.unlink(f)
        status, rc = run_proc(cmd, env, err, trace, self.deadline)
        if status == "timeout":
            raise Inconclusive("%s: wall-clock limit reached" % tag)
        etxt = open(err, errors="replace").read()
        santxt = "".join(open(f, errors="replace").read() for f in glob.glob(logs + "*"))
        if not os.path.exists(trace):
            open(trace, "wb").close()
        res = self.check_trace(wlpath, trace)
        crash = None
        if status in ("hang", "deadlock"):
            crash = dict(kind=status, detail="no progress inside one case: " + ("over 200 CPU seconds" if status == "hang" else "every thread blocked") + "\n" + etxt[-1500:])
        elif SAN_PAT.search(etxt) or SAN_PAT.search(santxt):
            crash = dict(kind="sanitizer", detail=(santxt + etxt)[:4000])
        elif rc != 0:
            if rc == 3 or rc == -signal.SIGKILL or rc == 137 or any(x in etxt for x in INTERNAL):
                raise Inconclusive("%s: driver ended with %s: %s" % (tag, rc, etxt[-400:]))
            crash = dict(kind="crash", detail="exit status %s\n%s" % (rc, etxt[:3000]))
        elif not res["complete"]:
            crash = dict(kind="crash", detail="the driver ended early with status 0 inside a case")
        if res["self_err"]:
            raise Inconclusive("reference model: " + res["self_err"])
        for f in [trace, err]:
            if os.path.exists(f):
                os.unlink(f)
        return res, crash

    def job(self, group, cfg, shard, b):
        wlpath, ncases = self.wls[group]
        tag = "%s-%s-%s-%d" % (self.prop, group, cfg, shard[0])
        if time.time() > self.deadline:
            raise Inconclusive("wall-clock limit reached before " + tag)
        t = time.time()
        res, crash = self.one(cfg, b["path"], wlpath, shard, tag)
        c = CONFIGS[cfg]
        if c.get("emu") and (crash or res["n_findings"]):
            # The emulator is not ours to judge: what it shows must come back.
            def sig(r, cr):
                return (cr["kind"] if cr else "", r["crashed_case"], tuple((f["kind"], f["case"], f["op"]) for f in r["findings"]))
            want, same, bad = sig(res, crash), 1, 1
            for i in range(2):
                r2, c2 = self.one(cfg, b["path"], wlpath, shard, "%s-again%d" % (tag, i))
                if c2 or r2["n_findings"]:
                    bad += 1
                    if sig(r2, c2) == want:
                        same += 1
                    res, crash = r2, c2
            if bad < 2:
                self.note("%s: a report under emulation did not come back in two more runs, discarded: %s" % (tag, want))
                res, crash = self.one(cfg, b["path"], wlpath, shard, tag + "-final")
        with self.lock:
            cs = self.cfgstat.setdefault(cfg, dict(cases=0, events=0, live_go=None, live_c=None, arch=res["arch"], go=res["go"], cgo=res["cgo"], driver_s=0.0))
            cs["cases"] += res["cases"]
            cs["events"] += res["events"]
            cs["driver_s"] = round(cs["driver_s"] + time.time() - t, 2)
            if res["crashed_case"] != -2:
                cs["live_go"], cs["live_c"] = res["live_go"], res["live_c"]
            self.evals += res["cases"]
            self.events += res["events"]
            self.sigs.update(res["sigs"] or [])
            for k, v in res["counts"].items():
                self.counts[k] = self.counts.get(k, 0) + v
            for k, v in res["families"].items():
                self.families[k] = self.families.get(k, 0) + v
            st = res["stats"] or {}
            self.inter.update(st.get("Interleavings") or [])
            self.overlaps += st.get("OverlapPairs", 0)
            self.maxlanes = max(self.maxlanes, st.get("MaxLanes", 0))
            if c.get("san"):
                self.san_runs[c["san"]] = self.san_runs.get(c["san"], 0) + res["cases"]
            if len(self.samples) < 12:
                for s in res["samples"] or []:
                    if len(self.samples) < 12 and s.split(":")[0] not in [x.split(":")[0] for x in self.samples]:
                        self.samples.append(s)
            if crash:
                ci = res["crashed_case"]
                self.findings.append(dict(kind=crash["kind"], config=cfg, group=group, case=ci, family=res["crash_family"], note=res["crash_note"], detail=crash["detail"]))
            for f in res["findings"] or []:
                self.findings.append(dict(f, config=cfg, group=group))
            if self.prop in TABLE and res["crashed_case"] != -2:
                for where, key in (("Go table", "table"), ("C table", "table_c")):
                    for p in res[key] or []:
                        self.findings.append(dict(kind="table", config=cfg, group=group, case=-1, family="table", note=where, detail=where + ": " + p))
                self.extra["table_entries_compared"] = max(self.extra.get("table_entries_compared", 0), res["table_seen"] + res["table_c_seen"])

    def note(self, s):
        with self.lock:
            self.notes.append(s)

    def build_failed(self, cfg, b):
        """The driver does not build: is that the code's doing?"""
        nat = self.build.get("native").result()
        name = CONFIGS[cfg].get("build", cfg)
        text = b.get("lib_err") or b.get("err") or ""
        if nat["ok"] and name != "native":
            c = CONFIGS[name]
            if self.prop == "C14" and c.get("cgo", 1) == 0 and re.search(r"undefined: cgo\.|cgo\.\w+|cannot use|/cgo/", b["err"]):
                self.findings.append(dict(kind="build", config=cfg, group="build", case=-1, family="build",
                                          note="program using the cgo package builds with cgo but not without", detail=b["err"]))
                return
            if self.prop == "C05" and not b["lib_ok"] and REPO in (b["lib_err"] + b["err"]) + REPO * bool(re.search(r"^\S+\.(go|s|c):\d+", b["lib_err"], re.M)):
                self.findings.append(dict(kind="build", config=cfg, group="build", case=-1, family="build", note="does not build in this configuration", detail=b["lib_err"]))
                return
        self.problems.append("cannot build %s: %s" % (cfg, text[-600:]))

    def run_plan(self, plan):
        groups = sorted({g for g, _ in plan})
        with cf.ThreadPoolExecutor(4) as gp:
            list(gp.map(self.gen, groups))
        cfgs = []
        for _, c in plan:
            if c not in cfgs:
                cfgs.append(c)
        bf = {c: self.build.get(c) for c in cfgs}
        self.build.get("native")
        pool = cf.ThreadPoolExecutor(NCPU)
        pend = []
        left = list(plan)
        failed = set()
        while left:
            moved = False
            for item in list(left):
                g, c = item
                if not bf[c].done():
                    continue
                left.remove(item)
                moved = True
                b = bf[c].result()
                if "dropped" in b:
                    self.extra["arm64_sha1_instructions_made_undefined"] = b["dropped"]
                if not b["ok"]:
                    if c not in failed and b.get("skip"):
                        failed.add(c)
                        self.note("%s skipped: %s" % (c, b["skip"]))
                    elif c not in failed:
                        failed.add(c)
                        self.build_failed(c, b)
                    continue
                n = self.shards(g, c)
                for i in range(n):
                    pend.append(pool.submit(self.job, g, c, (i, n), b))
            if not moved:
                time.sleep(0.05)
            if time.time() > self.deadline:
                raise Inconclusive("wall-clock limit reached while building")
        for f in pend:
            try:
                f.result()
            except Inconclusive as e:
                self.problems.append(str(e))
            except Exception as e:  # a fault of the check, never a verdict
                self.problems.append("".join(traceback.format_exception(e))[-1500:])
        pool.shutdown()

    def shards(self, g, c):
        n = self.wls[g][1]
        if g == "cold":
            return n
        k = 1 if g.startswith(("zero", "cross")) else 2
        if CONFIGS[c].get("emu") or CONFIGS[c].get("san") or "gcstress" in c or "noopt" in c:
            k = 4
        if g in ("bulk", "count", "ladder"):
            k = 6
        if self.prop == "C10":
            k = 2
        if self.tier == "thorough" and not g.startswith(("zero", "cross")):
            k *= 3
        return max(1, min(k, n))


# ------------------------------------------------------ C code under ThreadSanitizer


def c_threads(run):
    """The C library under ThreadSanitizer, driven from several threads."""
    srcs = sorted(glob.glob(os.path.join(REPO, "cgo", "*.c")))
    e = base_env()
    e["TSAN_OPTIONS"] = "halt_on_error=0 exitcode=66"
    for opt in ("-O1", "-O0"):  # an optimiser may remove shared variables
        out = os.path.join(run.work, "cthreads" + opt)
        r = sh(["clang", "-g", opt, "-fsanitize=thread", "-I" + os.path.join(REPO, "cgo"), "-o", out, os.path.join(VERIF, "csrc", "threads.c")] + srcs + ["-lpthread"], e, run.work)
        if r.returncode:
            run.note("the C sources did not build with the ThreadSanitizer harness, skipped: " + r.stdout[-300:])
            return
        rounds = {"quick-O1": "60", "quick-O0": "20"}.get(run.tier + opt, "1500" if opt == "-O1" else "400")
        for s in range(1 if run.tier == "quick" else 4):
            p = subprocess.run([out, os.path.join(VERIF, "data"), rounds, str(run.seed + s)], env=e, capture_output=True, text=True, errors="replace", timeout=max(30, run.deadline - time.time()))
            m = re.search(r"events (\d+) mismatches (\d+)", p.stdout)
            if "ThreadSanitizer: data race" in p.stderr or (m and int(m.group(2))):
                run.findings.append(dict(kind="c-threads", config="c-tsan", group="c-tsan", case=-1, family="c-tsan", note="C library from several threads (%s)" % opt, detail=(p.stdout + p.stderr)[:4000]))
                return
            if not m or p.returncode:
                if "FATAL" in p.stderr:  # the tool could not start here
                    run.note("ThreadSanitizer harness: " + p.stderr[:300])
                    return
                raise Inconclusive("ThreadSanitizer harness ended with %s: %s" % (p.returncode, (p.stdout + p.stderr)[-500:]))
            run.extra["c_tsan_hashes"] = run.extra.get("c_tsan_hashes", 0) + int(m.group(1))


# ------------------------------------------------- the C library on its own

FS = ["-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-fno-pic", "-nostdlibinc"]
SANF = ["-g", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]
CLIB = {
    "c-gcc-O2": dict(cc=["gcc", "-O2"]),
    "c-gcc-O3": dict(cc=["gcc", "-O3", "-march=x86-64-v2", "-funsigned-char", "-DSHA1DC_FORCE_ALIGNED_ACCESS"]),
    "c-clang-O0": dict(cc=["clang", "-O0"]),
    "c-clang-O3": dict(cc=["clang", "-O3"]),
    "c-asan": dict(cc=["clang", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment"] + SANF, san="asan"),
    "c-ubsan": dict(cc=["gcc", "-O1", "-fsanitize=undefined", "-DSHA1DC_FORCE_ALIGNED_ACCESS"] + SANF, san="ubsan"),
    "c-msan": dict(cc=["clang", "-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins"] + SANF, san="msan"),
    "c-arm64": dict(cc=["aarch64-linux-gnu-gcc", "-O2", "-static"], run=["qemu-aarch64"]),
    "c-arm": dict(cc=["arm-linux-gnueabihf-gcc", "-O2", "-static"], run=["qemu-arm"]),
    "c-s390x": dict(target="s390x-linux-gnu", run=["qemu-s390x"], be=True),
    "c-mips": dict(target="mips-linux-gnu", flags=["-mno-abicalls", "-G0"], run=["qemu-mips"], be=True),
    "c-ppc64": dict(target="powerpc64-linux-gnu", flags=["-mabi=elfv2"], run=["qemu-ppc64"], be=True),
    "c-ppc64le": dict(target="powerpc64le-linux-gnu", flags=["-mabi=elfv2"], run=["qemu-ppc64le"]),
    "c-riscv64": dict(target="riscv64-linux-gnu", flags=["-march=rv64gc", "-mabi=lp64d"], run=["qemu-riscv64"]),
    "c-i386": dict(target="i386-linux-gnu", run=["qemu-i386"]),
    "c-i386-native": dict(target="i386-linux-gnu"),
    "c-mipsel": dict(target="mipsel-linux-gnu", flags=["-mno-abicalls", "-G0"], run=["qemu-mipsel"]),
}
CLIB_PLAN = {"C12": dict(quick=["c-i386-native"], thorough=["c-i386-native", "c-arm", "c-mips", "c-s390x", "c-gcc-O2"]),
             "C16": dict(quick=list(CLIB), thorough=list(CLIB)),
             "C05": dict(quick=["c-s390x", "c-mips", "c-ppc64", "c-riscv64", "c-i386", "c-gcc-O2"], thorough=["c-s390x", "c-mips", "c-ppc64", "c-riscv64", "c-i386", "c-gcc-O2", "c-ppc64le", "c-mipsel"])}


def clib_build(run, name):
    c = CLIB[name]
    cs = os.path.join(VERIF, "csrc")
    repo = sorted(glob.glob(os.path.join(REPO, "cgo", "*.c")))
    out = os.path.join(run.work, name)
    e = base_env()
    if "target" not in c:
        return out, sh(c["cc"] + ["-I" + cs, "-I" + os.path.join(REPO, "cgo"), "-o", out, os.path.join(cs, "cdrv.c"), os.path.join(cs, "hosted.c")] + repo, e, run.work)
    objs = []
    for f in [os.path.join(cs, "cdrv.c"), os.path.join(cs, "fs", "start.c")] + repo:
        o = out + "-" + os.path.basename(f) + ".o"
        r = sh(["clang", "--target=" + c["target"], "-O2"] + c.get("flags", []) + FS + ["-isystem", os.path.join(cs, "fs"), "-I" + cs, "-I" + os.path.join(REPO, "cgo"), "-c", f, "-o", o], e, run.work)
        if r.returncode:
            return out, r
        objs.append(o)
    ld = os.path.join(run.work, "ld.lld")
    with run.lock:
        if not os.path.lexists(ld):
            os.symlink(shutil.which("lld", path="/usr/bin:/usr/lib/llvm-18/bin") or "/usr/bin/lld", ld)
    return out, sh([ld, "-static", "-o", out] + objs, e, run.work)


def c_lib(run):
    """The C library driven directly, on many targets, judged by the model."""
    stream = os.path.join(run.work, "clib.in")
    r = subprocess.run([run.mon, "cgen", "-p", run.prop, "-tier", run.tier, "-seed", str(run.seed), "-data", os.path.join(VERIF, "data"), "-o", stream], capture_output=True, text=True)
    if r.returncode:
        raise Inconclusive("generator: " + r.stderr)
    names = [n for n in CLIB_PLAN[run.prop][run.tier] if not CLIB[n].get("run") or shutil.which(CLIB[n]["run"][0])]

    def one(name):
        c = CLIB[name]
        out, r = clib_build(run, name)
        if r.returncode:
            run.note("the C sources did not build for %s, skipped: %s" % (name, r.stdout[-300:]))
            return name, False
        e = base_env()
        e.update(ASAN_OPTIONS="detect_leaks=1:exitcode=67", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", MSAN_OPTIONS="exitcode=68")
        bad = []
        for i in range(3):
            tr = os.path.join(run.work, name + ".tr")
            with open(stream, "rb") as fi, open(tr, "wb") as fo:
                try:
                    p = subprocess.run(c.get("run", []) + [out], stdin=fi, stdout=fo, stderr=subprocess.PIPE, env=e, timeout=300 if run.tier == "quick" else 1500)
                except subprocess.TimeoutExpired:
                    raise Inconclusive(name + ": time limit")
                except OSError:
                    if name != "c-i386-native" or not shutil.which("qemu-i386"):
                        raise
                    c = dict(c, run=["qemu-i386"])  # no 32-bit programs on this kernel
                    continue
            err = p.stderr.decode(errors="replace")
            if p.returncode == 3 or p.returncode in (-9, 137):
                raise Inconclusive("%s: harness ended with %d %s" % (name, p.returncode, err[-300:]))
            k = subprocess.run([run.mon, "ccheck", "-i", stream, "-t", tr], capture_output=True, text=True)
            os.unlink(tr)
            if k.returncode:
                raise Inconclusive("checker: " + (k.stderr or k.stdout)[-500:])
            res = json.loads(k.stdout)
            if "LeakSanitizer has encountered a fatal error" in err:  # not permitted to inspect itself here
                e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=67"
                continue
            if res["NFindings"] == 0 and res["Complete"] and p.returncode == 0:
                break
            d = "\n".join(res["Findings"] or [])
            if p.returncode or not res["Complete"]:
                d = "ended with status %s in case %d\n%s\n%s" % (p.returncode, res["Case"], err[:2500], d)
            bad.append(d)
            if not c.get("run"):
                break
        with run.lock:
            run.cfgstat[name] = dict(cases=res["Cases"], events=res["Ops"], table_entries=res["DVs"])
            run.evals += res["Cases"]
            run.events += res["Ops"]
            run.sigs.update(res["Sigs"] or [])
            for a, b in (("Digests", "digests"), ("Flagged", "flagged_digests"), ("Masks", "masks"), ("Blocks", "blocks"), ("Passing", "recompressed_blocks"),
                         ("Detected", "detected_blocks"), ("OptSwitches", "option_switches")):
                run.counts[b] = run.counts.get(b, 0) + res[a]
            run.families["c-library"] = run.families.get("c-library", 0) + res["Cases"]
            if c.get("san"):
                run.san_runs[c["san"]] = run.san_runs.get(c["san"], 0) + res["Cases"]
            if len(bad) > (1 if c.get("run") else 0):
                run.findings.append(dict(kind="c-library", config=name, group="clib", case=-1, family="c-library", note="C library driven directly", detail=bad[-1]))
        return name, True

    with cf.ThreadPoolExecutor(4) as ex:
        done = list(ex.map(one, names))
    notes = json.load(open(stream + ".notes"))
    run.samples += ["C library, case %d: %s" % (i, notes[i]) for i in range(0, len(notes), max(1, len(notes) // 6))][:6]
    run.extra["c_library_targets"] = sum(1 for _, ok in done if ok)
    if not any(ok for _, ok in done) and run.prop == "C16":
        raise Inconclusive("the C library could not be built for any target")


# ------------------------------------------------------------------ resources

RES_PLAN = dict(quick=["native", "noasm", "nocgo"], thorough=["native", "noasm", "nocgo", "clang", "go1.24", "go1.27"])


def resources(run):
    """Memory, handles and CPU time under equal or growing amounts of work."""
    worst = os.path.join(run.work, "worst.bin")
    if subprocess.run([run.mon, "worst", worst]).returncode:
        raise Inconclusive("generator")
    total = 0
    for name in RES_PLAN[run.tier]:
        if not available(name):
            run.note(name + " skipped: its tools are not installed")
            continue
        c = CONFIGS[name]
        out = os.path.join(run.work, "res-" + name)
        r = sh(["go", "build", "-modfile=" + os.path.join(run.work, "m.mod"), "-o", out] + cfg_flags(c) + ["./res"], cfg_env(c), SRC)
        if r.returncode:
            raise Inconclusive("cannot build the resource harness: " + r.stdout[-500:])
        over = None
        for attempt in range(3):
            with open(os.path.join(run.work, "res.err"), "w+") as ef:
                p = subprocess.Popen([out, str(run.seed), "1" if run.tier == "quick" else "6", os.path.join(VERIF, "data"), worst], env=base_env(), stdout=subprocess.PIPE, stderr=ef, text=True, start_new_session=True)
                with PLOCK:
                    PROCS.add(p)
                try:
                    so, _ = p.communicate(timeout=240 if run.tier == "quick" else 900)
                    late = False
                except subprocess.TimeoutExpired:
                    late = (cpu_ticks(p.pid) or 0) / os.sysconf("SC_CLK_TCK")
                    os.killpg(p.pid, signal.SIGKILL)
                    so, _ = p.communicate()
                    if late < 150:
                        raise Inconclusive("the resource harness got %d s of CPU in the time it had" % late)
                finally:
                    with PLOCK:
                        PROCS.discard(p)
                ef.seek(0)
                err = ef.read()
            m = re.search(r"^RESULT (.*)$", so, re.M)
            bad = {}
            if late:
                bad["time"] = "the whole of it did not end within 240 s (it takes about 20)"
            elif not m:
                if p.returncode == 3 or p.returncode == -9:
                    raise Inconclusive("resource harness ended with %s: %s" % (p.returncode, (so + err)[-300:]))
                bad["crash"] = "ended with %s: %s" % (p.returncode, err[:1500])
            else:
                res = json.loads(m.group(1))
                total += res["Calls"]
                for x in res["Meas"]:
                    key = "%s/%s" % (x["Kind"], x["Name"])
                    run.sigs.add(int(hashlib.sha1((name + key).encode()).hexdigest()[:15], 16))
                    run.evals += 1
                    run.meas.setdefault("%s %s" % (name, key), []).append(round(x["Value"], 3))
                    if x["Value"] > x["Limit"]:
                        bad[key] = "%s: %s: %.4g, limit %.4g" % (key, x["Text"], x["Value"], x["Limit"])
                if len(run.samples) < 12:
                    run.samples += ["%s %s: %s: %.4g (limit %.4g)" % (name, x["Kind"], x["Text"], x["Value"], x["Limit"]) for x in res["Meas"][:5]]
            over = bad if over is None else {k: v for k, v in bad.items() if k in over}
            if not over or (late and attempt):  # twice is enough of that
                break
        run.cfgstat[name] = dict(cases=len(res["Meas"]) if m else 0, events=total)
        for k, v in (over or {}).items():
            run.findings.append(dict(kind="resources", config=name, group="res", case=-1, family="resources", note="in every run", detail=v))
        if run.findings:
            break
    run.events += total
    run.extra["calls_measured"] = total


# ------------------------------------------------------- coverage-guided histories

FZ_FEAT = {
    "C01": "go,cgo,reset,marsh,pass", "C02": "go,cgo,att,marsh,reset,pass", "C03": "go,cgo,inj,pass,att", "C04": "go,cgo,mask,maskonly",
    "C05": "go,cgo,inj,pass,att,marsh,bad,mask,reset", "C06": "go,cgo,inj,pass,att", "C07": "go,cgo,inj,pass,att,reset,marsh", "C08": "go,inj,pass,att,reset,marsh",
    "C09": "go,marsh,bad,reset,att", "C11": "go,cgo,inj,pass,att,marsh,bad,mask,reset", "C12": "go,cgo,marsh", "C14": "cgo,inj,pass,att,reset,mask",
    "C15": "go,cgo,inj,pass,att,marsh",
}
FZ_TIME = dict(quick=35, thorough=900)
FZ_COUNTERS = ["inputs", "events", "digests", "flagged_digests", "blocks", "detected_blocks", "states_saved", "states_rejected", "masks", "inputs_with_injection_go", "inputs_with_injection_c"]


def fz_build(run):
    outs = {}
    for name, tags in (("native", "libfuzzer"), ("noasm", "libfuzzer,noasm")):
        e = base_env()
        e.update(CC="clang", CGO_ENABLED="1", CGO_CFLAGS="-O1 -g -fsanitize=fuzzer-no-link")
        a, out = os.path.join(run.work, "fz-%s.a" % name), os.path.join(run.work, "fz-" + name)
        r = sh(["go", "build", "-modfile=" + os.path.join(run.work, "m.mod"), "-tags", tags, "-gcflags=github.com/pjbgf/sha1cd/...=-d=libfuzzer", "-buildmode=c-archive", "-o", a, "./fz"], e, SRC)
        if r.returncode == 0:
            r = sh(["clang", "-fsanitize=fuzzer", "-o", out, a], e, run.work)
        if r.returncode:
            run.note("the coverage-guided driver did not build (%s), skipped: %s" % (name, r.stdout[-300:]))
        else:
            outs[name] = out
    return outs


def fz_env(run, i):
    e = base_env()
    e.update(FZ_FEAT=FZ_FEAT[run.prop], FZ_DATA=os.path.join(VERIF, "data"), FZ_STAT=os.path.join(run.work, "fz-stat-%s" % i))
    return e


FZ_OPTS = ["-rss_limit_mb=0", "-malloc_limit_mb=0", "-detect_leaks=0", "-handle_segv=0", "-handle_bus=0", "-handle_fpe=0", "-handle_ill=0", "-handle_abrt=0", "-timeout=240"]


def fuzz(run):
    """libFuzzer proposes the histories, the model judges every call of them."""
    if run.findings:
        return
    outs = fz_build(run)
    if not outs:
        return
    rnd = random.Random(run.seed * 7919 + 3)
    corpus = os.path.join(run.work, "fz-corpus")
    os.makedirs(corpus)
    for i in range(150):
        b = bytearray([rnd.randrange(256)])
        for _ in range(rnd.randrange(1, 14)):
            o = rnd.choice([0, 1, 1, 1, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 13])
            b += bytes([o, rnd.randrange(4), rnd.randrange(256)])
            if o in (1, 2, 3, 9, 11, 12):
                n = rnd.choice([0, 1, 55, 56, 63, 64, 65, 128, 320, 640, 1000, rnd.randrange(64), rnd.randrange(700), rnd.randrange(700), 1 << rnd.randrange(14 if i % 10 else 21)])
                b += bytes([rnd.randrange(8), rnd.randrange(256)][: 1 if o == 9 else 2]) + n.to_bytes(8, "little")
            b += bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 0, 0, 20, 64])))
        with open(os.path.join(corpus, "s%d" % i), "wb") as fh:
            fh.write(b)
    limit = min(int(os.environ.get("VERIF_FZ_SECONDS", FZ_TIME[run.tier])), run.deadline - time.time() - 60)
    if limit < 5:
        run.note("no time left for the coverage-guided histories")
        return
    ps = []
    for i in range(8):
        name = "noasm" if i % 2 and "noasm" in outs else "native" if "native" in outs else "noasm"
        ef = open(os.path.join(run.work, "fz-err-%d" % i), "w+b")
        p = subprocess.Popen([outs[name], "-seed=%d" % (run.seed * 100 + i + 1), "-max_total_time=%d" % limit, "-max_len=%d" % (500 if i < 6 else 2500), "-len_control=%d" % (20 if i < 4 else 0),
                              "-use_value_profile=%d" % (i // 2 % 2), "-entropic_scale_per_exec_time=1", "-print_final_stats=1", "-artifact_prefix=%s/" % run.work] + FZ_OPTS + [corpus],
                             env=fz_env(run, i), stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, start_new_session=True, cwd=run.work)
        with PLOCK:
            PROCS.add(p)
        ps.append((i, name, p, ef))
    cov = dict(processes=8, seconds=round(limit), edges={}, features={})
    for i, name, p, ef in ps:
        late = False
        try:
            p.wait(limit + 400)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            late = True
        with PLOCK:
            PROCS.discard(p)
        ef.seek(0)
        err = ef.read().decode(errors="replace")
        ef.close()
        try:
            st = open(os.path.join(run.work, "fz-stat-%d" % i), "rb").read()
        except OSError:
            st = b""
        if len(st) < 2048:
            run.problems.append("coverage-guided driver did not start: " + err[-300:])
            continue
        for j, c in enumerate(FZ_COUNTERS):
            n = int.from_bytes(st[8 * j:8 * j + 8], "little")
            cov[c] = cov.get(c, 0) + n
        for m in re.finditer(r"cov: (\d+) ft: (\d+)", err):
            cov["edges"][name], cov["features"][name] = max(cov["edges"].get(name, 0), int(m.group(1))), max(cov["features"].get(name, 0), int(m.group(2)))
        if p.returncode == 0:
            continue
        if late or p.returncode == 3 or p.returncode in (-9, 137):
            run.problems.append("coverage-guided driver ended with %s: %s" % (p.returncode, err[-300:]))
            continue
        data = st[1032:1032 + int.from_bytes(st[1024:1032], "little")]
        d = re.search(r"^(FINDING .*|panic: .*|fatal error: .*|.*ERROR: libFuzzer.*)", err, re.M | re.S)
        if not re.search(r"^(FINDING |panic: )", err, re.M):
            if any(x in err.lower() for x in INTERNAL):
                run.problems.append("coverage-guided driver: " + err[-300:])
                continue
            if "libFuzzer: timeout" in err and not fz_replay(run, dict(config="fz-" + name, fuzz_input=data.hex())):
                run.problems.append("coverage-guided driver: slow input that is not slow again")
                continue
        run.findings.append(dict(kind="history", config="fz-" + name, group="fuzz", case=-1, family="coverage-guided", note="history proposed by libFuzzer", fuzz_input=data.hex(),
                                 detail=(d.group(1) if d else err[-2500:])[:2500]))
    run.extra["coverage_guided"] = cov
    run.evals += cov.get("inputs", 0)
    run.events += cov.get("events", 0)
    shutil.rmtree(corpus, ignore_errors=True)


def fz_replay(run, info):
    outs = fz_build(run)
    p = outs.get(info["config"][3:])
    if not p:
        return []
    f = os.path.join(run.work, "in")
    with open(f, "wb") as fh:
        fh.write(bytes.fromhex(info["fuzz_input"]))
    e = fz_env(run, "r")
    e["FZ_TRACE"] = "1"
    r = subprocess.run([p] + FZ_OPTS + [f], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=run.work)
    out = r.stdout.decode(errors="replace")
    print(out[:8000])
    return [dict(detail=out[-500:])] if r.returncode else []


# --------------------------------------------- the assembly, each argument on its own


def asm_guard(run):
    """Call the assembly block function with every argument between guard pages."""
    for arch, cmd in (("amd64", QX + ["max"]), ("arm64", ["qemu-aarch64", "-cpu", "max"])):
        fns = set()
        for f in glob.glob(os.path.join(REPO, "*_%s.go" % arch)):
            fns |= set(re.findall(r"^func (\w+)\(\w+ \[\]uint32, \w+ \[\]byte, \w+ \[\]uint32, \w+ \[\]\[5\]uint32\)$", open(f).read(), re.M))
        if len(fns) != 1 or not shutil.which(cmd[0]):
            run.note("no %s assembly with the expected signature, not called directly" % arch)
            continue
        fn = fns.pop()
        ov = os.path.join(run.work, "asm-%s.json" % arch)
        og = os.path.join(run.work, "asm-%s.go" % arch)
        with open(og, "w") as fh:
            fh.write("//go:build !noasm && gc && %s\n\npackage sha1cd\n\nfunc verifRegs(h []uint32, p []byte, m1 []uint32, cs [][5]uint32, x uint64) (ok bool)\n\n"
                     "func VerifAsm(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) { %s(h, p, m1, cs) }\n\n"
                     "func VerifRegs(h []uint32, p []byte, m1 []uint32, cs [][5]uint32, x uint64) bool { return verifRegs(h, p, m1, cs, x) }\n" % (arch, fn))
        with open(os.path.join(VERIF, "asm", "regs_%s.s" % arch)) as fi, open(os.path.join(run.work, "regs_%s.s" % arch), "w") as fh:
            fh.write("//go:build !noasm && gc\n\n" + fi.read().replace("@FN@", fn))
        with open(ov, "w") as fh:
            json.dump({"Replace": {os.path.join(REPO, "zz_verif_asm_%s.go" % arch): og, os.path.join(REPO, "zz_verif_regs_%s.s" % arch): os.path.join(run.work, "regs_%s.s" % arch)}}, fh)
        out = os.path.join(run.work, "asmg-" + arch)
        e = base_env()
        e.update(GOARCH=arch, CGO_ENABLED="0")
        r = sh(["go", "build", "-modfile=" + os.path.join(run.work, "m.mod"), "-overlay", ov, "-o", out, "./asmg"], e, SRC)
        if r.returncode:
            run.note("%s cannot be called directly: %s" % (fn, r.stdout[-300:]))
            continue
        e["GODEBUG"] = "asyncpreemptoff=1"
        bad = []
        for i in range(3):
            p = subprocess.run(cmd + [out, str(run.seed), "4000" if run.tier == "quick" else "100000"], env=e, capture_output=True, text=True, errors="replace",
                               timeout=max(60, run.deadline - time.time()))
            m = re.search(r"calls (\d+) bad (\d+)", p.stdout)
            if p.returncode == 3:
                raise Inconclusive("assembly harness: " + p.stdout[-300:])
            if m and p.returncode == 0 and int(m.group(2)) == 0:
                run.extra["asm_calls_" + arch] = int(m.group(1))
                k = re.search(r"regs (\d+)", p.stdout)
                run.extra["asm_calls_with_arbitrary_registers_" + arch] = int(k.group(1)) if k else 0
                break
            bad.append((p.stdout + p.stderr)[:3000])
        if len(bad) > 1:
            run.findings.append(dict(kind="asm-memory", config="asm-" + arch, group="asm", case=-1, family="asm", note=fn + " called with every argument between guard pages", detail=bad[-1]))


# ------------------------------------------------------------------------- verdict


def save_replay(run, f):
    key = hashlib.sha1(json.dumps([f["kind"], f["config"], f["group"], f["case"], run.seed, run.tier]).encode()).hexdigest()[:10]
    d = os.path.join(VERIF, "replays", "%s-%s" % (run.prop, key))
    os.makedirs(d, exist_ok=True)
    if f.get("case", -1) >= 0 and f["group"] in run.wls:
        subprocess.run([run.mon, "cut", "-w", run.wls[f["group"]][0], "-c", str(f["case"]), "-o", os.path.join(d, "case.wl")])
    with open(os.path.join(d, "info.json"), "w") as fh:
        json.dump(dict(property=run.prop, tier=run.tier, seed=run.seed, **f), fh, indent=1)
    return os.path.relpath(d, VERIF)


def describe(f):
    s = "[%s/%s] %s %s" % (f["config"], f.get("group", ""), f["kind"], f.get("family", ""))
    if f.get("note"):
        s += " (%s)" % f["note"]
    if "expected" in f:
        s += "\n  op %d: %s\n  expected %s\n  got      %s" % (f.get("op", -1), f.get("op_text", ""), f["expected"], f["got"])
    if f.get("detail"):
        s += "\n  " + f["detail"][:1500].replace("\n", "\n  ")
    return s


def evidence(run, plan):
    cov = dict(
        evaluations=run.evals, distinct_nontrivial=len(run.sigs), rule=RULES["default"], samples=run.samples[:12], exhaustive=False,
        events_compared=run.events, observed=run.counts, cases_by_family=run.families, configurations=run.cfgstat,
        jobs=["%s@%s" % j for j in plan])
    if run.overlaps:
        cov.update(overlapping_call_pairs=run.overlaps, distinct_interleavings=len(run.inter), max_concurrent_lanes=run.maxlanes)
    if run.san_runs:
        cov["cases_under_sanitizer"] = run.san_runs
    if run.meas:
        cov["measurements"] = run.meas
    cov.update(run.extra)
    if run.notes:
        cov["notes"] = run.notes
    ev = dict(property=run.prop, tier=run.tier, seed=run.seed, level="exploration", coverage=cov,
              assumptions=["the reference model (src/ref) states SHA-1, the 32 disturbance vectors and their unavoidable bit conditions correctly; it is cross-checked against crypto/sha1 on every known unflagged message",
                           "qemu user-mode emulation executes foreign instruction sets faithfully; a report under emulation counts only when it comes back"],
              wall_s=round(time.time() - T0, 2), violations=len(run.findings))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", run.prop + ".json.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", run.prop + ".json"))


def available(cfg):
    c = CONFIGS[cfg]
    for x in [c.get("run", [None])[0], c.get("cc")]:
        if x and not shutil.which(x):
            return False
    return "tool" not in c or os.path.isdir(c["tool"])


def cmd_check(prop):
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in WALL:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    prep_cache()
    work = os.path.join(WORK, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    code = 2
    try:
        write_modfile(work)
        run = Run(prop, tier, seed, work)
        plan = list(PLAN[prop]["quick"])
        if tier == "thorough":
            plan += PLAN[prop]["thorough"]
        for g, c in list(plan):
            if not available(c):
                plan.remove((g, c))
                run.note("configuration %s skipped: its tools are not installed" % c)
        extra = None
        if prop in EXTRA:
            extra = threading.Thread(target=lambda: guard(run, EXTRA[prop]))
            extra.start()
        try:
            run.run_plan(plan)
        except Inconclusive as e:
            run.problems.append(str(e))
        if extra:
            extra.join()
        if prop in FZ_FEAT:
            guard(run, fuzz)
        code = verdict(run, plan)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s: %s" % (prop, e))
    finally:
        with PLOCK:
            for p in list(PROCS):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(work, ignore_errors=True)
    return code


TARGETS = ["windows/amd64", "darwin/arm64", "darwin/amd64", "freebsd/386", "wasip1/wasm"]
TARGETS_MORE = ["windows/arm64", "windows/386", "freebsd/amd64", "openbsd/arm64", "netbsd/arm", "plan9/amd64", "solaris/amd64", "aix/ppc64", "android/arm64", "dragonfly/amd64"]


def targets(run):
    """The library builds for operating systems that cannot be run here."""
    def one(t):
        goos, arch = t.split("/")
        c = dict(goos=goos, arch=arch, cgo=0)
        bad = None
        for i in range(2):
            r = sh(["go", "build", "-mod=readonly", "./..."], cfg_env(c), REPO)
            if r.returncode == 0:
                return
            bad = r.stdout
        if run.build.get("nocgo").result()["ok"] and re.search(r"^\S+\.(go|s|c):\d+", bad, re.M):
            run.findings.append(dict(kind="build", config=t, group="build", case=-1, family="build", note="does not build for " + t, detail=bad[-2000:]))
        else:
            run.problems.append("cannot build for %s: %s" % (t, bad[-600:]))
    todo = TARGETS + (TARGETS_MORE if run.tier == "thorough" else [])
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(one, todo))
    run.extra["further_targets_built"] = todo


def c_lib_and_targets(run):
    targets(run)
    c_lib(run)


EXTRA = {"C05": c_lib_and_targets, "C10": c_threads, "C11": asm_guard, "C12": c_lib, "C16": c_lib, "C17": resources}


def guard(run, fn):
    try:
        fn(run)
    except Inconclusive as e:
        run.problems.append(str(e))
    except subprocess.TimeoutExpired as e:
        run.problems.append(str(e))


def verdict(run, plan):
    evidence(run, plan)
    print("property %s tier %s seed %d: %d cases (%d distinct non-trivial), %d events, %d configurations, %.1f s" %
          (run.prop, run.tier, run.seed, run.evals, len(run.sigs), run.events, len(run.cfgstat), time.time() - T0))
    print("observed: " + ", ".join("%s %d" % kv for kv in sorted(run.counts.items())))
    if run.overlaps:
        print("concurrency: %d overlapping call pairs, %d distinct interleavings, up to %d lanes" % (run.overlaps, len(run.inter), run.maxlanes))
    for k, v in sorted(run.extra.items()):
        print("%s: %s" % (k, v))
    for n in run.notes:
        print("note: " + n)
    if run.findings:
        seen = {}
        for f in run.findings:
            seen.setdefault((f["kind"], f["config"], f.get("family"), f.get("case") if f["kind"] != "mismatch" else 0), f)
        shown = list(seen.values())[:6]
        for f in shown:
            print(describe(f))
        print("%d findings in all" % len(run.findings))
        for f in shown[:3]:
            print("VIOLATION property=%s replay=%s" % (run.prop, save_replay(run, f)))
        for p in run.problems:
            print("also inconclusive: " + p[:500])
        return 1
    if run.problems:
        for p in run.problems:
            print("INCONCLUSIVE property=%s: %s" % (run.prop, p))
        return 2
    if run.events == 0 or len(run.sigs) < 50 and "C10" != run.prop:
        print("INCONCLUSIVE property=%s: too little was observed" % run.prop)
        return 2
    if run.prop == "C10" and (run.overlaps < 1000 or len(run.inter) < 5):
        print("INCONCLUSIVE property=%s: no concurrency was observed" % run.prop)
        return 2
    print("HELD property=%s" % run.prop)
    return 0


def cmd_replay(d):
    d = os.path.abspath(d)
    info = json.load(open(os.path.join(d, "info.json")))
    print(describe(info))
    case = os.path.join(d, "case.wl")
    cfg = info["config"]
    prep_cache()
    work = os.path.join(WORK, "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        write_modfile(work)
        run = Run(info["property"], info["tier"], info["seed"], work)
        if info["group"] in ("c-tsan", "asm", "clib", "res"):
            EXTRA[info["property"]](run)
            return verdict_replay(run.findings)
        if info["group"] == "fuzz":
            return verdict_replay(fz_replay(run, info))
        b = run.build.get(cfg).result()
        if not b["ok"]:
            print(b.get("err") or b.get("skip"))
            return 1 if info["kind"] == "build" else 2
        if not os.path.exists(case):
            run.gen(info["group"])
            wlp, n = run.wls[info["group"]]
        else:
            wlp, n = case, 1
            print(subprocess.run([run.mon, "show", "-w", case, "-c", "0"], capture_output=True, text=True).stdout[:6000])
        res, crash = run.one(cfg, b["path"], wlp, (0, 1), "replay-%s-" % info["group"])
        fs = list(res["findings"] or [])
        if crash:
            fs.append(crash)
        if info["kind"] == "table":
            fs += [dict(kind="table", detail=x) for x in (res["table"] or []) + (res["table_c"] or [])]
        return verdict_replay(fs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def verdict_replay(fs):
    for f in fs[:5]:
        print(json.dumps(f)[:2000])
    print("reproduced" if fs else "not reproduced")
    return 1 if fs else 0


def cmd_setup():
    prep_cache()
    work = os.path.join(WORK, "setup-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        write_modfile(work)
        build_mon(work)
        b = Build(work)
        names = []
        for p in PLAN.values():
            for _, c in p["quick"]:
                n = CONFIGS[c].get("build", c)
                if n not in names and available(n):
                    names.append(n)
        fs = [(n, b.get(n)) for n in names]
        for n, f in fs:
            r = f.result()
            print("setup: %s %s" % (n, "built" if r["ok"] else "failed: " + (r.get("err") or r.get("skip"))[-500:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    a = sys.argv[1]
    if a == "setup":
        return cmd_setup()
    if a == "--replay":
        return cmd_replay(sys.argv[2])
    if a not in PLAN:
        print("unknown property", a)
        return 2
    return cmd_check(a)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
