"""Builds the monitored executables from /repo's working tree into a scratch directory.

A component is one directory of the toolbox (directories define the same symbols, so each becomes its own
executable) together with the driver that exercises it; a configuration is a compiler, an optimisation level and
possibly a sanitizer or valgrind."""
import glob, os, re, subprocess, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X86 = ["-Dx86_INTRINSICS", "-maes", "-msse4.1"]
ARM = ["-DARM_INTRINSICS", "-march=armv8-a+crypto"]
AES = "BlockCiphers/AES/"
AEG = "StreamCiphers/AEGIS/"
HC = "StreamCiphers/HC-128/hc128.cpp"
ASYM = "AsymmetricCryptography/"
JLS = ASYM + "Joye_libert/joye_libert.cpp"
LHE = ASYM + "Labeled_homomorphic_encryption/"
HCH = '-DHC_HEADER="%s/StreamCiphers/HC-128/hc128.h"' % REPO


class Comp:
    def __init__(self, name, driver, d, flags=(), extra=(), inc=(), libs=(), arm=False, label=None, siblings=True, renamed=None, optional=False):
        self.name, self.driver, self.dir, self.flags, self.extra = name, driver, d, list(flags), list(extra)
        self.inc, self.libs, self.arm, self.siblings = list(inc), list(libs), arm, siblings
        self.label = label or name
        self.renamed = renamed or {}      # source file with a main of its own -> flags; its main becomes example_main
        self.optional = optional          # left out when it does not build


C = {}


def add(*a, **k):
    c = Comp(*a, **k)
    C[c.name] = c


for p, drv, ds in (("ctr", "d_aesctr", ("AES/AES_CTR", "AES_x86/AES_CTR", "AES_ARM/AES_CTR")),
                   ("cfb", "d_aescfb", ("AES/AES_CFB", "AES_x86/AES_CFB_Carry-Over", "AES_ARM/AES_CFB_Carry-Over"))):
    add(p, drv, AES + ds[0])
    add(p + "-x86dir", drv, AES + ds[1])
    add(p + "-armdir", drv, AES + ds[2])
    add(p + "-x86", drv, AES + ds[1], X86)
    add(p + "-arm", drv, AES + ds[2], ARM, arm=True)
for p, drv, ds in (("ctr6", "d_aesctr", ("AES/AES_CTR", "AES_x86/AES_CTR", "AES_ARM/AES_CTR")),
                   ("cfb6", "d_aescfb", ("AES/AES_CFB", "AES_x86/AES_CFB_Carry-Over", "AES_ARM/AES_CFB_Carry-Over"))):
    for n, d in zip(("", "-x86dir", "-armdir"), ds): # round-reduced
        add(p + n, drv, AES + d, ["-DROUND_REDUCED"])
add("aegis", "d_aegis", AEG + "AEGIS")
add("aegis-x86dir", "d_aegis", AEG + "AEGIS_x86")
add("aegis-armdir", "d_aegis", AEG + "AEGIS_ARM")
add("aegis-x86", "d_aegis", AEG + "AEGIS_x86", X86)
add("aegis-arm", "d_aegis", AEG + "AEGIS_ARM", ARM, arm=True)
add("chacha20", "d_chacha", "StreamCiphers/ChaCha")
add("chacha12", "d_chacha", "StreamCiphers/ChaCha", ["-DTWELVE_ROUNDS"])
add("chacha8", "d_chacha", "StreamCiphers/ChaCha", ["-DEIGHT_ROUNDS"])
add("hc128", "d_hc128", "StreamCiphers/HC-128")
add("rabbit", "d_rabbit", "StreamCiphers/Rabbit")
add("sosemanuk", "d_sosemanuk", "StreamCiphers/Sosemanuk")
add("serpent", "d_serpent", "BlockCiphers/Serpent")
add("serpent-sos", "d_serpent", "StreamCiphers/Sosemanuk")
add("sha256", "d_sha256", "Hash/SHA/SHA-2/SHA-256")
add("sha256-hmac", "d_sha256", "Authentication/HMAC-SHA-256")
add("hmac", "d_hmac", "Authentication/HMAC-SHA-256")
add("md5", "d_md5", "Legacy/MD5")
add("des", "d_des", "Legacy/DES")
add("hex", "d_hex", "Encoders/Hex")
add("eae", "d_eae", "Example_AuthenticatedEncryption", extra=[AES + "AES/AES_CFB/aes_cfb.cpp", "Authentication/HMAC-SHA-256/hmac.cpp",
    "Hash/SHA/SHA-2/SHA-256/sha-256.cpp", "Encoders/Hex/encoder.cpp", HC],
    inc=[AES + "AES/AES_CFB", "Authentication/HMAC-SHA-256", "StreamCiphers/HC-128", "Encoders/Hex"])
add("jl", "d_jl", ASYM + "Joye_libert", libs=["-lgmp"])
add("lhe", "d_lhe", LHE + "LabeledHE", [HCH], extra=[JLS, HC], libs=["-lgmp"])
add("mulhe", "d_lhe", LHE + "muLabeledHE", [HCH, "-DMU"], extra=[JLS, HC], libs=["-lgmp"])

ALL = list(C)
# the example program: its main and its calls renamed, so that the driver observes them (C13 only)
WRAPPED = ["hmac_tag_validation", "hmac_tag_generation", "aes_cfb_initialize", "aes_cfb_process_packet", "hc128_initialize", "hc128_process_packet"]
EAE = "Example_AuthenticatedEncryption/example_ae.cpp"
C["eaemain"] = Comp("eaemain", "d_eaemain", "Example_AuthenticatedEncryption", extra=[EAE] + C["eae"].extra, inc=C["eae"].inc, siblings=False,
                    renamed={EAE: ["-D%s=mon_%s" % (f, f) for f in WRAPPED]}, optional=True)
ARMS = [n for n in ALL if C[n].arm]
NATIVE = [n for n in ALL if not C[n].arm]

# configuration -> (compiler, flags for the code under test, harness family)
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
CFG = {
    "O0": ("g++", ["-O0"], "plain"), "O1": ("g++", ["-O1"], "plain"), "O2": ("g++", ["-O2"], "plain"), "O3": ("g++", ["-O3", "-march=native", "-DNDEBUG"], "plain"),
    "cl0": ("clang++", ["-O0"], "plain"), "cl2": ("clang++", ["-O2"], "plain"), "clOs": ("clang++", ["-Os"], "plain"),
    "asan": ("g++", ["-O1"] + SAN, "asan"), "asan0": ("g++", ["-O0"] + SAN, "asan"),
    "vg": ("g++", ["-O1"], "vg"), "vg0": ("g++", ["-O0"], "vg"), "tsan": ("g++", ["-O1", "-fsanitize=thread"], "tsan"),
    "clp": ("clang++", ["-O2", "-ftrivial-auto-var-init=pattern"], "plain"),
    "cmp": ("clang++", ["-O0", "-fsanitize-coverage=trace-pc-guard,trace-cmp"], "plain"),
    "zero": ("g++", ["-O1", "-ftrivial-auto-var-init=zero"], "plain"), "pat": ("g++", ["-O1", "-ftrivial-auto-var-init=pattern"], "plain"),
    "arm0": ("aarch64-linux-gnu-g++", ["-O0"], "arm"), "arm2": ("aarch64-linux-gnu-g++", ["-O2"], "arm"),
}
FAM = {  # harness objects
    "plain": ("g++", ["-O1"]), "asan": ("g++", ["-O1", "-fsanitize=address"]), "vg": ("g++", ["-O1", "-DUSE_VALGRIND"]),
    "tsan": ("g++", ["-O1", "-fsanitize=thread"]), "arm": ("aarch64-linux-gnu-g++", ["-O1"]),
}
LINK = {"plain": [], "asan": SAN[:1], "vg": [], "tsan": ["-fsanitize=thread"], "arm": []}
MAIN = re.compile(r"^\s*(int|auto)\s+main\s*\(", re.M)


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, text=True, errors="replace")
    return r.returncode, r.stdout


def sources(c):
    s = []
    if c.siblings:
        for f in sorted(glob.glob(os.path.join(REPO, glob.escape(c.dir), "*.cpp"))):
            with open(f, errors="replace") as fh:
                if not MAIN.search(fh.read()):
                    s.append(f)
    return s + [os.path.join(REPO, f) for f in c.extra]


class Builder:
    def __init__(self, tmp, jobs=8):
        self.tmp, self.pool = tmp, cf.ThreadPoolExecutor(jobs)
        self.objs, self.exes, self.core_only, self.dropped = {}, {}, set(), set()
        self.commands = {}
        # muLabeledHE includes ../joye_libert/ and ../HC-128/, directories of another layout
        inc = os.path.join(tmp, "inc")
        os.makedirs(os.path.join(inc, "x"))
        os.symlink(os.path.join(REPO, ASYM, "Joye_libert"), os.path.join(inc, "joye_libert"))
        os.symlink(os.path.join(REPO, "StreamCiphers/HC-128"), os.path.join(inc, "HC-128"))
        self.muinc = os.path.join(inc, "x")

    def obj(self, key, cmd):
        """key -> future of the object path; identical objects are built once"""
        if key not in self.objs:
            out = os.path.join(self.tmp, "o%d.o" % len(self.objs))

            def run():
                rc, txt = sh(cmd + ["-o", out])
                return (out if rc == 0 else None), txt, cmd
            self.objs[key] = self.pool.submit(run)
        return self.objs[key]

    def request(self, comp, cfg):
        """Start compiling; returns immediately."""
        if (comp, cfg) in self.exes:
            return
        c, (cxx, flags, fam) = C[comp], CFG[cfg]
        hcxx, hflags = FAM[fam]
        base = ["-g", "-w", "-c", "-pthread"]
        H = os.path.join(HERE, "harness")
        incs = ["-I" + os.path.join(REPO, d) for d in [c.dir] + c.inc] + ["-I" + self.muinc]
        h = self.obj(("h", fam), [hcxx, "-std=gnu++17"] + base + (hflags if fam != "plain" else ["-O2"]) + [os.path.join(H, "h.cpp")])
        r = self.obj(("ref", fam == "arm"), [hcxx, "-std=gnu++17", "-O2"] + base + [os.path.join(HERE, "ref/ref.cpp")])
        dcmd = [hcxx, "-std=gnu++17"] + base + hflags + ["-I" + H] + incs + c.flags + [os.path.join(H, c.driver + ".cpp")]
        d = self.obj(("d", comp, fam), dcmd)
        srcs = []
        for f in sources(c):
            own = c.renamed.get(os.path.relpath(f, REPO))
            mu = comp == "mulhe"
            cmd = [cxx] + base + flags + c.flags + (own or []) + (["-I" + self.muinc] if mu else []) + [f]
            if own is not None:
                cmd = ["bash", "-c", '"$@" && objcopy --redefine-sym main=example_main "${@: -1}"', "cc"] + cmd
            srcs.append(self.obj(("s", f, cfg, tuple(c.flags + (own or [])), mu), cmd))
        if not srcs:
            raise BuildError("%s: no source files in %s" % (comp, c.dir))
        self.exes[(comp, cfg)] = dict(h=h, r=r, d=d, dcmd=dcmd, s=srcs, out=None)

    def finish(self):
        def get(f, what):
            o, txt, cmd = f.result()
            if not o:
                raise BuildError("compiling for %s failed: %s\n%s" % (what, " ".join(cmd), txt[-3000:]))
            return o
        links = []
        for (comp, cfg), e in self.exes.items():
            if e["out"]:
                continue
            what = comp + "/" + cfg
            if C[comp].optional and not all(f.result()[0] for f in [e["d"]] + e["s"]):
                self.dropped.add(comp)
                continue
            if cfg == "cmp" and not all(f.result()[0] for f in e["s"]):
                continue      # gives reach only
            objs = [get(e["h"], what), get(e["r"], what)] + [get(s, what) for s in e["s"]]
            o, txt, cmd = e["d"].result()
            if not o:  # helper functions outside the documented interface may be gone: do without them
                fam = CFG[cfg][2]
                e["d"] = self.obj(("d-core", comp, fam), e["dcmd"] + ["-DCORE_ONLY"])
                get(e["d"], what)
                self.core_only.add(comp)
            links.append((comp, cfg, e, objs))

        def link(comp, cfg, e, objs):
            c, (cxx, _, fam) = C[comp], CFG[cfg]
            out = os.path.join(self.tmp, "%s.%s" % (comp, cfg))
            tail = LINK[fam] + c.libs + ["-lpthread"]
            if cfg == "cmp" and c.libs:
                tail.insert(0, "-Wl,--wrap=__gmpz_cmp_ui")
            if cxx == "clang++":
                cxx = "g++"
            rc, txt = sh([cxx, "-o", out, get(e["d"], comp)] + objs + tail)
            if rc and comp not in self.core_only:
                e["d"] = self.obj(("d-core", comp, fam), e["dcmd"] + ["-DCORE_ONLY"])
                rc2, txt2 = sh([cxx, "-o", out, get(e["d"], comp)] + objs + tail)
                if rc2 == 0:
                    self.core_only.add(comp)
                    rc = 0
            if rc and cfg == "cmp":
                return
            if rc and c.optional:
                self.dropped.add(comp)
                return
            if rc:
                raise BuildError("linking %s/%s failed:\n%s" % (comp, cfg, txt[-3000:]))
            e["out"] = out
        with cf.ThreadPoolExecutor(8) as p:
            for f in [p.submit(link, *l) for l in links]:
                f.result()

    def exe(self, comp, cfg):
        return self.exes[(comp, cfg)]["out"]
