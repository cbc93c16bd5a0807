"""Which runs decide which property.  J(component, config, mode, start, quick count, thorough count, pieces)."""
from build import ALL, ARMS, NATIVE

CTR = ["ctr", "ctr-x86dir", "ctr-x86", "ctr-armdir", "ctr-arm"]
CFB = ["cfb", "cfb6", "cfb-x86dir", "cfb-x86", "cfb-armdir", "cfb-arm"]
CTR6 = ["ctr6", "ctr6-x86dir", "ctr6-armdir"]  # round-reduced builds
CFB6 = ["cfb6-x86dir", "cfb6-armdir"]
AEG = ["aegis", "aegis-x86dir", "aegis-x86", "aegis-armdir", "aegis-arm"]
CHA = ["chacha20", "chacha12", "chacha8"]
STREAM = CTR + CHA + ["hc128", "rabbit", "sosemanuk", "des"]
SHA = ["sha256", "sha256-hmac"]
ASYM = ["jl", "lhe", "mulhe"]
SWEEP = {"d_aesctr": 4900, "d_chacha": 4900, "d_hc128": 4900, "d_rabbit": 4900, "d_sosemanuk": 4900, "d_des": 4900, "d_aescfb": 2601, "d_aegis": 1872}
import build as _b


def arm(c):
    return c.endswith("-arm")


def portable(c):
    return c not in ASYM and not arm(c) and not c.endswith("-x86") # -x86: intrinsics; big integers: no GMP for that processor here


def nat(cfg, c):
    """the configuration that plays the role of cfg for this component"""
    if arm(c):
        return "arm0" if cfg in ("O0", "cl0") else "arm2"
    return cfg


def every(th):
    """quick: the round-reduced builds share their code with the full ones"""
    return [c for c in ALL if th or c not in CTR6 + CFB6]


def J(comp, cfg, mode, start=0, count=1, pieces=1, **k):
    out, per = [], -(-count // pieces)
    for i in range(pieces):
        lo, hi = start + i * per, min(start + count, start + (i + 1) * per)
        if lo < hi:
            out.append(dict(comp=comp, cfg=nat(cfg, comp), mode=mode, start=lo, count=hi - lo, **k))
    return out


def conf(comps, modes, th, quick=6000, thor=120000, scale={}):
    """model-based runs: unoptimised (as the repository's own tests build it) and optimised, other cases in each"""
    out = []
    for c in comps:
        n = int((thor if th else quick) * scale.get(c, 1) * (0.2 if arm(c) else 1))
        for m in modes:
            out += J(c, "O0", m, 0, max(1, n // 2), 4 if th else 1)
            out += J(c, "O2", m, 10000000, max(1, n // 2), 4 if th else 1)
            if th or not arm(c): # another compiler, and no local variable starts out with what an earlier call left
                out += J(c, "clp", m, 20000000, max(1, n // (2 if th else 5)), 4 if th else 1)
    return out


def sweep(comps, th, modes=("sweep",), cfgs=("O0",), n=None):
    out = []
    for c in comps:
        k = n or SWEEP[_b.C[c].driver]
        for m in modes:
            for g in (cfgs if not th else tuple(cfgs) + ("O2", "cl2")):
                out += J(c, g, m, 0, k, 2)
    return out


def lens(comps, th, mode="lens", top=4200):
    """every single length up to top (and a little past where lookup buffers might end)"""
    out = []
    for c in comps:
        n = (2 if _b.C[c].driver in ("d_aegis", "d_hmac") else 1) * top
        if not arm(c):
            out += J(c, "O2", mode, 0, n * (4 if th else 1), 4 if th else 1)
        else:
            out += J(c, "O2", mode, 0, n if th else n // 4, 2)
    return out


def many(comps, th):
    """66000 packets through one state, with and without loading IVs or keys in between"""
    return [j for c in comps if th or not arm(c) for i in ((0, 1, 2, 3) if "cfb" in c else (0, 1)) for j in J(c, "O2", "many", i, 1)]


def long_(comps, idxs, cfg="O2", mem=0.6, **k):
    return [j for c in comps for i in idxs for j in J(c, cfg, "long", i, 1, mem=mem, wd=600, **k)]


def hugewin(comps, th, mem=0.3):
    return [j for c in comps for i in ((0, 1) if th else (0,)) for j in J(c, "O2", "hugewin", i, 1, mem=mem, wd=2400)]


def early(comps, th, mode="early"):
    """sizes around every power of two up to 2^42 (2^31 where an int holds them), with buffers that end after 4 MiB; a callee that copies its input gets 64 MiB"""
    return [j for c in comps for g in ("O0", "O2") for j in J(c, g, mode, 0 if g == "O0" else 1000000, (600 if th else 60) // (3 if arm(c) else 1), mem=0.8)]


SUBS = {d: [("lens", 4200), ("aliassweep", 1000)] for d in ("d_aesctr", "d_chacha", "d_hc128", "d_rabbit", "d_sosemanuk", "d_des")}
SUBS["d_chacha"] += [("block", 300)]
SUBS["d_des"] += [("ecb", 300), ("wrap", 150), ("ecblens", 300)]
SUBS["d_rabbit"] += [("noiv", 300), ("edge", 300), ("keyedge", 300)]
SUBS.update({"d_aescfb": [("lens", 4200), ("aliassweep", 1000), ("sync", 30)], "d_aegis": [("lens", 8400), ("tamper", 400), ("grid", 8)], "d_serpent": [("sweep", 64)], "d_sha256": [("sweep", 1400)],
             "d_hmac": [("lens", 8400), ("sweep", 520), ("grid", 8)], "d_md5": [("sweep", 2000), ("big", 1400)], "d_hex": [("lens", 4200), ("sweep", 256)], "d_eae": [("sweep", 300)], "d_jl": [("keygen", 40), ("large", 6)], "d_lhe": [("keygen", 12), ("large", 6)]})


def subs(comps, outer, th, cfg="O2", f=1.0, **k):
    """the sessions of the other modes, under the monitor of mode outer"""
    out = []
    for c in comps:
        for sub, n in SUBS.get(_b.C[c].driver, []):
            n = int(n * f * (2 if th else 1) * (0.1 if arm(c) else 1)) if sub not in ("lens", "sweep", "big", "ecblens") or arm(c) or f < 1 else n
            out += J(c, cfg, outer, 0, max(2, n), 2 if th and n > 1000 else 1, sub=sub, **k)
    return out


# ------------------------------------------------------------------ one function per property
def c01(th):
    o = conf(CTR, ["conf"], th) + sweep(CTR, th) + lens(CTR, th) + many(CTR, th) + conf(CTR6, ["conf"], th, quick=2000, thor=30000) + conf(CTR + CTR6, ["far"], th, quick=3000, thor=40000)
    o += long_(CTR, [0, 1, 2] if th else [1, 2]) + long_([c for c in CTR if not arm(c)], [0])
    o += long_([c for c in CTR if th or not arm(c)], [3], mem=1.0)
    return o + [j for c in CTR if not arm(c) for i in ((0, 1) if th else (0,)) for j in J(c, "O2", "hugewin", i, 1, mem=0.4, wd=3000)] + early(CTR, th)


def c02(th):
    return conf(CFB, ["conf"], th) + conf(CFB6, ["conf"], th, quick=2000, thor=30000) + sweep(CFB, th) + lens(CFB, th) + many(CFB, th) + long_(CFB, [0, 1]) + [j for c in CFB if not arm(c) for j in J(c, "O2", "hugewin", 0, 1, mem=0.4, wd=2400)] + early(CFB, th)


def c03(th):
    return conf(CFB + CFB6, ["sync"], th, quick=8000, thor=60000)


LONG = {"d_aesctr": [0, 1, 2], "d_aescfb": [0, 1], "d_aegis": [0, 1], "d_chacha": [0], "d_hc128": [1, 2], "d_rabbit": [1], "d_sosemanuk": [1], "d_des": [0], "d_sha256": [1], "d_hmac": [0], "d_hex": [1]}


def c04(th):
    o = []
    for c in ALL:
        n = (400 if c in ASYM else 3000) * (10 if th else 1)
        cfgs = ["O0", "O2", "cl2"] + (["O1", "O3", "cl0", "clOs"] if th else ["O3"])
        if arm(c):
            cfgs = ["O0", "O2"]
        for g in cfgs:
            o += J(c, g, "trace", 0, n, 4 if th else 1, trace=True)
        if portable(c): # the same sources for another processor (where char is unsigned)
            for g in ("arm0", "arm2"):
                o += J(c, g, "trace", 0, n // 4, 4 if th else 1, trace=True)
        # long streams and messages: counters past 2^16 blocks, megabytes in one call
        for i in LONG.get(_b.C[c].driver, []):
            for g in (cfgs if th else ["O2"] if arm(c) else ["O2", "cl2"] if GROUPS.get(c) else ["O0", "O2", "cl2"]):
                o += J(c, g, "long", i, 1, trace=True, mem=0.6, wd=600)
    # bit lengths past 32 bits
    return o + [j for c in AEG if not arm(c) for j in J(c, "O2", "huge", 0, 1, trace=True, wd=2400)]


GROUPS = {}
for g, cs in (("AES-CTR", CTR), ("AES-CFB", [c for c in CFB if c != "cfb6"]), ("AES-CTR-6", CTR6), ("AES-CFB-6", ["cfb6"] + CFB6), ("AEGIS", AEG), ("SHA-256", SHA), ("Serpent", ["serpent", "serpent-sos"])):
    for c in cs:
        GROUPS[c] = g


def c05(th):
    o = conf(AEG, ["conf"], th) + sweep(AEG, th) + lens(AEG, th) + many(AEG, th) + long_(AEG, [0, 1])
    # lengths whose bit counts pass 32 bits, lengths past 2^32 bytes
    return o + [j for c in AEG if th or not arm(c) for i in ((0, 1, 2, 3) if th and not arm(c) else (0, 1)) for j in J(c, "O2", "huge", i, 1, wd=2400)] + early(AEG, th)


def c06(th):
    o = conf(AEG, ["tamper"], th, quick=15000, thor=120000)
    for c in AEG:
        o += J(c, "O0", "grid", 0, 37 if arm(c) else (37 * 41 if th else 200), 2)
    o += [j for c in AEG if th and not arm(c) for j in J(c, "O2", "huge", 3, 1, wd=2400)]
    return o + [j for c in AEG for i in (2, 3) for j in J(c, "O2", "long", i, 1, wd=600)] + many(AEG, th)


def c07(th):
    o = conf(CHA, ["conf", "block"], th) + sweep(CHA, th) + lens(CHA, th) + many(CHA, th) + long_(CHA, [0, 1]) + long_(CHA if th else ["chacha20"], [2], mem=2.5)
    return o + [j for i in ((0, 1) if th else (1,)) for j in J("chacha20", "O2", "huge", i, 1, mem=9, wd=1200)]


def c08(th):
    return conf(["hc128"], ["conf"], th, quick=20000) + sweep(["hc128"], th) + lens(["hc128"], th) + many(["hc128"], th) + long_(["hc128"], [0, 1, 2] + ([3] if th else []), mem=4 if th else 0.6) + hugewin(["hc128"], th, mem=4.5)


def c09(th):
    return conf(["rabbit"], ["conf", "noiv"], th, quick=20000) + conf(["rabbit"], ["edge", "keyedge"], th, quick=40000, thor=600000) + sweep(["rabbit"], th) + lens(["rabbit"], th) + many(["rabbit"], th) + long_(["rabbit"], [0, 1] + ([2] if th else []), mem=4 if th else 0.6) + hugewin(["rabbit"], th) + early(["rabbit"], th)


def c10(th):
    return conf(["sosemanuk"], ["conf"], th, quick=20000) + sweep(["sosemanuk"], th) + lens(["sosemanuk"], th) + many(["sosemanuk"], th) + long_(["sosemanuk"], [0, 1] + ([2] if th else []), mem=4 if th else 0.6) + hugewin(["sosemanuk"], th) + early(["sosemanuk"], th)


def c11(th):
    o = conf(SHA, ["conf"], th, quick=20000)
    for c in SHA:
        o += J(c, "O0", "sweep", 0, 20000 if th else 4500, 8 if th else 3)
        o += long_([c], [0, 1, 2])
        o += [j for i in ((0, 1, 2, 3) if th else (0, 2)) for j in J(c, "O2", "huge", i, 1, wd=1200)]
    return o + early(SHA, th)


def c12(th):
    o = conf(["hmac"], ["conf"], th, quick=16000) + J("hmac", "O0", "sweep", 0, 260 * 18 * 2, 2) + lens(["hmac"], th) + many(["hmac"], th) + J("hmac", "O0", "grid", 0, 140 * 67 if th else 400, 8)
    return o + [j for i in ((0, 1, 2, 3) if th else (0, 2)) for j in J("hmac", "O2", "long", i, 1, wd=1200)] + early(["hmac"], th)


def c13(th):
    return conf(["eae"], ["conf"], th, quick=24000) + J("eae", "O0", "sweep", 0, 3000 if th else 600, 2) + J("eaemain", "O0", "example", 0, 1600, 2) + many(["eae"], th)


def c14(th):
    o = conf(["md5"], ["conf"], th, quick=20000) + J("md5", "O0", "sweep", 0, 201 * 202 // 2, 2) + J("md5", "O0", "big", 0, 20000 if th else 5000, 4) + many(["md5"], th)
    return o + [j for i in (range(60) if th else range(21)) for j in J("md5", "O2", "huge", i, 1, wd=1200)] + early(["md5"], th)


def c15(th):
    return conf(["des"], ["conf", "ecb", "wrap"], th, quick=8000, thor=60000) + sweep(["des"], th) + lens(["des"], th) + many(["des"], th) + lens(["des"], th, "ecblens", 600) + long_(["des"], [0, 1]) + (hugewin(["des"], th) if th else []) + early(["des"], th) + early(["des"], th, "early-ecb")


def c16(th):
    return conf(["hex"], ["conf"], th, quick=20000) + J("hex", "O0", "sweep", 0, 256) + lens(["hex"], th) + long_(["hex"], [0, 1]) + long_(["hex"], [2], mem=4) + early(["hex"], th)


def c17(th):
    return conf(["jl"], ["conf"], th, quick=30000, thor=120000) + J("jl", "O0", "sweep", 0, 9 * (40 if th else 6), 6) + J("jl", "O2", "large", 0, 48 if th else 18, 6)


def c18(th):
    return [j for c in ("lhe", "mulhe") for j in J(c, "O0", "conf", 0, 60000 if th else 12000, 8 if th else 4) + J(c, "O2", "conf", 10000000, 40000 if th else 8000, 4) + J(c, "O2", "keygen", 0, 60 if th else 15, 4) + J(c, "O2", "large", 0, 30 if th else 12, 4) + J(c, "O2", "many", 0, 8 if th else 2, 2)]


def c19(th):
    o = J("jl", "O2", "keygen", 0, 6000 if th else 1600, 8) + J("jl", "O0", "fresh", 0, 8, 1)
    o += J("jl", "O2", "keygen", 20000000, 60 if th else 16, 8, arg=512) + (J("jl", "O2", "keygen", 30000000, 24, 8, arg=1024) if th else [])
    return o + [j for c in ("lhe", "mulhe") for j in J(c, "O2", "keygen", 0, 60 if th else 12, 4)]


SANMODES = {"d_aesctr": ["conf", "sweep", "alias"], "d_chacha": ["conf", "sweep", "alias", "block"], "d_hc128": ["conf", "sweep", "alias"],
            "d_rabbit": ["conf", "sweep", "alias", "noiv", "edge"], "d_sosemanuk": ["conf", "sweep", "alias"], "d_des": ["conf", "sweep", "alias", "ecb", "wrap"],
            "d_aescfb": ["conf", "sweep", "alias", "sync"], "d_aegis": ["conf", "sweep", "tamper", "grid"], "d_serpent": ["conf", "sweep"],
            "d_sha256": ["conf", "sweep"], "d_hmac": ["conf", "sweep", "grid"], "d_md5": ["conf", "sweep", "big"], "d_hex": ["conf", "sweep"], "d_eae": ["conf", "sweep"],
            "d_jl": ["conf", "keygen"], "d_lhe": ["conf", "keygen"]}
SANCOUNT = {"sync": 150, "grid": 25, "keygen": 20}


def c20(th):
    o = []
    for c in NATIVE:
        d = _b.C[c].driver
        for m in SANMODES[d]:
            n = SANCOUNT.get(m, 120 if c in ASYM else 1200)
            if m == "sweep":
                n = {"d_sha256": 700, "d_hmac": 600, "d_md5": 2500, "d_hex": 256, "d_eae": 300, "d_serpent": 64}.get(d, SWEEP.get(d, 300))
            n *= (6 if th and m != "sweep" else 1)
            o += J(c, "asan", m, 0, n, 3 if th else 1)
            if th:
                o += J(c, "asan0", m, 5000000 if m not in ("sweep", "big") else 0, n // 2 if m != "sweep" else n, 2)
    # the hardware ARM builds have no UBSan runtime here: guard pages and canaries
    for c in ARMS:
        o += J(c, "O0", "conf", 0, 600 * (5 if th else 1)) + J(c, "O0", "sweep", 0, 1872)
    # message sizes in the megabytes on a small stack
    for c, idxs in (("ctr", [0]), ("ctr-x86", [0]), ("cfb", [0]), ("cfb-x86", [0]), ("aegis", [0, 1]), ("aegis-x86", [0, 1]), ("aegis-armdir", [0, 1]), ("aegis-x86dir", [0, 1]), ("chacha20", [1]), ("hc128", [2]), ("rabbit", [1]), ("sosemanuk", [1]),
                    ("sha256", [0, 2]), ("sha256-hmac", [0, 2]), ("hmac", [0]), ("des", [1]), ("hex", [1]), ("cfb-armdir", [0]), ("cfb-x86dir", [0]), ("ctr-armdir", [0]), ("ctr-x86dir", [0]), ("aegis-arm", [0, 1]), ("cfb-arm", [0]), ("ctr-arm", [0])):
        for i in idxs:
            o += J(c, "O0", "long", i, 1, stack=256 << 10 if not arm(c) else None, wd=600)
    o += J("md5", "O0", "big", 3 << 20, 2, stack=256 << 10)
    # sizes beyond 31 and 32 bits of length arithmetic
    o += J("sha256", "asan" if th else "O2", "huge", 1, 1, wd=2400) + J("hmac", "O2", "long", 2, 1, wd=2400) + J("md5", "O2", "huge", 2, 1, wd=2400) + J("hex", "asan" if th else "O2", "long", 2, 1, mem=8 if th else 4, wd=2400)
    # every length, and more packets through one state than 16 bits count
    for c in NATIVE:
        for m in ("lens", "many", "edge", "keyedge", "ecblens", "large"):
            n = dict(SUBS[_b.C[c].driver]).get(m, 0)
            if m == "many" and c in [x for x in CTR + CFB + AEG + CHA] + ["hc128", "rabbit", "sosemanuk", "des", "hmac", "md5", "eae"]:
                n = 2
            if n:
                o += J(c, "asan", m, 0, n, 2 if m in ("lens", "many") else 1)
    if th:
        o += J("chacha20", "asan", "huge", 0, 1, mem=8, wd=2400) + J("chacha20", "asan", "huge", 1, 1, mem=12, wd=2400) + J("hc128", "asan", "long", 3, 1, mem=12, wd=2400) + J("md5", "asan", "huge", 3, 3, wd=2400)
    return o


def c21(th):
    o = []
    for c in every(th):
        o += J(c, "O0", "det", 0, (100 if c in ASYM else 1500) * (10 if th else 1) // (4 if arm(c) else 1), 4 if th else 1)
        o += J(c, "O2", "det", 5000000, (60 if c in ASYM else 800) * (10 if th else 1) // (4 if arm(c) else 1), 4 if th else 1)
    for c in [x for x in every(th) if not arm(x)]: # builds that differ only in what uninitialised local variables hold
        for g in ("zero", "pat"):
            o += J(c, g, "trace", 30000000, (60 if c in ASYM else 600) * (10 if th else 1), trace=True)
    for c in [x for x in every(th) if not arm(x)]:
        d = _b.C[c].driver
        o += J(c, "vg", "trace", 0, (12 if c in ASYM else 60) * (12 if th else 1), 4 if th else 1)
        extra = {"d_aescfb": "sync", "d_aegis": "tamper", "d_des": "ecb", "d_chacha": "block", "d_rabbit": "noiv", "d_jl": "keygen", "d_lhe": "keygen"}.get(d)
        if extra:
            o += J(c, "vg", extra, 0, {"keygen": 5, "sync": 6}.get(extra, 40) * (6 if th else 1), 2 if th else 1)
        if th:
            o += J(c, "vg0", "trace", 5000000, 20 if c in ASYM else 300, 2)
            if d in SWEEP:
                o += J(c, "vg", "sweep", 0, 1200, 6)
    return o + subs(every(th), "det", th, f=0.25)


def c22(th):
    o = []
    for c in every(th):
        a = c in ASYM
        o += J(c, "O0", "inter", 0, (10 if a else 100) * (20 if th else 1) // (2 if arm(c) else 1), 4 if th else 1)
        o += J(c, "O2", "thr", 0, (6 if a else 60) * (20 if th else 1) // (2 if arm(c) else 1), 8 if th else 2)
        if not arm(c): # several processes: what a component does on first use happens once in each
            o += J(c, "tsan", "thr", 7000000, (4 if a else 30) * (10 if th else 1), 16 if th else 4)
    return o + subs([c for c in every(th) if th or not arm(c)], "thr", th, f=0.02)


def c23(th):
    return subs(every(th), "leak", th) + [j for c in every(th) for j in J(c, "O0", "leak", 0, (120 if c in ASYM else 1200) * (15 if th else 1) // (3 if arm(c) else 1), 4 if th else 1)]


def c24(th):
    # every other run of C01..C19 that packets, sizes and states of all kinds go through, with the streams watched
    o = [j for f in (c01, c02, c05, c06, c07, c08, c09, c10, c11, c12, c14, c15, c16, c17, c18, c19) for j in f(th) if th or j["mode"] in ("many", "early", "large", "keygen", "tamper", "grid", "wrap", "noiv", "edge", "keyedge") or (j["mode"] == "long" and j.get("mem", 0) <= 0.6 and f not in (c11, c16))]
    return o + subs(every(th), "quiet", th) + [j for c in every(th) for j in J(c, "O0", "quiet", 0, (200 if c in ASYM else 3000) * (15 if th else 1) // (3 if arm(c) else 1), 4 if th else 1)]


def c25(th):
    o = conf(CTR + CFB + AEG + CHA + ["hc128", "rabbit", "sosemanuk", "serpent", "serpent-sos", "sha256", "sha256-hmac", "hmac", "md5", "hex", "eae", "des"], ["conf"], th, quick=2000, thor=30000)
    o += conf(["jl", "lhe", "mulhe"], ["conf"], th, quick=300, thor=6000)
    o += conf(["des"], ["ecb"], th, quick=1000) + conf(AEG, ["tamper"], th, quick=1000, thor=20000) + conf(["rabbit"], ["noiv"], th, quick=1000) + conf(CHA, ["block"], th, quick=1000)
    o += sweep([c for c in CTR + CFB + AEG + CHA + ["hc128", "rabbit", "sosemanuk", "des"] if th or not arm(c)], False)
    S = CTR + CFB + AEG + CHA + ["hc128", "rabbit", "sosemanuk", "des", "hmac", "hex"]
    o += lens(S, th, top=4200) + many([c for c in S if c != "hex"] + ["md5", "eae"], th)
    o += J("sha256", "O0", "sweep", 0, 300) + J("sha256-hmac", "O0", "sweep", 0, 300) + J("hmac", "O0", "sweep", 0, 520) + J("md5", "O0", "sweep", 0, 5000) + J("hex", "O0", "sweep", 0, 256) + J("serpent", "O0", "sweep", 0, 64) + J("serpent-sos", "O0", "sweep", 0, 64)
    return o


def c26(th):
    S = CTR + CFB + CHA + ["hc128", "rabbit", "sosemanuk", "des"]
    L = [c for c in S if _b.C[c].driver != "d_aescfb"]
    return conf(S, ["alias"], th, quick=4000, thor=40000) + sweep(S, th, modes=("aliassweep",)) + lens(S, th, "aliaslens", 2100) + [j for c in L for i in (0, 1) for j in J(c, "O2", "aliaslong", i, 1, mem=0.6, wd=600)]


def c27(th):
    S = ["serpent", "serpent-sos"]
    return conf(S, ["conf"], th, quick=60000, thor=600000) + [j for c in S for j in J(c, "O0", "sweep", 0, 32 * 20)]


M = ["model:", "trip:"]
LITTLE = "x86-64 host and the ARM intrinsics under qemu-aarch64 (both little-endian)"
PLAN = {
    "C01": dict(jobs=c01, accept=M), "C02": dict(jobs=c02, accept=M), "C03": dict(jobs=c03, accept=["sync:", "trip:"]),
    "C04": dict(jobs=c04, accept=["build:"], groups=GROUPS, crash=True),
    "C05": dict(jobs=c05, accept=M), "C06": dict(jobs=c06, accept=["tamper:"]),
    "C07": dict(jobs=c07, accept=M), "C08": dict(jobs=c08, accept=M), "C09": dict(jobs=c09, accept=M), "C10": dict(jobs=c10, accept=M),
    "C11": dict(jobs=c11, accept=M), "C12": dict(jobs=c12, accept=M + ["tamper:"]), "C13": dict(jobs=c13, accept=M + ["tamper:"]),
    "C14": dict(jobs=c14, accept=M), "C15": dict(jobs=c15, accept=M), "C16": dict(jobs=c16, accept=M), "C17": dict(jobs=c17, accept=M), "C18": dict(jobs=c18, accept=M),
    "C19": dict(jobs=c19, accept=["model:", "fresh:"]),
    "C20": dict(jobs=c20, accept=["san:", "crash:", "wset:write", "wset:huge"]),
    "C21": dict(jobs=c21, accept=["det:", "undef:", "build:"], groups={}, crash=False),
    "C22": dict(jobs=c22, accept=["conc:", "san:tsan"]),
    "C23": dict(jobs=c23, accept=["leak:"], crash=False), "C24": dict(jobs=c24, accept=["print:"], crash=False),
    "C25": dict(jobs=c25, accept=["wset:"]), "C26": dict(jobs=c26, accept=["alias:"]), "C27": dict(jobs=c27, accept=M),
}
BASE_ASSUME = [LITTLE, "reference implementations in /verif/ref (checked against published vectors at every start)", "buffers are 4-byte aligned where the code reads words"]
for _v in PLAN.values():
    _v["assumptions"] = BASE_ASSUME
_S = "Sessions are drawn from the seed: 1-3 state objects, operations (key, IV/nonce loads, packets) picked per step, lengths biased to block boundaries, data random/constant/sparse; one evaluation is one oracle comparison. "
_N = "Non-trivial: a non-empty payload not seen before in that process (signature over data, key material and operation)."
RULES = {p: _S + _N for p in PLAN}
RULES["C04"] = "The same seeded sessions run in every build of a component (compilers, optimisation levels, portable/x86/ARM sources); one evaluation compares the digest of all outputs and verdicts of one session in one build with that in another. Distinct: different session digests per group of builds."
RULES["C20"] = _S + "Run under AddressSanitizer+UndefinedBehaviorSanitizer (exact heap blocks), with guard pages for the ARM builds, megabyte messages on a 256 KiB stack, and multi-gigabyte lengths. " + _N
RULES["C21"] = "Each session is run three times with different junk in state objects, output buffers, stack and heap and with unrelated history in between; the event logs must be equal. Two builds that differ only in the value the compiler gives to uninitialised local variables must record equal logs. The same sessions run under memcheck with every output byte's definedness tested. Distinct: different event logs."
RULES["C22"] = "Each case runs 3 (interleaved by a seeded scheduler at every library call) or 6 (free-running threads) sessions on distinct states and compares each event log with that of the session run alone; the threaded runs are repeated under ThreadSanitizer. Distinct: different schedules (interleaved) or different session sets (threads)."
RULES["C23"] = "Each session is repeated 7 times while an allocation ledger counts the live heap blocks of the process; strictly growing counts are a leak. Distinct: different event logs."
RULES["C24"] = "Each session runs with stdout and stderr (streams and descriptors) redirected to a file that must stay empty. Distinct: different event logs."
RULES["C19"] = "Key generations over message sizes 1..128 bits and a range of key sizes, each checked for primality, congruences, residuosity and sizes and then used; plus repeated generation in one process and in separate processes. Distinct: different moduli."
