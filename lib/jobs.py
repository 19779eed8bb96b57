"""Properties, their job lists, bounds and assumptions."""
import itertools, os, random

try:
    SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
except ValueError:
    SEED = 1

ASSUME = [
    "The code is executed from the LLVM IR that rustc (release, opt-level 2, fat LTO, overflow checks on, no auto-vectorisation, x86-64 SSE2) produces for /repo's current source plus the harness; the optimiser, code generator and CPU are trusted to implement that IR (replays run the native binaries).",
    "rayon, crossbeam and num_cpus are replaced by shims (/verif/shims) that keep their interface: sequential in most jobs, permuted or run as threads of the executor with preemptions at atomic operations in the jobs of C19 and C20.",
    "The allocator always succeeds; allocation sizes and addresses are concrete; uninitialised or out-of-bounds accesses end the path as a violation.",
    "Float arithmetic is abstracted per operation by sound order lemmas and refined by exact values (z3, integer order keys); models are confirmed by exact evaluation, and only violations that reproduce in the native build are reported.",
]


def J(entry, p, time=20, threads=1, opts=None, **k):
    return dict(entry=entry, params=p, time=time, threads=threads, opts=opts or [], **k)


OCT = [a + 4 * b + 16 * c for a in (2, 3) for b in (2, 3) for c in (2, 3)]
PAT = [a + 4 * b + 16 * c for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3) if (a, b, c) != (1, 1, 1)]
ZPAT = [p for p in PAT if p not in OCT]
CONC = ["--concrete", "--concrete-select", "--random", "--defer", "--t-fork", "400", "--max-steps", "40000000"]


def quick(tier): return tier == "quick"


# ------------------------------------------------------------------ C01
def c01(tier):
    q = quick(tier)
    r = []
    ns = (0, 1, 2, 3, 5, 8) if q else range(0, 13)
    ms = (0, 1, 3, 5, 8) if q else range(0, 13)
    for n in ns:
        for m in ms: r.append(J("h_validation", {1: n, 2: m}))
        r.append(J("h_validation", {1: n, 2: 0, 3: 0}))
        for l in ((1, 4) if q else range(1, 7)): r.append(J("h_validation", {1: n, 2: n, 5: l}))
    return r


# ------------------------------------------------------------------ C02..C05 builders
# (primitives, layout): spatial splits below the root
SPLITS = [(7, 139), (9, 19), (10, 195), (12, 283), (12, 259), (14, 209), (16, 139), (18, 251), (24, 123)]
# (primitives, layout, param 20): a spatial split finds all references on one side of its plane
FAR = [(6, 37, 27), (9, 245, 26), (9, 301, 27), (9, 109, 31), (12, 213, 30), (12, 85, 30), (16, 285, 10), (16, 285, 2), (16, 51, 25)]


def builders(entry, which, tier):
    q = quick(tier)
    r = []
    B = {0: which}
    if which == 0:
        full = [({1: 1}, 10), ({1: 2, 3: 1}, 15), ({1: 2, 3: 2, 7: 1}, 15)]
    elif which == 1:
        full = [({1: 1}, 10), ({1: 2}, 10), ({1: 3, 3: 1}, 15), ({1: 3, 3: 4, 7: 1}, 15), ({1: 4, 2: 1, 3: 1, 5: 2, 9: 1}, 20)]
    else:
        full = [({1: 1}, 10), ({1: 2, 3: 1}, 15)]
    for p, t in full:
        r.append(J(entry, {**B, **p}, time=t if q else 300, opts=["--max-steps", "4000000"]))
    tt = 5 if q else 120
    # scenes around concrete backgrounds: every path follows its inputs to the end
    hs = lambda style, k=0: 10 + style + 8 * (SEED + k)
    if q:
        scenes = [(7, 1, l, 7) for l in (1, 3, 6)] + [(7, 1, hs(s), 7) for s in range(8)] + [(12, 1, hs(s, 1), 1 << s % 3) for s in range(8)] + [(5, 2, hs(1, 2), 7), (91, 1, 8, 1)]
        scenes += [(18 + 9 * s, 1, hs(s, 3), 1 << s % 3) for s in range(8)]
    else:
        scenes = [(n, m, l, 7) for l in (0, 1, 2, 3, 4, 5, 6, 8) for n, m in ((3, 1), (4, 2), (6, 1), (9, 1), (20, 1))]
        scenes += [(n, m, hs(s, k), 7) for s in range(8) for k in range(4) for n, m in ((4, 1), (7, 1), (10, 2), (16, 1), (40, 1))]
    for i, (n, m, l, ax) in enumerate(scenes):
        # work in several pieces, in changing order
        sched = {900: i % 2, 901: 1 + i % 4, 902: (i // 2) % 2, 903: 1 + i % 3} if i % 2 else {}
        r.append(J(entry, {**B, 1: n, 2: m, 3: ax, 5: l, 9: 1, **sched}, time=tt, opts=CONC))
    for leaf in ((1, 3) if q else (1, 2, 3, 4, 8)):
        for s in ((1,) if q else range(8)): r.append(J(entry, {**B, 1: 9, 2: 1, 5: hs(s, leaf), 9: 1, 4: leaf}, time=tt, opts=CONC))
    # aabbs computed by the builder
    for s in ((3,) if q else range(8)): r.append(J(entry, {**B, 1: 6, 2: 1, 5: hs(s, 5), 9: 1, 6: 0}, time=tt, opts=CONC))
    # centres anywhere in the box
    for s in ((1, 5) if q else range(8)): r.append(J(entry, {**B, 1: 6, 2: 1, 5: hs(s, 6), 9: 1, 7: 2 + s % 2}, time=tt, opts=CONC))
    # large leaves: many coinciding primitives, and any leaf size
    for n, l, leaf in (((301, 1, 0), (301, hs(0, 7), 400)) if q else ((301, 1, 0), (301, hs(0, 7), 400), (600, 1, 300), (600, hs(2, 7), 290), (600, hs(1, 7), 10000))):
        if which == 1 and leaf: continue
        r.append(J(entry, {**B, 1: n, 2: 1, 3: 1, 5: l, 9: 1, 4: leaf}, time=tt, opts=CONC, cover_time=4))
    # splits at the first and at the last bin
    for l in (7, 9):
        for n, m, ax in ((16, 0, 1), (17, 1, 2)): r.append(J(entry, {**B, 1: n, 2: m, 3: ax, 5: l, 9: 1}, time=tt, opts=CONC))
    # far from the origin, where coordinates round to few values
    for k, (n, l, far) in enumerate(FAR if q else FAR + [(n, 10 + s, f) for n in (7, 12, 18) for s in range(8) for f in (1, 10, 23, 27, 31)]):
        if which == 2 or k % 3 == 0: r.append(J(entry, {**B, 1: n, 2: 0, 5: l, 20: far}, time=tt, opts=CONC))
        if k % 3 == 0: r.append(J(entry, {**B, 1: n + 1, 2: 1, 3: 1 << k % 2, 5: l, 9: 1, 20: far}, time=tt, opts=CONC))
    if which == 2:
        for n, l in SPLITS: r.append(J(entry, {**B, 1: n, 2: 0, 5: l, 9: 1}, time=tt, opts=CONC))
    # large scenes
    for n in ((200,) if q else (50, 100, 300, 600, 2000)):
        for s in ((5, 2) if q else range(8)): r.append(J(entry, {**B, 1: n, 2: 1, 3: 1, 5: hs(s, 7), 9: 1}, time=tt, opts=CONC, cover_time=4))
    return r


def c02(tier): return builders("h_build_structure", 0, tier)
def c03(tier): return builders("h_build_structure", 1, tier)
def c04(tier): return builders("h_build_structure", 2, tier)


def c05(tier):
    r = []
    for w in (0, 1, 2): r += builders("h_build_bounds", w, tier)
    return r


# ------------------------------------------------------------------ C06
def c06(tier):
    q = quick(tier)
    r = []
    for ax in (0, 1, 2):
        for tri in (0, 1, 2, 3) + tuple(range(12, 18)): r.append(J("h_split", {0: 0, 1: ax, 2: tri}, time=8 if q else 60))
        for m in (1, 2): r.append(J("h_split", {0: m, 1: ax}, time=10 if q else 600))
    # whole trees: points of every triangle are below boxes that hold them
    for s in range(8):
        for n in ((6,) if q else (3, 4, 6, 9, 16)):
            for k in ((0,) if q else range(4)): r.append(J("h_build_bounds", {0: 2, 1: n, 2: 1, 3: 7 if s % 2 else 1, 5: 10 + s + 8 * (SEED + k), 9: 1, 10: 1}, time=6 if q else 120, opts=CONC))
        for n in ((18 + 9 * s,) if q else (20, 30, 45, 70, 110)):
            for k in ((0,) if q else range(4)): r.append(J("h_build_bounds", {0: 2, 1: n, 2: 1, 3: 1 << s % 3, 5: 10 + s + 8 * (SEED + 3 + k), 9: 1, 10: 1}, time=8 if q else 120, opts=CONC, cover_time=4))
    return r


# ------------------------------------------------------------------ traversal
def trav(flavours, tier, rng):
    q = quick(tier)
    r = []
    T = {0: 1, 1: 2, 2: 4, 3: 4, 4: 4, 5: 8, 6: 3, 7: 6, 8: 5}
    # parameter 12: from slices, through the iterators' constructors, methods, traits
    for i, f in enumerate(flavours):
        lanes = lambda: {14: rng.randrange(4)} if f >= 4 else {}
        def t(topo, pat, way, time, **k): r.append(J("h_trav", {0: f, 1: topo, 2: rng.randrange(T[topo]), 12: way, 16: pat, **lanes(), **{int(x[1:]): v for x, v in k.items()}}, time=time, threads=k.pop("threads", 1)))
        if q:
            two = 2 if f % 4 >= 2 else 1
            w0 = rng.randrange(4)
            for j, p in enumerate(OCT): t(two if j % 2 else 1, p, (w0 + j) % 4, 15)
            for j, p in enumerate(rng.sample(ZPAT, 8)): t(two, p, j % 4, 10)
            for w in range(4): t(0, rng.choice(PAT), w, 8)
            for topo in (2, 3, 4): t(topo, rng.choice(OCT), rng.randrange(4), 20)
            for k in (3, 101, 200, 205): t(two, rng.choice(OCT), rng.randrange(4), 12, p3=k)
            t(two, rng.choice(OCT), rng.randrange(4), 15, p15=1)
            for ax in (1, 2, 3): t((1, two)[ax % 2], rng.choice(OCT), rng.randrange(4), 12, p18=ax)
            # deeper trees: the nodes beside the way to the target are concrete
            for topo in (5, 7, 8):
                for x in range(T[topo]):
                    if (x + f) % 3 == 0: r.append(J("h_trav", {0: f, 1: topo, 2: x, 4: (0, 1 << 6, 0xa5)[x % 3], 12: rng.randrange(4), 16: rng.choice(OCT), **lanes()}, time=6))
        else:
            for topo in (0, 1, 2, 3, 4, 6):
                for x in range(T[topo]):
                    for p in (PAT if topo < 2 else OCT):
                        for w in ((0, 1, 2, 3) if topo < 2 else (rng.randrange(4),)): r.append(J("h_trav", {0: f, 1: topo, 2: x, 12: w, 16: p, **lanes()}, time=240, threads=2))
                    for p in rng.sample(ZPAT, 4): r.append(J("h_trav", {0: f, 1: topo, 2: x, 12: rng.randrange(4), 16: p, **lanes()}, time=240, threads=2))
            for topo in (5, 7, 8):
                for x in range(T[topo]): r.append(J("h_trav", {0: f, 1: topo, 2: x, 12: rng.randrange(4), 16: rng.choice(OCT), **lanes()}, time=400, threads=4))
            for p in OCT:
                for k in (3, 101, 102, 200, 201, 202, 205): r.append(J("h_trav", {0: f, 1: 2 if k > 3 else 1, 3: k, 12: rng.randrange(4), 16: p, 2: 1, **lanes()}, time=120))
                r.append(J("h_trav", {0: f, 1: 2, 2: 1, 15: 1, 12: rng.randrange(4), 16: p, **lanes()}, time=240, threads=2))
                for ax in (1, 2, 3): r.append(J("h_trav", {0: f, 1: 1 + ax % 2, 2: 1, 18: ax, 12: rng.randrange(4), 16: p, **lanes()}, time=120))
                if f >= 4:
                    for lane in (1, 2, 3): r.append(J("h_trav", {0: f, 1: 3, 14: lane, 2: 2, 12: lane, 16: p}, time=240, threads=2))
    return r


def c07(tier): return trav((0, 1), tier, random.Random(SEED * 7 + 1))
def c08(tier): return trav((4, 5), tier, random.Random(SEED * 7 + 2))
def c10(tier): return trav((2, 6, 3, 7), tier, random.Random(SEED * 7 + 3))


# ------------------------------------------------------------------ C09
def c09(tier):
    q = quick(tier)
    r = []
    for t in range(0, 9):
        for k in (1, 3, 101, 102, 200): r.append(J("h_collapse", {0: 0, 1: t, 3: k}, time=30))
    for n in ((1, 5, 12) if q else (1, 2, 3, 5, 8, 12, 20, 40)): r.append(J("h_collapse", {0: 0, 1: 100 + n}, time=40))
    # long chains and large scenes
    for n in ((700, 10600) if q else (150, 300, 700, 1500, 10150, 10600)): r.append(J("h_collapse", {0: 0, 1: 100 + n, 3: 1 + n % 2}, time=60))
    for n, b, l in (((1500, 0, 15), (900, 1, 16)) if q else [(n, b, l) for n in (300, 1500) for b in (0, 1, 2) for l in range(10, 18)]): r.append(J("h_collapse", {0: 1, 1: n, 2: b, 5: l}, time=60, opts=CONC, cover_time=4))
    for b in (0, 1, 2):
        for l in ((0, 2, 3) if q else range(7)):
            for n in ((1, 3, 5, 9) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 40)):
                r.append(J("h_collapse", {0: 1, 1: n, 2: b, 5: l, 7: 0 if b == 2 else 2}, time=30))
    return r


# ------------------------------------------------------------------ C11
def c11(tier):
    q = quick(tier)
    r = []
    for b in (0, 1):
        for n in ((1, 2, 3, 6) if q else (1, 2, 3, 4, 5, 6, 8, 12, 20)):
            for l in ((0, 2) if q else range(7)):
                r.append(J("h_refit", {0: b, 1: n, 2: min(n, 3), 5: l, 6: (n % 2)}, time=25 if q else 200))
        for leaf in (2, 4): r.append(J("h_refit", {0: b, 1: 8, 2: 2, 4: leaf, 5: 2, 8: 3}, time=25 if q else 200))
    # leaves of up to twelve primitives; children before their parents in the array are not made
    for topo in ((0, 1, 2, 6, 7) if q else (0, 1, 2, 3, 4, 5, 6, 7)):
        for k in ((200, 202) if q else range(200, 208)):
            for i in ((7,) if q else (0, 2, 7, 11, 12, 13)): r.append(J("h_refit", {7: topo + 1, 3: k, 2: 1 + (topo < 2 and not q), 8: i + topo, 5: 2 + k % 2 * 9}, time=15 if q else 100))
    return r


# ------------------------------------------------------------------ C12..C16
def c12(tier):
    r = []
    for m in (0, 1, 2, 3, 4):
        for p in PAT:
            if quick(tier) and p in ZPAT and (p + m) % 3: continue
            r.append(J("h_slab", {0: m, 16: p, 14: p % 4}, time=20))
            if not quick(tier):
                for lane in range(4): r.append(J("h_slab", {0: m, 16: p, 14: lane, 15: 1}, time=60))
    # flat boxes
    for ax in (1, 2, 3):
        for i, p in enumerate(OCT):
            if not quick(tier) or (i + ax) % 4 == 0: r.append(J("h_slab", {0: 0, 16: p, 14: i % 4, 18: ax}, time=20))
    return r


def c13(tier):
    r = []
    for m in (0, 1, 3):
        for lane in range(4): r.append(J("h_ray", {0: m, 14: lane}, time=20))
    for ax in range(3):
        for s in (0, 1): r.append(J("h_ray", {0: 2, 1: ax, 2: s}, time=20))
    return r


def c14(tier):
    q = quick(tier)
    r = []
    for k in (0, 1, 2, 3, 5): r.append(J("h_tri", {0: 0, 1: 1, 2: k}, time=20))
    r.append(J("h_tri", {0: 0, 1: 0}, time=20))
    for lane in ((0, 3) if q else range(4)):
        r.append(J("h_tri", {0: 1, 1: 1, 2: lane, 14: lane}, time=20))
    if not q: r.append(J("h_tri", {0: 1, 1: 0}, time=900, threads=4))
    for m in (2, 3, 4, 5):
        for k in (0, 1, 2, 3, 5):
            for d, s in (((8, 0), (3, 1)) if q else ((8, 0), (3, 1), (1, 0), (100, 1), (8, 1))):
                r.append(J("h_tri", {0: m, 2: k, 3: d, 4: s, 14: (k + d) % 4}, time=20))
    return r


def c15(tier):
    r = []
    for g in range(0, 11):
        if g == 8: r += [J("h_aabb", {0: g, 1: ax}, time=30) for ax in range(3)]
        elif g == 9: r += [J("h_aabb", {0: g, 1: s}, time=30) for s in (1, 2, 4, 100)]
        elif g == 10: r += [J("h_aabb", {0: g, 1: m}, time=40) for m in range(6)]
        else: r.append(J("h_aabb", {0: g}, time=40))
    return r


def c16(tier):
    r = [J("h_morton", {0: 0}), J("h_morton", {0: 1}), J("h_morton", {0: 4})]
    for d in range(5):
        for ax in range(3): r.append(J("h_morton", {0: 2, 1: d, 2: ax}))
    for n in ((4, 6) if quick(tier) else (2, 4, 6, 8, 12)):
        for s in ((1, 2) if quick(tier) else (1, 2, 3)): r.append(J("h_morton", {0: 3, 1: n, 2: s}, time=20 if quick(tier) else 200))
    return r


# ------------------------------------------------------------------ C17
def c17(tier):
    q = quick(tier)
    r = []
    for f in range(8):
        one = {6: int(f in (4, 5))}
        # which child is visited first changes at a symbolic level
        for n in ((33, 70, 200) if q else (10, 33, 64, 65, 70, 100, 128, 140, 200, 400)):
            for base in (100, 10000):
                r.append(J("h_deep", {0: f, 1: base + n, 7: 3, **one}, time=15 if q else 200))
                for shape in (1, 2): r.append(J("h_deep", {0: f, 1: base + n, 7: shape, **one}, time=15 if q else 120))
        for k in (3, 101, 200): r.append(J("h_deep", {0: f, 1: (10000, 100)[k % 2] + 40, 3: k, 7: 3, **one}, time=15))
        # empty leaves
        for base, n, k in ((10000, 30, 300), (100, 30, 301)) + (() if q else ((10000, 50, 302), (100, 9, 303), (10000, 9, 305))): r.append(J("h_deep", {0: f, 1: base + n, 3: k, 7: 3, **one}, time=15 if q else 120))
        # fewer primitives than the tree refers to
        if f % 2 == 0:
            for base, n, k, miss in ((10000, 24, 3, 5), (100, 36, 1, 1), (10000, 40, 5, 199), (100, 18, 3, 40)): r.append(J("h_deep", {0: f, 1: base + n, 3: k, 7: 3, 8: miss, **one}, time=15 if q else 120))
        # rays in any direction
        for i, p in enumerate(OCT[f:f + 1] if q else PAT): r.append(J("h_deep", {0: f, 1: (10000, 100)[i % 2] + 80, 5: 1, 7: 3, 16: p, **one}, time=15 if q else 100))
    return r


# ------------------------------------------------------------------ C18
def c18(tier):
    q = quick(tier)
    r = []
    t, tc = (15, 5) if q else (120, 60)
    for b in (0, 1):
        r.append(J("h_ffi", {0: 4, 11: b}, time=t))
        for st in (3, 4):
            for fl in range(4):
                if q and (st + fl) % 2: continue
                for sc in ((11,) if q else range(10, 18)): r.append(J("h_ffi", {0: 0, 1: 4, 12: 1, 11: b, 10: st, 13: fl, 5: sc, 9: 1, 4: fl}, time=tc, opts=CONC))
            for sc in ((10, 12) if q else range(10, 18)): r.append(J("h_ffi", {0: 0, 1: 5, 11: b, 10: st, 13: sc % 4, 5: sc}, time=t))
        for n, m in (((1, 1), (3, 3), (7, 2)) if q else ((1, 1), (2, 2), (3, 3), (4, 4), (7, 3), (12, 3))):
            for sc in ((10, 13) if q else range(10, 18)): r.append(J("h_ffi", {0: 3, 1: n, 12: m, 11: b, 5: sc, 13: (n + sc) % 4, 4: n % 3}, time=t))
    for vs, gap, st in ((3, 0, 3), (4, 0, 4), (4, 3, 3), (8, 2, 5)):
        for fl in range(4):
            if q and (vs + fl + gap) % 2: continue
            r.append(J("h_ffi", {0: 1, 1: 4, 12: 1, 3: 1, 10: st, 15: vs, 16: gap, 13: fl, 5: 11 + fl, 9: 1, 4: fl}, time=tc, opts=CONC))
            r.append(J("h_ffi", {0: 1, 1: 5, 10: st, 15: vs, 16: gap, 13: fl, 5: 10 + fl}, time=t))
    # vertices shared between triangles, and arrays split by vertex
    for lay in (1, 2):
        for vs, gap in ((3, 0), (5, 2)):
            for fl in ((vs % 2, 2 + lay % 2) if q else range(4)):
                r.append(J("h_ffi", {0: 1, 1: 5 if q else 7, 12: 1, 3: 1, 10: 3 + fl % 2, 15: vs, 16: gap, 19: lay, 13: fl, 5: 10 + 3 * lay + fl, 9: 1}, time=tc, opts=CONC))
    for f in range(4):
        for k in ((1, 6) if q else (1, 2, 3, 4, 5, 6, 7)):
            for sc in ((2,) if q else (2, 10, 11, 16)):
                r.append(J("h_ffi", {0: 2, 1: 4, 5: sc, 14: f, 6: k, 11: k % 2, 13: 2 * (f % 2), 18: (f + k) % 4}, time=t))
        r.append(J("h_ffi", {0: 2, 1: 4, 5: 2, 14: f, 6: 5, 17: 2, 18: 1}, time=t))
    for n, steps in (((3, 4), (2, 5)) if q else ((3, 5), (4, 5), (2, 6), (5, 4))): r.append(J("h_ffi", {0: 5, 1: n, 14: steps, 5: 2}, time=30 if q else 300, threads=2))
    return r


# ------------------------------------------------------------------ C20
def c20(tier):
    q = quick(tier)
    r = []
    for b in (0, 1, 2):
        o = 2 if b == 1 else 3
        # concrete scenes, every schedule
        for st in range(8):
            for n in ((4 if b == 1 else 6,) if q else (3, 4, 6, 9, 12)):
                for k in ((0,) if q else range(4)):
                    r.append(J("h_schedule", {0: b, 1: n + st % 3, 2: 0, 5: 10 + st + 8 * (SEED + k), 7: 2 * (st % 2), 4: st % 3, 6: (st + k) % 2, 900: o, 901: 1 + (st + k) % 4, 902: 2, 903: 1 + st % 2}, time=6 if q else 60, opts=CONC))
        # symbolic box, symbolic schedule
        for st, s in (((1, 1), (5, 2), (0, 2)) if q else [(st, s) for st in range(8) for s in range(1, 5)]):
            r.append(J("h_schedule", {0: b, 1: 6, 2: 1, 3: 1, 5: 10 + st + 8 * s, 9: 1, 6: s % 2, 900: o, 901: s if b == 1 else 0, 902: 2, 903: 1}, time=8 if q else 200, opts=CONC))
            # interleaved threads against one thread
            r.append(J("h_schedule", {0: b, 1: 6, 2: 1, 3: 1, 5: 10 + st + 8 * s, 9: 1, 6: s % 2, 902: 3, 903: 1, 904: s % 2}, time=8 if q else 200, opts=CONC))
            r.append(J("h_schedule", {0: b, 1: 9, 2: 0, 5: 10 + st + 8 * s, 6: s % 2, 902: 3, 903: 1, 904: 2}, time=8 if q else 200, opts=CONC))
        # spatial splits below the root, on either side
        for i, (n, l) in enumerate(SPLITS if b == 2 else []):
            r.append(J("h_schedule", {0: b, 1: n, 2: 0, 5: l, 6: i % 2, 900: o, 901: 1 + i % 4, 902: 2, 903: 1}, time=6 if q else 60, opts=CONC))
            if not q or i % 3 == 0: r.append(J("h_schedule", {0: b, 1: n, 2: 0, 5: l, 6: i % 2, 902: 3, 903: 1, 904: 2}, time=8 if q else 200, opts=CONC))
        # more work than the usual threshold for spawning
        if b != 1: r.append(J("h_schedule", {0: b, 1: 40 if q else 200, 2: 0, 5: 15, 900: 1, 902: 1, 903: 4}, time=10 if q else 60, opts=CONC))
    return r


# ------------------------------------------------------------------ C19
def c19(tier):
    q = quick(tier)
    r = []
    o = CONC + ["--race"]
    hs = lambda style, k=0: 10 + style + 8 * (SEED + k)
    for b in (0, 2):
        # every interleaving at atomic operations with up to two (three) preemptions
        for s in range(8):
            for n in ((8 + s % 3,) if q else (5, 8, 12)):
                for pre in ((2,) if q else (1, 2, 3)):
                    r.append(J("h_race", {0: b, 1: n, 2: 0, 5: hs(s), 4: s % 3, 6: s % 2, 902: 3, 903: 1 + s % 2, 904: pre}, time=6 if q else 200, opts=o))
        # symbolic boxes: which node, index and reference a piece of work touches is open
        for s, n, m, pre in (((1, 5, 1, 1), (2, 6, 1, 0), (5, 12, 1, 0), (7, 20, 1, 0)) if q else [(s, n, m, pre) for s in range(8) for n, m in ((4, 1), (6, 1), (6, 2), (16, 1)) for pre in (0, 1)]):
            r.append(J("h_race", {0: b, 1: n, 2: m, 3: 1 if s % 2 else 7, 5: hs(s, 1), 9: 1, 902: 3, 903: 1 + s % 2, 904: pre}, time=10 if q else 200, opts=o))
        for i, (n, l) in enumerate(SPLITS if b == 2 else []):
            if not q or i in (1, 3, 6): r.append(J("h_race", {0: b, 1: n, 2: 0, 5: l, 6: i % 2, 902: 3, 903: 1, 904: 1}, time=8 if q else 200, opts=o))
        r.append(J("h_race", {0: b, 1: 40, 2: 0, 5: hs(4), 902: 3, 903: 3, 904: 1}, time=10 if q else 200, opts=o))
    # parallel iterators: every pair of items is concurrent
    for s in range(8):
        for n, m in (((9 + 3 * s, 1),) if q else ((3, 2), (5, 1), (8, 1), (16, 1), (40, 1))):
            r.append(J("h_race", {0: 1, 1: n, 2: m, 3: 1, 5: hs(s), 9: 1, 6: s % 2, 901: 1 + s % 4}, time=6 if q else 100, opts=o))
    return r


# ------------------------------------------------------------------ C21
def c21(tier):
    q = quick(tier)
    r = []
    for f in range(8):
        if q: c = [(0, 11, 1), (1, 19, 3), (0, 16, 5), ((1, 0)[f % 2], 12, (4, 6)[f % 2])]
        else: c = [(b, l, k) for b in (0, 1, 2) for l in (0, 1, 2, 3, 5) + tuple(range(10, 18)) for k in (1, 3, 5, 6)]
        for b, l, k in c: r.append(J("h_closest", {0: f, 1: 5, 2: b, 5: l, 11: k, 10: f % 4, 16: 46}, time=12 if q else 100))
        # few primitives: every path
        for i, (n, l, k) in enumerate(((2, (5, 11, 16, 12)[f % 4], (1, 2, 3, 6)[f // 2]), (3, 5, (3, 1, 2)[f % 3])) if q else [(n, l, k) for n in (1, 2, 3) for l in (5, 11, 12, 16) for k in (1, 2, 3, 6, 7)]):
            r.append(J("h_closest", {0: f, 1: n, 2: (f + i) % 3, 5: l, 11: k, 10: (f + 2) % 4, 15: 1, 17: (f + i) % 3, 16: 46}, time=10 if q else 100))
        # a limit of the ray's own, and hits inside the boxes
        for b, l, k, w in ([(f % 3, 13 + f % 4, (1, 3, 5)[f % 3], 1 + f % 2)] if q else [(b, l, k, w) for b in (0, 1, 2) for l in (2, 11, 13, 15) for k in (1, 3, 5, 6) for w in (0, 1, 2)]):
            r.append(J("h_closest", {0: f, 1: 5, 2: b, 5: l, 11: k, 10: (f + 1) % 4, 15: 1, 17: w, 16: 46}, time=12 if q else 100))
            if q: r.append(J("h_closest", {0: f, 1: 4, 2: b, 5: 5, 11: 1 + f % 3, 10: (f + 1) % 4, 15: f // 2 % 2, 17: 3 - w, 16: 46}, time=12))
    return r


PROPS = {}


def P(id_, title, jobs, bounds, outside, **k):
    PROPS[id_] = dict(title=title, jobs=jobs, bounds=bounds, outside=outside, **k)


P("C01", "Builders validate their input and report typed errors", c01, "n primitives and m boxes, n, m <= 8 (quick) or 12; three builders and leaf caps 0..3 symbolic", "other sizes; geometry is concrete here")
P("C02", "Binned SAH trees hold every primitive exactly once", c02, "all scenes of 1 and 2 primitives along one axis; scenes of up to 200 (thorough 2000) primitives with one or two symbolic boxes, explored until the time limit; leaves of up to 301 (thorough 600) primitives; scenes far from the origin, where coordinates round to few values", "scenes with more free primitives; unexplored paths are counted in jobs_partial")
P("C03", "LOC trees hold every primitive exactly once", c03, "as C02, three fully symbolic primitives", "as C02")
P("C04", "Spatial-split trees reference every primitive, never out of range", c04, "as C02", "as C02")
P("C05", "Tree nodes enclose everything below them", c05, "as C02..C04", "as C02")
P("C06", "Spatial splits lose no part of a triangle", c06, "concrete triangles with any split plane; symbolic vertices until the time limit; whole trees of up to 81 (thorough 110) triangles with one symbolic", "triangles with coordinates beyond +-100")
P("C07", "Ray traversal misses no primitive whose box the ray crosses", c07, "trees of up to 8 leaves, all node boxes symbolic within +-1000, symbolic ray", "larger trees, |coordinates| > 1000, grazing rays (margin 0.01)")
P("C08", "Packet traversal misses no primitive crossed by any of its rays", c08, "as C07, four rays, one symbolic", "as C07")
P("C09", "Four-wide trees keep every leaf and enclose its boxes", c09, "topologies of up to 41 leaves with symbolic boxes", "larger trees")
P("C10", "Four-wide traversal misses no primitive the ray crosses", c10, "as C07", "as C07")
P("C11", "Refitting keeps the topology and encloses the moved primitives", c11, "trees of up to 20 primitives, leaves of up to 12, up to three primitives moved anywhere within +-10^6", "more moved primitives")
P("C12", "Ray/box tests answer correctly", c12, "any box within +-1000, any ray, margin 0.01", "grazing rays")
P("C13", "Rays and packets carry the same rays", c13, "any finite components", "NaN components")
P("C14", "Triangle intersection is sound and only shrinks the distance", c14, "any triangle and ray for soundness; axis-aligned triangles for exactness", "exactness for general triangles")
P("C15", "Bounding boxes obey the laws of intervals", c15, "coordinates within +-10^6", "infinite and NaN coordinates")
P("C16", "Morton codes are interleaved, invertible and monotone", c16, "all 32-bit inputs; grids of 1..1024 cells", "larger grids")
P("C17", "Deep and degenerate trees are traversed completely and safely", c17, "chains of up to 400 levels, the order of children at any level symbolic", "deeper chains")
P("C18", "The C interface agrees with the native one", c18, "arrays of up to 12 primitives with every documented stride and alignment (triangles apart, sharing vertices, or split by vertex), symbolic boxes and rays; histories of up to 5 (thorough 6) calls on handles, freed ones among them; unknown handles symbolic", "larger scenes; concurrent callers", assume=["lazy_static and parking_lot are replaced by sequential shims; a lock request that would block forever is a violation."])
P("C19", "Parallel construction is free of data races", c19, "scenes of up to 40 primitives, concrete or with one or two symbolic boxes; every interleaving at atomic operations with up to 2 (thorough 3) preemptions, as far as the time limit allows; all pairs of concurrent accesses of fork/join-ordered tasks", "more preemptions; weak memory order effects beyond data races; accesses inside rayon and crossbeam; race-free order through atomics is not used, so such candidates need Miri to confirm them", assume=["Threads of crossbeam and items of rayon's parallel for_each are tasks ordered by fork and join only; a candidate race or failing interleaving counts when Miri reproduces it with the real rayon and crossbeam (seeds 0..127, preemption rate 0.5)."])
P("C20", "Trees do not depend on the schedule of parallel work", c20, "scenes of up to 40 primitives, permuted work orders, 1 to 8 processors, interleavings with up to 2 preemptions", "larger scenes, other orders")
P("C21", "Nearest hits agree with testing every primitive", c21, "scenes of 4 and 5 boxes, axis and sign-octant rays with a symbolic limit of their own; a primitive is hit where the ray enters its box, half way or near its exit", "larger scenes")
