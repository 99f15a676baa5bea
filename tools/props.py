"""What is explored for each property: variants (how /repo is compiled) and symbolic runs."""
import math
from sxlib import Variant, native_run
from run import Run

VARIANTS = {}
PROPS = {}
NOT_APPLICABLE = {}

def variant(*a, **k):
    v = Variant(*a, **k)
    VARIANTS[v.name] = v

def ctx_report(ctx, *a):
    import __main__
    __main__.report(ctx, *a)

# ---------------------------------------------------------------- shuffles
variant("shuffle", "shuffle.cc", sources=["DPPIR/shuffle/"])

def runs_c06(tier):
    r = [Run("shuffle", "h_perm", n, 1) for n in range(0, 6 if tier == "quick" else 8)]
    r += [Run("shuffle", "h_perm", n, 0) for n in ((17, 257, 70000) if tier == "quick" else (17, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 300000))]
    return r

PROPS["C06"] = dict(variants=["shuffle"], runs=runs_c06,
    bounds="batch sizes 0..5 (thorough 0..7) with every random stream; sizes up to 70000 (thorough 300000) with one fixed stream",
    assumptions=["rand() after srand(s) is a deterministic stream of 31-bit values that depends on s only"])

def post_c07(ctx, runs):
    # a draw is unbiased if it is the scaled or the remainder form for every value of the source
    forms = {}
    for r in runs:
        if r.entry == "h_bounded" and r.args[1] in (1, 2):
            res = r.res or {}
            ok = bool(res.get("complete")) and not res.get("violations") and not res.get("errors") and res.get("paths", 0) > 0
            forms.setdefault(r.args[0], []).append(ok)
    exe = ctx.exes["shuffle"]
    for n, oks in sorted(forms.items()):
        if any(oks):
            continue
        k, lines, err = native_run(exe, "n_count", [n], None, seed=1, limit=300)
        if k == "violation":
            run = [r for r in runs if r.entry == "h_bounded" and r.args == [n, 1]][0]
            v = (run.res or {}).get("violations") or [{}]
            ctx_report(ctx, run, "bias", "C07: index drawn from a range of %d is not uniform over the random source" % n, "random_bounded", v[0].get("inputs", []), lines[-3:], k)
            return
        ctx.notes.append("range %d: neither form provable; exact count over the source shows no bias" % n)
    # equally many reduced streams per permutation
    for r in runs:
        if r.entry == "h_equal" and r.res and r.res.get("complete") and not r.res.get("violations"):
            c = {k: v for k, v in r.res["covers"].items() if k.startswith("perm#")}
            n = r.args[0]
            if len(c) != math.factorial(n) or len(set(c.values())) != 1:
                k, lines, err = native_run(exe, "n_equal", [n], None, seed=1, limit=120)
                if k == "violation":
                    ctx_report(ctx, r, "bias", "C07: permutations of %d messages are not equally likely: %s" % (n, sorted(c.items())[:8]), "shuffle", [], lines[-3:], k)
                else:
                    ctx.undecided[r.label] = "bias not reproduced %s %s" % (c, k)
                return

def form_only(ctx, run, res):
    """The two accepted forms are alternatives: judged together in post."""
    for e in res["errors"]:
        ctx.notes.append("%s: %s" % (run.label, e))

def runs_c07(tier):
    ns = (2, 3, 4, 5, 7, 8, 13) if tier == "quick" else tuple(range(1, 33)) + (63, 64, 65, 100, 127, 128, 255, 256, 1000)
    r = []
    for n in ns:
        r.append(Run("shuffle", "h_bounded", n, 0, confirm="n_count", confirm_args=[n]))
        r += [Run("shuffle", "h_bounded", n, f, custom=form_only) for f in (1, 2)]
    r += [Run("shuffle", "h_bounded_ends", n, need=None) for n in (100, 1000, 65536, 1000003, (1 << 31) - 1, 1 << 31, (1 << 32) - 1)]
    r += [Run("shuffle", "h_allperms", n, confirm="n_perms", confirm_args=[n], need=None) for n in ((2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6))]
    r += [Run("shuffle", "h_equal", n, need=None) for n in (2, 3, 4)]
    r += [Run("shuffle", "h_far", n, confirm="n_far", confirm_args=[n], need=None) for n in ((30, 300, 5000, 70000) if tier == "quick" else (30, 300, 1000, 5000, 33000, 70000, 140000))]
    return r

PROPS["C07"] = dict(variants=["shuffle"], runs=runs_c07, post=post_c07,
    bounds="draw ranges 2..13 (thorough 1..1000) with every value of rand(); batch sizes 2..5 (thorough 6) for reachability of all permutations; equal likelihood for sizes 2..4 over a source reduced to lcm(1..n) equidistant values; sizes up to 70000 (thorough 140000): the first, middle and last position reach and are reached from every third of the batch under one of 40 streams",
    assumptions=["rand() is uniform over 0..2^31-1"])

variant("pshuffle", "pshuffle.cc", sources=["DPPIR/shuffle/"])
def runs_c08(tier):
    q = tier == "quick"
    r = [Run("pshuffle", "h_routes", 1, 3, 3, 1), Run("pshuffle", "h_routes", 2, 4 if q else 5, 4 if q else 5, 1), Run("pshuffle", "h_routes", 3, 3, 4 if q else 5, 1), Run("pshuffle", "h_routes", 4, 2, 4 if q else 5, 1)]
    r += [Run("pshuffle", "h_routes", s, 5, 6, 0) for s in (2, 3)]
    r += [Run("pshuffle", "h_routes_big", *a) for a in ((2, 150, 3), (3, 300, 1), (5, 7, 2), (8, 0, 1), (255, 2, 0), (200, 1, 0))]
    if not q:
        r += [Run("pshuffle", "h_routes_big", *a) for a in ((2, 40000, 7), (16, 5000, 3), (130, 9, 1), (254, 3, 0))]
    return r
PROPS["C08"] = dict(variants=["pshuffle"], runs=runs_c08,
    bounds="1..4 servers, every vector of counts with total <= 4 (thorough 5), every noise split, every random stream; totals up to 6 with a fixed stream; selected large configurations up to 255 servers (fixed stream)",
    assumptions=["the siblings draw the same rand() stream after srand(shared seed)"])

variant("sharing", "sharing.cc", sources=["DPPIR/sharing/"])
P31 = (1 << 31) - 1
FIB = 1836311903  # deep Euclid
YS = [1, 2, 3, P31 - 1, P31 - 2, 65535, 65536, 65537, 1 << 30, (1 << 30) + 1, (1 << 30) - 1, 123456789, 2000000011 % P31, 46341, 46340, FIB, 1134903170]
def runs_c09(tier):
    q = tier == "quick"
    r = [Run("sharing", "h_tally", 1, y, 1) for y in YS]
    r += [Run("sharing", "h_tally_ys", lo, n) for lo, n in (((1, 48), (P31 - 48, 48), (1 << 24, 16)) if q else ((1, 500), (501, 500), (P31 - 500, 500), (1 << 16, 300), (1 << 24, 300), (1 << 30, 300), (1500000000, 300)))]
    for ys in ((1, 3), (P31 - 1, 123456789), (1 << 30, 7), (FIB, 65537), (2, 2), (P31 - 2, P31 - 1)):
        r += [Run("sharing", "h_tally", 2, *ys, 3)]
    for ys in ((5, P31 - 1, 123456789), (1, 1, 1), (FIB, 46341, 1 << 30), (2000000011, 3, 1134903170)):
        r += [Run("sharing", "h_tally", 3, *ys, m) for m in (7, 1, 4)]
    for ys in ((5, P31 - 1, 123456789, 11, 3), (FIB, 46341, 1 << 30, 2, 99)):
        r += [Run("sharing", "h_tally", 4, *ys[:4], m) for m in (3, 5, 8)]
        r += [Run("sharing", "h_tally", 5, *ys, m) for m in (3, 16)]
    r += [Run("sharing", "h_drawn_range", n) for n in (1, 2, 3, 5, 9)]
    r += [Run("sharing", "h_tally_edges", n) for n in ((1, 2, 3, 4, 6) if q else (1, 2, 3, 4, 5, 6, 8, 12))]
    r += [Run("sharing", "h_tally_drawn", n) for n in (1, 2, 3)]
    return r
PROPS["C09"] = dict(variants=["sharing"], runs=runs_c09,
    bounds="every key and every additive part x below the prime (2^31-1) for a chain of 1..3 parties (4 and 5 parties: one or two x arbitrary); multipliers: the fixed sets in props.py and the ranges 1..48, p-48..p-1 (thorough: about 2500 values)",
    assumptions=["multipliers outside the listed values are not covered: the modular inverse is computed per concrete multiplier"])
def runs_c10(tier):
    r = [Run("sharing", "h_uniform", n) for n in (1, 2, 3, 4, 5)]
    for n, ys in ((1, (3,)), (1, (P31 - 1,)), (2, (5, P31 - 1)), (2, (1, 1)), (2, (123456789, 46341)), (3, (5, P31 - 1, 123456789)), (3, (1 << 30, 7, FIB))):
        r += [Run("sharing", "h_hide", n, j, *ys) for j in range(n)]
    return r + runs_fresh(tier, SHARES, 2)
def runs_fresh(tier, check, sym):
    """what clients and parties put into their onions"""
    r = []
    for P, S, db, noise, qs in ((2, 1, 1, 0, q(1)), (2, 1, 2, 0, q(3)), (2, 1, 1, 3, q(1)), (3, 1, 1, 0, q(2)), (3, 1, 1, 2, q(1)), (2, 2, 2, 0, q(2, 1)), (2, 2, 2, 2, q(1, 0)), (3, 2, 2, 0, q(1, 1)), (2, 3, 3, 0, q(1, 1, 1))) + (((2, 1, 2, 3, q(4)), (4, 1, 1, 0, q(1))) if check == SHARES else ()):
        r.append(e2e(check, OFFLINE, P, S, db, noise, qs, sym=sym))
    # nothing is handed out twice in long batches
    r += [big(OFFLINE, 2, 1, 3, 2, 700, 0, 0, check=check), big(OFFLINE, 3, 1, 300, 3, 5, 0, 0, check=check), big(OFFLINE, 3, 2, 300, 2, 300, 280, 0, check=check)]
    return r
PROPS["C10"] = dict(variants=["sharing", "e2e", "e2e_wide", "e2e_real"], runs=runs_c10,
    bounds="1..5 parties for the draws, 1..3 for what a tally says; every key pair, every additive part of the missing preshare; the multiplier sets in props.py; whole offline stages of 2..4 parties and 1..3 servers with up to 4 queries and 4 noise queries: the draws of every client and noise query with all additive parts arbitrary; offline stages of up to 900 queries and noise queries per hop with a fixed random source: nothing handed out twice",
    assumptions=["randombytes_uniform(n) is uniform over 0..n-1"])
def runs_c11(tier):
    r = [Run("sharing", "h_masks", n) for n in ((1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 8))]
    r += [Run("sharing", "h_mask_step")]
    r += [Run("sharing", "h_masks_uniform", n, m) for n in ((1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8)) for m in range(n)]
    return r + runs_fresh(tier, MASKS, 4)
PROPS["C11"] = dict(variants=["sharing", "e2e", "e2e_wide", "e2e_real"], runs=runs_c11,
    bounds="1..5 parties (thorough 1..8), every response byte, every mask byte; whole offline stages of 2..3 parties and 1..3 servers: the masks of every client and noise query, every random byte; up to 900 queries and noise queries per hop with a fixed random source: no mask twice", assumptions=["randombytes_buf fills the buffer with uniform independent bytes"])

variant("onion", "onion.cc", sources=["DPPIR/onion/", "DPPIR/types/"])
def runs_c12(tier):
    q = tier == "quick"
    shapes = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (5, 0), (5, 3), (8, 0)] + ([] if q else [(6, 1), (10, 0), (16, 0)])
    r = [Run("onion", "h_peel", n, f) for n, f in shapes]
    r += [Run("onion", "h_peel", n, f, 1) for n, f in ((20, 0), (130, 1), (255, 0), (255, 100), (255, 254))]
    # (n, first, pk of, sk of): not next in line, an outsider, mixed halves
    r += [Run("onion", "h_wrong_key", n, f, w, s, need=None) for n, f, w, s in ((2, 0, 1, 1), (2, 1, 0, 0), (3, 0, 1, 1), (3, 0, 2, 2), (3, 1, 0, 0), (3, 0, 3, 3), (2, 0, 0, 1), (2, 0, 1, 0), (1, 0, 1, 1))]
    r += [Run("onion", "h_tamper", n, f, at, need=None) for n, f, at in (((1, 0, 0), (2, 0, 0), (2, 0, 1)) if q else ((1, 0, 0), (2, 0, 0), (2, 0, 1), (3, 0, 0), (3, 0, 1), (3, 1, 1)))]
    return r
PROPS["C12"] = dict(variants=["onion"], runs=runs_c12,
    bounds="1..5 and 8 parties (thorough up to 16), onions starting at any party, every byte of every secret (20, 130 and 255 parties with fixed contents); every single-byte change (position and value) of onions of up to 2 (thorough 3) layers; listed wrong keys",
    assumptions=["crypto_box_seal is an ideal sealed box: opens only with the matching key pair and rejects every modified ciphertext"])

variant("db", "db.cc", sources=["DPPIR/types/"])
def runs_c18(tier):
    q = tier == "quick"
    r = [Run("db", "h_rows", n, 0) for n in (1, 2, 3, 100, 129)]
    r += [Run("db", "h_rows_all", n) for n in ((1000, 70000, 140000) if q else (1000, 70000, 140000, 500000, 1100000))]
    r += [Run("db", "h_rows", n, 1) for n in ((300,) if q else (300, 3000))]
    r += [Run("db", "h_random_row", n) for n in (1, 2, 5, 64)]
    r += [Run("db", "h_equal_rows")]
    return r
PROPS["C18"] = dict(variants=["db"], runs=runs_c18,
    bounds="databases of 1..129 rows with an arbitrary key, 300 (thorough 3000) with every key, up to 140000 (thorough 1100000) rows built and read; every pair of row contents for equality",
    assumptions=["randombytes_uniform(n) is uniform over 0..n-1"])

variant("noise", "noise.cc", sources=["DPPIR/noise/"])
variant("noise_sample", "noise.cc", sources=["DPPIR/noise/"], defines=["DPPIR_SAMPLE"])
def runs_c04_ranges(tier):
    q = tier == "quick"
    r = []
    for n in ((1, 2, 3, 4, 5, 7, 8, 16) if q else tuple(range(1, 33)) + (50, 64, 100, 128, 200, 254, 255)):
        r += [Run("noise", "h_ranges", n, n, (1 << 31) - 1)]
    r += [Run("noise", "h_ranges_small", n, k) for n, k in ((6, 40), (10, 60), (100, 20), (255, 8))]
    return r
def runs_c05(tier):
    q = tier == "quick"
    pairs = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (7, 6), (8, 7), (9, 8), (6, 9)]
    r = [Run("noise", "h_mean", a, b) for a, b in ([(i, j) for i in range(10) for j in range(10)] if not q else pairs + [(b, a) for a, b in pairs])]
    for v in ("noise", "noise_sample"):
        r += [Run(v, "h_none", w, s, m, max_time=150) for w in (0, 1) for s in (0, 1) for m in (0, 1)]
        r += [Run(v, "h_reject", i, need=None) for i in range(9)]
    sp = [(0, 0), (2, 5), (4, 7), (8, 9)]
    r += [Run("noise_sample", "h_domain", a, b, max_time=120, soft=True, confirm="n_edges", confirm_args=[a, b]) for a, b in (sp if q else pairs)]
    r += [Run("noise_sample", "h_edges", a, b, confirm="n_edges", confirm_args=[a, b]) for a, b in sp + [(1, 0), (0, 1)]]
    r += [Run("noise", "h_anyeps", d, soft=True, max_time=120) for d in ((0,) if q else (0, 1, 4, 7))]
    r += [Run("noise_sample", "h_shape", a, b, 48) for a, b in ((0, 0), (1, 1), (6, 5))]
    return r
PROPS["C05"] = dict(variants=["noise", "noise_sample"], runs=runs_c05,
    bounds="10 epsilon and 10 delta values of the table in harness/noise.cc (20 pairs, thorough all 100; deltas 1e-12 and up), delta fixed and every epsilon (over-approximated log), noise-free and rejected parameters with an arbitrary other parameter; sampling: every value of the random source for 4 (thorough 10) pairs",
    assumptions=["log/floor are those of the C library; where the argument of log is symbolic it is over-approximated by monotone bounds and counterexamples are confirmed natively"])

variant("config", "config.cc", sources=["DPPIR/config/"])
def runs_c15(tier):
    q = tier == "quick"
    shapes = [(1, 1, 9, 1), (2, 1, 0, 1), (1, 2, 7, 1), (2, 2, 15, 0), (3, 2, 1, 0), (0, 0, 0, 0), (2, 0, 0, 0), (0, 3, 0, 0), (5, 1, 12, 0), (1, 9, 4, 0), (255, 1, 0, 0), (1, 255, 0, 0), (2, 130, 0, 0), (1, 1, 99, 0), (1, 2, 99, 0), (1, 1, 255, 0), (1, 1, 256, 0), (2, 1, 300, 0), (1, 2, 1000, 0)]
    if not q: shapes += [(4, 4, 3, 1), (1, 17, 1, 1), (255, 2, 3, 0), (128, 3, 1, 0), (16, 16, 9, 0)]
    return [Run("config_io", "h_file", a, b, c) for a, b, c, _ in shapes] + [Run("config", "h_roundtrip", *s) for s in shapes] + [Run("config", "h_format", a, b, c) for a, b, c, _ in shapes]
def runs_c16(tier):
    q = tier == "quick"
    ls = (0, 1, 3, 4, 12, 20, 27, 28, 29, 40, 95, 96, 97, 108, 109, 110) if q else tuple(range(0, 30)) + tuple(range(90, 130)) + (164, 177, 178)
    r = [Run("config", "h_bytes", n, need=None) for n in ls]
    for sh in (((1, 1, 4), (2, 2, 3)) if q else ((1, 1, 4), (2, 2, 3), (3, 1, 9), (1, 3, 0))):
        r += [Run("config", "h_damage", *sh, h, need=None) for h in (0, 1, 2)]
    return r
PROPS["C15"] = dict(variants=["config", "config_io"], runs=runs_c15,
    bounds="13 (thorough 18) party/server shapes up to 255x1, 1x255 and 2x130; small shapes with every value of every field and byte, addresses of 0..16 characters (one and two of any length up to 40; 255, 256, 300 and 1000 characters); large shapes with concrete varied contents",
    assumptions=["addresses contain no NUL character"])
PROPS["C16"] = dict(variants=["config"], runs=runs_c16,
    bounds="every byte string of the listed lengths (0..110, thorough 0..178); every truncation, extension and single-byte change of the images of two (thorough four) valid configurations",
    assumptions=[])

variant("config_io", "config.cc", sources=["DPPIR/config/"], defines=["WITH_FILES"], includes=["shadow_io"], optional=True)
GEN = "DPPIR/config/gen_config.cc"
variant("gen", "gen.cc", sources=["DPPIR/config/", "DPPIR/onion/", "DPPIR/types/"], includes=["shadow_io"], flags={GEN: ["-Dmain=gen_config_main"]})
def runs_c23(tier):
    quick = tier == "quick"
    r = []
    for inter in (0, 1, 2):
        for P, S, mode, n, ed in ((1, 1, 0, 5, 0), (2, 1, 0, 3, 7), (2, 1, 1, 1, 14), (1, 2, 2, 2, 21), (2, 2, 2, 4, 28), (3, 2, 1, 9, 35), (2, 3, 2, 6, 1), (4, 3, 0, 1, 8), (3, 4, 1, 2, 3), (2, 5, 1, 3, 10), (5, 2, 0, 7, 17), (5, 2, 1, 7, 17), (4, 3, 1, 2, 12), (7, 7, 1, 3, 0)):
            r.append(Run("gen", "h_gen", P, S, mode, n, ed, inter))
        big_ = ((255, 1, 0, 1, 0), (255, 1, 1, 1, 0), (1, 255, 1, 1, 0), (18, 19, 1, 2, 3), (1, 255, 0, 1, 0), (20, 20, 0, 6, 9), (100, 10, 0, 2, 2), (40, 25, 0, 3, 4), (26, 40, 0, 3, 5), (130, 130, 0, 3, 5))
        for a in big_:
            r.append(Run("gen", "h_gen", *a, inter))
        if not quick:
            r += [Run("gen", "h_gen", P, S, 2, 3, 0, inter) for P in range(1, 5) for S in range(1, 4)]
            r += [Run("gen", "h_gen", 2, 2, 0, 2, ed, inter) for ed in range(36)]
        for P, S in ((256, 1), (1, 256), (257, 2), (2, 300), (-1, 2), (2, -1), (255, 255), (65537, 1), (1000000, 3)):
            r.append(Run("gen", "h_gen_refuse", P, S, 0, 0, inter, need=None)) if inter < 2 else None
    for P, S, n, cut in ((2, 2, 3, 0), (2, 2, 5, 0), (2, 1, 1, 0), (1, 1, 2, 0), (3, 2, 1, 0), (2, 2, 0, 6), (2, 2, 0, 5), (2, 2, 0, 4), (2, 2, 0, 3)):
        r.append(Run("gen", "h_gen_refuse", P, S, n, cut, 0, need=None))
    r += [Run("gen", "h_gen_bad", k, 0, need=None) for k in range(6)] + [Run("gen", "h_gen_bad", k, 1, need=None) for k in range(16)]
    return r
PROPS["C23"] = dict(variants=["gen"], runs=runs_c23,
    bounds="24 shapes up to 255x1, 1x255, 26x40 and 130x130, database sizes of 1..9 digits (the last four arbitrary), 6 epsilon and 6 delta texts, addresses of 7..15 arbitrary printable characters for up to 6 servers; command line and interactive use; 18 kinds of arguments and 22 malformed sizes and dialogues that must be refused",
    assumptions=["files and standard input are those of /verif/shadow_io", "crypto_box_keypair makes matching, distinct pairs"])

# ---------------------------------------------------------------- whole protocol
E2E = ["DPPIR/"]
variant("e2e", "e2e.cc")
variant("e2e_wide", "e2e.cc", buffer_size=800)  # the onions of 4..6 parties fit
variant("e2e_realsample", "e2e.cc", defines=["DPPIR_SAMPLE"], buffer_size=None, poll_rate=None)
variant("e2e_real", "e2e.cc", buffer_size=None, poll_rate=None)  # the constants as they are
variant("e2e_sample", "e2e.cc", defines=["DPPIR_SAMPLE"], buffer_size=800)
# many partly filled buffers and polls between sends; units must fit (online stage only / with two-layer onions)
variant("e2e_poll", "e2e.cc", buffer_size=160, poll_rate=60)
variant("e2e_pollfull", "e2e.cc", buffer_size=400, poll_rate=260)
FULL, ONLINE, OFFLINE = 0, 1, 2
ANSWER, COUNT, NOISE, TAGS, READY, OFFORDER, ONORDER, SHARES, MASKS, BATCH = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512
def q(*n):
    return sum(v << (4 * i) for i, v in enumerate(n))
def e2e(checks, mode, P, S, db, noise, qs, sym=0, shuf=0, dev=0, kinds=31, ahead=0, sizes=0, err=0, extra=(), variant="e2e", **k):
    if variant == "e2e" and mode != ONLINE and P > 3:
        variant = "e2e_wide"
    return Run(variant, "h_run", mode, P, S, db, noise, qs, sym, shuf, dev | (kinds << 4 if dev else 0) | (ahead << 12) | (sizes << 13) | (err << 14), checks, *extra, **k)
def amounts(noise, n):
    """sampled noise of mean noise-1, n amounts per server chosen freely among none, mean, maximum"""
    return noise | n << 4
def local(party, *servers):
    return party | sum(256 << s for s in servers)
def shared(party, *servers):
    return local(party, *servers) | 16
def outgoing(P, S, db, noise, qs, party):
    """messages party sends on (default build)"""
    n = sum((qs >> (4 * s)) & 15 for s in range(S))
    return n + (party + 1) * db * max(0, noise - 1)

def runs_single(checks, tier, sym=True, online=True):
    """one server per party"""
    r = []
    quick = tier == "quick"
    modes = (FULL, ONLINE) if online else (FULL,)
    for m in modes:
        # arbitrary keys (and randomness)
        for P, db, noise, Q, sy in ((2, 3, 0, 2, 7), (2, 1, 2, 1, 7), (2, 4, 2, 1, 7), (3, 3, 0, 1, 7), (3, 2, 2, 2, 1), (4, 3, 0, 1, 1), (5, 2, 0, 1, 1), (2, 5, 0, 3, 1)):
            r.append(e2e(checks, m, P, 1, db, noise, q(Q), sym=sy))
        # arbitrary randomness, so that different queries may look alike
        if m == FULL:
            for P, db, noise, Q, sy in ((2, 3, 0, 2, 2), (2, 3, 0, 2, 6), (2, 4, 2, 1, 2), (3, 3, 0, 2, 2), (2, 2, 2, 2, 2)):
                r.append(e2e(checks, m, P, 1, db, noise, q(Q), sym=sy))
        # every outcome of one party's shuffle
        for P, db, noise, Q, p in ((2, 3, 0, 4, 0), (2, 2, 2, 2, 0), (2, 1, 3, 2, 0), (3, 2, 0, 4, 0), (3, 2, 0, 4, 1), (3, 1, 2, 2, 0), (3, 1, 2, 2, 1), (3, 2, 2, 0, 1), (4, 1, 0, 4, 1), (4, 1, 2, 1, 2)):
            r.append(e2e(checks, m, P, 1, db, noise, q(Q), shuf=local(p, 0)))
        r.append(e2e(checks, m, 2, 1, 3, 0, q(3), sym=1, shuf=local(0, 0)))
        # larger batches, full buffers
        for P, db, noise, Q in ((2, 5, 4, 15), (2, 30, 2, 15), (3, 7, 3, 9), (2, 50, 0, 15), (3, 10, 2, 15), (2, 4, 5, 0), (3, 3, 2, 0), (2, 5, 0, 0), (2, 18, 2, 15), (6, 2, 2, 3)):
            r.append(e2e(checks, m, P, 1, db, noise, q(Q)))
        for Q in range(1, 16):
            r.append(e2e(checks, m, 2, 1, 2, 2, q(Q)))
        r.append(e2e(checks, m, 3, 1, 4, 3, q(5), variant="e2e_sample"))
        for P, db, noise, Q in ((2, 4, amounts(2, 4), 2), (2, 3, amounts(3, 3), 0), (3, 2, amounts(2, 2), 2), (3, 2, amounts(2, 2), 0)):
            r.append(e2e(checks, m, P, 1, db, noise, q(Q), variant="e2e_sample"))
        r.append(e2e(checks, m, 3, 1, 4, 2, q(3), variant="e2e_real"))
        # schedules and fragmentation
        for P, db, noise, Q in ((2, 2, 0, 2), (3, 1, 2, 1)) + (() if quick else ((3, 2, 2, 3),)):
            for ahead in (0, 1):
                r.append(e2e(checks, m, P, 1, db, noise, q(Q), dev=2 if not quick else 1, ahead=ahead))
        r.append(e2e(checks, m, 2, 1, 2, 0, q(9), dev=1, kinds=3))
        if not quick:
            for P, db, noise, Q, p in ((2, 3, 0, 6, 0), (2, 2, 3, 2, 0), (3, 2, 2, 2, 0), (3, 1, 2, 4, 1), (4, 1, 2, 2, 2), (2, 1, 0, 7, 0)):
                r.append(e2e(checks, m, P, 1, db, noise, q(Q), shuf=local(p, 0)))
            for P, db, noise, Q, sy in ((2, 6, 2, 3, 7), (3, 4, 2, 3, 7), (4, 4, 2, 2, 7), (6, 3, 0, 2, 1), (2, 40, 0, 2, 1)):
                r.append(e2e(checks, m, P, 1, db, noise, q(Q), sym=sy))
    return r

def runs_parallel(checks, tier, online=True):
    r = []
    quick = tier == "quick"
    modes = (FULL, ONLINE) if online else (FULL,)
    for m in modes:
        for P, S, db, noise, qs, sy in ((2, 2, 3, 0, q(1, 1), 7), (2, 2, 3, 0, q(1, 1), 2), (2, 2, 2, 0, q(2, 1), 2), (2, 2, 2, 2, q(1, 1), 1), (3, 2, 2, 2, q(1, 1), 1), (2, 3, 3, 0, q(1, 1, 1), 1), (2, 2, 4, 0, q(0, 2), 1), (2, 2, 3, 0, q(2, 1), 1)):
            r.append(e2e(checks, m, P, S, db, noise, qs, sym=sy))
        # every cross-server and local shuffle outcome of one party
        for P, S, db, noise, qs, sh in (
                (2, 2, 2, 0, q(2, 1), shared(0, 0, 1)), (2, 2, 2, 0, q(2, 2), shared(0)), (2, 2, 2, 0, q(0, 3), shared(0, 0, 1)), (2, 2, 2, 2, q(1, 1), shared(0)), (2, 2, 2, 2, q(1, 1), local(0, 0, 1)),
                (2, 2, 2, 2, q(0, 1), shared(0, 0, 1)), (2, 2, 2, 2, q(2, 0), shared(0)), (3, 2, 2, 0, q(1, 2), shared(0)), (3, 2, 2, 0, q(1, 2), shared(1)), (3, 2, 2, 2, q(0, 0), shared(1)),
                (2, 3, 3, 0, q(1, 1, 2), shared(0)), (2, 3, 3, 2, q(0, 1, 0), shared(0)), (2, 3, 3, 0, q(1, 2, 1), local(0, 0, 1, 2)), (2, 3, 3, 0, q(0, 0, 4), shared(0)), (2, 3, 3, 0, q(4, 0, 0), shared(0)), (2, 4, 4, 0, q(1, 1, 0, 2), shared(0))):
            r.append(e2e(checks, m, P, S, db, noise, qs, shuf=sh))
        # larger, unequal, empty
        for P, S, db, noise, qs in ((2, 2, 3, 3, q(9, 4)), (2, 2, 3, 2, q(0, 0)), (3, 2, 4, 2, q(0, 7)), (3, 2, 5, 2, q(7, 0)), (3, 3, 7, 2, q(3, 0, 5)), (2, 3, 4, 3, q(15, 1, 2)), (2, 4, 6, 2, q(1, 2, 3, 4)), (2, 5, 7, 2, q(1, 0, 3, 0, 2)), (2, 2, 12, 2, q(15, 15)), (4, 2, 3, 2, q(2, 3)), (2, 3, 3, 0, q(1, 0, 0)), (2, 3, 3, 0, q(0, 0, 1)), (2, 2, 20, 2, q(15, 13))):
            r.append(e2e(checks, m, P, S, db, noise, qs))
        r.append(e2e(checks, m, 3, 2, 4, 3, q(3, 2), variant="e2e_sample"))
        for P, S, db, noise, qs in ((2, 2, 4, amounts(2, 2), q(1, 1)), (2, 2, 3, amounts(3, 2), q(0, 2)), (3, 2, 2, amounts(2, 1), q(1, 0)), (3, 2, 2, amounts(2, 1), q(0, 0)), (2, 3, 5, amounts(2, 1), q(1, 0, 1))):
            r.append(e2e(checks, m, P, S, db, noise, qs, variant="e2e_sample"))
        r.append(e2e(checks, m, 3, 2, 4, 2, q(3, 1), variant="e2e_real"))
        for a in range(3):
            for b in range(3):
                r.append(e2e(checks, m, 2, 2, 2, 2, q(a, b)))
        for P, S, db, noise, qs in ((2, 2, 2, 0, q(2, 1)), (2, 2, 2, 2, q(1, 1))) + (() if quick else ((3, 2, 2, 2, q(1, 2)), (2, 3, 3, 0, q(1, 1, 2)))):
            for ahead in (0, 1):
                r.append(e2e(checks, m, P, S, db, noise, qs, dev=1 if quick or m == FULL else 2, ahead=ahead))
        if not quick:
            for P, S, db, noise, qs, sh in ((2, 2, 2, 0, q(3, 2), shared(0, 0, 1)), (2, 2, 2, 2, q(2, 2), shared(0)), (3, 2, 2, 2, q(1, 1), shared(0)), (3, 2, 2, 2, q(1, 1), shared(1)), (2, 3, 3, 2, q(1, 1, 1), shared(0)), (2, 3, 3, 0, q(2, 2, 2), shared(0)), (2, 4, 4, 0, q(1, 1, 2, 2), shared(0))):
                r.append(e2e(checks, m, P, S, db, noise, qs, shuf=sh))
    return r

E2E_ASSUME = ["the network delivers bytes reliably and in order with unbounded buffers", "ideal sealed boxes", "buffer and poll constants shrunk (160..400 bytes, poll rate 60..140000) so that their boundaries are met", "multipliers of the shares are fixed pseudo-random values (C09 varies them)"]
def big(*a, variant="e2e_real", check=0):
    a = a + (0,) * (9 - len(a)) + (check,)
    return Run(variant, "h_big", *a, opts=["--max-steps", "20000000000"], max_time=600)
def runs_big(tier, S):
    """long batches with the real constants: counters pass 256 and 65536"""
    if S == 1:
        r = [big(FULL, 2, 1, 2, 2, 66000, 0, 65537), big(ONLINE, 2, 1, 3, 0, 70000, 0, 65537), big(ONLINE, 3, 1, 3, 3, 70000, 0, 65537), big(FULL, 3, 1, 3, 2, 700, 0, 257), big(ONLINE, 2, 1, 300, 2, 600, 0, 257), big(FULL, 2, 1, 300, 2, 5, 0, 1), big(ONLINE, 2, 1, 66000, 2, 5, 0, 0)]
        return r if tier == "quick" else r + [big(ONLINE, 4, 1, 300, 3, 140000, 0, 131073), big(FULL, 3, 1, 3, 2, 66000, 0, 65537)]
    r = [big(ONLINE, 2, 2, 2, 2, 66000, 400, 65537), big(ONLINE, 2, 2, 2, 0, 300, 66000, 257), big(FULL, 2, 2, 2, 2, 300, 600, 257), big(FULL, 3, 2, 300, 2, 20, 3, 0)]
    return r if tier == "quick" else r + [big(FULL, 2, 2, 2, 2, 66000, 66000, 65537), big(ONLINE, 3, 2, 66000, 2, 1, 70000, 0)]
PROPS["C01"] = dict(variants=["e2e", "e2e_wide", "e2e_sample", "e2e_real"], runs=lambda t: runs_big(t, 1) + runs_single(ANSWER, t), also=("C02", "C03"),
    bounds="2..6 parties, up to 15 queries and 50 rows; every key, additive share part and mask for up to 3 queries and 3 parties; every shuffle outcome of any one party for batches up to 5 (thorough 7); 1 (thorough 2) deviations from two default schedules incl. short reads and writes; full and online-only runs; batches of up to 70000 queries or noise messages with one arbitrary key and otherwise fixed values",
    assumptions=E2E_ASSUME)
PROPS["C02"] = dict(variants=["e2e", "e2e_wide", "e2e_sample", "e2e_real"], runs=lambda t: runs_big(t, 2) + runs_parallel(ANSWER, t), also=("C01", "C03"),
    bounds="2..5 servers, 2..4 parties, unequal and zero query counts up to 15 per client; every key for up to 3 queries; every cross-server and local shuffle outcome of any one party for totals up to 4 (thorough 6); 1..2 deviations from two default schedules; full and online-only runs",
    assumptions=E2E_ASSUME)

MAIN = "DPPIR/main.cc"
variant("main", "e2e.cc", defines=["WITH_MAIN"], includes=["shadow_io"], flags={MAIN: ["-Dmain=dppir_main"]})
variant("main_real", "e2e.cc", defines=["WITH_MAIN"], includes=["shadow_io"], flags={MAIN: ["-Dmain=dppir_main"]}, buffer_size=None, poll_rate=None)
def runs_c24(tier):
    quick = tier == "quick"
    r = [big(m, 2, 1, 2, 2, 66000, 0, 0, variant="main_real") for m in (FULL, ONLINE, OFFLINE)]
    r += [Run("main", "h_count", m, P, S, s) for m in (FULL, OFFLINE) for P, S, s in ((2, 1, 0), (3, 2, 1))]
    ck = ANSWER | COUNT | READY
    for m in (FULL, ONLINE, OFFLINE):
        for P, S, db, noise, qs in ((2, 1, 3, 2, q(2)), (3, 1, 2, 2, q(3)), (2, 1, 2, 0, q(0)), (2, 2, 3, 2, q(1, 2)), (3, 2, 3, 2, q(2, 0)), (2, 3, 3, 0, q(1, 0, 2)), (3, 3, 4, 2, q(0, 1, 1)), (2, 4, 4, 2, q(1, 2, 0, 1))) + (() if quick else ((3, 1, 20, 2, q(15)), (2, 5, 6, 2, q(1, 2, 3, 4, 5)))):
            r.append(e2e(ck, m, P, S, db, noise, qs, variant="main"))
        r.append(e2e(ck, m, 2, 1, 3, 2, q(2), sym=1, variant="main"))
    for P, S in ((2, 1), (3, 2)):
        for role in range(5):
            for stage in range(6):
                for f in range(3):
                    r.append(Run("main", "h_refuse", role, stage, f, P, S, need=None))
    return r
PROPS["C24"] = dict(variants=["main", "main_real"], runs=runs_c24, also=("C01", "C02", "C03", "C19"),
    bounds="deployments of 2..3 parties with 1..4 servers started entirely from the command line, all three stages; refusals: 5 roles x 6 stages x 3 files with every value of party id, server id and number of queries; every number of queries as announced by the client; 66000 queries in each stage",
    assumptions=E2E_ASSUME + ["flag values arrive as given (absl's parsing is not encoded)", "files are those of /verif/shadow_io"])

variant("state", "state.cc", sources=["DPPIR/types/"])
variant("containers", "containers.cc", sources=["DPPIR/types/"])
SOCK = ["DPPIR/sockets/", "DPPIR/types/", "DPPIR/config/"]
variant("sockets", "sockets.cc", sources=SOCK, buffer_size=160)
variant("sockets_b", "sockets.cc", sources=SOCK, buffer_size=331)

E2EV = ["e2e", "e2e_wide", "e2e_sample", "e2e_real"]
PROPS["C03"] = dict(variants=E2EV, runs=lambda t: [x for x in runs_big(t, 1) + runs_big(t, 2) if t != "quick" or x.args[0] == ONLINE] + runs_single(COUNT, t) + runs_parallel(COUNT, t),
    bounds="the runs of C01 and C02: 2..6 parties, 1..5 servers, up to 15 queries per client, unequal, zero and freely chosen noise amounts",
    assumptions=E2E_ASSUME)

def runs_c04(tier):
    r = runs_c04_ranges(tier)
    quick = tier == "quick"
    for m in (FULL, ONLINE):
        for P, S, db, noise, qs in ((2, 1, 3, 2, q(2)), (3, 1, 4, 3, q(3)), (4, 1, 2, 2, q(1)), (2, 1, 1, 4, q(5)), (2, 1, 20, 2, q(0)), (2, 1, 40, 2, q(2)), (2, 2, 2, 2, q(1, 1)), (2, 2, 3, 3, q(2, 0)), (3, 2, 5, 2, q(1, 2)), (2, 3, 4, 2, q(1, 1, 1)), (2, 3, 5, 2, q(0, 0, 0)), (2, 4, 5, 2, q(1, 0, 0, 2)), (2, 4, 6, 3, q(0, 1, 0, 0)), (2, 5, 7, 2, q(1, 0, 0, 0, 1)), (2, 2, 4, 0, q(2, 2)), (3, 1, 4, 0, q(3)), (3, 3, 9, 2, q(1, 1, 1)), (2, 3, 10, 3, q(1, 1, 1)), (2, 2, 30, 2, q(1, 1))):
            r.append(e2e(NOISE, m, P, S, db, noise, qs))
            if noise:
                r.append(e2e(NOISE, m, P, S, db, noise, qs, variant="e2e_sample"))
        # freely chosen amounts
        for P, S, db, noise, qs in ((2, 1, 4, amounts(2, 4), q(2)), (2, 1, 3, amounts(3, 3), q(0)), (3, 1, 2, amounts(2, 2), q(1)), (2, 2, 4, amounts(2, 2), q(1, 1)), (2, 2, 3, amounts(3, 2), q(0, 2)), (3, 2, 2, amounts(2, 1), q(1, 0)), (2, 3, 5, amounts(2, 1), q(0, 0, 1))) + (() if quick else ((2, 1, 6, amounts(2, 6), q(1)), (3, 1, 3, amounts(2, 3), q(1)), (2, 2, 6, amounts(2, 3), q(1, 1)), (3, 2, 4, amounts(2, 2), q(1, 0)))):
            r.append(e2e(NOISE, m, P, S, db, noise, qs, variant="e2e_sample"))
        # every key, every shuffle
        r.append(e2e(NOISE, m, 2, 1, 3, 2, q(1), sym=1))
        r.append(e2e(NOISE, m, 2, 1, 2, 2, q(2), shuf=local(0, 0)))
        r.append(e2e(NOISE, m, 2, 2, 2, 2, q(1, 0), shuf=shared(0, 0, 1)))
        r.append(e2e(NOISE, m, 2, 2, 2, 2, q(1, 1), dev=1))
    # so many rows that narrow row numbers would wrap
    r += [big(ONLINE, 2, 1, 66000, 2, 5, 0, 0, 1), big(ONLINE, 2, 2, 132000, 2, 2, 3, 0, 1), big(ONLINE, 3, 1, 300, 3, 4, 0, 0, 1), big(ONLINE, 3, 2, 520, 3, 2, 1, 0, 1), big(FULL, 2, 1, 300, 2, 5, 0, 0, 1), big(FULL, 2, 2, 600, 2, 1, 2, 0, 1)]
    for a in ((ONLINE, 2, 1, 66000, 2, 5, 0, 0, 1), (ONLINE, 2, 2, 132000, 2, 2, 3, 0, 1), (FULL, 3, 1, 300, 3, 4, 0, 0, 1), (FULL, 2, 2, 600, 3, 2, 1, 0, 1)):
        r.append(big(*a, variant="e2e_realsample"))
    r = [big(FULL, 2, 1, 66000, 2, 3, 0, 0, 1), big(FULL, 2, 2, 66000, 2, 1, 2, 0, 1)] + r
    if tier != "quick":
        r += [big(FULL, 2, 2, 132000, 2, 2, 3, 0, 1)]
    return r
PROPS["C04"] = dict(variants=["noise", "e2e", "e2e_wide", "e2e_sample", "e2e_real", "e2e_realsample"], runs=runs_c04,
    bounds="row ranges: server counts 1..5,7,8,16 (thorough 1..32 and selected up to 255) with every database size from the server count to 2^31-1; whole runs of 2..4 parties, 1..5 servers, up to 40 rows, default and sampled noise, amounts of up to 4 (thorough 6) rows per server chosen freely among none, mean and maximum",
    assumptions=E2E_ASSUME)

def runs_c17(tier):
    q_ = tier == "quick"
    r = [Run("state", "h_lookup", n, k, b) for b in (0, 1) for n, k in ((0, 3), (1, 0), (2, 0), (3, 0), (4, 0), (4, 1), (8, 1), (8, 2), (30, 3), (60, 3)) + (() if q_ else ((6, 0), (20, 1), (20, 2)))]
    r += [Run("state", "h_clash", b, n, need=None) for b in (0, 1) for n in (1, 2, 3)]
    r += [Run("state", "h_many", n, opts=["--max-steps", "20000000000"]) for n in (300, 66000)]
    r += [Run("state", "h_simulated", n) for n in (1, 2, 5)]
    r += [Run("state", "h_client", n, p, z, 1) for n in (0, 1, 2, 4) for p in (1, 3) for z in (0, 1)] + [Run("state", "h_client", 60, 4, z, 0) for z in (0, 1)]
    for P, S, db, noise, qs in ((2, 1, 3, 2, q(3)), (3, 1, 3, 3, q(4)), (4, 1, 2, 2, q(2)), (5, 1, 2, 2, q(1)), (2, 1, 3, 0, q(9)), (2, 2, 3, 3, q(3, 1)), (2, 2, 2, 2, q(0, 4)), (2, 2, 2, 2, q(5, 0)), (2, 2, 4, 0, q(1, 3)), (3, 2, 4, 2, q(1, 3)), (3, 2, 3, 2, q(4, 0)), (3, 2, 3, 4, q(0, 1)), (3, 3, 4, 2, q(2, 0, 3)), (2, 3, 4, 3, q(0, 5, 1)), (2, 4, 6, 2, q(1, 0, 0, 3)), (4, 2, 3, 2, q(1, 2)), (2, 5, 7, 2, q(3, 0, 1, 0, 2))):
        for m in (FULL, OFFLINE):
            r.append(e2e(TAGS, m, P, S, db, noise, qs))
            if noise:
                r.append(e2e(TAGS, m, P, S, db, noise, qs, variant="e2e_sample"))
    for a in range(4):
        for b in range(4):
            r.append(e2e(TAGS, FULL, 3, 2, 2, 2, q(a, b)))
    for P, S, db, noise, qs in ((2, 1, 3, amounts(2, 3), q(2)), (3, 1, 2, amounts(2, 2), q(1)), (2, 2, 4, amounts(2, 2), q(1, 2)), (3, 2, 2, amounts(2, 1), q(1, 0)), (3, 2, 3, amounts(3, 1), q(0, 2)), (2, 3, 4, amounts(2, 1), q(0, 2, 1))):
        r.append(e2e(TAGS, FULL, P, S, db, noise, qs, variant="e2e_sample"))
    for P, S, db, noise, qs, sh in ((2, 1, 2, 2, q(2), local(0, 0)), (3, 1, 1, 2, q(2), local(1, 0)), (2, 2, 2, 2, q(1, 1), shared(0)), (3, 2, 2, 0, q(1, 2), shared(1)), (2, 3, 3, 0, q(2, 1, 0), shared(0))):
        r.append(e2e(TAGS, FULL, P, S, db, noise, qs, shuf=sh))
    r.append(e2e(TAGS, FULL, 2, 2, 2, 2, q(1, 2), dev=1))
    # counters of tags
    r += [big(FULL, 3, 1, 3, 2, 700, 0, 0, check=TAGS), big(FULL, 3, 1, 300, 3, 2, 0, 0, check=TAGS), big(FULL, 3, 2, 300, 3, 300, 280, 0, check=TAGS), big(OFFLINE, 2, 1, 2, 2, 66000, 0, 0, check=TAGS), big(OFFLINE, 2, 2, 66000, 2, 20, 30, 0, check=TAGS)]
    return r
PROPS["C17"] = dict(variants=["state", "e2e", "e2e_wide", "e2e_sample", "e2e_real"], runs=runs_c17,
    bounds="stores of up to 4 (thorough 6) secrets with arbitrary distinct 64-bit tags and contents, up to 60 with fixed ones; whole runs of 2..5 parties, 1..5 servers with unequal and zero query counts and freely chosen noise amounts, every shuffle outcome for totals up to 4; fixed runs of up to 66000 queries or rows",
    assumptions=E2E_ASSUME)

def runs_c19(tier):
    quick = tier == "quick"
    r = []
    for m in (FULL, ONLINE, OFFLINE):
        for ahead in (0, 1):
            for P, S, db, noise, qs in ((2, 1, 2, 2, q(2)), (3, 1, 2, 2, q(1)), (4, 1, 1, 2, q(2)), (2, 2, 2, 2, q(1, 2)), (3, 2, 2, 2, q(1, 0)), (2, 3, 3, 0, q(0, 2, 1)), (3, 3, 3, 2, q(1, 0, 1)), (2, 2, 3, 0, q(0, 0)), (4, 2, 2, 0, q(1, 1))):
                r.append(e2e(READY, m, P, S, db, noise, qs, ahead=ahead))
            # another process first, at any point
            for P, S, db, noise, qs, d in ((2, 1, 1, 0, q(1), 3), (3, 1, 1, 2, q(1), 2), (2, 2, 2, 0, q(1, 1), 2), (3, 2, 2, 2, q(1, 0), 1), (2, 3, 3, 0, q(1, 0, 1), 1)):
                r.append(e2e(READY, m, P, S, db, noise, qs, dev=d if not quick or ahead == 0 else 1, kinds=8 | 16, ahead=ahead))
            for P, S, db, noise, qs in ((3, 1, 1, 2, q(1)), (2, 2, 2, 0, q(1, 1))):
                r.append(e2e(READY, m, P, S, db, noise, qs, dev=1 if quick else 2, ahead=ahead))
        # long batches
        r += [big(m, 2, 1, 3, 2, 700, 0, 0, check=READY), big(m, 3, 1, 300, 2, 5, 0, 0, check=READY), big(m, 2, 2, 3, 2, 300, 600, 0, check=READY), big(m, 3, 2, 300, 2, 300, 0, 0, check=READY)]
    return r
PROPS["C19"] = dict(variants=["e2e", "e2e_wide", "e2e_real"], runs=runs_c19,
    bounds="2..4 parties, 1..3 servers, all three stages; two default schedules (eager: others run only when a process blocks; run ahead: others run first) and up to 2 (single server: 3) deviations in which another process goes first at any read, poll or accept; default schedule for batches of up to 700 queries",
    assumptions=E2E_ASSUME)

def runs_c25(tier):
    quick = tier == "quick"
    r = []
    for m in (FULL, ONLINE, OFFLINE):
        for ahead in (0, 1):
            for P, S, db, noise, qs in ((2, 1, 3, 2, q(15)), (3, 1, 10, 2, q(15)), (4, 1, 2, 2, q(3)), (3, 1, 4, 2, q(0)), (2, 2, 3, 0, q(1, 2)), (2, 2, 3, 2, q(9, 4)), (3, 2, 2, 2, q(1, 0)), (3, 2, 6, 2, q(0, 7)), (2, 3, 3, 0, q(0, 2, 1)), (3, 3, 3, 2, q(1, 0, 1)), (2, 5, 7, 2, q(1, 0, 3, 0, 2)), (3, 2, 3, 0, q(0, 0)), (4, 2, 2, 2, q(2, 1))):
                r.append(e2e(BATCH, m, P, S, db, noise, qs, ahead=ahead))
            # another process first, or a message in pieces, at any point
            for P, S, db, noise, qs, d in ((2, 1, 1, 0, q(3), 2), (3, 1, 1, 2, q(2), 1), (2, 2, 2, 0, q(1, 1), 2), (2, 2, 2, 0, q(2, 0), 2), (3, 2, 2, 2, q(1, 0), 1), (3, 2, 2, 0, q(1, 1), 1), (2, 3, 3, 0, q(1, 0, 1), 1)):
                r.append(e2e(BATCH, m, P, S, db, noise, qs, dev=d if not quick or ahead == 0 else 1, kinds=8 | 16, ahead=ahead))
            for P, S, db, noise, qs in ((2, 1, 2, 2, q(2)), (3, 1, 1, 2, q(1)), (2, 2, 2, 0, q(1, 1))):
                r.append(e2e(BATCH, m, P, S, db, noise, qs, dev=1 if quick else 2, ahead=ahead))
            # outcomes of the cross-server shuffle in which a server needs nothing from the others
            for P, S, db, noise, qs, sh in ((2, 2, 2, 0, q(1, 2), shared(0)), (2, 2, 2, 0, q(2, 1), shared(0)), (2, 2, 2, 0, q(2, 2), shared(0)), (3, 2, 2, 0, q(1, 1), shared(1)), (2, 3, 3, 0, q(1, 1, 1), shared(0)), (2, 2, 2, 2, q(1, 1), shared(0))):
                r.append(e2e(BATCH, m, P, S, db, noise, qs, shuf=sh, ahead=ahead))
            r.append(e2e(BATCH, m, 2, 2, 2, 0, q(1, 1), shuf=shared(0), dev=1, kinds=8 | 16, ahead=ahead))
            r.append(e2e(BATCH, m, 2, 2, 2, 0, q(2, 1), shuf=shared(0), dev=1, kinds=8 | 16, ahead=ahead))
        r += [big(m, 2, 1, 3, 2, 700, 0, 0, check=BATCH), big(m, 3, 1, 300, 2, 5, 0, 0, check=BATCH), big(m, 2, 2, 3, 2, 300, 600, 0, check=BATCH)]
        # many small buffers
        for a in ((2, 1, 3, 2, 150, 0), (3, 1, 2, 2, 90, 0), (2, 2, 3, 2, 90, 120), (3, 2, 2, 2, 50, 70), (2, 3, 3, 2, 60, 0, 80)):
            r.append(big(m, *a, check=BATCH, variant="e2e"))
    r += [big(FULL, 2, 1, 2, 2, 66000, 0, 0, check=BATCH), big(ONLINE, 2, 2, 2, 2, 66000, 400, 0, check=BATCH)]
    return r
PROPS["C25"] = dict(variants=["e2e", "e2e_wide", "e2e_real"], runs=runs_c25, also=("C19",),
    bounds="2..4 parties, 1..5 servers, up to 15 queries per client, all three stages; two default schedules and up to 2 deviations in which another process goes first at any read, poll or accept, 1 in which a message arrives or leaves in pieces; every cross-server shuffle outcome of one party for totals up to 4; default schedule for up to 66000 queries (buffers of 2 to 10 messages: up to 150)",
    assumptions=E2E_ASSUME)

def runs_c22(tier):
    quick = tier == "quick"
    r = []
    shapes = [(2, 1, 1, 0, q(2), local(0, 0)), (2, 1, 1, 0, q(3), local(0, 0)), (2, 1, 2, 0, q(4), local(0, 0)), (2, 1, 1, 2, q(1), local(0, 0)), (2, 1, 2, 2, q(2), local(0, 0)), (2, 1, 1, 3, q(2), local(0, 0)), (2, 1, 1, 4, q(1), local(0, 0)),
              (3, 1, 1, 0, q(3), local(0, 0)), (3, 1, 1, 0, q(3), local(1, 0)), (3, 1, 1, 2, q(1), local(1, 0)), (3, 1, 1, 2, q(2), local(1, 0)), (4, 1, 1, 0, q(3), local(2, 0)),
              (2, 2, 2, 0, q(1, 1), shared(0, 0, 1)), (2, 2, 2, 0, q(2, 1), shared(0, 0, 1)), (2, 2, 2, 0, q(0, 3), shared(0, 0, 1)), (2, 2, 2, 0, q(3, 0), shared(0, 0, 1)), (2, 2, 2, 0, q(2, 2), shared(0, 0, 1)), (2, 2, 2, 2, q(1, 0), shared(0, 0, 1)), (2, 2, 2, 2, q(1, 1), shared(0, 0, 1)), (2, 3, 3, 0, q(1, 1, 1), shared(0, 0, 1, 2)),
              (3, 2, 2, 0, q(1, 2), shared(0, 0, 1)), (3, 2, 2, 0, q(1, 2), shared(1, 0, 1))]
    if not quick:
        shapes += [(2, 1, 2, 2, q(4), local(0, 0)), (3, 1, 2, 2, q(1), local(1, 0)), (2, 2, 2, 2, q(2, 1), shared(0, 0, 1)), (2, 3, 3, 0, q(2, 0, 2), shared(0, 0, 1, 2)), (3, 2, 2, 2, q(1, 0), shared(1, 0, 1))]
    for P, S, db, noise, qs, sh in shapes:
        r.append(e2e(OFFORDER | ONORDER, FULL, P, S, db, noise, qs, shuf=sh, extra=(outgoing(P, S, db, noise, qs, sh % 16),)))
    return r
PROPS["C22"] = dict(variants=["e2e", "e2e_wide"], runs=runs_c22,
    bounds="one and up to three servers, batches of up to 4 (thorough 6) outgoing messages of real and noise queries at any party; for each message and each position of the outgoing batch of each stage the solver must find a shuffle outcome",
    assumptions=E2E_ASSUME)

def runs_c14(tier):
    quick = tier == "quick"
    r = [big(ONLINE, 2, 2, 2, 2, 66000, 66000, 0), big(ONLINE, 2, 3, 3, 2, 70000, 300, 0), big(FULL, 2, 2, 2, 2, 600, 300, 0)]
    r += [Run("sockets", "h_poll", s, t) for s, t in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 1), (5, 2))]
    ck = ANSWER | COUNT
    for v in ("e2e_poll", "e2e_polltiny"):
        for P, S, db, noise, qs in ((2, 2, 2, 0, q(3, 2)), (2, 2, 2, 2, q(4, 1)), (2, 2, 3, 3, q(15, 3)), (2, 2, 2, 0, q(0, 9)), (2, 3, 3, 2, q(5, 0, 3)), (2, 3, 3, 0, q(15, 7, 1)), (3, 2, 2, 2, q(5, 4)), (2, 4, 4, 2, q(4, 5, 0, 6)), (2, 5, 5, 0, q(6, 0, 3, 9, 1)), (2, 2, 2, 2, q(15, 15))):
            for ahead in (0, 1):
                r.append(e2e(ck, ONLINE, P, S, db, noise, qs, variant=v, ahead=ahead))
        for P, S, db, noise, qs in ((2, 2, 2, 0, q(4, 3)), (2, 2, 2, 2, q(2, 1)), (2, 2, 2, 0, q(0, 5))):
            for ahead in (0, 1):
                r.append(e2e(ck, ONLINE, P, S, db, noise, qs, variant=v, dev=2, ahead=ahead))
                r.append(e2e(ck, ONLINE, P, S, db, noise, qs, variant=v, dev=2 if quick else 3, kinds=4 | 8, ahead=ahead))
        for ahead in (0, 1):
            r.append(e2e(ck, ONLINE, 2, 3, 3, 0, q(3, 1, 4), variant=v, dev=1 if quick else 2, ahead=ahead))
            r.append(e2e(ck, ONLINE, 2, 2, 2, 0, q(6, 5), variant=v, dev=1, kinds=3, sizes=1, ahead=ahead))
        r.append(e2e(ck, ONLINE, 2, 2, 2, 0, q(3, 2), variant=v, shuf=shared(0)))
        r.append(e2e(ck, ONLINE, 2, 2, 2, 0, q(2, 1), variant=v, shuf=shared(0), dev=1, kinds=4 | 8))
    v = "e2e_pollfull"
    for P, S, db, noise, qs in ((2, 2, 2, 0, q(3, 2)), (2, 2, 2, 2, q(4, 1)), (2, 2, 2, 0, q(0, 9)), (2, 3, 3, 2, q(5, 0, 3)), (2, 3, 3, 0, q(9, 7, 1)), (2, 4, 4, 2, q(4, 5, 0, 6)), (3, 2, 2, 2, q(5, 4))):
        for ahead in (0, 1):
            r.append(e2e(ck, FULL, P, S, db, noise, qs, variant=v, ahead=ahead))
    for P, S, db, noise, qs in ((2, 2, 2, 0, q(2, 1)), (2, 2, 2, 2, q(1, 1)), (2, 2, 2, 0, q(0, 5))):
        for ahead in (0, 1):
            r.append(e2e(ck, FULL, P, S, db, noise, qs, variant=v, dev=1 if quick else 2, ahead=ahead))
            r.append(e2e(ck, FULL, P, S, db, noise, qs, variant=v, dev=2, kinds=4, ahead=ahead))
    r.append(e2e(ck, FULL, 2, 3, 3, 0, q(1, 2, 1), variant=v, dev=1))
    return r
variant("e2e_polltiny", "e2e.cc", buffer_size=120, poll_rate=52)
PROPS["C14"] = dict(variants=["e2e_real", "sockets", "e2e_poll", "e2e_polltiny", "e2e_pollfull"], runs=runs_c14, also=("C01", "C02", "C03"),
    bounds="2..5 sibling servers, batches up to 30 messages, polls after every 1..5 messages; every set of readable and ignored siblings for a single poll; up to 2 (thorough 3) deviations (data not seen yet by poll, another process first, short reads and writes) from two default schedules, at any point",
    assumptions=E2E_ASSUME)

def runs_c13(tier):
    quick = tier == "quick"
    one = 1 | 3 << 4 | 1 << 13
    caps = lambda r, w: r << 16 | w << 24
    r = []
    for v in ("sockets", "sockets_b"):
        # around full buffers
        for n in range(0, 30):
            r.append(Run(v, "h_stream", 40, n % 12, n, 0, caps(3 + n % 5, 0)))
        for cs, nc, nq in ((160, 3, 13), (20, 8, 26), (33, 9, 14), (80, 5, 3), (124, 4, 6), (2, 60, 1)):
            r.append(Run(v, "h_stream", cs, nc, nq, 2, caps(60 if quick else 170, 0)))
            r.append(Run(v, "h_stream", cs, nc, nq, 2, caps(0, 60 if quick else 170)))
        for cs, nc, nq in ((20, 8, 13), (40, 4, 14), (80, 3, 4)):
            r.append(Run(v, "h_stream", cs, nc, nq, 1, one))
            r.append(Run(v, "h_stream", cs, nc, nq, 1, caps(30, 30)))
            r.append(Run(v, "h_stream", cs, nc, nq, 0, caps(25, 25) | 1 << 12))
            r.append(Run(v, "h_stream", cs, nc, nq, 0, one | 1 << 12))
        for s in (2, 3):
            for cs, nc, nq in ((40, 4, 4), (20, 9, 3), (80, 3, 8), (124, 2, 13)):
                r.append(Run(v, "h_siblings", cs, nc, nq, s, 1, caps(40 if s == 2 else 12, 0)))
                r.append(Run(v, "h_siblings", cs, nc, nq, s, 0, caps(0, 40 if s == 2 else 12) | 1 << 12))
            r.append(Run(v, "h_siblings", 40, 2, 2, s, 1, one))
            r.append(Run(v, "h_siblings", 20, 2, 1, s, 0, (1 if s == 3 else 2) | 31 << 4))
        r.append(Run(v, "h_siblings", 40, 5, 4, 4, 0, caps(9, 0)))
        r.append(Run(v, "h_stream", 20, 3, 3, 0, 2 | 3 << 4))
        if not quick:
            r.append(Run(v, "h_stream", 20, 3, 4, 0, 2 | 3 << 4 | 1 << 13))
    for k, cs, n in ((0, 0, 3), (0, 0, 7), (1, 0, 4), (2, 0, 4), (3, 20, 9), (3, 80, 5), (3, 79, 3), (3, 160, 2)):
        r.append(Run("sockets", "h_any_count", k, cs, n, 2 | 1 << 4))
        r.append(Run("sockets", "h_any_count", k, cs, n, 1 | 1 << 4 | 1 << 13))
    # the buffers alone, exactly sized: any two (thorough: three) short reads of any size
    for k, cs, n, m in ((0, 0, 5, 2), (1, 0, 7, 1), (2, 0, 7, 2), (3, 0, 5, 1), (4, 0, 7, 1), (5, 0, 4, 1), (6, 0, 5, 2), (7, 20, 7, 2), (7, 60, 3, 1), (7, 30, 5, 1), (7, 33, 4, 1), (8, 20, 7, 1), (8, 71, 3, 1), (8, 2, 40, 2), (9, 80, 5, 2), (9, 79, 5, 1), (9, 160, 3, 1)):
        small = k < 3 or k in (7, 8)
        if small or k == 3 or not quick:
            r.append(Run("sockets", "h_logical", k, cs, n, m, 0, (2 if quick or not small else 3) | 1 << 4 | 1 << 13))
        if quick:
            r.append(Run("sockets", "h_logical", k, cs, n, m, 0, 3 | 1 << 4))
        r.append(Run("sockets", "h_logical", k, cs, n, m, 2, 1 | 1 << 4 | 1 << 13 | caps(20 if small else 6, 0)))
    return r
PROPS["C13"] = dict(variants=["sockets", "sockets_b"], runs=runs_c13,
    bounds="buffers shrunk to 160 and 331 bytes; onions of 2..160 bytes, 0..60 messages per batch incl. exact fills; every maximal read or write size up to 60 bytes (thorough 170), combinations up to 30x30; one short read or write of every size at every point (thorough: two); 2..4 sibling servers; the message buffers alone, exactly sized (24..160 bytes): two (thorough three) short reads of every size",
    assumptions=["the network delivers bytes reliably and in order"])

def runs_c20(tier):
    quick = tier == "quick"
    r = []
    for cs, nc, nq in ((20, 3, 4), (40, 5, 5), (124, 2, 14)):
        for d in (0, 1):
            for e in (0, 1):
                r.append(Run("sockets", "h_cut", cs, nc, nq, d, e, need=None))
    for c, s in ((0, 2), (0, 3), (1, 3), (2, 3)):
        for d in (0, 1):
            for e in (0, 1):
                r.append(Run("sockets", "h_cut_siblings", 20, 2, 2, s, c, d, e, need=None))
    for m in (FULL, ONLINE, OFFLINE):
        for P, S, db, noise, qs in ((2, 1, 2, 2, q(2)), (3, 1, 2, 2, q(2)), (2, 2, 2, 2, q(1, 1)), (2, 2, 2, 0, q(0, 3))) + (() if quick else ((3, 2, 2, 2, q(1, 2)), (2, 3, 3, 2, q(1, 0, 2)))):
            for ahead in (0, 1):
                for e in (0, 1):
                    sizes = 1 if (not quick or m == ONLINE) else 0
                    r.append(e2e(0, m, P, S, db, noise, qs, dev=1, kinds=32, ahead=ahead, err=e, sizes=sizes))
                r.append(e2e(0, m, P, S, db, noise, qs, dev=1, kinds=64, ahead=ahead))
            r.append(e2e(0, m, P, S, db, noise, qs, dev=2, kinds=32 | 1, ahead=0)) if not quick else None
    return r
PROPS["C20"] = dict(variants=["sockets", "e2e"], runs=runs_c20,
    bounds="one connection of the run ends (end of stream or error) at an arbitrary byte of either direction, or one send fails, anywhere in runs of 2..3 parties with 1..2 servers (thorough 3); socket classes alone: every byte of both directions",
    assumptions=["a failed check (assert, abort, uncaught exception, non-zero exit) is how a process stops"])

variant("alloc", "alloc.cc", sources=["DPPIR/types/"])
def runs_c21(tier):
    quick = tier == "quick"
    r = []
    for ss, ls in ((124, 248), (248, 372), (0, 124), (1, 2), (31496, 31620), (4096, 65536)):
        r += [Run("alloc", "h_bytes_ciphers", ss, ls), Run("alloc", "h_positions", ss, ls)]
    r += [Run("alloc", "h_bytes_batch", k) for k in (0, 1, 2)]
    for ss, ls in ((1, 2), (2, 5), (4, 9)):
        for noise in range(0, 4):
            for inputs in range(0, 4):
                r.append(Run("containers", "h_batch", ss, ls, noise, inputs, 1, 1))
    for ss, ls in ((124, 248), (248, 372), (1, 125)):
        for noise, inputs in ((0, 1), (0, 5), (1, 4), (3, 3), (5, 1), (6, 0), (0, 0), (13, 17), (1, 30)):
            r.append(Run("containers", "h_batch", ss, ls, noise, inputs, 0, 0))
        r.append(Run("containers", "h_batch", ss, ls, 2, 3, 0, 1))
    r += [Run("containers", "h_batch", 31496, 31620, 3, 4, 0, 0), Run("containers", "h_batch", 2, 5, 2, 2, 1, 2), Run("containers", "h_batch", 124, 248, 300, 400, 0, 0), Run("containers", "h_batch", 2, 3, 66000, 300, 0, 0), Run("containers", "h_batch", 2, 3, 300, 66000, 0, 0)]
    r += [Run("containers", "h_scatter", ss, n, 1) for ss in (1, 3) for n in range(0, 5)] + [Run("containers", "h_scatter", 124, 5 if quick else 7, 0)]
    if not quick:
        r += [Run("containers", "h_batch", ss, ls, noise, inputs, 1, 1) for ss, ls in ((3, 4), (8, 24)) for noise in range(0, 6) for inputs in range(0, 6)]
    return r
PROPS["C21"] = dict(variants=["containers", "alloc"], runs=runs_c21,
    bounds="onion sizes from 1/2 to 31496/31620 bytes, 0..13 noise and 0..30 incoming onions (one batch of 300/400), every content for up to 3+3 (thorough 5+5) onions of up to 9 (24) bytes, followed by any exchange of positions",
    assumptions=[])
