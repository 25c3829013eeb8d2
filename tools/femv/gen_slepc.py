"""Scenarios for calls of the external solver."""
import struct
from .gen_lin import KINDS, WEIRD, hx, positions, small


def words(b):
    h = b.hex()
    return [h[k:k + 8] for k in range(0, len(h), 8)]


def evec(vals, cls=1211214, m=None):
    return struct.pack(">ii", cls, len(vals) if m is None else m) + b"".join(struct.pack(">d", v) if not isinstance(v, str) else bytes.fromhex(v) for v in vals)


def number(rng):
    r = rng.random()
    if r < .15: return rng.choice(WEIRD + ["7ff8000000000000", "fff0000000000000"])
    return rng.uniform(-10, 10)


def matrix(rng, d, kind=None):
    return [[a, b, hx(small(rng))] for a, b in positions(rng, d, kind or rng.choice(KINDS))]


def target(rng, used):
    while True:
        r = rng.random()
        t = (rng.uniform(-50, 50) if r < .5 else rng.choice([0.0, 1.475, 10.0, -3.25, 1e6, 0.1, 1 / 3, 123456.789, 2.0 ** 40, 1e-9]) if r < .8 else rng.randint(-10 ** 10, 10 ** 10) / 1e10)
        if all(abs(t - u) > 1e-9 * max(1, abs(t)) for u in used):
            used.append(t)
            return t


def call(rng, used, kind, dmax=6):
    d = rng.choice([1, 1, 2, 3, 4, dmax])
    c = {"dim": [d, d], "a": matrix(rng, d), "b": matrix(rng, d), "t": hx(target(rng, used)), "exit": 0, "signal": 0, "gone": [], "rmtmp": False, "wait": [0, 0], "near": rng.sample(range(5), rng.choice([0, 0, 1, 3]))}
    vec = evec([number(rng) for _ in range(d)])
    val = evec([number(rng)])[8:]
    extra = rng.sample(["_evec.dat.info", "_eval.dat.info", "_log.txt", "", "_a.dat.info", ".lock"], rng.choice([0, 0, 1, 2]))
    files = {x: b"more" for x in extra}
    both = True
    if kind == "good": pass
    elif kind == "odd":                                   # a solution of another length
        vec = evec([number(rng) for _ in range(rng.choice([0, 1, 7, 40]))])
    elif kind == "exit":
        c["exit"] = rng.choice(list(range(1, 10)) + [13, 59, 77, 127, 128, 134, 137, 255])
        both = rng.random() < .5
    elif kind == "signal":
        c["signal"] = rng.choice([9, 15, 6, 11, 1])
        c["exit"] = rng.choice([0, 0, 7])
        both = rng.random() < .5
    elif kind == "bad":
        w = rng.randrange(10)
        if w == 0: vec = None
        elif w == 1: val = None
        elif w == 2: vec = vec[:rng.randrange(8)]
        elif w == 3: vec = vec[:-rng.choice([1, 3, 4, 8])]
        elif w == 4: val = val[:rng.randrange(8)]
        elif w == 5: vec = evec([1.0], cls=rng.choice([1211216, 0, -1, 1211215, 1312900608]))
        elif w == 6: vec = evec([1.0, 2.0], m=rng.choice([-1, -2147483648, 3, 2147483647, 268435456]))
        elif w == 7: vec, val = None, None
        elif w == 8: vec, val = b"", b""
        elif w == 9: vec = struct.pack("<ii", 1211214, d) + vec[8:]
    elif kind == "surplus":
        if rng.random() < .5: vec += b"\0" * rng.choice([1, 4, 8, 20])
        else: val += b"\1" * rng.choice([1, 8])
    elif kind == "gone":                                  # the solver removes matrices itself
        c["gone"] = rng.choice([["_a.dat"], ["_b.dat"], ["_a.dat", "_b.dat"]])
        c["exit"] = rng.choice([0, 0, 5])
    elif kind == "rmtmp":
        c["rmtmp"] = True
        c["exit"] = rng.choice([0, 0, 3])
    if both or rng.random() < .5:
        if vec is not None: files["_evec.dat"] = vec
    if both or rng.random() < .5:
        if val is not None: files["_eval.dat"] = val
    c["files"] = [[k, words(v)] for k, v in sorted(files.items())]
    return c


DECOYS = ["tmp/other.dat", "tmp/p_", "tmp/p_1234567", "tmp/p_a.dat", "tmp/q_00000000_a.dat", "tmp/_evec.dat", "tmp/keep/x.dat", "tmp/a.dat", "log.txt",
          "tmp/.hidden", "tmp/p_1_b.dat", "tmp/evec.dat"]


def long_vector(rng):
    """solutions of thousands of entries"""
    c = call(rng, [], "good")
    n = rng.randint(2500, 5000)
    c["files"] = [f for f in c["files"] if f[0] != "_evec.dat"] + [["_evec.dat", words(evec([rng.uniform(-1, 1) for _ in range(n)]))]]
    return session(rng, [c], [[0]])


def session(rng, calls, rounds, env="set", launch="ok", limit=0, clock="runs"):
    return {"dir": rng.choice(["gep", "gep", "gep dir", "deep/er/gep", "gép", "gep ", "tmp", "it's gep", "p_00000000"]), "env": env, "launch": launch, "limit": limit, "clock": clock,
            "decoys": rng.sample(DECOYS, rng.randint(0, len(DECOYS))), "calls": calls, "rounds": rounds}


KINDS_C = ["good", "good", "odd", "exit", "exit", "signal", "bad", "bad", "surplus", "gone"]


def single(rng, kind=None, **kw):
    return session(rng, [call(rng, [], kind or rng.choice(KINDS_C))], [[0]], **kw)


def every_exit(rng):
    """all exit statuses one after the other, in one directory"""
    used, cs = [], []
    for n in range(256):
        c = call(rng, used, "good", 2)
        c["exit"] = n
        cs.append(c)
    return [session(rng, cs[k:k + 32], [[j] for j in range(32)]) for k in range(0, 256, 32)]


def faults(rng):
    out = []
    for e in ("unset", "bytes", "nodir", "notmp", "tmpfile", "relative", "slash"):
        out += [single(rng, rng.choice(["good", "exit"]), env=e) for _ in range(2)]
    for la in ("none", "noexec", "garbage"):
        out += [single(rng, "good", launch=la) for _ in range(2)]
    out.append(single(rng, "good", env="nodir", launch="none"))
    out.append(single(rng, "good", env="unset", launch="none"))
    out += [single(rng, "rmtmp") for _ in range(3)]
    return out


def too_big(rng):
    """a file-size limit that A, or only B, does not fit into"""
    used = []
    c = call(rng, used, "good")
    big, little = rng.choice([4, 9, 40]), rng.choice([1, 2])
    c["dim"] = [big, big]
    kinds = rng.choice([("full", "none"), ("none", "full"), ("full", "full")])
    c["a"], c["b"] = matrix(rng, big, kinds[0]), matrix(rng, big, kinds[1])
    size = 4 * (4 + big + 3 * big * big)                  # of a full matrix
    return session(rng, [c], [[0]], limit=rng.choice([1, 4, 10, size // 2, size - 1, 4 * (4 + big)]))


def together(rng, n, clock="runs"):
    used = []
    cs = [call(rng, used, rng.choice(KINDS_C)) for _ in range(n)]
    for c in cs: c["wait"] = [rng.choice([0, 0, 5, 15]), rng.choice([0, 0, 5, 15])]
    ks = list(range(n)); rng.shuffle(ks)
    rounds = []
    while ks:
        m = rng.choice([len(ks), rng.randint(1, len(ks))])
        rounds.append(ks[:m]); ks = ks[m:]
    return session(rng, cs, rounds, clock=clock, env=rng.choice(["set", "set", "relative", "slash"]))
