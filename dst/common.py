"""Shared scenario generation helpers."""
import random

from .hw import rand_pat


def data_bytes(ds, n):
    return random.Random("d%s" % ds).randbytes(n)


def data_ints(ds, n, width):
    r = random.Random("d%s" % ds)
    return [r.getrandbits(width) if width else 0 for _ in range(n)]


def pick(rng, pairs):
    tot = sum(w for _, w in pairs)
    x = rng.random() * tot
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def gen_base(rng, seed, family, prop, reset=0.0, period=None, horizon=400, init_x=0.1):
    """Fields every scenario has."""
    period = period or rng.choice([1000, 1000, 3000, 998])
    scn = {"family": family, "seed": seed, "sched": "random" if rng.random() < 0.75 else "fifo"}
    clk = {"period": period}
    if rng.random() < 0.3:
        clk["jitter"] = period // rng.choice([4, 10, 40])
    if rng.random() < 0.2:
        clk["gates"] = [{"at": rng.randint(2, horizon), "len": rng.randint(1, 40)} for _ in range(rng.randint(1, 3))]
    scn["clk"] = clk
    scn["log"] = pick(rng, [("none", 75), ("info", 10), ("debug", 15)])
    scn["stall_until"] = rng.choice([60, 150, 300, horizon])
    scn["rst"] = gen_rst(rng, period, reset, horizon, init_x)
    return scn


def gen_rst(rng, period, p, horizon, init_x=0.1):
    rst = {"present": True, "level": 1 if rng.random() < 0.6 else 0, "dflt": int(rng.random() < 0.5)}
    if rng.random() < init_x:
        rst["init"] = "x"
    pulses = []
    if rng.random() < p:
        at = rng.randint(3, max(6, horizon))
        if rng.random() < 0.5:
            at = rng.randint(3, max(6, horizon // 3))
        for _ in range(pick(rng, [(1, 6), (2, 3), (3, 1)])):
            mode = pick(rng, [("sync", 5), ("async", 4), ("glitch", 2), ("x", 1), ("local", 2), ("call", 1)])
            ln = pick(rng, [(1, 3), (2, 2), (rng.randint(3, 12), 3)])
            pulses.append({"at": at, "mode": mode, "len": ln,
                           "ph": rng.randint(1, period // 2 - 20) | 1, "w": rng.choice([1, 7, 13]),
                           "ph2": rng.randint(1, period // 2 - 20) | 1})
            if mode == "local" and rng.random() < 0.3:       # overlaps the next one
                at += rng.randint(0, ln + 1)
            else:
                at += ln + rng.randint(2, 40)
        if rng.random() < 0.06:
            rst["present"] = False
            for p in pulses:
                p["mode"] = rng.choice(["local", "call"])
    elif rng.random() < 0.15 and p == 0.0:
        rst["present"] = False
    rst["pulses"] = pulses
    return rst


def gen_d(rng, heavy=0.4, big=0.1):
    """Delay fields of an operation."""
    op = {}
    if rng.random() < heavy:
        op["d"] = rng.randint(1, 4) if rng.random() < 1 - big else rng.randint(5, 60)
    if rng.random() < 0.2:
        op["ph"] = rng.randint(1, 400)
    elif rng.random() < 0.08:
        op["ph"] = "edge"              # a timer that ends in the very time step of a clock edge
    return op


def gen_wait(rng):
    """Arguments of a receiver's wait()."""
    if rng.random() < 0.4:
        return {"to": 0, "u": rng.choice(["ns", "ps"])}
    to, u = pick(rng, [((rng.randint(1, 30), "ns"), 5), ((rng.randint(1, 4), "ns"), 2), ((rng.randint(1, 9000), "ps"), 2),
                       ((rng.randint(1, 2), "us"), 0.2), ((0.5 * rng.randint(1, 20), "ns"), 1), ((rng.randint(1, 4000), "step"), 1)])
    return {"to": to, "u": u}


def gen_mon_rd(rng, recv=True):
    """How a monitor is read."""
    c = {"k": pick(rng, [("poll", 4), ("recv", 2 if recv else 0), ("wait", 2)]), "every": rng.choice([1, 1, 7, 50, 100000])}
    if c["k"] == "wait":
        c.update(gen_wait(rng))
    return c


def gen_ctl(rng, p, sites, heavy=False):
    """Pausing by hand and changes of pause generator at run time."""
    ctl = []
    if rng.random() < p:
        for _ in range(rng.randint(1, 6)):
            op = gen_d(rng, 0.9, 0.4)
            op["ch"] = rng.choice(sites)
            x = rng.random()
            if x < 0.15:
                op["g"] = rand_pat(rng, True)
            elif x < 0.3:
                op["clr"] = rng.choice([1, 2])
            else:
                op["v"] = int(rng.random() < 0.6)
            ctl.append(op)
    return ctl


def sum_d(opss):
    return sum(op.get("d", 0) + 2 for ops in opss for op in ops)


__all__ = ["data_bytes", "data_ints", "pick", "gen_base", "gen_rst", "gen_d", "gen_ctl", "sum_d", "rand_pat", "many", "gen_wait", "gen_mon_rd"]


def many(rng, n):
    """How many items: 1..n, and now and then far more."""
    return rng.randint(1, n) if rng.random() > 0.02 else rng.randint(3 * n, 8 * n)
