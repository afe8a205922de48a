"""APB: library requester <-> native completer / library memory / library completer with a recording target,
and native requester <-> library memory / completer."""
import mmap

import cocotb
from cocotbext.axi import ApbBus, ApbMaster, ApbRam, ApbSlave, SparseMemoryRegion
from cocotbext.axi.sparse_memory import SparseMemory

from .apb_bus import ApbWires, ApbTracker, ApbComp, ApbReq, ApbSlaveModel, OPTIONAL
from .axi_bus import final_compare
from .common import *
from .fam_axi import WSZ, fill, make_target
from .hw import GenWatch, Rst, pauses, rand_pat
from .memmodel import ByteHist, TargetModel
from .mmclient import MMClients

NAME = "apb"


def gen(rng, seed, prop):
    horizon = rng.choice([80, 150, 300])
    preset = {"C11": 0.95, "C12": 0.35, "C13": 0.35, "C10": 0.25, "C02": 0.3, "C17": 0.25, "C20": 0.15}.get(prop, 0.15)
    scn = gen_base(rng, seed, NAME, prop, reset=preset, horizon=horizon)
    if prop in ("C13", "C20", "C14"):
        mode = pick(rng, [("mn", 6), ("mr", 4)])
    elif prop in ("C17", "C18"):
        mode = pick(rng, [("nr", 6), ("mr", 4)])
    else:
        mode = pick(rng, [("mn", 4), ("mr", 4), ("nr", 4)])
    lanes = pick(rng, [(1, 2), (2, 2), (4, 5), (8, 1), (16, 0.5), (32, 0.5)])
    aw = pick(rng, [(8, 2), (10, 2), (12, 1), (13, 1), (16, 2), (32, 3), (64, 1)])
    cfg = {"mode": mode, "lanes": lanes, "aw": aw, "prefix": pick(rng, [("apb", 3), ("s_apb", 1), ("", 1)]), "opt": []}
    for o in OPTIONAL:
        if rng.random() < 0.8:
            cfg["opt"].append(o)
    scn["cfg"] = cfg
    lo = cfg["lo"] = rng.choice([0, 64, 64])      # below it there are only empty requests
    heavy = rng.random() < 0.5
    top = 1 << aw
    budget = [400 if rng.random() < 0.03 else rng.choice([20, 50, 90])]
    bases = []
    for _ in range(rng.randint(1, 3)):
        k = pick(rng, [("low", 2), ("top", 2), ("rand", 2), ("page", 1)])
        if k == "low":
            bases.append(lo + rng.choice([0, rng.randint(0, 64)]))
        elif k == "top":
            bases.append(top - rng.randint(1, 4 * lanes + 8))
        elif k == "page" and top > 8192:
            bases.append(4096 * rng.randint(1, min(top >> 12, 1 << 20) - 1) - rng.randint(0, 3 * lanes))
        else:
            bases.append(rng.randint(lo, top - 1))
    scn["bases"] = bases

    def words():
        b = pick(rng, [(rng.randint(1, 2), 6), (rng.randint(1, 6), 4), (rng.randint(8, 20), 1), (rng.randint(257, 330), 0.1 if budget[0] < 300 else 3)])
        b = max(1, min(b, budget[0]))
        budget[0] -= b
        return b

    def place(n):
        n = min(n, top - lo)
        a = rng.choice(bases) + pick(rng, [(0, 3), (rng.randint(0, 2 * lanes), 3), (-rng.randint(0, n), 2)])
        return max(lo, min(a, top - n)), n

    empties = set()

    def client_op():
        kind = pick(rng, [("r", 5), ("w", 5)])
        op = gen_d(rng, 0.3 if heavy else 0.5)
        op["op"] = kind
        kw = {}
        a, n = place(max(1, words() * lanes - rng.randint(0, lanes)))
        if rng.random() < 0.1:
            a = top - n
        if 0 not in empties and lo and rng.random() < 0.04:
            empties.add(0)             # two empty requests could not be told apart on the bus
            n, a = 0, rng.randint(1, 63)
        op["addr"], op["len"] = a, n
        if "pprot" in cfg["opt"] and rng.random() < 0.4:
            kw["prot"] = rng.getrandbits(3)
        if kind == "w":
            op["ds"] = rng.getrandbits(20)
            op["mut"] = int(rng.random() < 0.4)
        op["st"] = pick(rng, [("b", 3), ("n", 2), ("c", 2)])
        if rng.random() < 0.2 and n:
            h = rng.choice(sorted(WSZ))
            ws = WSZ[h]
            if h in ("words", "word"):
                ws = rng.choice([1, 2, 3, 4, 5])
                op["ws"] = ws
            cnt = max(1, n // ws) if h.endswith("s") else 1
            if cnt * ws <= top - lo:
                op["len"] = cnt * ws
                op["addr"] = min(op["addr"], top - op["len"])
                op["h"] = h
                op["bo"] = rng.choice(["little", "big"])
        elif rng.random() < 0.1 and n:
            op["win"] = rng.choice([0, op["addr"], max(0, op["addr"] - rng.randint(0, 100))])
        op["kw"] = kw
        return op

    if mode in ("mn", "mr"):
        clients = []
        for c in range(pick(rng, [(1, 3), (2, 4), (4, 2)])):
            ops = []
            for _ in range(many(rng, 8)):
                if budget[0] <= 0:
                    break
                if rng.random() < 0.12:
                    ops.append(dict(gen_d(rng), op="wait"))
                if rng.random() < (0.5 if prop == "C20" else 0.08):
                    ops.append(dict(gen_d(rng), op="bad", i=rng.getrandbits(16)))
                ops.append(client_op())
            clients.append(ops)
        scn["clients"] = clients
    else:
        scn["req"] = []
        for _ in range(rng.randint(1, 25)):
            a, _ = place(lanes)
            b = {"addr": a if rng.random() < 0.3 else a // lanes * lanes, "ds": rng.getrandbits(20), "w": int(rng.random() < 0.5),
                 "strb": pick(rng, [("full", 4), ("rand", 5), ("zero", 1), ("even", 2)])}
            if rng.random() < 0.4:
                b["d"] = rng.randint(1, 20)
            scn["req"].append(b)
        scn["reqp"] = {"pat": rand_pat(rng, heavy), "x_idle": int(rng.random() < 0.4)}
    if mode == "mn":
        scn["comp"] = {"pat": rand_pat(rng, heavy), "err_p": pick(rng, [(0, 3), (0.1, 2), (0.5, 1)]),
                       "lat_p": pick(rng, [(0, 2), (0.3, 2), (0.9, 1)]), "lat_max": rng.choice([2, 5, 20]),
                       "idle_ready": pick(rng, [("low", 3), ("high", 2), ("x", 1)]), "x_idle": int(rng.random() < 0.4)}
    else:
        if prop == "C17":
            kind = pick(rng, [("rec", 5), ("per", 2), ("space", 2)])
        elif prop == "C18":
            kind = "ram"
        else:
            kind = pick(rng, [("ram", 5), ("rec", 3), ("per", 1), ("space", 1), ("sparse", 1)])
        sl = {"kind": kind}
        if kind == "ram":
            sl["mem"] = pick(rng, [("default", 3), ("size", 3), ("bytearray", 1), ("mmap", 1), ("sparse", 1)])
            sl["size"] = rng.choice([4096, 8192, 12288, 65536])
        else:
            sl.update({"async": int(rng.random() < 0.7), "exc": rng.choice(["plain", "type", "value"]),
                       "lat_p": pick(rng, [(0, 2), (0.3, 2), (0.9, 1)]), "lat_max": rng.choice([2, 6, 20]), "lat_timer": pick(rng, [(0, 5), (1, 2), (2, 2)]),
                       "fail_p": pick(rng, [(0, 2), (0.1, 3), (0.5, 1)]), "late": rng.choice([0, 0, 1]),
                       "switch": [rng.randint(3, horizon) for _ in range(pick(rng, [(0, 3), (1, 1), (2, 1)]))]})
        scn["sl"] = sl
        scn["fill"] = rng.getrandbits(16)
    sides = {"mn": ["m"], "mr": ["m", "s"], "nr": ["s"]}[mode]
    pp = 0.7 if prop == "C14" else 0.35
    scn["lp"] = {s: rand_pat(rng, heavy) for s in sides if rng.random() < pp}
    scn["ctl"] = gen_ctl(rng, 0.6 if prop in ("C12", "C14") else 0.25, sides, heavy)
    return normalise(scn)


def normalise(scn):
    cfg = scn["cfg"]
    lanes, top = cfg["lanes"], 1 << cfg["aw"]
    beats = nops = 0
    for ops in scn.get("clients", []):
        for op in ops:
            nops += 1
            if op["op"] not in ("r", "w"):
                continue
            beats += op["len"] // lanes + 2
            assert 0 <= op["addr"] and op["addr"] + op["len"] <= top and op["len"] >= 0
            assert (op["addr"] < cfg["lo"]) == (op["len"] == 0)
            if "h" in op:
                ws = {"words": op.get("ws", 2), "word": op.get("ws", 2)}.get(op["h"], WSZ[op["h"]])
                assert op["len"] % ws == 0 and (op["h"].endswith("s") or op["len"] == ws)
    for b in scn.get("req", []):
        nops += 1
        beats += 1
        assert 0 <= b["addr"] < top
    d = max([sum_d([o]) for o in scn.get("clients", []) + [scn["ctl"]]] or [0])
    d += sum(b.get("d", 0) for b in scn.get("req", []))
    rl = sum(p["len"] + 10 for p in scn["rst"]["pulses"])
    lastr = max([p["at"] for p in scn["rst"]["pulses"]] or [0])
    scn["max_cycles"] = scn["stall_until"] + lastr + rl + d * 2 + beats * 8 + nops * 20 + 200
    return scn


class Bad:
    def __init__(self, ctx, cfg, m):
        top = 1 << cfg["aw"]
        d = bytes(8)
        L = []

        def rd(name, *a, **k):
            L.append(("init_read " + name, lambda: m.init_read(*a, **k)))
            if "event" not in k:
                L.append(("read " + name, lambda: m.read(*a, **k)))

        def wr(name, *a, **k):
            L.append(("init_write " + name, lambda: m.init_write(*a, **k)))
            if "event" not in k:
                L.append(("write " + name, lambda: m.write(*a, **k)))
        rd("address -1", -1, 4)
        wr("address -1", -1, d)
        rd("address at top", top, 1)
        wr("address at top", top, d)
        rd("address at top, empty", top, 0)
        wr("address at top, empty", top, b"")
        wr("far address", top * 2 + 5, d)
        rd("overrun by 1", top - 8, 9)
        wr("overrun by 1", top - 7, d)
        rd("read past top, one byte", top - 1, 2)
        wr("write past top, one byte", top - 1, bytes(2))
        rd("negative length", 64, -1)
        wr("int data", 64, 5)
        rd("event object", 64, 4, event=object())
        wr("event object", 64, d, event=lambda: None)
        rd("event int", 64, 4, event=1)
        self.core = len(L)
        if "pprot" not in cfg["opt"]:
            for v in (0, 1, 3, 4, 5, 6, 7):
                rd("pprot %d not connected" % v, 64, 4, prot=v)
                wr("pprot %d not connected" % v, 64, d, prot=v)
        self.list = L


class PauseWatch:
    """A paused requester starts no transfer; a completer paused since before a transfer began does not complete it."""

    def __init__(self, ctx, gw, comps, wires):
        self.ctx = ctx
        self.gw = gw
        self.comps = comps
        self.since = {k: None for k in comps}
        self.at = 0
        ctx.sim.settle_hooks.append(self.settle)
        wires.cb_setup.append(self.setup)
        wires.cb_done.append(self.done)
        for k, c in comps.items():
            gw.watch(c, "the requester" if k == "m" else "the completer")

    def settle(self):
        cyc = self.ctx.cycle
        for k, c in self.comps.items():
            if not c.pause:
                self.since[k] = None
            elif self.since[k] is None or self.gw.man_t.get(id(c)) == self.ctx.sim.time:
                self.since[k] = cyc          # set by hand in this time step: it may have flickered

    def setup(self, d):
        self.at = self.ctx.cycle
        # a setup cycle sampled at this edge was started at the previous edge
        t = self.since.get("m")
        if t is not None and t < self.ctx.cycle - 1:
            self.ctx.fail("paused-start", ["C14"], "a transfer (%r) was started although the requester has been paused since cycle %d" % (d, t))

    def done(self, d):
        # the setup cycle was sampled at edge self.at
        t = self.since.get("s")
        if t is not None and t < self.at:
            self.ctx.fail("paused-ready", ["C14"], "a transfer (%r) begun in cycle %d was completed although the completer has been paused since cycle %d" % (
                d, self.at, t))


async def build(ctx):
    scn = ctx.scn
    cfg = scn["cfg"]
    mode = cfg["mode"]
    rst = Rst(ctx, scn["rst"])
    lib_m = mode != "nr"
    lib_s = mode != "mn"
    wires = ApbWires(ctx, cfg, rst, lib_m, lib_s)
    rkw = rst.kwargs()

    def bus():
        return ApbBus.from_prefix(ctx.top, cfg["prefix"]) if cfg["prefix"] else ApbBus.from_entity(ctx.top)
    comps = {}
    phase = ["build"]
    cl = tr = sm = hist = direct = None
    if lib_m:
        tr = ApbTracker(ctx, cfg, wires)
        comps["m"] = m = ApbMaster(bus(), ctx.hclk, **rkw)
        ctx.count("real.ApbMaster")
        cl = MMClients(ctx, m, rst, tr, "C10", [(m, "RW")])
    else:
        req = ApbReq(ctx, cfg, wires, rst, scn["req"], scn["reqp"]["pat"], scn["reqp"]["x_idle"])
    if lib_s:
        sl = scn["sl"]
        kind = sl["kind"]
        size = 1 << cfg["aw"]
        if kind == "ram":
            mk = {"size": sl["size"]}
            if sl["mem"] == "default":
                mk = {}
                size = 1 << 64
            elif sl["mem"] == "bytearray":
                mk = {"mem": bytearray(sl["size"])}
            elif sl["mem"] == "mmap":
                mk = {"mem": mmap.mmap(-1, sl["size"])}
            elif sl["mem"] == "sparse":
                mk = {"mem": SparseMemory(sl["size"])}
            if sl["mem"] != "default":
                size = sl["size"]
            hist = ByteHist()
            s = direct = ApbRam(bus(), ctx.hclk, **rkw, **mk)
            ctx.count("real.ApbRam")
            fill(ctx, scn, hist, direct, size)
            sm = ApbSlaveModel(ctx, cfg, wires, rst, mem=hist, size=size, mprops=["C10", "C18"])
        elif kind == "sparse":
            hist = ByteHist()
            reg = SparseMemoryRegion(size)
            direct = reg.mem
            fill(ctx, scn, hist, direct, size)
            s = ApbSlave(bus(), ctx.hclk, target=reg, **rkw)
            ctx.count("real.ApbSlave")
            ctx.count("real.SparseMemoryRegion")
            sm = ApbSlaveModel(ctx, cfg, wires, rst, mem=hist, size=size)
        else:
            mapped = None
            if kind == "space":
                half = size >> 1
                mapped = lambda a, n: a + n <= half
            tm = TargetModel(ctx, rst, ["C17", "C10"], mapped)
            sm = ApbSlaveModel(ctx, cfg, wires, rst, target=tm, props=("C10", "C17"))
            rec, tgt = make_target(ctx, rst, cfg, sl, tm, 0)
            s = ApbSlave(bus(), ctx.hclk, **rkw, **({"target": tgt} if not sl["late"] else {}))
            ctx.count("real.ApbSlave")
            tm.switch(rec)
            if sl["late"]:
                s.target = tgt
                ctx.count("cover.late_attached_target")

            def reattach(i):
                rec, tgt = make_target(ctx, rst, cfg, sl, tm, i)
                ctx.count("fault.target_replaced")
                tm.switch(rec)
                s.target = tgt
            for i, at in enumerate(sl["switch"]):
                ctx.at_cycle(at, lambda i=i: ctx.sim.after(ctx.period // 2 - 3, lambda: reattach(i + 1)))
        comps["s"] = s
    else:
        ApbComp(ctx, cfg, wires, rst, scn["comp"])
    gw = GenWatch(ctx)
    PauseWatch(ctx, gw, comps, wires)
    rst.attach(comps.values())
    tasks = [cocotb.start_soon(pauses(ctx, scn, comps, gw))]

    async def client(ops):
        for op in ops:
            await ctx.delay(op)
            if op["op"] in ("r", "w"):
                await cl.issue(op)
            elif op["op"] == "bad":
                n = bad.core
                for j in range(6):
                    cl.reject(*bad.list[(op["i"] + j * 7) % n])
                for j in range(4 if len(bad.list) > n else 0):
                    cl.reject(*bad.list[n + (op["i"] + j * 37) % (len(bad.list) - n)])
            else:
                await cl.wait("wait")

    def settle_states():
        if ctx.clk.ival != 1:
            return
        s = wires.s
        key = [s["psel"].ival, s["penable"].ival, s["pready"].ival, s["pwrite"].ival, wires.state, min(wires.wait, 4)]
        if tr is not None:
            key += [min(len(tr.q), 4), tr.cur is not None]
        key.append(rst.active)
        key += [c.pause for c in comps.values()]
        ctx.states.add(tuple(key))
    ctx.sim.settle_hooks.append(settle_states)

    if lib_m:
        bad = Bad(ctx, cfg, m)
        for ops in scn["clients"]:
            tasks.append(cocotb.start_soon(client(ops)))

    def timeout():
        ctx.fail("stuck", ["*"], "not finished after %d cycles (phase %s, outstanding operations %s, bus %s)" % (
            ctx.cycle, phase[0], [repr(o) for k in "RW" for o in cl.out[k]][:4] if cl else "-", wires.state))
    ctx.timeout_fn = timeout
    for i, t in enumerate(tasks):
        phase[0] = "task %d" % i
        await t
    phase[0] = "drain"
    last_pulse = max([p["at"] + p["len"] + 3 for p in scn["rst"]["pulses"]] or [0])
    while ctx.cycle < last_pulse or ctx.cycle < scn["stall_until"]:
        await ctx.cycles(1)
    if lib_m:
        phase[0] = "wait"
        await m.wait()
        await ctx.cycles(1)
        if cl.pending():
            ctx.fail("wait-early", ["C13"], "wait() returned with %d operations outstanding" % cl.pending())
            return
        await cl.finish()
    else:
        while req.busy():
            await ctx.cycles(1)
        ctx.count("ops.native_transfers", len(scn["req"]))
    phase[0] = "end"
    await ctx.cycles(6)
    if hist is not None:
        final_compare(ctx, hist, sm.touched, size, direct.read, sm.mprops)
