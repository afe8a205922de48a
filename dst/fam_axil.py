"""AXI-Lite: library manager <-> native subordinate / library memory / library slave with a recording target,
and native manager <-> library memory / slave."""
import mmap
import types

import cocotb
from cocotbext.axi import (AxiLiteBus, AxiLiteReadBus, AxiLiteWriteBus, AxiLiteMaster, AxiLiteMasterRead, AxiLiteMasterWrite,
                           AxiLiteRam, AxiLiteRamRead, AxiLiteRamWrite, AxiLiteSlave, AxiLiteSlaveRead, AxiLiteSlaveWrite,
                           SparseMemoryRegion)
from cocotbext.axi import axil_channels as lch
from cocotbext.axi.sparse_memory import SparseMemory

from .axi_bus import final_compare
from .axil_bus import *
from .axil_bus import LiteWires, LiteTracker, LiteSub, LiteMgr, LiteSlaveModel, OPTIONAL, CH
from .common import *
from .fam_axi import WSZ, fill, make_target
from .hw import Rst, Pat, pauses, rand_pat, watch_pauses
from .memmodel import ByteHist, TargetModel
from .mmclient import MMClients

NAME = "axil"


def gen(rng, seed, prop):
    horizon = rng.choice([80, 150, 300])
    preset = {"C11": 0.95, "C12": 0.35, "C13": 0.35, "C09": 0.25, "C01": 0.3, "C19": 0.2, "C17": 0.25, "C20": 0.15}.get(prop, 0.15)
    scn = gen_base(rng, seed, NAME, prop, reset=preset, horizon=horizon)
    if prop in ("C13", "C20"):
        mode = pick(rng, [("mn", 6), ("mr", 4)])
    elif prop in ("C17", "C18"):
        mode = pick(rng, [("nr", 6), ("mr", 4)])
    else:
        mode = pick(rng, [("mn", 4), ("mr", 4), ("nr", 4)])
    lanes = pick(rng, [(1, 2), (2, 2), (4, 5), (8, 3), (16, 1), (32, 0.5), (64, 0.5)])
    aw = pick(rng, [(8, 2), (10, 2), (12, 1), (13, 1), (16, 2), (32, 3), (40, 1), (64, 1)])
    cfg = {"mode": mode, "lanes": lanes, "aw": aw, "prefix": pick(rng, [("axil", 3), ("s_axil", 1), ("", 1)]),
           "split": int(rng.random() < 0.15), "mon": int(rng.random() < (1.0 if prop == "C19" else 0.2)), "opt": []}
    for c in CH:
        for o in OPTIONAL[c]:
            if rng.random() < 0.8:
                cfg["opt"].append(o)
    cfg["chan"] = pick(rng, [(0, 6), (1, 1), (2, 1)])
    if "wstrb" not in cfg["opt"]:
        cfg["pad"] = int(rng.random() < 0.6)       # writes of parts of words, which are padded with zeros
    scn["cfg"] = cfg
    lo = cfg["lo"] = rng.choice([0, 64, 64])      # below it there are only empty requests
    heavy = rng.random() < 0.5
    top = 1 << aw
    budget = [400 if rng.random() < 0.03 else rng.choice([30, 80, 150])]
    bases = []
    for _ in range(rng.randint(1, 3)):
        k = pick(rng, [("low", 2), ("top", 2), ("rand", 2), ("page", 1)])
        if k == "low":
            bases.append(lo + rng.choice([0, rng.randint(0, 64)]))
        elif k == "top":
            bases.append(top - rng.randint(1, 4 * lanes + 8))
        elif k == "page" and top > 8192:
            bases.append(4096 * rng.randint(1, min(top >> 12, 1 << 20) - 1) - rng.randint(0, 3 * lanes))
        else:
            bases.append(rng.randint(lo, top - 1))
    scn["bases"] = bases

    def words():
        b = pick(rng, [(rng.randint(1, 2), 6), (rng.randint(1, 6), 4), (rng.randint(8, 30), 1), (rng.randint(257, 330), 0.1 if budget[0] < 300 else 3)])
        b = max(1, min(b, budget[0]))
        budget[0] -= b
        return b

    def place(n, align=1):
        n = min(n, top - lo)
        a = rng.choice(bases) + pick(rng, [(0, 3), (rng.randint(0, 2 * lanes), 3), (-rng.randint(0, n), 2)])
        a = max(lo, min(a, top - n))
        a = a // align * align
        return max(a, lo), n

    empties = set()

    def client_op():
        kind = pick(rng, [("r", 5), ("w", 5)])
        p = "ar" if kind == "r" else "aw"
        op = gen_d(rng, 0.3 if heavy else 0.5)
        op["op"] = kind
        kw = {}
        full = kind == "w" and "wstrb" not in cfg["opt"] and not cfg.get("pad")
        n = max(1, words() * lanes - rng.randint(0, lanes))
        if full:
            n = (n + lanes - 1) // lanes * lanes
            n = min(n, (top - lo) // lanes * lanes)
        a, n = place(n, lanes if full else 1)
        if rng.random() < 0.1:
            a = top - n
        if kind not in empties and lo and rng.random() < 0.04 and (kind == "r" or "wstrb" in cfg["opt"]):
            empties.add(kind)          # two empty requests could not be told apart on the bus
            n, a = 0, rng.randint(1, 63)
        op["addr"], op["len"] = a, n
        if p + "prot" in cfg["opt"] and rng.random() < 0.4:
            kw["prot"] = rng.getrandbits(3)
        if kind == "w":
            op["ds"] = rng.getrandbits(20)
            op["mut"] = int(rng.random() < 0.4)
        op["st"] = pick(rng, [("b", 3), ("n", 2), ("c", 2)])
        if rng.random() < 0.2 and n and not full:
            h = rng.choice(sorted(WSZ))
            ws = WSZ[h]
            if h in ("words", "word"):
                ws = rng.choice([1, 2, 3, 4, 5])
                op["ws"] = ws
            cnt = max(1, n // ws) if h.endswith("s") else 1
            if cnt * ws <= top - lo:
                op["len"] = cnt * ws
                op["addr"] = min(op["addr"], top - op["len"])
                op["h"] = h
                op["bo"] = rng.choice(["little", "big"])
        elif rng.random() < 0.1 and n:
            op["win"] = rng.choice([0, op["addr"], max(0, op["addr"] - rng.randint(0, 100))])
        op["if"] = int(rng.random() < 0.1)
        op["kw"] = kw
        return op

    def nat(kind):
        budget[0] -= 1
        a, _ = place(lanes, lanes if rng.random() < 0.7 else 1)
        b = {"addr": a, "ds": rng.getrandbits(20), "strb": pick(rng, [("full", 4), ("rand", 5), ("zero", 1), ("even", 2)])}
        if "wstrb" not in cfg["opt"]:
            b["strb"] = "full"
        for k in ("d", "wd"):
            if rng.random() < 0.4:
                b[k] = rng.randint(1, 30)
        return b

    if mode in ("mn", "mr"):
        clients = []
        for c in range(pick(rng, [(1, 3), (2, 4), (4, 2)])):
            ops = []
            for _ in range(many(rng, 8)):
                if budget[0] <= 0:
                    break
                if rng.random() < 0.12:
                    o = gen_d(rng)
                    o["op"] = pick(rng, [("wait", 2), ("wait_read", 1), ("wait_write", 1)])
                    ops.append(o)
                if rng.random() < (0.5 if prop == "C20" else 0.08):
                    o = gen_d(rng)
                    o["op"] = "bad"
                    o["i"] = rng.getrandbits(16)
                    ops.append(o)
                ops.append(client_op())
            clients.append(ops)
        scn["clients"] = clients
    else:
        scn["nw"] = [nat("w") for _ in range(rng.randint(0, 15))]
        scn["nr"] = [nat("r") for _ in range(rng.randint(1, 15))]
    pats = {c: rand_pat(rng, heavy) for c in CH}
    if mode == "mn":
        scn["sub"] = {"pats": pats, "err_p": pick(rng, [(0, 3), (0.1, 2), (0.5, 1)]), "lat_p": pick(rng, [(0, 1), (0.3, 2), (0.9, 1)]),
                      "lat_max": rng.choice([3, 12, 40]), "gate": pick(rng, [(None, 4), ("aw_after_w", 1), ("w_after_aw", 1)]),
                      "x_idle": int(rng.random() < 0.4)}
    elif mode == "nr":
        scn["mgr"] = {"pats": pats, "x_idle": int(rng.random() < 0.4)}
    if mode != "mn":
        if prop == "C17":
            kind = pick(rng, [("rec", 5), ("per", 2), ("space", 2)])
        elif prop == "C18":
            kind = "ram"
        else:
            kind = pick(rng, [("ram", 5), ("rec", 3), ("per", 1), ("space", 1), ("sparse", 1)])
        sl = {"kind": kind}
        if kind == "ram":
            sl["mem"] = pick(rng, [("default", 3), ("size", 3), ("bytearray", 1), ("mmap", 1), ("sparse", 1)])
            sl["size"] = rng.choice([4096, 8192, 12288, 65536])
        else:
            sl.update({"async": int(rng.random() < 0.7), "exc": rng.choice(["plain", "type", "value"]),
                       "lat_p": pick(rng, [(0, 2), (0.3, 2), (0.9, 1)]), "lat_max": rng.choice([2, 6, 20]), "lat_timer": pick(rng, [(0, 5), (1, 2), (2, 2)]),
                       "fail_p": pick(rng, [(0, 2), (0.1, 3), (0.5, 1)]), "late": rng.choice([0, 0, 1, 2]),
                       "switch": [rng.randint(3, horizon) for _ in range(pick(rng, [(0, 3), (1, 1), (2, 1)]))]})
        scn["sl"] = sl
        scn["fill"] = rng.getrandbits(16)
    lp = {}
    sides = {"mn": ["m"], "mr": ["m", "s"], "nr": ["s"]}[mode]
    for s in sides:
        for c in CH:
            if rng.random() < 0.3:
                lp[s + "." + c] = rand_pat(rng, heavy)
    scn["lp"] = lp
    scn["ctl"] = gen_ctl(rng, 0.6 if prop in ("C12", "C14") else 0.25, [x + "." + c for x in sides for c in CH], heavy)
    return normalise(scn)


def normalise(scn):
    cfg = scn["cfg"]
    lanes, top = cfg["lanes"], 1 << cfg["aw"]
    beats = nops = 0
    for ops in scn.get("clients", []):
        for op in ops:
            nops += 1
            if op["op"] not in ("r", "w"):
                continue
            beats += op["len"] // lanes + 2
            assert 0 <= op["addr"] and op["addr"] + op["len"] <= top and op["len"] >= 0
            assert (op["addr"] < cfg["lo"]) == (op["len"] == 0)
            if "h" in op:
                ws = {"words": op.get("ws", 2), "word": op.get("ws", 2)}.get(op["h"], WSZ[op["h"]])
                assert op["len"] % ws == 0 and (op["h"].endswith("s") or op["len"] == ws)
            if op["op"] == "w" and "wstrb" not in cfg["opt"] and not (cfg.get("pad") and op["len"]):
                assert op["addr"] % lanes == 0 and op["len"] % lanes == 0 and op["len"]
    for b in scn.get("nw", []) + scn.get("nr", []):
        nops += 1
        beats += 1
        assert 0 <= b["addr"] < top
    d = max([sum_d([o]) for o in scn.get("clients", []) + [scn["ctl"]]] or [0])
    d += sum(max(b.get("d", 0), b.get("wd", 0)) for b in scn.get("nw", []))
    rl = sum(p["len"] + 10 for p in scn["rst"]["pulses"])
    lastr = max([p["at"] for p in scn["rst"]["pulses"]] or [0])
    scn["max_cycles"] = scn["stall_until"] + lastr + rl + d * 2 + beats * 6 + nops * 20 + 200
    return scn


def without_monitors(scn):
    scn["cfg"]["mon"] = 0
    return scn


def make_bus(ctx, cfg, which):
    pre = cfg["prefix"]
    cls = {"rw": AxiLiteBus, "r": AxiLiteReadBus, "w": AxiLiteWriteBus}[which]
    if cfg.get("chan"):
        chans = {"rw": ["AW", "W", "B", "AR", "R"], "r": ["AR", "R"], "w": ["AW", "W", "B"]}[which]
        kinds = [getattr(lch, "AxiLite%sBus" % c) for c in chans]
        ch = [k.from_prefix(ctx.top, pre) if pre else k.from_entity(ctx.top) for k in kinds]
        if cfg["chan"] == 2 and which == "rw":
            return cls(AxiLiteWriteBus.from_channels(*ch[:3]), AxiLiteReadBus.from_channels(*ch[3:]))
        return cls.from_channels(*ch)
    if pre:
        return cls.from_prefix(ctx.top, pre)
    return cls.from_entity(ctx.top)


class Bad:
    def __init__(self, ctx, cfg, m, split):
        top = 1 << cfg["aw"]
        r, w = (m.read_if, m.write_if) if split else (m, m)
        d = bytes(8)
        L = []

        def rd(name, *a, **k):
            L.append(("init_read " + name, lambda: r.init_read(*a, **k)))
            if "event" not in k:
                L.append(("read " + name, lambda: r.read(*a, **k)))

        def wr(name, *a, **k):
            L.append(("init_write " + name, lambda: w.init_write(*a, **k)))
            if "event" not in k:
                L.append(("write " + name, lambda: w.write(*a, **k)))
        rd("address -1", -1, 4)
        wr("address -1", -1, d)
        rd("address at top", top, 1)
        wr("address at top", top, d)
        rd("address at top, empty", top, 0)
        wr("address at top, empty", top, b"")
        wr("far address", top * 2 + 5, d)
        rd("overrun by 1", top - 8, 9)
        wr("overrun by 1", top - 7, d)
        rd("read past top, one byte", top - 1, 2)
        wr("write past top, one byte", top - 1, bytes(2))
        rd("negative length", 64, -1)
        wr("int data", 64, 5)
        rd("event object", 64, 4, event=object())
        wr("event object", 64, d, event=lambda: None)
        rd("event int", 64, 4, event=1)
        self.core = len(L)
        if "arprot" not in cfg["opt"]:
            for v in (0, 1, 3, 4, 5, 6, 7):
                rd("arprot %d not connected" % v, 64, 4, prot=v)
        if "awprot" not in cfg["opt"]:
            for v in (0, 1, 3, 4, 5, 6, 7):
                wr("awprot %d not connected" % v, 64, d, prot=v)
        self.list = L


async def build(ctx):
    scn = ctx.scn
    cfg = scn["cfg"]
    mode = cfg["mode"]
    rst = Rst(ctx, scn["rst"])
    lib_m = mode != "nr"
    lib_s = mode != "mn"
    wires = LiteWires(ctx, cfg, cfg["prefix"], rst, lib_m, lib_s)
    rkw = rst.kwargs()
    comps = {}
    phase = ["build"]
    cl = tr = sm = hist = direct = None
    if lib_m:
        tr = LiteTracker(ctx, cfg, wires)
        if cfg["split"]:
            m = types.SimpleNamespace(write_if=AxiLiteMasterWrite(make_bus(ctx, cfg, "w"), ctx.hclk, **rkw),
                                      read_if=AxiLiteMasterRead(make_bus(ctx, cfg, "r"), ctx.hclk, **rkw))
            ctx.count("real.AxiLiteMasterWrite+AxiLiteMasterRead")
            idle = [(m.write_if, "W"), (m.read_if, "R")]
        else:
            m = AxiLiteMaster(make_bus(ctx, cfg, "rw"), ctx.hclk, **rkw)
            ctx.count("real.AxiLiteMaster")
            idle = [(m, "RW"), (m.write_if, "W"), (m.read_if, "R")]
        cl = MMClients(ctx, m, rst, tr, "C09", idle)
        cl.split = bool(cfg["split"])
        side(comps, "m", m)
    else:
        mgr = LiteMgr(ctx, cfg, wires, rst, scn["nw"], scn["nr"], scn["mgr"]["pats"], scn["mgr"]["x_idle"])
    if lib_s:
        sl = scn["sl"]
        kind = sl["kind"]
        size = 1 << cfg["aw"]
        if kind == "ram":
            mk = {"size": sl["size"]}
            if sl["mem"] == "default":
                mk = {}
                size = 1 << 64
            elif sl["mem"] == "bytearray":
                mk = {"mem": bytearray(sl["size"])}
            elif sl["mem"] == "mmap":
                mk = {"mem": mmap.mmap(-1, sl["size"])}
            elif sl["mem"] == "sparse":
                mk = {"mem": SparseMemory(sl["size"])}
            if sl["mem"] != "default":
                size = sl["size"]
            hist = ByteHist()
            if cfg["split"]:
                wi = AxiLiteRamWrite(make_bus(ctx, cfg, "w"), ctx.hclk, **rkw, **mk)
                ri = AxiLiteRamRead(make_bus(ctx, cfg, "r"), ctx.hclk, mem=wi.mem, **rkw)
                s = types.SimpleNamespace(write_if=wi, read_if=ri)
                direct = wi
                ctx.count("real.AxiLiteRamWrite+AxiLiteRamRead")
            else:
                s = direct = AxiLiteRam(make_bus(ctx, cfg, "rw"), ctx.hclk, **rkw, **mk)
                ctx.count("real.AxiLiteRam")
            fill(ctx, scn, hist, direct, size)
            sm = LiteSlaveModel(ctx, cfg, wires, rst, mem=hist, size=size, mprops=["C09", "C18"])
        elif kind == "sparse":
            hist = ByteHist()
            reg = SparseMemoryRegion(size)
            direct = reg.mem
            fill(ctx, scn, hist, direct, size)
            s = AxiLiteSlave(make_bus(ctx, cfg, "rw"), ctx.hclk, target=reg, **rkw)
            ctx.count("real.AxiLiteSlave")
            ctx.count("real.SparseMemoryRegion")
            sm = LiteSlaveModel(ctx, cfg, wires, rst, mem=hist, size=size)
        else:
            mapped = None
            if kind == "space":
                half = size >> 1
                mapped = lambda a, n: a + n <= half
            tm = TargetModel(ctx, rst, ["C17", "C09"], mapped)
            sm = LiteSlaveModel(ctx, cfg, wires, rst, target=tm, props=("C09", "C17"))
            rec, tgt = make_target(ctx, rst, cfg, sl, tm, 0)
            tkw = {"target": tgt} if not sl["late"] else {}
            if cfg["split"]:
                s = types.SimpleNamespace(write_if=AxiLiteSlaveWrite(make_bus(ctx, cfg, "w"), ctx.hclk, **rkw, **tkw),
                                          read_if=AxiLiteSlaveRead(make_bus(ctx, cfg, "r"), ctx.hclk, **rkw, **tkw))
                ctx.count("real.AxiLiteSlaveWrite+AxiLiteSlaveRead")
            else:
                s = AxiLiteSlave(make_bus(ctx, cfg, "rw"), ctx.hclk, **rkw, **tkw)
                ctx.count("real.AxiLiteSlave")

            def attach(tgt, how):
                if cfg["split"] or how == 2:
                    s.write_if.target = tgt
                    s.read_if.target = tgt
                else:
                    s.target = tgt
            tm.switch(rec)
            if sl["late"]:
                attach(tgt, sl["late"])
                ctx.count("cover.late_attached_target")

            def reattach(i):
                rec, tgt = make_target(ctx, rst, cfg, sl, tm, i)
                ctx.count("fault.target_replaced")
                tm.switch(rec)
                attach(tgt, i % 3)
            for i, at in enumerate(sl["switch"]):
                ctx.at_cycle(at, lambda i=i: ctx.sim.after(ctx.period // 2 - 3, lambda: reattach(i + 1)))
        side(comps, "s", s)
    else:
        LiteSub(ctx, cfg, wires, rst, scn["sub"])
    mons = []
    if cfg["mon"]:
        for c, cls in (("aw", lch.AxiLiteAWMonitor), ("w", lch.AxiLiteWMonitor), ("b", lch.AxiLiteBMonitor),
                       ("ar", lch.AxiLiteARMonitor), ("r", lch.AxiLiteRMonitor)):
            bus = make_bus(ctx, cfg, "w" if c in ("aw", "w", "b") else "r")
            mon = cls(getattr(bus, c), ctx.hclk, **rkw)
            wires.mon[c].log = []
            mons.append((c, mon, wires.mon[c]))
            ctx.count("real.AxiLiteChannelMonitor")
    rst.attach(list(comps.values()) + [mon for _, mon, _ in mons] + ([m.write_if, m.read_if] if lib_m else []) + ([s.write_if, s.read_if] if lib_s else []))
    tasks = [cocotb.start_soon(pauses(ctx, scn, comps, watch_pauses(ctx, comps, wires)))]

    async def client(ops):
        for op in ops:
            await ctx.delay(op)
            if op["op"] in ("r", "w"):
                await cl.issue(op)
            elif op["op"] == "bad":
                n = bad.core
                for j in range(6):
                    cl.reject(*bad.list[(op["i"] + j * 7) % n])
                for j in range(4 if len(bad.list) > n else 0):
                    cl.reject(*bad.list[n + (op["i"] + j * 37) % (len(bad.list) - n)])
            else:
                await cl.wait(op["op"])

    def settle_states():
        if ctx.clk.ival != 1:
            return
        key = [(v.ival, r.ival) for v, r, _ in wires.chan.values()]
        if tr is not None:
            key.append((min(len(tr.aq["R"]), 2), min(len(tr.aq["W"]), 2), min(len(tr.rq["R"]), 3), min(len(tr.rq["W"]), 3)))
        if sm is not None:
            key.append((min(len(sm.aw), 2), min(len(sm.wb), 2), min(len(sm.done), 2), min(len(sm.rq), 2)))
        key.append(rst.active)
        ctx.states.add(tuple(key))
    ctx.sim.settle_hooks.append(settle_states)

    if lib_m:
        bad = Bad(ctx, cfg, m, cfg["split"])
        for ops in scn["clients"]:
            tasks.append(cocotb.start_soon(client(ops)))

    def timeout():
        ctx.fail("stuck", ["*"], "not finished after %d cycles (phase %s, outstanding operations %s, bus %s)" % (
            ctx.cycle, phase[0], [repr(o) for k in "RW" for o in cl.out[k]][:4] if cl else "-", sm.pending() if sm else tr.outstanding_bursts()))
    ctx.timeout_fn = timeout
    for i, t in enumerate(tasks):
        phase[0] = "task %d" % i
        await t
    phase[0] = "drain"
    last_pulse = max([p["at"] + p["len"] + 3 for p in scn["rst"]["pulses"]] or [0])
    while ctx.cycle < last_pulse or ctx.cycle < scn["stall_until"]:
        await ctx.cycles(1)
    if lib_m:
        phase[0] = "wait"
        if cfg["split"]:
            await m.read_if.wait()
            await m.write_if.wait()
        else:
            await m.wait()
        await ctx.cycles(1)
        if cl.pending():
            ctx.fail("wait-early", ["C13"], "wait() returned with %d operations outstanding" % cl.pending())
            return
        await cl.finish()
    else:
        while mgr.busy() or sm.pending():
            await ctx.cycles(1)
        ctx.count("ops.native_accesses", len(scn["nw"]) + len(scn["nr"]))
    phase[0] = "end"
    await ctx.cycles(6)
    check_monitors(ctx, mons)
    if hist is not None:
        final_compare(ctx, hist, sm.touched, size, direct.read, sm.mprops)


def side(comps, k, o):
    for c in ("aw", "w", "b"):
        comps[k + "." + c] = getattr(o.write_if, c + "_channel")
    for c in ("ar", "r"):
        comps[k + "." + c] = getattr(o.read_if, c + "_channel")


def check_monitors(ctx, mons):
    for c, mon, cm in mons:
        got = []
        while not mon.empty():
            got.append(mon.recv_nowait())
        exp = [e[2] for e in cm.log]
        gd = [{n: int(getattr(t, n)) for n in cm.payload} for t in got]
        if gd != exp:
            i = next((i for i, (a, b) in enumerate(zip(gd, exp)) if a != b), min(len(gd), len(exp)))
            ctx.fail("monitor", ["C19"], "%s monitor saw %d transfers, %d completed; first difference at %d: %r / %r" % (
                c, len(gd), len(exp), i, gd[i:i + 1], exp[i:i + 1]))
            return
        ctx.count("ops.monitored_transfers", len(exp))
