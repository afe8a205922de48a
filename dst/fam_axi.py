"""AXI: library manager <-> native subordinate / library memory / library slave with a recording target,
and native manager <-> library memory / slave."""
import mmap
import types

import cocotb
from cocotbext.axi import (AxiBus, AxiReadBus, AxiWriteBus, AxiMaster, AxiMasterRead, AxiMasterWrite, AxiRam, AxiRamRead, AxiRamWrite,
                           AxiSlave, AxiSlaveRead, AxiSlaveWrite, AddressSpace, PeripheralRegion, SparseMemoryRegion, MemoryRegion)
from cocotbext.axi import axi_channels as axch
from cocotbext.axi.sparse_memory import SparseMemory

from .axi_bus import *
from .common import *
from .hw import Misdeed, Rst, Pat, pauses, rand_pat, watch_pauses
from .memmodel import AsyncRecorder, SyncRecorder
from .mmclient import MMClients

NAME = "axi"
CH = ("aw", "w", "b", "ar", "r")
WSZ = {"words": 2, "dwords": 4, "qwords": 8, "byte": 1, "word": 2, "dword": 4, "qword": 8}


# ---------------------------------------------------------------- generation
def gen(rng, seed, prop):
    horizon = rng.choice([100, 200, 350])
    preset = {"C11": 0.95, "C12": 0.35, "C13": 0.35, "C07": 0.25, "C01": 0.3, "C19": 0.2, "C17": 0.25, "C20": 0.15}.get(prop, 0.15)
    scn = gen_base(rng, seed, NAME, prop, reset=preset, horizon=horizon)
    if prop in ("C03", "C06", "C07", "C13", "C20"):
        mode = pick(rng, [("mn", 6), ("mr", 4)])
    elif prop in ("C08", "C17", "C18"):
        mode = pick(rng, [("nr", 7), ("mr", 3)])
    elif prop == "C23":
        mode = pick(rng, [("nr", 1), ("mn", 1)])
    else:
        mode = pick(rng, [("mn", 4), ("mr", 4), ("nr", 4)])
    lanes = pick(rng, [(1, 2), (2, 2), (4, 4), (8, 4), (16, 1), (32, 3 if prop == "C23" else 1), (64, 0.4), (128, 0.3)])
    aw = pick(rng, [(10, 1), (12, 1), (13, 2), (16, 3), (20, 2), (32, 3), (40, 1), (64, 1)])
    cfg = {"mode": mode, "lanes": lanes, "aw": aw, "idw": pick(rng, [(1, 2), (2, 2), (4, 3), (8, 3), (12, 0.6)]),
           "uw": pick(rng, [(1, 1), (4, 1), (8, 1), (33, 0.4)]), "prefix": pick(rng, [("axi", 3), ("s_axi", 1), ("", 1)]),
           "mbl": pick(rng, [(256, 4), (16, 3), (1, 1), (2, 1), (7, 1), (1000, 1), (0, 1)]),
           "split": int(rng.random() < 0.15), "mon": int(rng.random() < (1.0 if prop == "C19" else 0.2)), "opt": []}
    dense = rng.choice([0.3, 0.8, 1.0])
    for c in CH:
        for o in OPTIONAL[c]:
            if rng.random() < (0.9 if o in ("wstrb", "bresp", "rresp") else dense):
                cfg["opt"].append(o)
    cfg["chan"] = pick(rng, [(0, 6), (1, 1), (2, 1)])
    if "wstrb" not in cfg["opt"]:
        cfg["pad"] = int(rng.random() < 0.6)       # writes of parts of words, which are padded with zeros
    scn["cfg"] = cfg
    lo = cfg["lo"] = rng.choice([0, 64, 64])      # below it there are only empty requests
    heavy = rng.random() < 0.5
    top = 1 << aw
    maxsize = (lanes - 1).bit_length()
    scn["budget"] = budget = [900 if rng.random() < 0.02 else rng.choice([60, 150, 300])]
    bases = []
    for _ in range(rng.randint(1, 3)):
        k = pick(rng, [("low", 2), ("page", 4), ("top", 2), ("rand", 2)])
        if k == "low":
            bases.append(lo + rng.choice([0, rng.randint(0, 64)]))
        elif k == "page" and top > 8192:
            bases.append(4096 * rng.randint(1, min(top >> 12, 1 << 20) - 1) - rng.randint(0, 3 * lanes))
        elif k == "top":
            bases.append(top - rng.randint(1, 4 * lanes + 8))
        else:
            bases.append(rng.randint(lo, top - 1))
    idpool = [rng.randrange(1 << cfg["idw"]) for _ in range(rng.randint(1, 3))]
    scn["bases"] = bases

    def beats():
        b = pick(rng, [(rng.randint(1, 3), 6), (rng.randint(1, 10), 5), (rng.randint(10, 40), 2), (rng.randint(250, 300), 0.3), (rng.randint(505, 600), 3 if budget[0] > 600 else 0)])
        b = max(1, min(b, budget[0]))
        budget[0] -= b
        return b

    def place(n, align=1):
        n = min(n, top - lo)
        base = rng.choice(bases)
        a = base + pick(rng, [(0, 3), (rng.randint(0, 2 * lanes), 3), (-rng.randint(0, n), 2)])
        a = max(lo, min(a, top - n))
        if align > 1:
            a = (a + align - 1) // align * align
            if a + n > top:
                a = (top - n) // align * align
            if a < lo:
                a = (lo + align - 1) // align * align
        return a, n

    empties = set()

    def client_op():
        kind = pick(rng, [("r", 5), ("w", 5)])
        p = "ar" if kind == "r" else "aw"
        op = gen_d(rng, 0.3 if heavy else 0.5)
        op["op"] = kind
        kw = {}
        if rng.random() < 0.5:
            kw[p + "id"] = rng.choice(idpool) if rng.random() < 0.9 else -1
        size = maxsize
        if rng.random() < 0.5:
            size = rng.randint(0, maxsize)
            kw["size"] = size
        if rng.random() < 0.05:
            kw["size"] = -1
            size = maxsize
        nb = 1 << size
        full = kind == "w" and "wstrb" not in cfg["opt"] and not cfg.get("pad")
        if full:
            kw.pop("size", None)
            size = maxsize
            nb = 1 << size
        ty = pick(rng, [("incr", 16), ("fixed", 2), ("wrap", 1)])
        b = beats()
        if full:
            a, n = place(b * nb, nb)
            n = n // nb * nb
            if ty == "fixed":
                kw["burst"] = FIXED
        elif ty == "fixed":
            n = max(1, b * nb - (rng.randint(0, nb - 1) if rng.random() < 0.3 else 0))
            a, _ = place(nb, nb)
            if rng.random() < 0.2:
                a = top - nb
            kw["burst"] = FIXED
        elif ty == "wrap":
            L = rng.choice([2, 4, 8, 16])
            if max(1, min(256, cfg["mbl"])) < L or L * nb > top - lo or L * nb > 4096:
                L = 1
            n = L * nb
            a, _ = place(n, n)
            if L > 1:
                kw["burst"] = WRAP
                if a + n > top or a < lo:
                    a = n * (lo // n + 1 if lo else 0)
            if a + n > top:
                a = top - n
        else:
            n = max(1, b * nb - rng.randint(0, nb))
            a, n = place(n)
            if rng.random() < 0.1:
                a = top - n
            if kind not in empties and lo and rng.random() < 0.04 and (kind == "r" or "wstrb" in cfg["opt"]):
                empties.add(kind)          # two empty requests could not be told apart on the bus
                n = 0
                a = rng.randint(1, 63)
        op["addr"], op["len"] = a, n
        pres = cfg["opt"]
        for f, w in (("lock", 1), ("cache", 4), ("prot", 3), ("qos", 4), ("region", 4), ("user", cfg["uw"])):
            if p + f in pres and rng.random() < 0.4:
                kw[f] = rng.getrandbits(w)
        if kind == "w":
            op["ds"] = rng.getrandbits(20)
            if "wuser" in pres and rng.random() < 0.5:
                m = pick(rng, [("int", 2), ("list", 3), ("none", 1)])
                if m == "int":
                    kw["wuser"] = rng.getrandbits(cfg["uw"])
                elif m == "none":
                    kw["wuser"] = None
                else:
                    kw["wuser"] = [rng.getrandbits(cfg["uw"]) for _ in range(rng.randint(0, 12))]
            op["mut"] = int(rng.random() < 0.4)
        op["st"] = pick(rng, [("b", 3), ("n", 2), ("c", 2)])
        if rng.random() < 0.15 and n and kw.get("burst", 1) == INCR and not full:
            h = rng.choice(sorted(WSZ))
            ws = WSZ[h]
            if h in ("words", "word"):
                ws = rng.choice([1, 2, 3, 4, 5])
                op["ws"] = ws
            cnt = max(1, n // ws) if h.endswith("s") else 1
            if cnt * ws <= top - lo:
                op["len"] = cnt * ws
                op["addr"] = min(op["addr"], top - op["len"])
                op["h"] = h
                op["bo"] = rng.choice(["little", "big"])
        elif rng.random() < 0.08 and n and kw.get("burst", 1) == INCR:
            op["win"] = rng.choice([0, op["addr"], max(0, op["addr"] - rng.randint(0, 100))])
        op["if"] = int(rng.random() < 0.1)
        op["kw"] = kw
        return op

    def nat_burst(kind):
        size = rng.randint(0, maxsize) if rng.random() < 0.5 else maxsize
        nb = 1 << size
        full = kind == "w" and "wstrb" not in cfg["opt"]
        if full:
            size, nb = maxsize, lanes
        L = beats()
        ty = pick(rng, [(INCR, 6), (FIXED, 2), (WRAP, 2)])
        b = {"size": size, "burst": ty, "ds": rng.getrandbits(20), "id": rng.choice(idpool)}
        if rng.random() < 0.2:
            b["id"] = rng.randrange(1 << cfg["idw"])
        if ty == WRAP:
            L = rng.choice([2, 4, 8, 16])
            if L * nb > top:
                L = 2
            a, _ = place(nb, nb)
        elif ty == FIXED:
            L = min(L, 16)
            a, _ = place(nb, nb if full or rng.random() < 0.5 else 1)
        else:
            L = min(L, 256, 4096 // nb)
            a, _ = place(nb, nb if full or rng.random() < 0.4 else 1)
            room = (4096 - (a & ~(nb - 1) & 0xfff)) // nb
            room = min(room, (top - (a & ~(nb - 1))) // nb)
            L = max(1, min(L, room))
        b["addr"], b["len"] = a, L
        b["strb"] = pick(rng, [("full", 4), ("rand", 4), ("zero", 1), ("even", 1)])
        for k in ("d", "wd"):
            if rng.random() < 0.4:
                b[k] = rng.randint(1, 30)
        return b

    if mode in ("mn", "mr"):
        clients = []
        for c in range(pick(rng, [(1, 3), (2, 4), (4, 2)])):
            ops = []
            for _ in range(many(rng, 7)):
                if budget[0] <= 0:
                    break
                x = rng.random()
                if x < 0.12:
                    o = gen_d(rng)
                    o["op"] = pick(rng, [("wait", 2), ("wait_read", 1), ("wait_write", 1)])
                    ops.append(o)
                if rng.random() < (0.5 if prop == "C20" else 0.08):
                    o = gen_d(rng)
                    o["op"] = "bad"
                    o["i"] = rng.getrandbits(16)
                    ops.append(o)
                ops.append(client_op())
            clients.append(ops)
        scn["clients"] = clients
    else:
        scn["nw"] = [nat_burst("w") for _ in range(rng.randint(0, 8)) if budget[0] > 0]
        scn["nr"] = [nat_burst("r") for _ in range(rng.randint(1, 8)) if budget[0] > 0]
    if prop == "C23" and rng.random() < 0.95:
        misdeed(rng, scn, mode, lanes, top, horizon)
    pats = {c: rand_pat(rng, heavy) for c in CH}
    if mode == "mn":
        scn["sub"] = {"pats": pats, "err_p": pick(rng, [(0, 3), (0.1, 2), (0.5, 1)]), "lat_p": pick(rng, [(0, 1), (0.3, 2), (0.9, 1)]),
                      "lat_max": rng.choice([3, 12, 40]), "reorder": int(rng.random() < 0.7), "inter": pick(rng, [(0, 1), (0.3, 1), (0.9, 1)]),
                      "gate": pick(rng, [(None, 4), ("aw_after_w", 1), ("w_after_aw", 1)]), "x_idle": int(rng.random() < 0.4)}
    elif mode == "nr":
        scn["mgr"] = {"pats": pats, "x_idle": int(rng.random() < 0.4)}
    if mode != "mn":
        if prop == "C17":
            kind = pick(rng, [("rec", 5), ("per", 2), ("space", 2)])
        elif prop == "C18":
            kind = "ram"
        else:
            kind = pick(rng, [("ram", 6), ("rec", 2), ("per", 1), ("space", 1), ("sparse", 1)])
        sl = {"kind": kind}
        if kind == "ram":
            sl["mem"] = pick(rng, [("default", 3), ("size", 3), ("bytearray", 1), ("mmap", 1), ("sparse", 1)])
            sl["size"] = rng.choice([4096, 8192, 12288, 65536])
        else:
            sl.update({"async": int(rng.random() < 0.7), "exc": rng.choice(["plain", "type", "value"]),
                       "lat_p": pick(rng, [(0, 2), (0.3, 2), (0.9, 1)]), "lat_max": rng.choice([2, 6, 20]), "lat_timer": pick(rng, [(0, 5), (1, 2), (2, 2)]),
                       "fail_p": pick(rng, [(0, 2), (0.1, 3), (0.5, 1)]), "late": rng.choice([0, 0, 1, 2]),
                       "switch": [rng.randint(3, horizon) for _ in range(pick(rng, [(0, 3), (1, 1), (2, 1)]))]})
        scn["sl"] = sl
        scn["fill"] = rng.getrandbits(16)
    lp = {}
    sides = {"mn": ["m"], "mr": ["m", "s"], "nr": ["s"]}[mode]
    for s in sides:
        for c in CH:
            if rng.random() < 0.3:
                lp[s + "." + c] = rand_pat(rng, heavy)
    scn["lp"] = lp
    scn["ctl"] = gen_ctl(rng, 0.6 if prop in ("C12", "C14") else 0.25, [x + "." + c for x in sides for c in CH], heavy)
    del scn["budget"]
    return normalise(scn)


def misdeed(rng, scn, mode, lanes, top, horizon):
    """One protocol violation by the native component."""
    if mode == "mn":
        k = pick(rng, [("b-id", 3), ("r-id", 3), ("r-early", 2), ("r-miss", 2)])
        scn["bad"] = {"k": k, "at": rng.randint(0, 2 * horizon), "n": rng.choice([0, 0, 1, 3, 10, 30])}
        return
    scn["bad"] = {"k": "burst"}
    kind = pick(rng, [("4k", 4), ("size", 2 if lanes < 128 else 0), ("wlast", 4)])
    name = "nw" if kind == "wlast" or (scn["nw"] and rng.random() < 0.5) else "nr"
    if not scn[name]:
        name = "nw" if kind == "wlast" else "nr"
    if not scn[name]:
        return
    b = rng.choice(scn[name])
    full = name == "nw" and "wstrb" not in scn["cfg"]["opt"]
    if kind == "wlast":
        b["wl"] = b["len"] - 1 if rng.random() < 0.5 else rng.randrange(b["len"])
    elif kind == "size":
        ms = (lanes - 1).bit_length()
        b["size"] = rng.randint(ms + 1, min(7, ms + 2))
        b["bad"] = "size"
        b["burst"] = pick(rng, [(INCR, 4), (FIXED, 1), (WRAP, 1)])
        b["len"] = 2 if b["burst"] == WRAP else 1
        b["addr"] &= ~(min(4096, top) - 1)
    else:
        nb = 1 << b["size"]
        L = rng.randint(2, 256) if rng.random() < 0.5 else rng.randint(2, 8)
        room = L - 1 if rng.random() < 0.5 else rng.randint(1, L - 1)
        room = min(room, 4096 // nb, top // nb)
        b["len"] = max(room + 1, 2) if rng.random() < 0.5 else max(L, room + 1)
        b["burst"] = INCR
        page = (b["addr"] >> 12) << 12
        b["addr"] = page + min(4096, top) - room * nb + (0 if full else rng.choice([0, 0, rng.randint(0, nb - 1)]))
        if nb >= 32 and top >= 16384 and rng.random() < 0.4:
            # two or more boundaries
            b["addr"] = (page & ~0x3fff & (top - 1)) + 4096 - nb * rng.randint(1, 3)
            b["len"] = rng.randint(4096 // nb + 4, 256)
        b["bad"] = "4k"
        if top < 4096:
            b["len"] = 4096 // nb - ((b["addr"] & ~(nb - 1)) // nb) + 1
            if b["len"] > 256:
                b["addr"] = top - nb
                b.pop("bad")
                b["len"] = 1


def normalise(scn):
    cfg = scn["cfg"]
    lanes, top = cfg["lanes"], 1 << cfg["aw"]
    beats = 0
    nops = 0
    mode = cfg["mode"]
    if mode != "nr":
        for ops in scn["clients"]:
            for op in ops:
                nops += 1
                if op["op"] not in ("r", "w"):
                    continue
                sz = op["kw"].get("size")
                nb = lanes if sz is None or sz < 0 else 1 << sz
                beats += op["len"] // nb + 2
                assert 0 <= op["addr"] < top and op["len"] >= 0
                if op["kw"].get("burst") != FIXED:
                    assert op["addr"] + op["len"] <= top
                else:
                    assert op["addr"] % nb == 0
                if op["kw"].get("burst") == WRAP:
                    assert op["addr"] % op["len"] == 0 and op["len"] // nb in (2, 4, 8, 16) and op["len"] <= 4096
                if op["len"] == 0:
                    assert op["addr"] < cfg["lo"]
                else:
                    assert op["addr"] >= cfg["lo"]
                if "h" in op:
                    ws = {"words": op.get("ws", 2), "word": op.get("ws", 2)}.get(op["h"], WSZ[op["h"]])
                    assert op["len"] % ws == 0 and (op["h"].endswith("s") or op["len"] == ws)
                if op["op"] == "w" and "wstrb" not in cfg["opt"] and not (cfg.get("pad") and op["len"]):
                    assert op["addr"] % lanes == 0 and op["len"] % lanes == 0 and nb == lanes
    else:
        for b in scn["nw"] + scn["nr"]:
            nops += 1
            beats += b["len"]
            nb = 1 << b["size"]
            al = b["addr"] & ~(nb - 1)
            assert 1 <= b["len"] <= 256 and 0 <= b["addr"] < top
            if "bad" in b:
                continue
            if b["burst"] == INCR:
                assert (al & 0xfff) + b["len"] * nb <= 4096 and al + b["len"] * nb <= top
            elif b["burst"] == FIXED:
                assert b["len"] <= 16
            else:
                assert b["len"] in (2, 4, 8, 16) and b["addr"] % nb == 0
        for b in scn["nw"]:
            if "wstrb" not in cfg["opt"] and "bad" not in b:
                assert b["addr"] % lanes == 0 and 1 << b["size"] == lanes
    d = max([sum_d([o]) for o in scn.get("clients", []) + [scn["ctl"]]] or [0])
    rl = sum(p["len"] + 10 for p in scn["rst"]["pulses"])
    lastr = max([p["at"] for p in scn["rst"]["pulses"]] or [0])
    scn["max_cycles"] = scn["stall_until"] + lastr + rl + d * 2 + beats * 6 + nops * 30 + 300
    return scn


def without_monitors(scn):
    scn["cfg"]["mon"] = 0
    return scn


# ---------------------------------------------------------------- execution
def make_bus(ctx, cfg, which):
    pre = cfg["prefix"]
    cls = {"rw": AxiBus, "r": AxiReadBus, "w": AxiWriteBus}[which]
    if cfg.get("chan"):
        chans = {"rw": ["AW", "W", "B", "AR", "R"], "r": ["AR", "R"], "w": ["AW", "W", "B"]}[which]
        kinds = [getattr(axch, "Axi%sBus" % c) for c in chans]
        ch = [k.from_prefix(ctx.top, pre) if pre else k.from_entity(ctx.top) for k in kinds]
        if cfg["chan"] == 2 and which == "rw":
            return cls(AxiWriteBus.from_channels(*ch[:3]), AxiReadBus.from_channels(*ch[3:]))
        return cls.from_channels(*ch)
    if pre:
        return cls.from_prefix(ctx.top, pre)
    return cls.from_entity(ctx.top)


class Bad:
    """Invalid requests."""

    def __init__(self, ctx, cfg, m, split):
        self.top = 1 << cfg["aw"]
        self.cfg = cfg
        lanes = cfg["lanes"]
        top = self.top
        r, w = (m.read_if, m.write_if) if split else (m, m)
        d = bytes(8)
        L = []

        def rd(name, *a, **k):
            L.append(("init_read " + name, lambda: r.init_read(*a, **k)))
            if "event" not in k:
                L.append(("read " + name, lambda: r.read(*a, **k)))

        def wr(name, *a, **k):
            L.append(("init_write " + name, lambda: w.init_write(*a, **k)))
            if "event" not in k:
                L.append(("write " + name, lambda: w.write(*a, **k)))
        ids = 1 << cfg["idw"]
        ms = (lanes - 1).bit_length()
        rd("address -1", -1, 4)
        wr("address -1", -1, d)
        rd("address at top", top, 1)
        wr("address at top", top, d)
        rd("address at top, empty", top, 0)
        wr("address at top, empty", top, b"")
        wr("far address", top * 2 + 5, d)
        rd("fixed burst at top", top, 1, burst=FIXED)
        wr("fixed burst at top", top, d, burst=FIXED)
        rd("fixed burst at -1", -1, 1, burst=FIXED)
        wr("fixed burst at -1", -1, d, burst=FIXED)
        rd("undefined burst type", 64, 4, burst=3)
        wr("undefined burst type", 64, d, burst=3)
        if "arlock" in cfg["opt"]:
            rd("undefined lock type", 64, 4, lock=2)
        if "awlock" in cfg["opt"]:
            wr("undefined lock type", 64, d, lock=2)
        rd("overrun by 1", top - 8, 9)
        wr("overrun by 1", top - 7, d)
        rd("overrun from 0", 0, top + 1) if top < 1 << 20 else None
        rd("negative length", 64, -1)
        rd("ID too large", 64, 4, arid=ids)
        wr("ID too large", 64, d, awid=ids)
        rd("ID much too large", 64, 4, arid=ids * 4 + 1)
        rd("size too large", 64, 4, size=ms + 1)
        wr("size too large", 64, d, size=ms + 1)
        wr("int data", 64, 5)
        rd("event object", 64, 4, event=object())
        wr("event object", 64, d, event=lambda: None)
        rd("event int", 64, 4, event=1)
        rd("read past top, one byte", top - 1, 2)
        wr("write past top, one byte", top - 1, bytes(2))
        self.core = len(L)
        for f, v in [("lock", 1)] + [("cache", v) for v in range(16) if v != 3] + [("prot", v) for v in (0, 1, 3, 4, 5, 6, 7)] + [
                (f, v) for f in ("qos", "region") for v in range(1, 16)] + [("user", v) for v in (1, 2, 255)]:
            if "ar" + f not in cfg["opt"]:
                rd("ar%s not connected" % f, 64, 4, **{f: v})
            if "aw" + f not in cfg["opt"]:
                wr("aw%s not connected" % f, 64, d, **{f: v})
        if "wuser" not in cfg["opt"]:
            wr("wuser not connected", 64, d, wuser=1)
            wr("wuser list not connected", 64, d, wuser=[1, 2])
        self.list = L


def make_target(ctx, rst, cfg, sl, tm, i):
    cls = AsyncRecorder if sl["async"] else SyncRecorder
    rec = cls(ctx, "t%d" % i, sl, tm)
    if sl["kind"] == "per" or (not sl["async"] and sl["kind"] == "rec"):
        ctx.count("real.PeripheralRegion")
        return rec, PeripheralRegion(rec, 1 << cfg["aw"])
    if sl["kind"] == "space":
        ctx.count("real.AddressSpace")
        sp = AddressSpace(1 << cfg["aw"])
        sp.register_region(PeripheralRegion(rec, 1 << (cfg["aw"] - 1)), 0)
        return rec, sp
    return rec, rec


async def build(ctx):
    scn = ctx.scn
    cfg = scn["cfg"]
    mode = cfg["mode"]
    rst = Rst(ctx, scn["rst"])
    lib_m = mode != "nr"
    lib_s = mode != "mn"
    wires = AxiWires(ctx, cfg, cfg["prefix"], rst, lib_m, lib_s)
    rkw = rst.kwargs()
    m = None
    comps = {}
    phase = ["build"]
    cl = tr = sm = None
    hist = None
    if lib_m:
        tr = MasterTracker(ctx, cfg, wires)
        if cfg["split"]:
            m = types.SimpleNamespace(write_if=AxiMasterWrite(make_bus(ctx, cfg, "w"), ctx.hclk, max_burst_len=cfg["mbl"], **rkw),
                                      read_if=AxiMasterRead(make_bus(ctx, cfg, "r"), ctx.hclk, max_burst_len=cfg["mbl"], **rkw))
            ctx.count("real.AxiMasterWrite+AxiMasterRead")
            idle = [(m.write_if, "W"), (m.read_if, "R")]
        else:
            m = AxiMaster(make_bus(ctx, cfg, "rw"), ctx.hclk, max_burst_len=cfg["mbl"], **rkw)
            ctx.count("real.AxiMaster")
            idle = [(m, "RW"), (m.write_if, "W"), (m.read_if, "R")]
        cl = MMClients(ctx, m, rst, tr, "C07", idle)
        cl.split = bool(cfg["split"])
        for c in ("aw", "w", "b"):
            comps["m." + c] = getattr(m.write_if, c + "_channel")
        for c in ("ar", "r"):
            comps["m." + c] = getattr(m.read_if, c + "_channel")
    else:
        mgr = NatMgr(ctx, cfg, wires, rst, scn["nw"], scn["nr"], scn["mgr"]["pats"], scn["mgr"]["x_idle"])
    if lib_s:
        sl = scn["sl"]
        kind = sl["kind"]
        tm = None
        size = 1 << cfg["aw"]
        direct = None
        if kind == "ram":
            mk = {"size": sl["size"]}
            if sl["mem"] == "default":
                mk = {}
                size = 1 << 64
            elif sl["mem"] == "bytearray":
                mk = {"mem": bytearray(sl["size"])}
            elif sl["mem"] == "mmap":
                mk = {"mem": mmap.mmap(-1, sl["size"])}
            elif sl["mem"] == "sparse":
                mk = {"mem": SparseMemory(sl["size"])}
            if sl["mem"] != "default":
                size = sl["size"]
            hist = ByteHist()
            if cfg["split"]:
                wi = AxiRamWrite(make_bus(ctx, cfg, "w"), ctx.hclk, **rkw, **mk)
                ri = AxiRamRead(make_bus(ctx, cfg, "r"), ctx.hclk, mem=wi.mem, **rkw)
                s = types.SimpleNamespace(write_if=wi, read_if=ri)
                direct = wi
                ctx.count("real.AxiRamWrite+AxiRamRead")
            else:
                s = AxiRam(make_bus(ctx, cfg, "rw"), ctx.hclk, **rkw, **mk)
                direct = s
                ctx.count("real.AxiRam")
            fill(ctx, scn, hist, direct, size)
            props = ["C08"] + (["C06"] if lib_m else [])
            sm = SlaveModel(ctx, cfg, wires, rst, mem=hist, size=size, props=props, mprops=props + ["C18"])
        elif kind == "sparse":
            hist = ByteHist()
            reg = SparseMemoryRegion(size)
            direct = reg.mem
            fill(ctx, scn, hist, direct, size)
            s = AxiSlave(make_bus(ctx, cfg, "rw"), ctx.hclk, target=reg, **rkw)
            ctx.count("real.AxiSlave")
            ctx.count("real.SparseMemoryRegion")
            props = ["C08"] + (["C06"] if lib_m else [])
            sm = SlaveModel(ctx, cfg, wires, rst, mem=hist, size=size, props=props)
        else:
            mapped = None
            if kind == "space":
                half = size >> 1
                mapped = lambda a, n: a + n <= half
            tm = TargetModel(ctx, rst, ["C17", "C08"], mapped)
            sm = SlaveModel(ctx, cfg, wires, rst, target=tm, props=("C08", "C17"))
            rec, tgt = make_target(ctx, rst, cfg, sl, tm, 0)
            tkw = {"target": tgt} if not sl["late"] else {}
            if cfg["split"]:
                s = types.SimpleNamespace(write_if=AxiSlaveWrite(make_bus(ctx, cfg, "w"), ctx.hclk, **rkw, **tkw),
                                          read_if=AxiSlaveRead(make_bus(ctx, cfg, "r"), ctx.hclk, **rkw, **tkw))
                ctx.count("real.AxiSlaveWrite+AxiSlaveRead")
            else:
                s = AxiSlave(make_bus(ctx, cfg, "rw"), ctx.hclk, **rkw, **tkw)
                ctx.count("real.AxiSlave")

            def attach(tgt, how):
                if cfg["split"] or how == 2:
                    s.write_if.target = tgt
                    s.read_if.target = tgt
                else:
                    s.target = tgt
            tm.switch(rec)
            if sl["late"]:
                attach(tgt, sl["late"])
                ctx.count("cover.late_attached_target")

            def reattach(i):
                rec, tgt = make_target(ctx, rst, cfg, sl, tm, i)
                ctx.count("fault.target_replaced")
                tm.switch(rec)
                attach(tgt, i % 3)
            for i, at in enumerate(sl["switch"]):
                # half a cycle after the edge, so that it is clear which accesses come later
                ctx.at_cycle(at, lambda i=i: ctx.sim.after(ctx.period // 2 - 3, lambda: reattach(i + 1)))
        for c in ("aw", "w", "b"):
            comps["s." + c] = getattr(s.write_if, c + "_channel")
        for c in ("ar", "r"):
            comps["s." + c] = getattr(s.read_if, c + "_channel")
    else:
        sub = NatSub(ctx, cfg, wires, rst, scn["sub"])
    bad_peer = Misdeed(ctx, scn["bad"], rst) if "bad" in scn else None
    if bad_peer is not None and mode == "mn":
        sub.bad = bad_peer
        k = bad_peer.k[0].replace("b", "w")
        if bad_peer.k in ("b-id", "r-id"):
            def free():
                ids = set(range(1 << cfg["idw"]))
                for op in cl.out[k.upper()]:
                    i = op.kw.get("a%sid" % k)
                    if i is None or i < 0:
                        i = op.bus_id
                    if i is None:
                        return []
                    ids.discard(i)
                return sorted(ids)
            bad_peer.free = free
        wires.mon["a" + k].cb.append(lambda d: bad_peer.used.append(d["a%sid" % k]))
    # ----- channel monitors
    mons = []
    if cfg["mon"]:
        for c, cls in (("aw", axch.AxiAWMonitor), ("w", axch.AxiWMonitor), ("b", axch.AxiBMonitor), ("ar", axch.AxiARMonitor), ("r", axch.AxiRMonitor)):
            bus = make_bus(ctx, cfg, "w" if c in ("aw", "w", "b") else "r")
            mon = cls(getattr(bus, c), ctx.hclk, **rkw)
            wires.mon[c].log = []
            mons.append((c, mon, wires.mon[c]))
            ctx.count("real.AxiChannelMonitor")
    rst.attach(list(comps.values()) + [mon for _, mon, _ in mons] + ([m.write_if, m.read_if] if lib_m else []) + ([s.write_if, s.read_if] if lib_s else []))
    tasks = [cocotb.start_soon(pauses(ctx, scn, comps, watch_pauses(ctx, comps, wires)))]

    async def client(ops):
        for op in ops:
            await ctx.delay(op)
            if op["op"] in ("r", "w"):
                await cl.issue(op)
            elif op["op"] == "bad":
                n = bad.core
                for j in range(6):
                    cl.reject(*bad.list[(op["i"] + j * 7) % n])
                for j in range(4 if len(bad.list) > n else 0):
                    cl.reject(*bad.list[n + (op["i"] + j * 37) % (len(bad.list) - n)])
            else:
                await cl.wait(op["op"])

    def settle_states():
        if ctx.clk.ival != 1:
            return
        key = []
        for c in CH:
            v, r, _ = wires.chan[c]
            key.append((v.ival, r.ival))
        if tr is not None:
            key.append((min(len(tr.q["R"]), 2), min(len(tr.q["W"]), 2), min(len(tr.ids["R"]), 3), min(len(tr.ids["W"]), 3)))
        if sm is not None:
            key.append((min(len(sm.aw), 2), min(len(sm.wbuf), 2)))
        key.append(rst.active)
        ctx.states.add(tuple(key))
    ctx.sim.settle_hooks.append(settle_states)

    if lib_m:
        bad = Bad(ctx, cfg, m, cfg["split"])
        for ops in scn["clients"]:
            tasks.append(cocotb.start_soon(client(ops)))

    def timeout():
        ctx.fail("stuck", ["*"], "not finished after %d cycles (phase %s, outstanding operations %s, bus %s)" % (
            ctx.cycle, phase[0], [repr(o) for k in "RW" for o in cl.out[k]][:4] if cl else "-", sm.pending() if sm else tr.outstanding_bursts()))
    ctx.timeout_fn = timeout
    for i, t in enumerate(tasks):
        phase[0] = "task %d" % i
        await t
    phase[0] = "drain"
    last_pulse = max([p["at"] + p["len"] + 3 for p in scn["rst"]["pulses"]] or [0])
    while ctx.cycle < last_pulse or ctx.cycle < scn["stall_until"]:
        await ctx.cycles(1)
    if lib_m:
        phase[0] = "wait"
        if cfg["split"]:
            await m.read_if.wait()
            await m.write_if.wait()
        else:
            await m.wait()
        await ctx.cycles(1)
        if cl.pending():
            ctx.fail("wait-early", ["C13"], "wait() returned with %d operations outstanding" % cl.pending())
            return
        await cl.finish()
        if bad_peer is not None and bad_peer.k in ("b-id", "r-id"):
            sub.force = True
            for _ in range(200):
                await ctx.cycles(1)
                if bad_peer.seen:
                    break
    else:
        while mgr.busy() or sm.pending():
            await ctx.cycles(1)
            ctx.count("ops.native_bursts", 0)
        ctx.count("ops.native_bursts", len(scn["nw"]) + len(scn["nr"]))
    phase[0] = "end"
    await ctx.cycles(6)
    if bad_peer is not None:
        if bad_peer.seen:
            ctx.fail("violation-accepted", ["C23"], "the peer's protocol violation (%s) was not reported" % bad_peer.tag)
            return
        ctx.count("fault.peer_violation_not_reached")
    for c, mon, cm in mons:
        got = []
        while not mon.empty():
            got.append(mon.recv_nowait())
        exp = [e[2] for e in cm.log]
        gd = [{n: int(getattr(t, n)) for n in cm.payload} for t in got]
        if gd != exp:
            i = next((i for i, (a, b) in enumerate(zip(gd, exp)) if a != b), min(len(gd), len(exp)))
            ctx.fail("monitor", ["C19"], "%s monitor saw %d transfers, %d completed; first difference at %d: %r / %r" % (
                c, len(gd), len(exp), i, gd[i:i + 1], exp[i:i + 1]))
            return
        ctx.count("ops.monitored_transfers", len(exp))
    if hist is not None:
        final_compare(ctx, hist, sm.touched, size, direct.read, sm.mprops)


def fill(ctx, scn, hist, mem, size):
    r = ctx.rng("fill%s" % scn["fill"])
    for b in scn["bases"]:
        a = max(0, b - 16) % size
        n = min(48, size - a)
        d = r.randbytes(n)
        mem.write(a, d)
        for i, v in enumerate(d):
            hist.write(a + i, v, 0, 99).end = 0
