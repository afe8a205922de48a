"""Memories, regions, address spaces, windows and pools: many views of shared storage, nested mappings and
allocators, used at the same time from the test and over simulated AXI / AXI-Lite / APB ports."""
import contextlib
import io
import mmap
import zlib

import cocotb
from cocotb.triggers import Timer
from cocotbext.axi import (AxiBus, AxiReadBus, AxiWriteBus, AxiMaster, AxiMasterRead, AxiMasterWrite, AxiRam, AxiRamRead, AxiRamWrite,
                           AxiSlave, AxiLiteBus, AxiLiteReadBus, AxiLiteWriteBus, AxiLiteMaster, AxiLiteMasterRead, AxiLiteMasterWrite,
                           AxiLiteRam, AxiLiteRamRead, AxiLiteRamWrite, AxiLiteSlave, ApbBus, ApbMaster, ApbRam, ApbSlave, AddressSpace, Region,
                           MemoryRegion, SparseMemoryRegion, PeripheralRegion, Window, WindowPool, Pool)
from cocotbext.axi.buddy_allocator import BuddyAllocator
from cocotbext.axi.constants import AxiResp
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi import utils

from .apb_bus import ApbWires
from .axi_bus import AxiWires
from .axil_bus import LiteWires
from .common import *
from .hw import GenWatch, Rst, init_byte, pauses
from .memmodel import ByteHist, INF, TargetError, TargetTypeError

NAME = "mem"
SHORT = {"words": None, "dwords": 4, "qwords": 8, "byte": 1, "word": None, "dword": 4, "qword": 8}


# ---------------------------------------------------------------- the model of the tree
class N:
    """One addressable object: what its bytes are, independent of the library."""
    parent = None
    off = 0
    store = None
    bus = False          # an access through it goes over a simulated bus
    fail = False         # may raise injected errors
    per = False          # reaches a peripheral
    front = None
    obj = None
    base = 0
    root = None

    def __init__(self, id, k, size):
        self.id = id
        self.k = k
        self.size = size
        self.maps = []          # of spaces: (base, size, off, node)

    def inr(self, a, n):
        return 0 <= a < self.size and n >= 0 and a + n <= self.size

    def resolve(self, a, n):
        """-> ([(store, address, length, node)], complete)"""
        k = self.k
        if k in ("space", "pool"):
            if not 0 <= a < self.size or n < 0:
                return [], False
            segs = []
            rs = sorted([m for m in self.maps if a < m[0] + m[1] and m[0] < a + max(n, 1)], key=lambda m: m[0])
            if not rs:
                return [], False
            for b, s, off, node in rs:
                if b > a:
                    return segs, False
                sl = min(s - (a - b), n)
                g, ok = node.resolve(a if off is None else a - b + off, sl)
                segs += g
                if not ok:
                    return segs, False
                a += sl
                n -= sl
            return segs, n == 0
        if not self.inr(a, n):
            return [], False
        if k in ("win", "wpool"):
            return self.parent.resolve(a + self.off, n)
        if k == "front":
            return self.front.resolve(a, n)
        if k == "ram":
            segs = []
            S = self.store.size
            while n > 0:
                x = a % S
                sl = min(n, S - x)
                segs.append((self.store, x, sl, self))
                a += sl
                n -= sl
            return segs, True
        return [(self.store, a, n, self)], True

    def leaves(self):
        if self.k in ("space", "pool"):
            out = []
            for m in self.maps:
                out += m[3].leaves()
            return out
        if self.k in ("win", "wpool"):
            return self.parent.leaves()
        if self.k == "front":
            return [self] + self.front.leaves()
        return [self]

    def points(self, depth=0):
        """Interesting addresses."""
        p = {0, 1, self.size, self.size - 1}
        if self.k in ("space", "pool"):
            for b, s, off, node in self.maps:
                p |= {b, b + s, b + s // 2}
                if depth < 3:
                    p |= {b + x - (off or 0) for x in node.points(depth + 1)}
        elif self.k in ("win", "wpool") and depth < 3:
            p |= {x - self.off for x in self.parent.points(depth + 1)}
        elif self.k == "front" and depth < 3:
            p |= self.front.points(depth + 1)
        elif self.k == "ram":
            p |= {self.store.size, self.store.size * 2, self.store.size // 2}
        return {x for x in p if -2 <= x <= self.size + 2}


class Store:
    def __init__(self, id, t, size, ini):
        self.id = id
        self.t = t
        self.size = size
        self.ini = ini
        self.obj = None
        self.views = 0

    def init(self):
        return {"sparse": None, "per": init_byte}.get(self.t, (lambda a, s=self.ini: (a * 31 + s * 7 + (a >> 8) * 13) & 0xff) if self.ini else None)


class Tree:
    """Builds the model from the scenario; with a 'hook' also the library objects."""

    def __init__(self, scn, hook=None):
        self.stores = {}
        self.n = {}
        self.allocs = {}
        self.hook = hook
        self.pairs = []
        for d in scn["stores"]:
            assert d["id"] not in self.stores and d["size"] >= 1
            self.stores[d["id"]] = Store(d["id"], d["t"], d["size"], d.get("ini", 0))
            if hook:
                hook.store(self.stores[d["id"]])
        for d in scn["nodes"]:
            self.add(d)

    def add(self, d):
        k = d["k"]
        hook = self.hook
        if k == "map":
            sp, node = self.n[d["sp"]], self.n[d["n"]]
            assert sp.k in ("space", "pool") and node.k in ("reg", "per", "ram", "space", "pool") and sp is not node
            size = node.size if d.get("size") is None else d["size"]
            assert size >= 1 and d["base"] + size <= sp.size and not _reaches(node, sp)
            over = any(d["base"] < b + s and b < d["base"] + size for b, s, o, m in sp.maps)
            if hook:
                hook.map(sp, node, d, over)
            if not over:
                sp.maps.append((d["base"], size, d.get("off", 0), node))
                if d.get("off", 0) == 0 and sp.base is not None:
                    node.base = sp.base + d["base"]
                    node.root = sp.root or sp
                else:
                    node.base = None
            return
        assert d["id"] not in self.n and d["id"] not in self.allocs
        if k == "alloc":
            assert d["size"] >= 1
            self.allocs[d["id"]] = a = AllocModel(d["size"], d.get("min", 1))
            if hook:
                hook.alloc(a, d)
            return
        if k in ("reg", "ram"):
            st = self.stores[d["store"]]
            assert st.t != "per"
            st.views += 1
            size = (1 << d["aw"]) if k == "ram" else d.get("size") or st.size
            assert k == "ram" or size <= st.size
            assert k == "reg" or st.size % 64 == 0
            node = N(d["id"], k, size)
            node.store = st
            node.bus = k == "ram"
            node.lanes = d.get("lanes", 1)
        elif k == "per":
            st = self.stores[d["store"]]
            assert st.t == "per" and st.views == 0
            st.views += 1
            node = N(d["id"], k, d["size"])
            node.store = st
            node.per = True
            node.fail = d.get("fail_p", 0) > 0
        elif k == "space":
            node = N(d["id"], k, d["size"])
        elif k == "pool":
            p = self.n[d["parent"]]
            assert p.k == "space" and d["base"] + d["size"] <= p.size
            assert not any(d["base"] < b + s and b < d["base"] + d["size"] for b, s, o, m in p.maps)
            node = N(d["id"], k, d["size"])
            p.maps.append((d["base"], d["size"], 0, node))
            node.base = None if p.base is None else p.base + d["base"]
            node.root = p.root or p
            node.al = self.allocs[d["id"]] = AllocModel(d["size"], 1)
            node.parent_space = p
        elif k in ("win", "wpool"):
            p = self.n[d["parent"]]
            size = p.size - d["off"] if not d.get("size") else d["size"]
            assert 0 <= d["off"] < p.size and 1 <= size <= p.size - d["off"]
            node = N(d["id"], k, size)
            node.parent = p
            node.off = d["off"]
            node.base = None if p.base is None else p.base + d["off"]
            node.root = p.root or p
            if k == "wpool":
                node.al = self.allocs[d["id"]] = AllocModel(size, 1)
        elif k == "front":
            t = self.n[d["n"]]
            node = N(d["id"], k, 1 << d["aw"])
            node.front = t
            node.bus = True
            node.lanes = d["lanes"]
            assert not any(x.bus or x.fail for x in t.leaves())
        else:
            raise AssertionError(k)
        self.n[d["id"]] = node
        if hook:
            hook.node(node, d)

    def stale(self, node):
        """The object's idea of its absolute address predates the mapping of one of its ancestors."""
        return False


def _reaches(a, b):
    if a is b:
        return True
    if a.k in ("space", "pool"):
        return any(_reaches(m[3], b) for m in a.maps)
    return False


class AllocModel:
    def __init__(self, size, mn):
        self.size = size
        self.min = mn
        self.live = {}           # base -> (rounded size, requested size)
        self.obj = None

    def rnd(self, size):
        return 1 << (max(size, self.min) - 1).bit_length()

    def fits(self, size):
        """A place for a block of this size, or None."""
        r = self.rnd(size)
        pos = 0
        blocks = sorted((b, b + v[0]) for b, v in self.live.items())
        i = 0
        while pos + size <= self.size:
            while i < len(blocks) and blocks[i][1] <= pos:
                i += 1
            if i == len(blocks) or blocks[i][0] >= pos + r:
                return pos
            pos = max(pos + r, blocks[i][1] // r * r)
            if pos < blocks[i][1]:
                pos += r if pos + r > blocks[i][0] else 0
        return None


# ---------------------------------------------------------------- generation
def gen(rng, seed, prop):
    horizon = rng.choice([60, 120, 250])
    scn = gen_base(rng, seed, NAME, prop, reset=0.0, horizon=horizon, init_x=0.0)
    scn["rst"] = {"present": rng.random() < 0.5, "level": 1 if rng.random() < 0.6 else 0, "pulses": []}
    mode = {"C16": "pools", "C18": "views", "C22": "views"}.get(prop) or pick(rng, [("tree", 7), ("pools", 2), ("views", 1)])
    scn["mode"] = mode
    if prop == "C22":
        scn["hexes"] = 1
    stores, nodes = [], []
    scn["stores"], scn["nodes"] = stores, nodes
    scn["lp"], scn["ctl"] = {}, []
    busy = rng.random() < (0.75 if mode == "views" else 0.4)
    cnt = [0]

    def nid(p="n"):
        cnt[0] += 1
        return "%s%d" % (p, cnt[0])

    def new_store(t=None, size=None):
        t = t or pick(rng, [("sparse", 3), ("bytearray", 2), ("mmap", 2)])
        if size is None:
            size = 64 * pick(rng, [(rng.randint(1, 8), 4), (64, 3), (rng.randint(60, 200), 1), (1024, 1)])
            if t == "sparse" and rng.random() < 0.3:
                size = rng.choice([1 << 32, 1 << 64, (1 << 40) + 64 * 3])
            elif rng.random() < 0.25 and not busy:
                size += rng.randint(-63, 63)
        stores.append({"id": nid("s"), "t": t, "size": size, "ini": 0 if t == "sparse" else rng.randint(0, 200)})
        return stores[-1]

    def new_ram(st):
        bus = pick(rng, [("axi", 2), ("axil", 2), ("apb", 2)])
        lanes = pick(rng, [(1, 1), (2, 1), (4, 3), (8, 2), (16, 1)])
        if bus == "apb":
            lanes = min(lanes, 8)
        S = st["size"]
        aw = min(64, max(6, (S - 1).bit_length() + rng.choice([0, 0, 1, 2])))
        nodes.append({"id": nid(), "k": "ram", "store": st["id"], "bus": bus, "lanes": lanes, "aw": aw,
                      "split": int(bus != "apb" and rng.random() < 0.25)})
        pats(nodes[-1])

    def pats(d):
        if rng.random() < 0.4:
            ch = ("m", "s") if d["bus"] == "apb" else ("m.aw", "m.w", "m.b", "m.ar", "m.r", "s.aw", "s.w", "s.b", "s.ar", "s.r")
            for c in rng.sample(ch, rng.randint(1, min(4, len(ch)))):
                scn["lp"]["%s.%s" % (d["id"], c)] = rand_pat(rng)

    def new_reg(st):
        d = {"id": nid(), "k": "reg", "store": st["id"]}
        if rng.random() < 0.2:
            d["size"] = rng.randint(1, st["size"])
        nodes.append(d)

    def new_per(fail):
        size = rng.choice([1, 16, 64, 100, 4096])
        stores.append({"id": nid("s"), "t": "per", "size": size})
        d = {"id": nid(), "k": "per", "store": stores[-1]["id"], "size": size, "sync": int(rng.random() < 0.4)}
        d["aw"] = pick(rng, [(0, 3), (1, 1), (2, 1)])
        if rng.random() < 0.5:
            d["lat_p"] = rng.choice([0.3, 0.8])
        if fail and rng.random() < 0.5:
            d["fail_p"] = rng.choice([0.1, 0.3])
            d["exc"] = rng.choice(["plain", "type", "value"])
        nodes.append(d)

    clients = []
    scn["clients"] = clients
    if mode == "views":
        for _ in range(pick(rng, [(1, 6), (2, 2)])):
            st = new_store()
            for _ in range(rng.randint(1, 3)):
                if busy and rng.random() < 0.7 and sum(d["k"] == "ram" for d in nodes) < 3:
                    new_ram(st)
                elif rng.random() < 0.5:
                    new_reg(st)
        if not nodes:
            new_reg(st)
    elif mode == "tree":
        fail = not busy and rng.random() < 0.5
        for _ in range(rng.randint(2, 5)):
            x = rng.random()
            if x < 0.3:
                new_per(fail)
            elif x < 0.5 and busy and sum(d["k"] == "ram" for d in nodes) < 2:
                new_ram(new_store(size=64 * rng.randint(1, 8)))
            elif x < 0.9 or not stores:
                new_reg(new_store())
            else:
                c = [s for s in stores if s["t"] != "per"]
                new_reg(rng.choice(c) if c else new_store())
        for _ in range(rng.randint(1, 3)):
            spaces(rng, scn, nid)
        for _ in range(rng.randint(0, 4)):
            derive(rng, scn, nid, 0.2)
        if rng.random() < 0.35:
            t = Tree(scn)
            c = [n for n in t.n.values() if not any(x.bus or x.fail for x in n.leaves()) and n.size >= 4]
            if c:
                tgt = rng.choice(c)
                bus = pick(rng, [("axi", 2), ("axil", 2), ("apb", 2)])
                lanes = pick(rng, [(1, 1), (2, 1), (4, 3), (8, 2)])
                aw = max(6, min(64, (tgt.size - 1).bit_length() + rng.choice([0, 0, 1])))
                nodes.append({"id": nid(), "k": "front", "n": tgt.id, "bus": bus, "lanes": lanes, "aw": aw})
                pats(nodes[-1])
    else:
        pool_nodes(rng, scn, nid, new_store, new_reg, new_per)
    t = Tree(scn)
    # ----- clients
    budget = [rng.choice([300, 800, 2000])]
    for _ in range(pick(rng, [(1, 1), (2, 3), (3, 2)])):
        ops = []
        for _ in range(rng.randint(3, 25 if mode == "pools" else 16)):
            op = gen_op(rng, scn, t, mode, budget, nid)
            if op is not None:
                ops.append(op)
        clients.append(ops)
    return normalise(scn)


def spaces(rng, scn, nid):
    t = Tree(scn)
    cand = [n for n in t.n.values() if n.k in ("reg", "per", "ram", "space", "pool")]
    big = rng.random() < 0.25
    lo = rng.choice([0, 0, 7, 64, 4096, 1 << 20])
    sp = {"id": nid(), "k": "space", "size": 0}
    sh = rng.sample(cand, min(len(cand), rng.randint(1, 4)))
    cur = lo
    maps = []
    for n in sh:
        full = min(n.size, 1 << 63)
        d = {"k": "map", "sp": sp["id"], "n": n.id, "base": cur}
        x = rng.random()
        if x < 0.2 and full > 1:
            d["size"] = rng.randint(1, full)
        size = d.get("size", n.size)
        if rng.random() < 0.2 and "size" in d and n.size > size:
            d["off"] = rng.randint(1, n.size - size)
        elif rng.random() < 0.1 and cur + 4 < n.size and cur < n.size:
            d["off"] = None
            d["size"] = size = rng.randint(1, n.size - cur)
        elif rng.random() < 0.08:
            d["size"] = size = full + rng.randint(1, 16)        # mapped larger than it is
        maps.append(d)
        cur += size
        if rng.random() < 0.35:
            cur += rng.choice([1, 16, 4096])
        if rng.random() < 0.15 and n.size < 1 << 32:
            maps.append({"k": "map", "sp": sp["id"], "n": n.id, "base": cur})     # the same region twice
            cur += n.size
    if rng.random() < 0.25:
        d = rng.choice(maps)
        maps.append({"k": "map", "sp": sp["id"], "n": rng.choice(cand).id, "base": max(0, d["base"] - rng.randint(0, 3))})   # overlaps
    sp["size"] = max(cur, max(m["base"] + m.get("size", t.n[m["n"]].size) for m in maps)) + rng.choice([0, 0, 5, 4096])
    if big:
        sp["size"] = max(sp["size"], 1 << 64)
    rng.shuffle(maps)
    nodes = scn["nodes"]
    nodes.append(sp)
    nodes.extend(maps)


def derive(rng, scn, nid, pool_p):
    t = Tree(scn)
    c = [x for x in t.n.values() if x.size >= 2]
    if not c:
        return
    n = rng.choice(c)
    k = "wpool" if rng.random() < pool_p else "win"
    pts = sorted(x for x in n.points() if 0 <= x < n.size)
    off = max(0, min(n.size - 1, rng.choice(pts) + rng.choice([0, 0, -1, 1, -3, 5])))
    d = {"id": nid(), "k": k, "parent": n.id, "off": off}
    if rng.random() < 0.8:
        ends = [x for x in n.points() if off < x <= n.size]
        d["size"] = max(1, min(n.size - off, rng.choice(ends + [off + rng.randint(1, 200)]) - off))
    scn["nodes"].append(d)


def pool_nodes(rng, scn, nid, new_store, new_reg, new_per):
    nodes = scn["nodes"]
    psize = lambda: pick(rng, [(rng.choice([1, 2, 3, 16, 32, 64]), 3), (rng.randint(2, 200), 4), (1 << rng.randint(5, 12), 4), (rng.randint(100, 5000), 2),
                               (rng.choice([(1 << 32) - 5, 1 << 40, (1 << 33) + 17]), 1)])
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        if x < 0.35:
            d = {"id": nid("p"), "k": "alloc", "size": psize()}
            if rng.random() < 0.4:
                d["min"] = rng.choice([1, 2, 4, 5, 16, 64])
                if d["min"] > d["size"]:
                    del d["min"]
            nodes.append(d)
        elif x < 0.65:
            sz = psize()
            sp = {"id": nid(), "k": "space", "size": 1 << 64}
            base = rng.choice([0, 0, 5, 4096, 1 << 30])
            nodes.append(sp)
            nodes.append({"id": nid(), "k": "pool", "parent": sp["id"], "base": base, "size": sz})
            if rng.random() < 0.3:
                sp["size"] = base + sz
            if rng.random() < 0.3:
                o = {"id": nid(), "k": "space", "size": 1 << 65}
                m = {"k": "map", "sp": o["id"], "n": sp["id"], "base": rng.choice([0, 64, 1 << 64])}
                i = nodes.index(sp) + 1
                nodes[i:i] = [o, m]
        else:
            st = new_store()
            if st["size"] > 1 << 50:
                st["size"] = 1 << 32
            new_reg(st)
            n = nodes[-1]
            sz = n.get("size") or st["size"]
            off = rng.choice([0, 0, rng.randint(0, sz - 1)])
            d = {"id": nid(), "k": "wpool", "parent": n["id"], "off": off}
            if rng.random() < 0.7:
                d["size"] = rng.randint(1, sz - off)
            nodes.append(d)
    if rng.random() < 0.3:
        derive(rng, scn, nid, 0.8)


def gen_len(rng, budget):
    n = pick(rng, [(1, 3), (rng.randint(2, 9), 5), (rng.randint(8, 40), 3), (rng.randint(40, 200), 1), (rng.randint(200, 2000), 0.15)])
    n = max(1, min(n, budget[0]))
    budget[0] -= n
    return n


def gen_op(rng, scn, t, mode, budget, nid):
    op = gen_d(rng, 0.35, 0.1)
    x = rng.random()
    nodes = [n for n in t.n.values()]
    if mode == "pools" and x < 0.7 and t.allocs:
        pid = rng.choice(sorted(t.allocs))
        a = t.allocs[pid]
        y = rng.random()
        if y < 0.55:
            S = a.size
            r = min(S, max(1, S >> rng.randint(0, 6)))
            s = pick(rng, [(r, 4), (max(1, r - rng.randint(0, 3)), 2), (rng.randint(1, r), 3), (min(S, r + 1), 1), (S, 0.4), (0, 0.2), (S + 1, 0.2), (-1, 0.1)])
            if s > 0:
                s = max(s, S >> 8)
            return dict(op, op="alloc", p=pid, size=s, rt=rng.randint(0, 2), own=rng.randint(0, 2))
        if y < 0.9:
            return dict(op, op="free", i=rng.getrandbits(8))
        return dict(op, op="badfree", p=pid, a=rng.randint(-1, min(a.size, 300)))
    if mode == "pools" and x < 0.85:
        return dict(op, op="own", i=rng.getrandbits(8), rw=rng.choice("rw"), f=rng.random(), len=gen_len(rng, budget), ds=rng.getrandbits(20),
                    via=rng.randint(0, 2))
    if budget[0] <= 0 or not nodes:
        return None
    if mode == "views" and rng.random() < 0.5 or rng.random() < 0.06:
        return gen_direct(rng, t, op, budget, scn.get("hexes"))
    sps = [n for n in nodes if n.k in ("space", "pool")]
    if sps and rng.random() < 0.08:
        n = rng.choice(sps)
        a = rng.choice(sorted(n.points())) + rng.choice([0, 0, -1, 1, 9])
        return dict(op, op="find", n=n.id, a=a, len=rng.choice([None, 1, 0, rng.randint(1, 64), 1 << 32, -1]))
    if rng.random() < 0.08:
        n = rng.choice(nodes)
        off = rng.choice(sorted(n.points())) + rng.choice([0, 0, -1, 1, 9])
        sz = rng.choice([None, 1, n.size, n.size - off, n.size - off + 1, rng.randint(1, 64)])
        return dict(op, op="mkwin", n=n.id, off=off, size=sz, ds=rng.getrandbits(20), len=gen_len(rng, budget), t=rng.choice([0, 0, 1, 2, 3]))
    top = [n for n in nodes if n.k not in ("reg", "per")] or nodes
    n = rng.choice(top) if rng.random() < 0.75 else rng.choice(nodes)
    ln = gen_len(rng, budget)
    op.update(op="acc", n=n.id, rw=rng.choice("rw"), ds=rng.getrandbits(20))
    if rng.random() < 0.25:
        h = rng.choice(sorted(SHORT))
        ws = SHORT[h] or rng.choice([1, 2, 3, 4, 5, 8, 9, 16])
        op["h"] = h
        op["ws"] = ws
        op["bo"] = rng.choice(["little", "big"])
        ln = ws if not h.endswith("s") else ws * max(1, ln // ws)
        if op["rw"] == "w" and rng.random() < 0.06:
            op["ovf"] = 1
    p = rng.choice(sorted(n.points()))
    y = rng.random()
    if y < 0.45:
        a = p - rng.randint(0, ln)
    elif y < 0.6:
        a = p
    else:
        a = rng.randint(0, max(0, min(n.size - 1, 1 << 12))) if n.size > 4096 and rng.random() < 0.3 else p + rng.randint(-8, 40)
    lv = n.leaves()
    if rng.random() < 0.02 and lv and not any(x.bus for x in lv) and n.size > 4096:
        op["len"] = ln = rng.randint(4090, 9000)          # more than a page
        for k in ("h", "ws", "bo", "ovf"):
            op.pop(k, None)
    if rng.random() < 0.85:
        a = max(0, min(a, n.size - ln))
        if rng.random() < 0.6:
            # prefer something that resolves
            for _ in range(6):
                if n.resolve(a, ln)[1]:
                    break
                a = max(0, min(rng.choice(sorted(n.points())) + rng.randint(-4, 20), n.size - ln))
    op["a"] = a
    if rng.random() < 0.02 and not any(x.bus or x.per for x in n.leaves()) and n.resolve(a, 1)[1] and "h" not in op:
        ln = 0
    op["len"] = ln
    if rng.random() < 0.01 and op["rw"] == "r" and "h" not in op:
        op["len"] = -rng.randint(1, 9)
    return op


def gen_direct(rng, t, op, budget, hexes=False):
    st = rng.choice([s for s in t.stores.values() if s.t != "per"] or [None])
    if st is None:
        return None
    ln = gen_len(rng, budget)
    how = pick(rng, [("mem", 6), ("slice", 3), ("item", 2), ("hex", 15 if hexes else 1)] + ([("sp", 2), ("clear", 0.3)] if st.t == "sparse" else [("bytes", 0.5)]))
    if rng.random() < (0.1 if how == "hex" else 0.01) and how in ("hex", "mem", "slice"):
        ln = min(rng.choice([rng.randint(3000, 13000)] * 4 + [rng.randint(13000, 70000)]), st.size)
    a = rng.choice([0, st.size - ln, st.size - ln + rng.randint(0, 4), rng.randint(0, min(st.size, 5000)), 4096 - rng.randint(0, 10), rng.randint(0, 80)])
    if rng.random() < 0.03:
        a = -rng.randint(1, 9)
    if rng.random() < 0.8:
        a = max(0, min(a, st.size - ln))
    op.update(op="dir", s=st.id, v=rng.getrandbits(8), how=how, a=a, len=ln, rw=rng.choice("rw"), ds=rng.getrandbits(20))
    if how == "item":
        op["len"] = 1
    if how == "bytes":
        op.update(a=0, len=st.size)
    if how in ("hex", "bytes"):
        op["rw"] = "r"
    if how == "clear":
        op["rw"] = "w"
    if how == "mem" and rng.random() < 0.5:
        h = rng.choice(sorted(SHORT))
        ws = SHORT[h] or rng.choice([1, 2, 3, 4, 8, 12, 16])
        op.update(h=h, ws=ws, bo=rng.choice(["little", "big"]), len=ws if not h.endswith("s") else ws * max(1, ln // ws))
        if op["rw"] == "w" and rng.random() < 0.1:
            op["ovf"] = 1
    if how in ("slice", "hex") and (op["a"] < 0 or op["a"] + op["len"] > st.size):
        op["a"] = max(0, st.size - op["len"])
        op["len"] = min(op["len"], st.size)
    if how == "item" and op["a"] < 0:
        op["a"] = 0
    if how == "item":
        if rng.random() < 0.05:
            op["a"] = st.size + rng.randint(0, 4)
        elif op["rw"] == "w" and rng.random() < 0.06:
            op["ovf"] = 1
    if how == "slice" and rng.random() < 0.4:
        op["sl"] = pick(rng, [("neg", 3), ("open", 3), ("clip", 2), (rng.randint(2, 5), 2), (-1, 0.5)])
        if op["sl"] in ("open", "clip") and rng.random() < 0.6:
            op["a"] = rng.choice([0, st.size - op["len"]])
    if how in ("mem", "sp", "slice") and "h" not in op and "sl" not in op and 0 <= op["a"] < st.size and rng.random() < 0.03:
        op["len"] = 0
    if how == "sp" and op["rw"] == "r" and rng.random() < 0.04:
        op["len"] = -rng.randint(1, 9)
    if how == "hex":
        if rng.random() < 0.05:
            op["len"] = 0
        op["rows"] = rng.choice([16] * 5 + [1, 4, 7, 8, 32])
    return op


def normalise(scn):
    t = Tree(scn)
    tot = ops = d = 0
    used_own = False
    for c in scn["clients"]:
        dd = 0
        for op in c:
            ops += 1
            tot += (op.get("len", 0) if op["op"] != "find" else 0) + 8
            dd += op.get("d", 0) + 2
            if op["op"] in ("acc", "mkwin", "find"):
                assert op["n"] in t.n
            if op["op"] == "find":
                assert t.n[op["n"]].k in ("space", "pool")
                continue
            if op["op"] == "acc":
                n = t.n[op["n"]]
                if op["len"] == 0:
                    assert not any(x.bus or x.per for x in n.leaves()) and n.resolve(op["a"], 1)[1]
                if "h" in op:
                    assert op["len"] % op["ws"] == 0 and op["len"] and (op["h"].endswith("s") or op["len"] == op["ws"])
            if op["op"] == "dir":
                st = t.stores[op["s"]]
                assert st.t != "per"
                if op["how"] in ("slice", "hex"):
                    assert 0 <= op["a"] and op["a"] + op["len"] <= st.size
                if op["how"] in ("hex", "bytes"):
                    assert op["rw"] == "r" and (op["len"] > 0 or op["how"] == "hex") and op.get("rows", 16) > 0
                if op["how"] == "bytes":
                    assert op["a"] == 0 and op["len"] == st.size
                if op["how"] == "clear":
                    assert st.t == "sparse" and op["rw"] == "w"
                if op["how"] == "item":
                    assert op["a"] >= 0 and op["len"] == 1
                if "h" in op:
                    assert op["len"] % op["ws"] == 0 and op["len"] and (op["h"].endswith("s") or op["len"] == op["ws"])
            if op["op"] in ("alloc", "badfree"):
                a = t.allocs[op["p"]]
                if op["op"] == "alloc" and op["size"] > 0:
                    assert op["size"] >= min(a.size, a.size >> 8)
        d = max(d, dd)
    scn["lp"] = {k: v for k, v in scn["lp"].items() if k.split(".")[0] in t.n}
    lat = 6 if any(x.get("lat_p") for x in scn["nodes"]) else 1
    scn["max_cycles"] = scn["stall_until"] + d * 2 + tot * 8 * lat + ops * 40 * lat + 300
    return scn


# ---------------------------------------------------------------- execution
class Later:
    def __init__(self, co):
        self.co = co

    def __await__(self):
        return self.co.__await__()


class Per:
    """The object behind a PeripheralRegion."""

    def __init__(self, run, node, d):
        self.run = run
        self.d = d
        self.mem = {}
        self.rng = run.ctx.rng("per:" + d["id"])

    def _lat(self):
        ctx = self.run.ctx
        if ctx.cycle < ctx.scn["stall_until"] and self.d.get("lat_p", 0) > self.rng.random():
            ctx.count("fault.target_latency")
            return self.rng.randint(1, 5)
        return 0

    def _fail(self):
        ctx = self.run.ctx
        if ctx.cycle < ctx.scn["stall_until"] and self.d.get("fail_p", 0) > self.rng.random():
            ctx.count("fault.target_error")
            return {"type": TargetTypeError, "value": ValueError}.get(self.d.get("exc"), TargetError)("injected")
        return None

    def _do(self, kind, a, arg, e, err):
        if e is not None:
            e[3] = err is not None
        if err is not None:
            raise err
        if kind == "r":
            return bytes(self.mem.get(a + i, init_byte(a + i)) for i in range(arg))
        for i, b in enumerate(arg):
            self.mem[a + i] = b

    def _log(self, kind, a, arg, kw):
        self.run.ctx.count("ops.peripheral_calls")
        log = kw.get("tag")
        if log is None:
            return None
        e = [kind, a, arg, None]
        log.append(e)
        return e

    async def _slow(self, kind, a, arg, kw):
        e = self._log(kind, a, arg, kw)
        n = self._lat()
        if n:
            await self.run.ctx.cycles(n)
        return self._do(kind, a, arg, e, self._fail())

    def read(self, address, length, **kw):
        if self.d.get("sync"):
            return self._do("r", address, length, self._log("r", address, length, kw), self._fail())
        return self._wrap(self._slow("r", address, length, kw))

    def _wrap(self, co):
        """A coroutine, a running task or another awaitable."""
        aw = self.d.get("aw", 0)
        return co if not aw else cocotb.start_soon(co) if aw == 1 else Later(co)

    def write(self, address, data, **kw):
        data = bytes(data)
        if self.d.get("sync"):
            return self._do("w", address, data, self._log("w", address, data, kw), self._fail())
        return self._wrap(self._slow("w", address, data, kw))


class Hook:
    """Builds the library objects along with the model."""

    def __init__(self, run):
        self.run = run
        self.ctx = run.ctx

    def store(self, st):
        init = st.init()
        st.own = None
        dflt = zlib.crc32(st.id.encode()) % 3
        if st.t == "sparse" and st.size == 1 << 64 and dflt:
            st.own = SparseMemoryRegion() if dflt == 1 else None
            st.obj = (st.own if st.own is not None else Memory()).mem
        elif st.t == "sparse" and dflt == 1:
            st.own = SparseMemoryRegion(st.size)
            st.obj = st.own.mem
        elif st.t == "sparse" and dflt == 2:
            st.obj = Memory(st.size).mem
        elif st.t == "mmap" and dflt == 1:
            st.own = MemoryRegion() if st.size == 4096 else MemoryRegion(st.size)
            st.obj = st.own.mem
            if init:
                st.obj[:] = bytes(init(a) for a in range(st.size))
        elif st.t == "sparse":
            st.obj = SparseMemory(st.size)
        elif st.t == "bytearray":
            st.obj = bytearray(init(a) for a in range(st.size)) if init else bytearray(st.size)
        elif st.t == "mmap":
            st.obj = mmap.mmap(-1, st.size)
            if init:
                st.obj[:] = bytes(init(a) for a in range(st.size))
        st.hist = ByteHist(init)
        st.apis = []
        if st.obj is not None:
            m = Memory(mem=st.obj)
            st.apis.append(m)
            self.ctx.count("real.Memory")

    def map(self, sp, node, d, over):
        kw = {}
        if d.get("size") is not None:
            kw["size"] = d["size"]
        if "off" in d:
            kw["offset"] = d["off"]
        try:
            sp.obj.register_region(node.obj, d["base"], **kw)
        except Exception:
            self.ctx.count("ops.overlap_refused")
            if not over:
                self.ctx.fail("map-refused", ["C15"], "registering %s at 0x%x in %s was refused although the range is free" % (node.id, d["base"], sp.id))
            return
        if not over and node.obj.parent is not sp.obj:
            self.ctx.fail("parent", ["C15"], "the parent of %s, registered in %s, is %r" % (node.id, sp.id, node.obj.parent))
        if over:
            self.ctx.fail("map-overlap", ["C15"], "registering %s at 0x%x in %s was accepted although it overlaps another region" % (node.id, d["base"], sp.id))

    def alloc(self, a, d):
        a.obj = BuddyAllocator(d["size"], d["min"]) if "min" in d else BuddyAllocator(d["size"])
        a.kind = "alloc"
        self.ctx.count("real.BuddyAllocator")

    def node(self, n, d):
        k = n.k
        ctx = self.ctx
        if k == "reg":
            if n.store.own is not None and n.size == n.store.size:
                n.obj, n.store.own = n.store.own, None
            elif n.store.t == "sparse":
                n.obj = SparseMemoryRegion(mem=n.store.obj) if n.size == 1 << 64 else SparseMemoryRegion(n.size, mem=n.store.obj)
            else:
                n.obj = MemoryRegion(mem=n.store.obj) if n.size == 4096 else MemoryRegion(n.size, mem=n.store.obj)
        elif k == "per":
            n.obj = PeripheralRegion(Per(self.run, n, d), n.size)
        elif k == "space":
            n.obj = AddressSpace() if n.size == 1 << 64 else AddressSpace(n.size)
        elif k == "pool":
            sp = n.parent_space
            v = zlib.crc32(n.id.encode())
            a = [d["base"], d["size"]]
            kw = {}
            if v & 1 and a[0] + a[1] == sp.size:
                a[1] = None                    # the rest of the space
            if v & 2 and a[0] == 0:
                a[0] = None
            if v & 4:
                kw["pool_type"] = MyRegionPool
            if v & 8:
                kw["region_type"] = SparseMemoryRegion
            n.al.rt = SparseMemoryRegion if v & 8 else MemoryRegion
            for b, sz in ((-1, d["size"]), (sp.size, 1), (sp.size - d["size"] + 1, d["size"]), (0, sp.size + 1), (0, -1)):
                try:
                    sp.obj.create_pool(b, sz, **kw)
                except Exception:
                    ctx.count("fault.bad_request")
                else:
                    ctx.fail("pool-bad", ["C15", "C16"], "a pool at %d, size %d, was created in a space of size %d" % (b, sz, sp.size))
                    return
            if v & 16:
                n.obj = sp.obj.create_pool(*a, **kw)
            else:
                for x, y in zip(("base", "size"), a):
                    if y is not None:
                        kw[x] = y
                n.obj = sp.obj.create_pool(**kw)
            if type(n.obj) is not (MyRegionPool if v & 4 else Pool):
                ctx.fail("pool-type", ["C16", "C15"], "create_pool returned a %s" % type(n.obj).__name__)
            if n.obj.parent is not sp.obj:
                ctx.fail("parent", ["C15"], "the parent of pool %s is not the space it was created in" % n.id)
            n.al.obj = n.obj.allocator
            n.al.kind = "pool"
            n.al.node = n
        elif k == "win":
            n.obj = n.parent.obj.create_window(d["off"], d["size"]) if d.get("size") else n.parent.obj.create_window(d["off"])
        elif k == "wpool":
            kw = {"size": d["size"]} if d.get("size") else {}
            v = zlib.crc32(n.id.encode()) % 4
            if v & 1:
                kw["window_type"] = MyWindow
            if v & 2:
                kw["window_pool_type"] = MyPool
            if d["off"] or ctx.rng("wpool" + n.id).random() < 0.5:
                kw["offset"] = d["off"]
            n.obj = n.parent.obj.create_window_pool(**kw)
            if type(n.obj) is not (MyPool if v & 2 else WindowPool):
                ctx.fail("pool-type", ["C16", "C15"], "create_window_pool returned a %s" % type(n.obj).__name__)
            n.al.wt = MyWindow if v & 1 else n.parent.al.wt if n.parent.k == "wpool" else Window
            n.al.obj = n.obj.allocator
            n.al.kind = "wpool"
            n.al.node = n
        else:
            self.bus(n, d)
        ctx.count("real." + type(n.obj).__name__)
        if n.obj.size != n.size:
            ctx.fail("size", ["C15"], "%s of size %d reports size %d" % (n.id, n.size, n.obj.size))

    def wires(self, d):
        """All signals exist before the first library object looks for its own."""
        ctx, p, bus, lanes, aw, rst = self.ctx, d["id"], d["bus"], d["lanes"], d["aw"], self.run.rst
        if bus == "apb":
            ApbWires(ctx, {"aw": aw, "lanes": lanes, "opt": ["pprot", "pslverr"], "prefix": p}, rst, True, True)
        elif bus == "axi":
            AxiWires(ctx, {"aw": aw, "lanes": lanes, "idw": 3, "uw": 1, "opt": ["awprot", "arprot", "wstrb", "bresp", "rresp"]}, p, rst, True, True)
        else:
            LiteWires(ctx, {"aw": aw, "lanes": lanes, "opt": ["awprot", "arprot", "wstrb", "bresp", "rresp"]}, p, rst, True, True)

    def bus(self, n, d):
        run, ctx = self.run, self.ctx
        p = d["id"]
        bus, lanes, aw = d["bus"], d["lanes"], d["aw"]
        clk, rkw = ctx.hclk, run.rkw
        tkw = {"target": n.front.obj} if n.k == "front" else {"mem": n.store.obj}
        if bus == "apb":
            s = (ApbSlave if n.k == "front" else ApbRam)(ApbBus.from_prefix(ctx.top, p), clk, **rkw, **tkw)
            m = ApbMaster(ApbBus.from_prefix(ctx.top, p), clk, **rkw)
            run.comps[p + ".m"], run.comps[p + ".s"] = m, s
            n.obj = m
            if n.k == "ram":
                n.store.apis.append(s)
            ctx.count("real." + type(s).__name__)
            return
        if bus == "axi":
            B, RB, WB, M, MR, MW, S = AxiBus, AxiReadBus, AxiWriteBus, AxiMaster, AxiMasterRead, AxiMasterWrite, AxiSlave
            R, RR, RW = AxiRam, AxiRamRead, AxiRamWrite
        else:
            B, RB, WB, M, MR, MW, S = AxiLiteBus, AxiLiteReadBus, AxiLiteWriteBus, AxiLiteMaster, AxiLiteMasterRead, AxiLiteMasterWrite, AxiLiteSlave
            R, RR, RW = AxiLiteRam, AxiLiteRamRead, AxiLiteRamWrite
        if n.k == "front":
            s = S(B.from_prefix(ctx.top, p), clk, **rkw, **tkw)
            si = (s.write_if, s.read_if)
            ctx.count("real." + S.__name__)
        elif d.get("split"):
            si = (RW(WB.from_prefix(ctx.top, p), clk, **rkw, **tkw), RR(RB.from_prefix(ctx.top, p), clk, **rkw, **tkw))
            n.store.apis += list(si)
            ctx.count("real." + RW.__name__)
        else:
            s = R(B.from_prefix(ctx.top, p), clk, **rkw, **tkw)
            si = (s.write_if, s.read_if)
            n.store.apis += [s, s.write_if, s.read_if]
            ctx.count("real." + R.__name__)
        m = M(B.from_prefix(ctx.top, p), clk, **rkw)
        n.obj = m
        for k, o, i in (("m", m, (m.write_if, m.read_if)), ("s", None, si)):
            for c in ("aw", "w", "b"):
                run.comps["%s.%s.%s" % (p, k, c)] = getattr(i[0], c + "_channel")
            for c in ("ar", "r"):
                run.comps["%s.%s.%s" % (p, k, c)] = getattr(i[1], c + "_channel")


def beats_ok(front, a, n, kind):
    """What the bus accesses a front makes for this request do on the target: all of them succeed?"""
    L = front.lanes
    t = front.front
    for w in range(a // L * L, a + n, L):
        if kind == "r":
            if not t.resolve(w, L)[1]:
                return False
        else:
            lo, hi = max(w, a), min(w + L, a + n)
            if not t.resolve(lo, hi - lo)[1]:
                return False
    return True


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.scn = ctx.scn
        self.rst = Rst(ctx, ctx.scn["rst"])
        self.rkw = self.rst.kwargs()
        self.comps = {}
        self.clk = 0
        self.port = 0
        self.version = 0
        self.mode = ctx.scn["mode"]
        self.dprops = {"views": ["C18"], "tree": ["C15"], "pools": ["C15"]}[self.mode]
        self.live = []                    # open accesses, for the state measure
        hook = Hook(self)
        for d in ctx.scn["nodes"]:
            if d["k"] in ("ram", "front"):
                hook.wires(d)
        self.t = Tree(ctx.scn, hook)

    def tick(self):
        self.clk += 1
        return self.clk

    def props(self, node):
        if self.mode == "views" and node.k == "reg":
            return ["C15", "C18"]
        return self.dprops

    # ----- one access through the asynchronous interface
    async def access(self, node, obj, rw, a, n, ds, h=None, ws=1, bo="little", ovf=0, tagok=True, front=None):
        """node: the model; obj: the library object; returns None"""
        ctx = self.ctx
        pr = self.props(node)
        if n < 0:
            try:
                await obj.read(a, n)
            except Exception:
                ctx.count("fault.bad_request")
            else:
                ctx.fail("no-error", pr, "read of %d bytes at 0x%x of %s succeeded" % (n, a, node.id))
            return
        what = "%s of %d bytes at 0x%x of %s (%s)%s" % ("read" if rw == "r" else "write", n, a, node.id, node.k, " by %s" % h if h else "")
        segs, ok = node.resolve(a, n)
        fr = front_of(node)
        inr = node.inr(a, n) if node.k not in ("space", "pool") else None
        t0 = self.tick()
        self.port += 1
        v0 = self.version
        data = data_bytes(ds, n)
        kw = {}
        log = None
        if tagok and not any(x.bus for x in node.leaves()):
            log = kw["tag"] = []
        ents = []
        if rw == "w":
            o = 0
            if fr is not None and not ok and not ovf:
                # each beat stands alone, so the mapped part may be written
                x, fa = node, a
                while x is not fr:
                    fa += x.off
                    x = x.parent
                for i in range(n if inr else 0):
                    for st, sa, sl, leaf in fr.front.resolve(fa + i, 1)[0]:
                        ents.append(st.hist.write(sa, data[i], t0, self.port))
            elif not ovf:
                for st, sa, sl, leaf in segs:
                    for i in range(sl):
                        ents.append(st.hist.write(sa + i, data[o + i], t0, self.port))
                    o += sl
        err = None
        res = None
        self.live.append(1)
        ctx.states.add((node.k, rw, ok, len(segs), len(self.live), h or "", fr is not None))
        if h is None and n >= 0:
            if rw == "r":
                call = lambda: obj.read(a, n, **kw)
            else:
                call = lambda: obj.write(a, bytearray(data) if ds & 1 else data, **kw)
        else:
            kw.update(acc_kw(h, ws, bo, ds))
            pl = h.endswith("s")
            if rw == "r":
                args = (a, n // ws) if pl else (a,)
            else:
                words = [int.from_bytes(data[i:i + ws], bo) for i in range(0, n, ws)]
                if ovf:
                    words[-1] = 1 << (8 * ws)
                args = (a, words if pl else words[0])
            fn = getattr(obj, ("read_" if rw == "r" else "write_") + h)
            call = lambda: fn(*args, **kw)
        try:
            res = await call()
        except Exception as e:
            err = e
        self.live.pop()
        t1 = self.tick()
        ctx.count("ops.accesses")
        injected = log is not None and any(e[3] for e in log)
        # ----- verdict
        bad_resp = False
        if fr is not None and ok:
            fa = a
            x = node
            while x is not fr:
                fa += x.off
                x = x.parent
            ok = beats_ok(fr, fa, n, rw)
        if fr is not None and inr and not ok and not ovf:
            # an error response, not an exception
            for e in ents:
                e.end = t1
                e.maybe = True
            if err is not None:
                ctx.fail("front-raise", pr, "%s raised %r" % (what, err))
            elif hasattr(res, "resp"):
                ctx.count("fault.unmapped_bus_access")
                if res.resp == AxiResp.OKAY:
                    ctx.fail("unmapped-ok", pr, "%s was answered OKAY although part of it is not mapped" % what)
            return
        expect_fail = not ok or ovf
        if expect_fail and self.version != v0:
            for e in ents:
                e.end = t1
                e.maybe = True
            return
        if expect_fail or injected:
            ctx.count("fault.out_of_range" if not injected else "fault.propagated_error")
            for e in ents:
                e.end = t1
                e.maybe = True
            if err is None:
                ctx.fail("no-error", pr, "%s succeeded although %s" % (what, "the peripheral raised an error" if injected else
                                                                         "a value does not fit" if ovf else "part of it is not mapped"))
            elif log is not None and ovf and log:
                ctx.fail("extra-call", pr, "%s failed but reached the peripheral" % what)
            elif log is not None and not ovf and not calls_ok(log, segs, rw, data, False):
                ctx.fail("calls", pr, "%s made the calls %s" % (what, show(log)))
            return
        if err is not None:
            ctx.fail("refused", pr, "%s failed (%s: %s) although it is completely mapped" % (what, type(err).__name__, err))
            return
        for e in ents:
            e.end = t1
        if log is not None and not calls_ok(log, segs, rw, data, True):
            ctx.fail("calls", pr, "%s made the calls %s, expected one per region in ascending order" % (what, show(log)))
            return
        if hasattr(res, "resp") and res.resp != AxiResp.OKAY:
            ctx.fail("resp", pr, "%s was answered %s" % (what, res.resp))
            return
        if rw == "r":
            if h is not None:
                try:
                    ws_ = list(res) if h.endswith("s") else [res]
                    got = b"".join(int(w).to_bytes(ws, bo) for w in ws_)
                except (TypeError, ValueError, OverflowError):
                    ctx.fail("mem-data", pr, "%s returned %r" % (what, res))
                    return
            else:
                got = bytes(getattr(res, "data", res))
            self.check(segs, got, n, t0, t1, pr, what)

    def check(self, segs, got, n, t0, t1, pr, what):
        if len(got) != n:
            self.ctx.fail("mem-data", pr, "%s returned %d bytes" % (what, len(got)))
            return False
        o = 0
        for st, sa, sl, leaf in segs:
            for i in range(sl):
                if not st.hist.ok(sa + i, got[o + i], t0, t1):
                    self.ctx.fail("mem-data", pr, "%s returned %02x for byte %d (0x%x of %s), possible %s" % (
                        what, got[o + i], o + i, sa + i, st.id, [hex(c) for c in st.hist.candidates(sa + i, t0, t1)]))
                    return False
            o += sl
        return True

    # ----- direct access
    def direct(self, op):
        ctx = self.ctx
        st = self.t.stores[op["s"]]
        a, n, rw, how = op["a"], op["len"], op["rw"], op["how"]
        data = data_bytes(op["ds"], max(n, 0))
        t0 = self.tick()
        if how == "clear":
            st.obj.clear()
            t1 = self.tick()
            for x in [x for p in st.hist.pages.values() for x in p]:
                st.hist.write(x, 0, t0, 0).end = t1
            ctx.count("ops.clear")
            return
        inr = 0 <= a and a + n <= st.size and n >= 0
        h = op.get("h")
        views = st.apis + [st.obj]
        err = res = None
        ws, bo = op.get("ws", 1), op.get("bo", "little")
        if how == "hex":
            c = st.apis + [x.obj for x in self.t.n.values() if x.k == "reg" and x.store is st] + ([st.obj] if st.t == "sparse" else [])
            o = (c + [None])[op["v"] % (len(c) + 1)]
            what = "%s hex dump of 0x%x+%d" % (type(o).__name__, a, n)
        elif how == "bytes":
            c = [x.obj for x in self.t.n.values() if x.k == "reg" and x.store is st]
            if not c:
                return
            o = c[op["v"] % len(c)]
            what = "bytes(%s)" % type(o).__name__
        elif how == "mem":
            o = st.apis[op["v"] % len(st.apis)]
            what = "%s.%s_%s(0x%x, %d bytes)" % (type(o).__name__, "read" if rw == "r" else "write", h or "", a, n)
        else:
            o = st.obj
            if how != "sp":
                regs = [x.obj for x in self.t.n.values() if x.k == "reg" and x.store is st]
                c = [o] + regs
                o = c[op["v"] % len(c)]
            what = "%s %s %s 0x%x+%d" % (type(o).__name__, how, rw, a, n)
        pr = ["C22"] if how == "hex" else ["C18"] + (["C15"] if isinstance(o, Region) else [])
        try:
            if how == "mem" and h:
                kw = acc_kw(h, ws, bo, op["ds"])
                pl = h.endswith("s")
                if rw == "r":
                    res = getattr(o, "read_" + h)(*((a, n // ws) if pl else (a,)), **kw)
                    res = b"".join(int(w).to_bytes(ws, bo) for w in (res if pl else [res]))
                else:
                    words = [int.from_bytes(data[i:i + ws], bo) for i in range(0, n, ws)]
                    if op.get("ovf"):
                        words[-1] = 1 << (8 * ws)
                    getattr(o, "write_" + h)(a, words if pl else words[0], **kw)
            elif how == "bytes":
                res = bytes(o)
            elif how == "hex":
                if o is None:
                    # the plain functions on a copy of part of the memory
                    lo = max(0, a - op["ds"] % 40)
                    hi = min(st.size, a + n + op["ds"] // 64 % 40)
                    o = util_dump(bytes(st.obj[lo:hi]), a - lo, lo, op["rows"] if n else 16, hi == a + n)
                    res = undump(o, a, n, op["ds"], op["rows"] if n else 16)
                else:
                    res = undump(o, a, n, op["ds"])
                if len(res) != n:
                    raise ValueError("%d bytes are shown" % len(res))
            elif how in ("mem", "sp"):
                if rw == "r":
                    res = bytes(o.read(a, n))
                else:
                    o.write(a, data)
            elif how == "slice":
                sl = op.get("sl")
                key = slice(a, a + n)
                if sl == "neg" and n:
                    key = slice(a - st.size, a + n - st.size or None)
                elif sl == "open":
                    key = slice(a or None, None if a + n == st.size else a + n)
                elif sl == "clip" and a + n == st.size:
                    key = slice(a, a + n + 1 + op["v"])
                elif isinstance(sl, int):
                    key = slice(a, a + n, sl) if sl > 0 else slice(a + n - 1, a - 1 if a else None, sl)
                    idx = list(range(a, a + n, sl) if sl > 0 else range(a + n - 1, a - 1, sl))
                    data = data[:len(idx)]
                    what += " with a step of %d" % sl
                if rw == "r":
                    res = bytes(o[key])
                elif op["ds"] % 16 == 0 and st.t != "bytearray":
                    inr = False
                    what += " with too much data"
                    o[key] = data + b"x"
                else:
                    o[key] = data
            else:
                if rw == "r":
                    res = bytes([o[a]])
                else:
                    o[a] = data[0] + 256 if op.get("ovf") else data[0]
        except Exception as e:
            err = e
        t1 = self.tick()
        ctx.count("ops.direct")
        if not inr or op.get("ovf"):
            ctx.count("fault.out_of_range")
            if err is None:
                ctx.fail("no-error", pr, "%s succeeded although %s" % (what, "a value does not fit" if inr else "it is out of range"))
            return
        if isinstance(op.get("sl"), int):
            # only some memories support it
            ctx.count("ops.strided")
            if err is not None:
                return
            if rw == "w":
                for i, x in zip(idx, data):
                    st.hist.write(i, x, t0, 0).end = t1
            else:
                self.check([(st, i, 1, None) for i in idx], res, len(idx), t0, t1, pr, what)
            return
        if err is not None:
            ctx.fail("refused", pr, "%s failed (%s: %s)" % (what, type(err).__name__, err))
            return
        if rw == "w":
            for i in range(n):
                st.hist.write(a + i, data[i], t0, 0).end = t1
        else:
            self.check([(st, a, n, None)], res, n, t0, t1, pr, what)

    # ----- allocation
    def alloc(self, op, mine):
        ctx = self.ctx
        m = self.t.allocs[op["p"]]
        s = op["size"]
        base = node = obj = err = None
        try:
            if m.kind == "alloc":
                base = m.obj.alloc(s)
            elif m.kind == "pool":
                rt = [None, MemoryRegion, SparseMemoryRegion][op["rt"]]
                if (rt or m.rt) is not SparseMemoryRegion and s > 1 << 20:
                    rt = SparseMemoryRegion
                obj = m.node.obj.alloc_region(s, rt) if rt else m.node.obj.alloc_region(s)
                base = obj.get_absolute_address(0) - m.node.obj.get_absolute_address(0)
                if type(obj) is not (rt or m.rt):
                    ctx.fail("pool-type", ["C16"], "alloc_region returned a %s" % type(obj).__name__)
            else:
                wt = MyWindow if op["rt"] == 1 else None
                obj = m.node.obj.alloc_window(s, wt) if wt else m.node.obj.alloc_window(s)
                base = obj.offset
                if type(obj) is not (wt or m.wt):
                    ctx.fail("pool-type", ["C16", "C15"], "alloc_window returned a %s" % type(obj).__name__)
        except Exception as e:
            err = e
        ctx.count("ops.alloc")
        what = "allocation of %d from %s (size %d%s)" % (s, op["p"], m.size, ", minimum %d" % m.min if m.min > 1 else "")
        if s < 1 or s > m.size:
            ctx.count("fault.bad_request")
            if err is None:
                ctx.fail("alloc-bad", ["C16"], "%s succeeded" % what)
            return
        fit = m.fits(s)
        if err is not None:
            ctx.count("fault.exhausted")
            if fit is not None:
                ctx.fail("alloc-refused", ["C16"], "%s failed (%s) although 0x%x is free; allocated: %s" % (what, err, fit, self.blocks(m)))
            return
        r = m.rnd(s)
        if not isinstance(base, int) or base < 0 or base + s > m.size:
            ctx.fail("alloc-outside", ["C16"], "%s returned %r" % (what, base))
        elif base % r:
            ctx.fail("alloc-align", ["C16"], "%s returned 0x%x, not aligned to %d" % (what, base, r))
        elif any(base < b + v[0] and b < base + r for b, v in m.live.items()):
            ctx.fail("alloc-overlap", ["C16"], "%s returned 0x%x, which overlaps a live block: %s" % (what, base, self.blocks(m)))
        elif obj is not None and obj.size != s:
            ctx.fail("alloc-size", ["C16"], "%s has size %d" % (what, obj.size))
        if ctx.violations:
            return
        m.live[base] = (r, s)
        blk = {"m": m, "base": base, "size": s, "live": True, "node": None, "obj": obj}
        if m.kind == "pool":
            self.version += 1
            st = Store("st%d" % self.port, "zero", s, 0)
            self.port += 1
            st.hist = ByteHist(None)
            node = N("blk@0x%x" % base, "reg", s)
            node.store = st
            st.robj = obj
            self.t.stores[st.id] = st
            m.node.maps.append((base, s, 0, node))
            node.base = None if m.node.base is None else m.node.base + base
        elif m.kind == "wpool":
            node = N("blk@0x%x" % base, "win", s)
            node.parent = m.node
            node.off = base
            node.base = None if m.node.base is None else m.node.base + base
        if node is not None:
            node.root = m.node.root
            node.obj = obj
            blk["node"] = node
            self.abs(node)
        ctx.states.add(("alloc", m.kind, len(m.live), s, fit == base))
        mine.append(blk)

    def blocks(self, m):
        return ", ".join("0x%x+%d" % (b, v[0]) for b, v in sorted(m.live.items()))

    def abs(self, node):
        """Absolute addresses lead to the same bytes from the outermost space."""
        ctx = self.ctx
        root = node.root
        if root is None:
            return
        for x in (-1, node.size):
            try:
                got = node.obj.get_absolute_address(x)
            except Exception:
                got = None
            if got is not None:
                ctx.fail("absolute", ["C15"], "absolute address of offset %d of %s, which has %d bytes, is %r" % (x, node.id, node.size, got))
                return
        exp = None if node.base is None else node.base + node.size - 1
        try:
            got = node.obj.get_absolute_address(node.size - 1)
        except Exception as e:
            got = repr(e)
        if exp is None:
            # unknown, or else right
            if got is not None and (not isinstance(got, int) or root.resolve(got, 1) != node.resolve(node.size - 1, 1)):
                ctx.fail("absolute", ["C15"], "absolute address of offset 0x%x of %s is %r, which is something else in %s" % (node.size - 1, node.id, got, root.id))
            return
        if got != exp and root.k in ("space", "pool", "reg", "win", "ram") and root.resolve(exp, 1) == node.resolve(node.size - 1, 1):
            ctx.fail("absolute", ["C15"], "absolute address of offset 0x%x of %s is %r, expected 0x%x" % (node.size - 1, node.id, got, exp))

    def free(self, blk):
        ctx = self.ctx
        m = blk["m"]
        try:
            m.obj.free(blk["base"])
        except Exception as e:
            ctx.fail("free-refused", ["C16"], "freeing block 0x%x failed: %r" % (blk["base"], e))
            return
        del m.live[blk["base"]]
        blk["live"] = False
        ctx.count("ops.free")

    def badfree(self, op):
        m = self.t.allocs[op["p"]]
        if op["a"] in m.live:
            return
        try:
            m.obj.free(op["a"])
        except Exception:
            self.ctx.count("fault.bad_free")
            return
        self.ctx.fail("free-bad", ["C16"], "freeing 0x%x, which is not allocated, was accepted" % op["a"])

    def find(self, op):
        """Looking up what is mapped where."""
        ctx = self.ctx
        n = self.t.n[op["n"]]
        a, ln = op["a"], op["len"]
        ok = 0 <= a < n.size and (ln is None or ln >= 0)
        what = "find_regions(0x%x%s) in %s" % (a, "" if ln is None else ", %d" % ln, n.id)
        try:
            got = n.obj.find_regions(a) if ln is None else n.obj.find_regions(a, ln)
        except Exception as e:
            if ok:
                ctx.fail("refused", ["C15"], "%s failed: %r" % (what, e))
            return
        if not ok:
            ctx.fail("no-error", ["C15"], "%s succeeded" % what)
            return
        end = a + max(1 if ln is None else ln, 1)
        exp = sorted((b, s, m.obj.size, i) for i, (b, s, o, m) in enumerate(n.maps) if a < b + s and b < end)
        if [(g[0], g[1]) for g in got] != [e[:2] for e in exp] or any(g[3] is not n.maps[e[3]][3].obj for g, e in zip(got, exp)):
            ctx.fail("find", ["C15"], "%s returned %s, expected %s" % (what, [(g[0], g[1]) for g in got], [e[:2] for e in exp]))
        ctx.count("ops.find_regions")

    async def own(self, op, mine):
        c = [b for b in mine if b["live"] and b["node"] is not None]
        if not c:
            return
        b = c[op["i"] % len(c)]
        n = min(op["len"], b["size"])
        a = int(op["f"] * (b["size"] - n))
        if op["via"] == 2 and b["node"].k == "reg":
            # the same bytes through the pool
            await self.access(b["m"].node, b["m"].node.obj, op["rw"], b["base"] + a, n, op["ds"])
        else:
            await self.access(b["node"], b["obj"], op["rw"], a, n, op["ds"])

    async def mkwin(self, op):
        ctx = self.ctx
        n = self.t.n[op["n"]]
        off, sz = op["off"], op["size"]
        pool = op.get("t", 0) >= 2
        size = n.size - off if sz is None or (sz <= 0 and not pool) else sz
        ok = 0 <= off < n.size and off + size <= n.size and size > 0
        wt = MyWindow if op.get("t", 0) & 1 else None
        if pool and size == 0:
            return
        try:
            kw = {"window_type": wt} if wt else {}
            if pool:
                w = n.obj.create_window_pool(off, sz, **kw) if sz is not None else n.obj.create_window_pool(off, **kw)
            else:
                w = n.obj.create_window(off, sz, **kw) if sz is not None else n.obj.create_window(off, **kw)
        except Exception as e:
            if ok:
                ctx.fail("window-refused", ["C15"], "window at 0x%x, size %r, of %s (size %d) was refused: %r" % (off, sz, n.id, n.size, e))
            return
        ctx.count("ops.windows")
        if not ok:
            ctx.fail("window-bad", ["C15"], "window at 0x%x, size %r, of %s (size %d) was accepted" % (off, sz, n.id, n.size))
            return
        exp = WindowPool if pool else wt or (n.al.wt if n.k == "wpool" else Window)
        if type(w) is not exp:
            ctx.fail("pool-type", ["C15", "C16"], "a new %s of %s is a %s, expected %s" % ("window pool" if pool else "window", n.id, type(w).__name__, exp.__name__))
            return
        for a in (-1, 0, size - 1, size):
            try:
                got = w.get_parent_address(a)
            except Exception:
                got = None
            if got != (off + a if 0 <= a < size else None):
                ctx.fail("absolute", ["C15"], "parent address of 0x%x in a window at 0x%x, size %d, is %r" % (a, off, size, got))
                return
        if w.size != size or w.offset != off or w.parent is not n.obj or (size < 1 << 63 and len(w) != size):
            ctx.fail("size", ["C15"], "window at 0x%x of %s has size %d, expected %d" % (off, n.id, w.size, size))
            return
        node = N("window of " + n.id, "win", size)
        node.parent = n
        node.off = off
        node.base = None if n.base is None else n.base + off
        node.root = n.root or n
        node.obj = w
        self.abs(node)
        ln = min(op["len"], size)
        r = ctx.rng("mk%d" % op["ds"])
        for rw in "wr":
            a = r.choice([0, size - ln, size - ln + 1, r.randint(0, size - ln)])
            await self.access(node, w, rw, a, ln, op["ds"])


class MyWindow(Window):
    pass


class MyPool(WindowPool):
    pass


class MyRegionPool(Pool):
    pass


def acc_kw(h, ws, bo, ds):
    """Keyword arguments of a word accessor; defaults (little endian, two bytes) may be left out."""
    kw = {}
    if h != "byte" and not (bo == "little" and ds & 2):
        kw["byteorder"] = bo
    if SHORT[h] is None and not (ws == 2 and ds & 4):
        kw["ws"] = ws
    return kw


class util_dump:
    """The functions of cocotbext.axi.utils, called like the methods of a memory."""

    def __init__(self, data, start, base, rows, end):
        self.data, self.start, self.end = data, start, end
        self.kw = {"offset": base}
        if rows != 16:
            self.kw["row_size"] = rows

    def call(self, f, a, n, kw):
        if n == 0:
            return f(b"", **dict(kw, **self.kw))
        if self.end and a & 1:
            return f(self.data, self.start, **dict(kw, **self.kw))         # up to the end
        return f(self.data, self.start, n, **dict(kw, **self.kw))

    def hexdump(self, a, n, **kw):
        return self.call(utils.hexdump, a, n, kw)

    def hexdump_lines(self, a, n, **kw):
        return self.call(utils.hexdump_lines, a, n, kw)

    def hexdump_str(self, a, n, **kw):
        return self.call(utils.hexdump_str, a, n, kw)


def undump(o, a, n, ds, rows=16):
    """The bytes a hex dump shows."""
    pre = ["", "> ", "p: "][ds % 3]
    kw = {"prefix": pre} if pre else {}
    how = ds // 3 % 3
    if how == 0:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            o.hexdump(a, n, **kw)
        text = out.getvalue()
        if text and not text.endswith("\n"):
            raise ValueError("last line is not ended")
        lines = text.split("\n")[:-1]
    elif how == 1:
        lines = o.hexdump_lines(a, n, **kw)
    else:
        text = o.hexdump_str(a, n, **kw)
        lines = text.split("\n") if text else []
    res = bytearray()
    for i, ln in enumerate(lines):
        if not ln.startswith(pre):
            raise ValueError("no prefix in line %r" % ln)
        addr, rest = ln[len(pre):].split(": ", 1)
        if int(addr, 16) != a + len(res) or len(addr) < 8:
            raise ValueError("line %r is not for address 0x%x" % (ln, a + len(res)))
        row = bytes.fromhex(rest[:rows * 3])
        if len(row) != min(rows, n - len(res)):
            raise ValueError("line %r shows %d bytes" % (ln, len(row)))
        if rest[:rows * 3] != "".join("%02x " % b for b in row).ljust(rows * 3):
            raise ValueError("hex column of line %r" % ln)
        if rest[rows * 3:] != " " + "".join(chr(b) if 32 < b < 127 else "." for b in row):
            raise ValueError("text column of line %r" % ln)
        res += row
    return bytes(res)


def front_of(node):
    while node.k in ("win", "wpool"):
        node = node.parent
    return node if node.k == "front" else None


def calls_ok(log, segs, rw, data, full):
    exp = []
    o = 0
    for st, a, n, leaf in segs:
        if leaf.k == "per":
            exp.append((rw, a, n if rw == "r" else data[o:o + n]))
        o += n
    got = [(k, a, x) for k, a, x, f in log]
    return got == exp if full else got == exp[:len(got)]


def show(log):
    return ", ".join("%s(0x%x, %s)%s" % ("read" if k == "r" else "write", a, x if k == "r" else len(x), " failed" if f else "") for k, a, x, f in log) or "none"


async def build(ctx):
    scn = ctx.scn
    run = Run(ctx)
    if ctx.violations:
        return
    for n in list(run.t.n.values()):
        if n.k in ("win", "wpool", "pool"):
            run.abs(n)
    mines = []
    tasks = [cocotb.start_soon(pauses(ctx, scn, run.comps, GenWatch(ctx)))]
    done = [0]

    async def client(ops):
        mine = []
        mines.append(mine)
        for op in ops:
            await ctx.delay(op)
            k = op["op"]
            if k == "acc":
                n = run.t.n[op["n"]]
                await run.access(n, n.obj, op["rw"], op["a"], op["len"], op["ds"], op.get("h"), op.get("ws", 1), op.get("bo", "little"), op.get("ovf", 0))
            elif k == "dir":
                run.direct(op)
            elif k == "alloc":
                run.alloc(op, mine)
                if mine and op["own"] and not ctx.violations:
                    b = mine[-1]
                    if b["node"] is not None and b["size"] <= 64:
                        await run.access(b["node"], b["obj"], "w", 0, b["size"], op["own"] + b["base"])
            elif k == "free":
                c = [b for b in mine if b["live"] and b["m"].kind != "pool"]
                if c:
                    run.free(c[op["i"] % len(c)])
            elif k == "badfree":
                run.badfree(op)
            elif k == "find":
                run.find(op)
            elif k == "own":
                await run.own(op, mine)
            else:
                await run.mkwin(op)
            ctx.last_progress = ctx.cycle
        done[0] += 1
    ctasks = [cocotb.start_soon(client(ops)) for ops in scn["clients"]]

    def timeout():
        ctx.fail("stuck", ["*"], "not finished after %d cycles: %d of %d clients done" % (ctx.cycle, done[0], len(ctasks)))
    ctx.timeout_fn = timeout
    await ctx.cycles(1)
    for t in tasks + ctasks:
        await t
    await ctx.cycles(2)
    # ----- everything is quiet: each byte has its last value, seen from every view
    t = run.tick()
    for st in run.t.stores.values():
        if st.t == "per":
            continue
        if st.t == "zero":
            read = (lambda a, n, m=st.robj.mem: bytes(m[a:a + n]))
        else:
            read = (lambda a, n, o=st.obj: bytes(o[a:a + n]))
            size = st.obj.size if st.t == "sparse" else len(st.obj)
            if size != st.size:
                ctx.fail("mem-size", ["C18"], "memory %s of %d bytes now has %d" % (st.id, st.size, size))
                return
        pages = {0, (st.size - 1) >> 12}
        for p in st.hist.pages:
            pages.update((p - 1, p, p + 1))
        if st.size <= 1 << 14:
            pages = set(range((st.size + 4095) >> 12))
        for p in sorted(pages):
            b = p << 12
            if not 0 <= b < st.size:
                continue
            d = read(b, min(4096, st.size - b))
            bad = st.hist.check_page(b, d, t)
            if bad is not None:
                ctx.fail("mem-final", run.dprops, "byte 0x%x of %s is %02x at the end, possible %s" % (
                    bad, st.id, d[bad - b], [hex(c) for c in st.hist.candidates(bad, t, t)]))
                return
    # ----- all freed: the full capacity is there again
    r = ctx.rng("end")
    for blks in [[b for mine in mines for b in mine if b["live"] and b["m"].kind != "pool"]]:
        r.shuffle(blks)
        for b in blks:
            run.free(b)
    for pid, m in sorted(run.t.allocs.items()):
        if m.kind == "pool" or ctx.violations:
            continue
        run.alloc({"p": pid, "size": m.size, "rt": 0}, [])
        if ctx.violations:
            return
        m.obj.free(0)
        m.live.clear()
        if m.size <= 64 and r.random() < 0.5:
            one = []
            for _ in range(len([x for x in range(0, m.size, m.rnd(1))])):
                run.alloc({"p": pid, "size": 1, "rt": 0}, one)
                if ctx.violations:
                    return
            if len(one) != len(range(0, m.size, m.rnd(1))):
                ctx.fail("capacity", ["C16"], "only %d blocks of one unit fit in %s" % (len(one), pid))
                return
    ctx.count("ops.final_checks")
