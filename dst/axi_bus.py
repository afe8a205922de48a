"""AXI: wires, native manager / subordinate, and the reference models for both sides."""
from collections import deque

from .hw import ChanMon, NatSource, NatSink
from .memmodel import ByteHist, TargetModel

MANDATORY = {"aw": ["awid", "awaddr", "awlen", "awsize", "awburst"], "w": ["wdata", "wlast"], "b": ["bid"],
             "ar": ["arid", "araddr", "arlen", "arsize", "arburst"], "r": ["rid", "rdata", "rlast"]}
OPTIONAL = {"aw": ["awlock", "awcache", "awprot", "awqos", "awregion", "awuser"], "w": ["wstrb", "wuser"], "b": ["bresp", "buser"],
            "ar": ["arlock", "arcache", "arprot", "arqos", "arregion", "aruser"], "r": ["rresp", "ruser"]}
WIDTH = {"len": 8, "size": 3, "burst": 2, "lock": 1, "cache": 4, "prot": 3, "qos": 4, "region": 4, "last": 1, "resp": 2}
INCR, FIXED, WRAP = 1, 0, 2


def sig_width(cfg, name):
    for k, w in WIDTH.items():
        if name.endswith(k):
            return w
    if name.endswith("id"):
        return cfg["idw"]
    if name.endswith("addr"):
        return cfg["aw"]
    if name.endswith("data"):
        return cfg["lanes"] * 8
    if name == "wstrb":
        return cfg["lanes"]
    if name.endswith("user"):
        return cfg["uw"]
    raise KeyError(name)


class AxiWires:
    def __init__(self, ctx, cfg, prefix, rst, lib_m, lib_s, chans=("aw", "w", "b", "ar", "r")):
        self.prefix = prefix
        self.cfg = cfg
        self.sigs = {}
        self.chan = {}
        self.mon = {}
        pre = prefix + "_" if prefix else ""
        for c in chans:
            pay = {}
            for n in MANDATORY[c] + [o for o in OPTIONAL[c] if o in cfg["opt"]]:
                pay[n] = ctx.sig(pre + n, sig_width(cfg, n))
            v = ctx.sig(pre + c + "valid", 1)
            r = ctx.sig(pre + c + "ready", 1)
            self.chan[c] = (v, r, pay)
            fwd = c in ("aw", "w", "ar")
            self.mon[c] = ChanMon(ctx, c.upper(), v, r, pay, rst, lib_src=lib_m if fwd else lib_s, lib_snk=lib_s if fwd else lib_m,
                                  reset_props=("C11",))


class Burst:
    __slots__ = ("op", "id", "L", "got", "addr", "n", "beats", "writes", "wdone", "ar_t", "calls", "ready", "d", "failed")


class Beat:
    __slots__ = ("failed", "calls", "todo", "res")

    def __init__(self):
        self.failed = False
        self.calls = 0
        self.todo = 0
        self.res = None


def beat_addrs(addr, L, size, burst):
    nb = 1 << size
    al = addr & ~(nb - 1)
    if burst == FIXED:
        return [addr] * L
    if burst == WRAP:
        tot = nb * L
        lo = (addr // tot) * tot
        return [lo + (al - lo + i * nb) % tot for i in range(L)]
    return [addr] + [al + i * nb for i in range(1, L)]


class MasterTracker:
    """Reference for the manager: what must appear on the bus and what each operation must return."""

    def __init__(self, ctx, cfg, wires):
        self.ctx = ctx
        self.cfg = cfg
        self.lanes = cfg["lanes"]
        self.maxsize = (self.lanes - 1).bit_length()
        self.q = {"R": deque(), "W": deque()}
        self.wq = deque()
        self.ids = {"R": {}, "W": {}}
        self.same = {}
        self.just = []
        self.maxb = max(1, min(256, cfg["mbl"]))
        self.seen_t = -1
        m = wires.mon
        if "aw" in m:
            m["aw"].cb.append(lambda d: self.on_a("W", "aw", d))
            m["w"].cb.append(self.on_w)
            m["b"].cb.append(self.on_b)
        if "ar" in m:
            m["ar"].cb.append(lambda d: self.on_a("R", "ar", d))
            m["r"].cb.append(self.on_r)
        ctx.sim.settle_hooks.append(self.settle)

    # ---- client interface
    def accept(self, op):
        kw = op.kw
        size = kw.get("size")
        op.size = self.maxsize if size is None or size < 0 else size
        op.nb = 1 << op.size
        op.al = op.addr & ~(op.nb - 1)
        op.burst = int(kw.get("burst", INCR))
        op.total = (op.length + op.addr - op.al + op.nb - 1) // op.nb if op.length else 0
        op.cov = 0
        op.bursts = []
        op.left = 0
        op.bus_id = None
        op.resps = []
        op.users = []
        op.rbeats = []
        op.wl = []
        op.ends = set()
        op.wbeat = 0
        op.unaccepted = False
        self.q[op.kind].append(op)
        if op.kind == "W":
            self.wq.append(op)

    def unaccept(self, op):
        op.unaccepted = True
        for q in (self.q[op.kind], self.wq):
            if op in q:
                q.remove(op)

    def abort(self):
        for k in "RW":
            self.q[k].clear()
            self.ids[k].clear()
        self.wq.clear()
        self.same.clear()
        self.just.clear()

    def outstanding_bursts(self):
        return sum(len(v) for k in "RW" for v in self.ids[k].values())

    # ---- bus events
    def on_a(self, kind, p, d):
        ctx = self.ctx
        q = self.q[kind]
        ctx.count("bus.bursts")
        while q and q[0].length == 0 and not (d[p + "addr"] == q[0].addr and d[p + "len"] == 0 and not q[0].bursts):
            q.popleft()
        if not q:
            ctx.fail("burst-unexpected", ["C03", "C20", "C06"], "%s burst %r on the bus without an operation to carry out" % (p.upper(), d))
            return
        op = q[0]
        L = d[p + "len"] + 1
        exp = op.addr if (op.cov == 0 or op.burst == FIXED) else op.al + op.cov * op.nb
        bad = None
        props = ["C03"]
        kw = op.kw
        want_id = kw.get(p + "id")
        if want_id is None or want_id < 0:
            want_id = op.bus_id
        if d[p + "addr"] != exp:
            bad = "address 0x%x, expected 0x%x" % (d[p + "addr"], exp)
            props = ["C03", "C06"]
        elif d[p + "size"] != op.size:
            bad = "size %d, expected %d" % (d[p + "size"], op.size)
        elif d[p + "burst"] != op.burst:
            bad = "burst type %d, expected %d" % (d[p + "burst"], op.burst)
        elif want_id is not None and d[p + "id"] != want_id:
            bad = "ID %d, expected %d" % (d[p + "id"], want_id)
        elif L > (min(self.maxb, 16) if op.burst == FIXED else self.maxb):
            bad = "%d beats, limit %d" % (L, self.maxb)
        elif op.length and op.cov + L > op.total:
            bad = "%d beats, but only %d remain of the request" % (L, op.total - op.cov)
            props = ["C03", "C06"]
        elif op.length == 0 and L != 1:
            bad = "%d beats for an empty request" % L
        elif op.burst != FIXED and (exp & ~(op.nb - 1) & 0xfff) + L * op.nb > 4096:
            bad = "crosses a 4 KB boundary (0x%x, %d beats of %d)" % (exp, L, op.nb)
        else:
            for n, dflt in (("lock", 0), ("cache", 3), ("prot", 2), ("qos", 0), ("region", 0), ("user", 0)):
                if p + n in d and d[p + n] != int(kw.get(n, dflt)):
                    bad = "%s is %d, expected %d" % (p + n, d[p + n], int(kw.get(n, dflt)))
        if bad:
            ctx.fail("burst-bad", props, "%r: burst %d on the bus has %s" % (op, len(op.bursts), bad))
            return
        b = Burst()
        b.op, b.id, b.L, b.got, b.n = op, d[p + "id"], L, 0, len(op.bursts)
        op.bus_id = b.id
        if not op.bursts:
            self.same.setdefault((kind, b.id), []).append(op)
        op.bursts.append(b)
        op.left += 1
        op.cov += L
        op.ends.add(op.cov - 1)
        self.ids[kind].setdefault(b.id, deque()).append(b)
        if len(self.ids[kind]) > 1:
            ctx.count("cover.multiple_ids_outstanding")
        if op.cov >= op.total:
            q.popleft()
        if kind == "W":
            self.check_last(op)
        if len(op.bursts) > 1:
            ctx.count("cover.multi_burst_op")

    def check_last(self, op):
        n = min(len(op.wl), op.cov)
        for k in range(n):
            if op.wl[k] != (k in op.ends):
                self.ctx.fail("wlast", ["C03"], "%r: beat %d has wlast=%d, bursts end at beats %s" % (op, k, op.wl[k], sorted(op.ends)))
                return

    def lane_map(self, op, k):
        """[(lane, index into the request's data)] of beat k."""
        L = self.lanes
        if op.burst == FIXED:
            base = op.al % L
            i0 = 0 if k == 0 else op.nb * k - (op.addr - op.al)
            lo = op.addr - op.al if k == 0 else 0
            return [(base + j, i0 + j - lo) for j in range(lo, op.nb) if i0 + j - lo < op.length]
        s = max(op.al + k * op.nb, op.addr)
        e = min(op.al + (k + 1) * op.nb, op.addr + op.length)
        return [(a % L, a - op.addr) for a in range(s, e)]

    def on_w(self, d):
        ctx = self.ctx
        ctx.count("bus.beats")
        wq = self.wq
        while wq and wq[0].length == 0 and d.get("wstrb", 1) != 0:
            wq.popleft()
        if not wq:
            ctx.fail("wbeat-unexpected", ["C03", "C06", "C20"], "write data beat %r on the bus without an operation to carry out" % (d,))
            return
        op = wq[0]
        if op.length == 0:
            wq.popleft()
            op.wl.append(d["wlast"])
            self.check_last(op)
            return
        k = op.wbeat
        lm = self.lane_map(op, k)
        strb = 0
        mask = 0
        val = 0
        for lane, i in lm:
            strb |= 1 << lane
            mask |= 0xff << (8 * lane)
            val |= op.data[i] << (8 * lane)
        if "wstrb" in d and d["wstrb"] != strb:
            ctx.fail("wstrb", ["C03", "C06"], "%r: beat %d has strobes 0x%x, expected 0x%x" % (op, k, d["wstrb"], strb))
            return
        if "wstrb" not in d:
            mask = -1          # everything else in the word is written with zeros
        if d["wdata"] & mask != val:
            ctx.fail("wdata", ["C06"], "%r: beat %d has data 0x%x, expected 0x%x in lanes 0x%x" % (op, k, d["wdata"], val, strb))
            return
        if "wuser" in d:
            u = op.kw.get("wuser", 0)
            if u is None:
                u = 0
            eu = u if isinstance(u, int) else (u[k] if k < len(u) else 0)
            if d["wuser"] != eu:
                ctx.fail("wuser", ["C03"], "%r: beat %d has wuser %d, expected %d" % (op, k, d["wuser"], eu))
                return
        op.wl.append(d["wlast"])
        op.wbeat += 1
        self.check_last(op)
        if op.wbeat == op.total:
            wq.popleft()

    def _head(self, kind, i):
        q = self.ids[kind].get(i)
        return q[0] if q else None

    def _pop(self, kind, i):
        q = self.ids[kind][i]
        b = q.popleft()
        if not q:
            del self.ids[kind][i]
        b.op.left -= 1

    def on_b(self, d):
        b = self._head("W", d["bid"])
        if b is None:
            return
        b.op.resps.append(d.get("bresp", 0))
        b.op.users.append(d.get("buser", 0))
        self._pop("W", d["bid"])

    def on_r(self, d):
        b = self._head("R", d["rid"])
        if b is None:
            return
        op = b.op
        op.resps.append(d.get("rresp", 0))
        op.users.append(d.get("ruser", 0))
        op.rbeats.append(d["rdata"])
        b.got += 1
        if b.got == b.L:
            self._pop("R", d["rid"])

    # ---- completion
    def complete(self, op):
        if op.bus_id is not None:
            self.just.append(op)
        return (op.length == 0 or op.cov == op.total) and op.left == 0

    def settle(self):
        if not self.just:
            return
        for op in self.just:
            lst = self.same.get((op.kind, op.bus_id), [])
            for o in list(lst):
                if o is op:
                    lst.remove(o)
                    break
                if not o.done:
                    self.ctx.fail("id-order", ["C07"], "%r completed before %r, issued earlier with the same ID %d" % (op, o, op.bus_id))
                    return
        self.just.clear()

    def read_data(self, op):
        out = bytearray(op.length)
        for k, rd in enumerate(op.rbeats[:op.total]):
            for lane, i in self.lane_map(op, k):
                out[i] = (rd >> (8 * lane)) & 0xff
        return bytes(out)

    def check(self, op, res):
        ctx = self.ctx
        if isinstance(res, tuple) and res and res[0] == "helper":
            return
        if isinstance(res, tuple) and res and res[0] == "words":
            _, vals, ws, bo = res
            data = self.read_data(op)
            exp = [int.from_bytes(data[i * ws:(i + 1) * ws], bo) for i in range(op.length // ws)]
            if list(vals) != exp:
                ctx.fail("words", ["C06", "C07"], "%r via %s returned %r, expected %r" % (op, op.helper, vals, exp))
            return
        if res.address != op.addr:
            ctx.fail("result", ["C07"], "%r returned address 0x%x" % (op, res.address))
            return
        if op.kind == "R":
            exp = self.read_data(op)
            if not isinstance(res.data, bytes) or res.data != exp or bytes(res) != exp:
                ctx.fail("rdata", ["C06", "C07"], "%r returned %s, the bus delivered %s" % (op, bytes(res.data).hex(), exp.hex()))
                return
            has_user = "ruser" in self.cfg["opt"]
        else:
            if res.length != op.length:
                ctx.fail("result", ["C07"], "%r returned length %d" % (op, res.length))
                return
            has_user = "buser" in self.cfg["opt"]
        codes = set(op.resps) - {0}
        if (int(res.resp) not in codes) if codes else (int(res.resp) != 0):
            ctx.fail("resp", ["C07"], "%r returned %s, responses were %s" % (op, res.resp, op.resps))
            return
        if (list(res.user) if res.user is not None else None) != (op.users if has_user else None):
            ctx.fail("user", ["C07"], "%r returned user values %r, expected %r" % (op, res.user, op.users if has_user else None))


class NatSub:
    """Native subordinate: arbitrary legal behaviour, seeded."""

    def __init__(self, ctx, cfg, wires, rst, scfg):
        self.ctx = ctx
        self.cfg = cfg
        self.c = scfg
        self.rng = ctx.rng("natsub")
        self.rst = rst
        self.aw = deque()
        self.wbeats = 0          # beats of complete bursts
        self.wpend = 0
        self.wfull = 0
        self.bad = None
        self.force = False
        self.bq = {}
        self.rq = {}
        self.arr = 0
        self.cur = None
        p = scfg["pats"]
        ch = wires.chan
        xi = scfg.get("x_idle", False)
        ctx.count("stub.native_axi_subordinate")
        if "aw" in ch:
            gate = scfg.get("gate")
            g_aw = g_w = None
            if gate == "aw_after_w":
                g_aw = lambda: ctx.cycle >= ctx.scn["stall_until"] or ch["w"][0].ival == 1 or self.wfull > len(self.aw)
            elif gate == "w_after_aw":
                g_w = lambda: ctx.cycle >= ctx.scn["stall_until"] or bool(self.aw)
            NatSink(ctx, "sub.aw", *ch["aw"], rst, self.on_aw, p["aw"], g_aw)
            NatSink(ctx, "sub.w", *ch["w"], rst, self.on_w, p["w"], g_w)
            self.bs = NatSource(ctx, "sub.b", *ch["b"], rst, p["b"], xi)
            self.bs.feed = self.feed_b
        if "ar" in ch:
            NatSink(ctx, "sub.ar", *ch["ar"], rst, self.on_ar, p["ar"])
            self.rs = NatSource(ctx, "sub.r", *ch["r"], rst, p["r"], xi)
            self.rs.feed = self.feed_r
        rst.on_assert.append(self.reset)

    def reset(self):
        self.aw.clear()
        self.wfull = 0
        self.bq.clear()
        self.rq.clear()
        self.cur = None

    def _when(self):
        c = self.c
        if self.ctx.cycle < self.ctx.scn["stall_until"] and self.rng.random() < c["lat_p"]:
            self.ctx.count("fault.response_delayed")
            return self.ctx.cycle + self.rng.randint(1, c["lat_max"])
        return self.ctx.cycle

    def _resp(self):
        if self.rng.random() < self.c["err_p"]:
            self.ctx.count("fault.error_response")
            return self.rng.choice([1, 2, 3])
        return 0

    def on_aw(self, d):
        self.aw.append(d["awid"])
        self.match()

    def on_w(self, d):
        if d["wlast"]:
            self.wfull += 1
            self.match()

    def match(self):
        while self.aw and self.wfull:
            self.wfull -= 1
            i = self.aw.popleft()
            self.arr += 1
            self.bq.setdefault(i, deque()).append((self._when(), self.arr))

    def on_ar(self, d):
        self.arr += 1
        self.rq.setdefault(d["arid"], deque()).append([self._when(), self.arr, d["arlen"] + 1])

    def _choose(self, q):
        now = self.ctx.cycle
        if now >= self.ctx.scn["stall_until"]:
            now = 1 << 60
        if not self.c["reorder"]:
            i = min(q, key=lambda i: q[i][0][1])
            return i if q[i][0][0] <= now else None
        ids = [i for i in q if q[i][0][0] <= now]
        if not ids:
            return None
        i = self.rng.choice(sorted(ids))
        if q[i][0][1] != min(v[0][1] for v in q.values()):
            self.ctx.count("fault.response_reordered")
        return i

    def stray(self, k):
        f = self.bad
        if f is None or f.k != k:
            return None
        return f.take_id(self.force)

    def feed_b(self):
        if self.bs.q:
            return
        i = self.stray("b-id")
        if i is not None:
            self.bs.q.append({"bid": i, "bresp": self._resp(), "buser": self.rng.getrandbits(self.cfg["uw"]), "_f": "b-id"})
            return
        if not self.bq:
            return
        i = self._choose(self.bq)
        if i is None:
            return
        self.bq[i].popleft()
        if not self.bq[i]:
            del self.bq[i]
        self.bs.q.append({"bid": i, "bresp": self._resp(), "buser": self.rng.getrandbits(self.cfg["uw"])})

    def feed_r(self):
        if self.rs.q:
            return
        i = self.stray("r-id")
        if i is not None:
            self.rs.q.append({"rid": i, "rdata": self.rng.getrandbits(self.cfg["lanes"] * 8), "rlast": int(self.rng.random() < 0.7),
                              "rresp": self._resp(), "ruser": self.rng.getrandbits(self.cfg["uw"]), "_f": "r-id"})
            return
        if not self.rq:
            return
        i = self.cur
        if i is None or self.rng.random() < self.c["inter"]:
            j = self._choose(self.rq)
            if i is not None and j is not None and j != i:
                self.ctx.count("fault.read_data_interleaved")
            i = j if j is not None else i
        if i is None:
            return
        b = self.rq[i][0]
        b[2] -= 1
        last = b[2] == 0
        self.cur = None if last else i
        if last:
            self.rq[i].popleft()
            if not self.rq[i]:
                del self.rq[i]
        e = {"rid": i, "rdata": self.rng.getrandbits(self.cfg["lanes"] * 8), "rlast": int(last),
             "rresp": self._resp(), "ruser": self.rng.getrandbits(self.cfg["uw"])}
        f = self.bad
        if f is not None and f.armed and f.k == ("r-miss" if last else "r-early"):
            f.n += 1
            if f.n > f.c["n"]:
                f.armed = False
                e["rlast"] ^= 1
                e["_f"] = f.k
        self.rs.q.append(e)


class NatMgr:
    """Native manager: issues the scenario's bursts with arbitrary AW/W skew."""

    def __init__(self, ctx, cfg, wires, rst, scn_w, scn_r, pats, x_idle):
        self.ctx = ctx
        self.cfg = cfg
        self.rst = rst
        self.w = scn_w
        self.r = scn_r
        self.p = {"aw": 0, "w": 0, "ar": 0}
        self.beat = 0
        self.t = {"aw": 0, "w": 0, "ar": 0}
        ch = wires.chan
        self.src = {}
        ctx.count("stub.native_axi_manager")
        for c, fn in (("aw", self.feed_aw), ("w", self.feed_w), ("ar", self.feed_ar)):
            if c in ch:
                s = NatSource(ctx, "mgr." + c, *ch[c], rst, pats[c], x_idle)
                s.feed = fn
                self.src[c] = s
        for c in ("b", "r"):
            if c in ch:
                NatSink(ctx, "mgr." + c, *ch[c], rst, lambda d: None, pats[c])
        rst.on_assert.append(self.reset)

    def reset(self):
        m = max(self.p["aw"], self.p["w"] + (1 if self.beat else 0))
        if "aw" in self.src and (self.src["aw"].busy or self.src["w"].busy):
            self.ctx.count("cover.reset_during_native_burst")
        self.p["aw"] = self.p["w"] = m
        self.beat = 0
        self.ar_i = self.p["ar"]

    def busy(self):
        return (("aw" in self.src and (self.p["aw"] < len(self.w) or self.p["w"] < len(self.w))) or
                ("ar" in self.src and self.p["ar"] < len(self.r)) or any(s.busy or s.q for s in self.src.values()))

    def _due(self, c, b):
        d = b.get({"aw": "d", "w": "wd", "ar": "d"}[c], 0)
        if self.ctx.cycle >= self.ctx.scn["stall_until"]:
            return True
        if self.t[c] == 0:
            self.t[c] = self.ctx.cycle + d
        if self.ctx.cycle >= self.t[c]:
            self.t[c] = 0
            return True
        return False

    def _side(self, p, b):
        r = self.ctx.rng("side%s%s" % (p, b["ds"]))
        d = {p + "id": b["id"], p + "addr": b["addr"], p + "len": b["len"] - 1, p + "size": b["size"], p + "burst": b["burst"]}
        for n, w in (("lock", 1), ("cache", 4), ("prot", 3), ("qos", 4), ("region", 4), ("user", self.cfg["uw"])):
            d[p + n] = r.getrandbits(w)
        return d

    def feed_aw(self):
        s = self.src["aw"]
        if s.q or self.p["aw"] >= len(self.w):
            return
        b = self.w[self.p["aw"]]
        if not self._due("aw", b):
            return
        self.p["aw"] += 1
        s.q.append(self._side("aw", b))
        if "bad" in b:
            s.q[-1]["_f"] = b["bad"]

    def feed_ar(self):
        s = self.src["ar"]
        if s.q or self.p["ar"] >= len(self.r):
            return
        b = self.r[self.p["ar"]]
        if not self._due("ar", b):
            return
        self.p["ar"] += 1
        s.q.append(self._side("ar", b))
        if "bad" in b:
            s.q[-1]["_f"] = b["bad"]

    def feed_w(self):
        s = self.src["w"]
        if s.q or self.p["w"] >= len(self.w):
            return
        b = self.w[self.p["w"]]
        if self.beat == 0 and not self._due("w", b):
            return
        k = self.beat
        lanes = self.cfg["lanes"]
        r = self.ctx.rng("wd%s.%d" % (b["ds"], k))
        a = beat_addrs(b["addr"], b["len"], b["size"], b["burst"])[k]
        nb = 1 << b["size"]
        legal = [x % lanes for x in range(a, (a & ~(nb - 1)) + nb)]
        st = b.get("strb", "full")
        if st == "full" or "wstrb" not in self.cfg["opt"]:
            on = legal
        elif st == "zero":
            on = []
        elif st == "rand":
            on = [x for x in legal if r.random() < 0.5]
        else:
            on = [x for x in legal if x % 2 == 0]
        self.beat += 1
        last = self.beat == b["len"]
        s.q.append({"wdata": r.getrandbits(lanes * 8), "wstrb": sum(1 << x for x in set(on)), "wlast": int(last),
                    "wuser": r.getrandbits(self.cfg["uw"])})
        if b.get("wl") == k:
            s.q[-1]["wlast"] ^= 1
            s.q[-1]["_f"] = "w-last"
        if last:
            self.beat = 0
            self.p["w"] += 1


class SlaveModel:
    """Reference for the library's subordinate: memory effects, responses, target accesses."""

    def __init__(self, ctx, cfg, wires, rst, mem=None, size=None, target=None, port=0, props=("C08",), mprops=None):
        self.ctx = ctx
        self.cfg = cfg
        self.lanes = cfg["lanes"]
        self.mem = mem
        self.size = size or (1 << cfg["aw"])
        self.tm = target
        self.port = port
        self.props = list(props)
        self.mprops = list(mprops or props)
        self.aw = deque()
        self.wbuf = deque()
        self.wid = {}
        self.rid = {}
        self.n = 0
        self.touched = set()
        m = wires.mon
        if "aw" in m:
            m["aw"].cb.append(self.on_aw)
            m["w"].cb.append(self.on_w)
            m["b"].cb.append(self.on_b)
        if "ar" in m:
            m["ar"].cb.append(self.on_ar)
            m["r"].cb.append(self.on_r)
        rst.on_assert.append(self.abort)

    def abort(self):
        self.aw.clear()
        self.wbuf.clear()
        self.wid.clear()
        self.rid.clear()
        if self.mem is not None:
            self.mem.abort(self.ctx.sim.time, self.port)
        if self.tm is not None:
            self.tm.abort()

    def pending(self):
        return sum(map(len, self.wid.values())) + sum(map(len, self.rid.values())) + len(self.wbuf)

    def _burst(self, p, d):
        b = Burst()
        b.op = None
        b.id, b.L, b.addr, b.got, b.d = d[p + "id"], d[p + "len"] + 1, d[p + "addr"], 0, d
        b.n = self.n
        self.n += 1
        b.beats = beat_addrs(b.addr, b.L, d[p + "size"], d[p + "burst"])
        b.writes = []
        b.wdone = False
        b.calls = []
        b.ar_t = self.ctx.sim.time
        b.ready = 0
        return b

    def on_aw(self, d):
        self.ctx.count("bus.slave_bursts")
        self.ctx.count("cover.burst_type_%d" % d["awburst"])
        b = self._burst("aw", d)
        self.aw.append(b)
        self.wid.setdefault(b.id, deque()).append(b)
        while self.wbuf and self.aw:
            self.assign(self.wbuf.popleft())

    def on_w(self, d):
        self.ctx.count("bus.beats")
        if self.aw and not self.wbuf:
            self.assign(d)
        else:
            self.ctx.count("cover.write_data_before_address")
            self.wbuf.append(d)

    def assign(self, d):
        b = self.aw[0]
        a = b.beats[b.got]
        word = a // self.lanes * self.lanes
        now = self.ctx.sim.time
        strb = d.get("wstrb", (1 << self.lanes) - 1)
        data = d["wdata"]
        if self.mem is not None:
            for i in range(self.lanes):
                if strb >> i & 1:
                    x = (word + i) % self.size
                    self.touched.add(x >> 12)
                    b.writes.append(self.mem.write(x, (data >> (8 * i)) & 0xff, now, self.port))
        if self.tm is not None:
            bt = Beat()
            b.calls.append(bt)
            i = 0
            runs = []
            while i < self.lanes:
                if strb >> i & 1:
                    j = i
                    while j < self.lanes and strb >> j & 1:
                        j += 1
                    runs.append((word + i, bytes((data >> (8 * k)) & 0xff for k in range(i, j))))
                    i = j
                else:
                    i += 1
            for addr, by in runs:
                self.tm.push("w", addr, by, bt)
        b.got += 1
        if b.got == b.L:
            b.wdone = True
            self.aw.popleft()

    def on_b(self, d):
        ctx = self.ctx
        q = self.wid.get(d["bid"])
        if not q or not q[0].wdone:
            ctx.fail("b-unexpected", self.props, "write response %r without a completely received burst of that ID" % (d,))
            return
        b = q.popleft()
        if not q:
            del self.wid[d["bid"]]
        now = ctx.sim.time
        for w in b.writes:
            w.end = now
        failed = False
        if self.tm is not None:
            for bt in b.calls:
                self.tm.drop_skippable("w", bt)
                if bt.todo > 0 and not self.tm.ambiguous:
                    ctx.fail("b-early", self.props + ["C17"], "burst at 0x%x was answered with %d writes of one beat not performed on the target" % (b.addr, bt.todo))
                    return
                failed |= bt.failed
        if self.tm is not None and self.tm.ambiguous:
            return
        if "bresp" in d and d["bresp"] != (2 if failed else 0):
            ctx.fail("bresp", self.props + ["C17"], "burst at 0x%x answered with response %d, expected %d" % (b.addr, d["bresp"], 2 if failed else 0))

    def on_ar(self, d):
        self.ctx.count("bus.slave_bursts")
        self.ctx.count("cover.burst_type_%d" % d["arburst"])
        b = self._burst("ar", d)
        if self.tm is not None:
            for a in b.beats:
                bt = Beat()
                b.calls.append(bt)
                self.tm.push("r", a // self.lanes * self.lanes, self.lanes, bt)
        self.rid.setdefault(b.id, deque()).append(b)

    def on_r(self, d):
        ctx = self.ctx
        ctx.count("bus.beats")
        q = self.rid.get(d["rid"])
        if not q:
            ctx.fail("r-unexpected", self.props, "read data %r without an outstanding burst of that ID" % (d,))
            return
        b = q[0]
        k = b.got
        b.got += 1
        if d["rlast"] != (b.got == b.L):
            ctx.fail("rlast", self.props, "beat %d of %d of the burst at 0x%x has rlast=%d" % (k, b.L, b.addr, d["rlast"]))
            return
        if b.got == b.L:
            q.popleft()
            if not q:
                del self.rid[d["rid"]]
        nb = 1 << b.d["arsize"]
        a = b.beats[k]
        rd = d["rdata"]
        now = ctx.sim.time
        failed = False
        if self.tm is not None:
            bt = b.calls[k]
            if bt.todo > 0 and not self.tm.ambiguous:
                ctx.fail("r-early", self.props + ["C17"], "beat %d of the burst at 0x%x answered without reading the target" % (k, b.addr))
                return
            if self.tm.ambiguous:
                return
            failed = bt.failed
        if "rresp" in d and d["rresp"] != (2 if failed else 0):
            ctx.fail("rresp", self.props + ["C17"], "beat %d of the burst at 0x%x answered with response %d, expected %d" % (k, b.addr, d["rresp"], 2 if failed else 0))
            return
        if failed:
            return
        word = a // self.lanes * self.lanes
        for x in range(a, (a & ~(nb - 1)) + nb):
            v = (rd >> (8 * (x - word))) & 0xff
            if self.mem is not None:
                y = x % self.size
                if not self.mem.ok(y, v, b.ar_t, now):
                    ctx.fail("mem-read", self.mprops, "beat %d of the burst at 0x%x (%d beats of %d, type %d): byte 0x%x is %02x, possible %s" % (
                        k, b.addr, b.L, nb, b.d["arburst"], y, v, [hex(c) for c in self.mem.candidates(y, b.ar_t, now)]))
                    return
            elif v != b.calls[k].res[x - word]:
                ctx.fail("target-data", self.props + ["C17"], "beat %d of the burst at 0x%x: byte 0x%x is %02x, the target returned %02x" % (
                    k, b.addr, x, v, b.calls[k].res[x - word]))
                return


def final_compare(ctx, hist, touched, size, read, props):
    """Compares the library memory with the reference on every touched page and its neighbours."""
    pages = set()
    for p in touched:
        pages.update((p, p + 1, p - 1))
    pages.add(0)
    t = ctx.sim.time
    for p in sorted(pages):
        base = p << 12
        if base < 0 or base >= size:
            continue
        n = min(4096, size - base)
        data = read(base, n)
        if len(data) != n:
            ctx.fail("mem-final", props, "direct read of %d bytes at 0x%x returned %d" % (n, base, len(data)))
            return
        bad = hist.check_page(base, data, t)
        if bad is not None:
            ctx.fail("mem-final", props, "byte 0x%x is %02x at the end, possible %s" % (
                bad, data[bad - base], [hex(c) for c in hist.candidates(bad, t, t)]))
            return


__all__ = ["AxiWires", "MasterTracker", "NatSub", "NatMgr", "SlaveModel", "final_compare", "beat_addrs", "ByteHist", "TargetModel",
           "INCR", "FIXED", "WRAP", "OPTIONAL", "MANDATORY"]
