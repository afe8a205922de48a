"""AXI-Lite: wires, native manager / subordinate, and the reference models for both sides."""
from collections import deque

from .axi_bus import Beat
from .hw import ChanMon, NatSource, NatSink

MANDATORY = {"aw": ["awaddr"], "w": ["wdata"], "b": [], "ar": ["araddr"], "r": ["rdata"]}
OPTIONAL = {"aw": ["awprot"], "w": ["wstrb"], "b": ["bresp"], "ar": ["arprot"], "r": ["rresp"]}
CH = ("aw", "w", "b", "ar", "r")


def sig_width(cfg, name):
    if name.endswith("prot"):
        return 3
    if name.endswith("resp"):
        return 2
    if name.endswith("addr"):
        return cfg["aw"]
    if name.endswith("data"):
        return cfg["lanes"] * 8
    if name == "wstrb":
        return cfg["lanes"]
    raise KeyError(name)


class LiteWires:
    def __init__(self, ctx, cfg, prefix, rst, lib_m, lib_s):
        self.cfg = cfg
        self.chan = {}
        self.mon = {}
        pre = prefix + "_" if prefix else ""
        for c in CH:
            pay = {n: ctx.sig(pre + n, sig_width(cfg, n)) for n in MANDATORY[c] + [o for o in OPTIONAL[c] if o in cfg["opt"]]}
            v = ctx.sig(pre + c + "valid", 1)
            r = ctx.sig(pre + c + "ready", 1)
            self.chan[c] = (v, r, pay)
            fwd = c in ("aw", "w", "ar")
            self.mon[c] = ChanMon(ctx, c.upper(), v, r, pay, rst, lib_src=lib_m if fwd else lib_s, lib_snk=lib_s if fwd else lib_m,
                                  reset_props=("C11",))


class LiteTracker:
    """Reference for the AXI-Lite manager."""

    def __init__(self, ctx, cfg, wires):
        self.ctx = ctx
        self.cfg = cfg
        self.lanes = cfg["lanes"]
        self.aq = {"R": deque(), "W": deque()}      # operations whose addresses are not all on the bus
        self.wq = deque()                           # writes whose data is not all on the bus
        self.rq = {"R": deque(), "W": deque()}      # addresses issued and not answered: operation per access
        m = wires.mon
        m["aw"].cb.append(lambda d: self.on_a("W", "aw", d))
        m["w"].cb.append(self.on_w)
        m["b"].cb.append(self.on_b)
        m["ar"].cb.append(lambda d: self.on_a("R", "ar", d))
        m["r"].cb.append(self.on_r)

    def accept(self, op):
        L = self.lanes
        op.word = op.addr // L
        op.words = (op.length + op.addr % L + L - 1) // L if op.length else 0
        op.na = op.nw = 0
        op.resps = []
        op.rbeats = []
        op.left = 0
        self.aq[op.kind].append(op)
        if op.kind == "W":
            self.wq.append(op)

    def unaccept(self, op):
        for q in (self.aq[op.kind], self.wq):
            if op in q:
                q.remove(op)

    def abort(self):
        for k in "RW":
            self.aq[k].clear()
            self.rq[k].clear()
        self.wq.clear()

    def outstanding_bursts(self):
        return len(self.rq["R"]) + len(self.rq["W"])

    def on_a(self, kind, p, d):
        ctx = self.ctx
        q = self.aq[kind]
        ctx.count("bus.accesses")
        a = d[p + "addr"]
        while q and q[0].length == 0 and (q[0].na or a // self.lanes != q[0].word or a >= 64):
            q.popleft()
        if not q:
            ctx.fail("access-unexpected", ["C09", "C20"], "%s access %r on the bus without an operation to carry out" % (p.upper(), d))
            return
        op = q[0]
        if a // self.lanes != op.word + op.na:
            ctx.fail("access-address", ["C09"], "%r: access %d is at 0x%x, expected word 0x%x" % (op, op.na, a, (op.word + op.na) * self.lanes))
            return
        want = int(op.kw.get("prot", 2))
        if p + "prot" in d and d[p + "prot"] != want:
            ctx.fail("access-prot", ["C09"], "%r: access %d has prot %d, expected %d" % (op, op.na, d[p + "prot"], want))
            return
        op.na += 1
        op.left += 1
        self.rq[kind].append(op)
        if op.na >= op.words:
            q.popleft()
        if op.na > 1:
            ctx.count("cover.multi_word_op")

    def lanes_of(self, op, k):
        s = max((op.word + k) * self.lanes, op.addr)
        e = min((op.word + k + 1) * self.lanes, op.addr + op.length)
        return [(a % self.lanes, a - op.addr) for a in range(s, e)]

    def on_w(self, d):
        ctx = self.ctx
        ctx.count("bus.beats")
        q = self.wq
        while q and q[0].length == 0 and (d.get("wstrb", 1) != 0 or q[0].nw):
            q.popleft()
        if not q:
            ctx.fail("data-unexpected", ["C09", "C20"], "write data %r on the bus without an operation to carry out" % (d,))
            return
        op = q[0]
        k = op.nw
        op.nw += 1
        strb = mask = val = 0
        if op.length:
            for lane, i in self.lanes_of(op, k):
                strb |= 1 << lane
                mask |= 0xff << (8 * lane)
                val |= op.data[i] << (8 * lane)
        if "wstrb" in d and d["wstrb"] != strb:
            ctx.fail("wstrb", ["C09"], "%r: access %d has strobes 0x%x, expected 0x%x" % (op, k, d["wstrb"], strb))
            return
        if "wstrb" not in d:
            mask = -1          # everything else in the word is written with zeros
        if d["wdata"] & mask != val:
            ctx.fail("wdata", ["C09"], "%r: access %d has data 0x%x, expected 0x%x" % (op, k, d["wdata"], val))
            return
        if op.nw >= op.words:
            q.popleft()

    def on_b(self, d):
        q = self.rq["W"]
        if q:
            op = q.popleft()
            op.left -= 1
            op.resps.append(d.get("bresp", 0))

    def on_r(self, d):
        q = self.rq["R"]
        if q:
            op = q.popleft()
            op.left -= 1
            op.resps.append(d.get("rresp", 0))
            op.rbeats.append(d["rdata"])

    def complete(self, op):
        return op.left == 0 and op.na >= op.words and (op.kind == "R" or op.nw >= op.words)

    def read_data(self, op):
        out = bytearray(op.length)
        if op.length:
            for k, rd in enumerate(op.rbeats[:op.words]):
                for lane, i in self.lanes_of(op, k):
                    out[i] = (rd >> (8 * lane)) & 0xff
        return bytes(out)

    def check(self, op, res):
        ctx = self.ctx
        if isinstance(res, tuple) and res and res[0] == "helper":
            return
        if isinstance(res, tuple) and res and res[0] == "words":
            _, vals, ws, bo = res
            data = self.read_data(op)
            exp = [int.from_bytes(data[i * ws:(i + 1) * ws], bo) for i in range(op.length // ws)]
            if list(vals) != exp:
                ctx.fail("words", ["C09"], "%r via %s returned %r, expected %r" % (op, op.helper, vals, exp))
            return
        if res.address != op.addr:
            ctx.fail("result", ["C09"], "%r returned address 0x%x" % (op, res.address))
            return
        if op.kind == "R":
            exp = self.read_data(op)
            if not isinstance(res.data, bytes) or res.data != exp or bytes(res) != exp:
                ctx.fail("rdata", ["C09"], "%r returned %s, the bus delivered %s" % (op, bytes(res.data).hex(), exp.hex()))
                return
        elif res.length != op.length:
            ctx.fail("result", ["C09"], "%r returned length %d" % (op, res.length))
            return
        codes = set(op.resps) - {0}
        if (int(res.resp) not in codes) if codes else (int(res.resp) != 0):
            ctx.fail("resp", ["C09"], "%r returned %s, responses were %s" % (op, res.resp, op.resps))


class LiteSub:
    """Native subordinate."""

    def __init__(self, ctx, cfg, wires, rst, scfg):
        self.ctx = ctx
        self.cfg = cfg
        self.c = scfg
        self.rng = ctx.rng("natsub")
        self.aw = self.w = 0
        self.bq = deque()
        self.rq = deque()
        p = scfg["pats"]
        ch = wires.chan
        xi = scfg.get("x_idle", False)
        ctx.count("stub.native_axil_subordinate")
        g_aw = g_w = None
        late = lambda: ctx.cycle >= ctx.scn["stall_until"]
        if scfg.get("gate") == "aw_after_w":
            g_aw = lambda: late() or ch["w"][0].ival == 1 or self.w > self.aw
        elif scfg.get("gate") == "w_after_aw":
            g_w = lambda: late() or self.aw > self.w
        NatSink(ctx, "sub.aw", *ch["aw"], rst, self.on_aw, p["aw"], g_aw)
        NatSink(ctx, "sub.w", *ch["w"], rst, self.on_w, p["w"], g_w)
        NatSink(ctx, "sub.ar", *ch["ar"], rst, self.on_ar, p["ar"])
        self.bs = NatSource(ctx, "sub.b", *ch["b"], rst, p["b"], xi)
        self.bs.feed = self.feed_b
        self.rs = NatSource(ctx, "sub.r", *ch["r"], rst, p["r"], xi)
        self.rs.feed = self.feed_r
        rst.on_assert.append(self.reset)

    def reset(self):
        self.aw = self.w = 0
        self.bq.clear()
        self.rq.clear()

    def _when(self):
        c = self.c
        if self.ctx.cycle < self.ctx.scn["stall_until"] and self.rng.random() < c["lat_p"]:
            self.ctx.count("fault.response_delayed")
            return self.ctx.cycle + self.rng.randint(1, c["lat_max"])
        return self.ctx.cycle

    def _resp(self):
        if self.rng.random() < self.c["err_p"]:
            self.ctx.count("fault.error_response")
            return self.rng.choice([1, 2, 3])
        return 0

    def on_aw(self, d):
        self.aw += 1
        self.match()

    def on_w(self, d):
        self.w += 1
        self.match()

    def match(self):
        n = min(self.aw, self.w)
        self.aw -= n
        self.w -= n
        for _ in range(n):
            self.bq.append(self._when())

    def on_ar(self, d):
        self.rq.append(self._when())

    def _ready(self, q):
        return q and (q[0] <= self.ctx.cycle or self.ctx.cycle >= self.ctx.scn["stall_until"])

    def feed_b(self):
        if not self.bs.q and self._ready(self.bq):
            self.bq.popleft()
            self.bs.q.append({"bresp": self._resp()})

    def feed_r(self):
        if not self.rs.q and self._ready(self.rq):
            self.rq.popleft()
            self.rs.q.append({"rdata": self.rng.getrandbits(self.cfg["lanes"] * 8), "rresp": self._resp()})


class LiteMgr:
    """Native manager with arbitrary AW/W skew."""

    def __init__(self, ctx, cfg, wires, rst, scn_w, scn_r, pats, x_idle):
        self.ctx = ctx
        self.cfg = cfg
        self.l = {"aw": scn_w, "w": scn_w, "ar": scn_r}
        self.p = {"aw": 0, "w": 0, "ar": 0}
        self.t = {"aw": 0, "w": 0, "ar": 0}
        self.src = {}
        ch = wires.chan
        ctx.count("stub.native_axil_manager")
        for c in ("aw", "w", "ar"):
            s = NatSource(ctx, "mgr." + c, *ch[c], rst, pats[c], x_idle)
            s.feed = lambda c=c: self.feed(c)
            self.src[c] = s
        for c in ("b", "r"):
            NatSink(ctx, "mgr." + c, *ch[c], rst, lambda d: None, pats[c])
        rst.on_assert.append(self.reset)

    def reset(self):
        self.p["aw"] = self.p["w"] = max(self.p["aw"], self.p["w"])

    def busy(self):
        return any(self.p[c] < len(self.l[c]) or self.src[c].busy or self.src[c].q for c in self.p)

    def feed(self, c):
        s = self.src[c]
        if s.q or self.p[c] >= len(self.l[c]):
            return
        b = self.l[c][self.p[c]]
        if self.ctx.cycle < self.ctx.scn["stall_until"]:
            if self.t[c] == 0:
                self.t[c] = self.ctx.cycle + b.get("wd" if c == "w" else "d", 0)
            if self.ctx.cycle < self.t[c]:
                return
        self.t[c] = 0
        self.p[c] += 1
        r = self.ctx.rng("%s%s" % (c, b["ds"]))
        if c == "w":
            L = self.cfg["lanes"]
            st = b.get("strb", "full")
            strb = {"full": (1 << L) - 1, "zero": 0, "rand": r.getrandbits(L), "even": 0x5555555555 & ((1 << L) - 1)}[st]
            s.q.append({"wdata": r.getrandbits(L * 8), "wstrb": strb})
        else:
            s.q.append({c + "addr": b["addr"], c + "prot": r.getrandbits(3)})


class LiteSlaveModel:
    """Reference for the library's AXI-Lite subordinates."""

    def __init__(self, ctx, cfg, wires, rst, mem=None, size=None, target=None, port=0, props=("C09",), mprops=None):
        self.ctx = ctx
        self.cfg = cfg
        self.lanes = cfg["lanes"]
        self.mem = mem
        self.size = size or (1 << cfg["aw"])
        self.tm = target
        self.port = port
        self.props = list(props)
        self.mprops = list(mprops or props)
        self.aw = deque()
        self.wb = deque()
        self.done = deque()
        self.rq = deque()
        self.touched = set()
        m = wires.mon
        m["aw"].cb.append(lambda d: self._aw(d))
        m["w"].cb.append(lambda d: self._w(d))
        m["b"].cb.append(self.on_b)
        m["ar"].cb.append(self.on_ar)
        m["r"].cb.append(self.on_r)
        rst.on_assert.append(self.abort)

    def abort(self):
        for q in (self.aw, self.wb, self.done, self.rq):
            q.clear()
        if self.mem is not None:
            self.mem.abort(self.ctx.sim.time, self.port)
        if self.tm is not None:
            self.tm.abort()

    def pending(self):
        return len(self.wb) + len(self.aw) + len(self.done) + len(self.rq)

    def _aw(self, d):
        self.aw.append(d)
        self.match()

    def _w(self, d):
        if not self.aw:
            self.ctx.count("cover.write_data_before_address")
        self.wb.append(d)
        self.match()

    def match(self):
        while self.aw and self.wb:
            a = self.aw.popleft()["awaddr"] // self.lanes * self.lanes
            d = self.wb.popleft()
            L = self.lanes
            strb = d.get("wstrb", (1 << L) - 1)
            by = d["wdata"].to_bytes(L, "little")
            bt = Beat()
            writes = []
            now = self.ctx.sim.time
            self.ctx.count("bus.slave_accesses")
            if self.mem is not None:
                for i in range(L):
                    if strb >> i & 1:
                        x = (a + i) % self.size
                        self.touched.add(x >> 12)
                        writes.append(self.mem.write(x, by[i], now, self.port))
            if self.tm is not None:
                i = 0
                while i < L:
                    j = i
                    while j < L and strb >> j & 1:
                        j += 1
                    if j > i:
                        self.tm.push("w", a + i, by[i:j], bt)
                    i = j + 1 if j == i else j
            self.done.append((a, bt, writes))

    def on_b(self, d):
        ctx = self.ctx
        if not self.done:
            ctx.fail("b-unexpected", self.props, "write response %r without an access to answer" % (d,))
            return
        a, bt, writes = self.done.popleft()
        for w in writes:
            w.end = ctx.sim.time
        if self.tm is not None:
            self.tm.drop_skippable("w", bt)
            if self.tm.ambiguous:
                return
            if bt.todo > 0:
                ctx.fail("b-early", self.props + ["C17"], "write at 0x%x was answered with %d writes not performed on the target" % (a, bt.todo))
                return
        if "bresp" in d and d["bresp"] != (2 if bt.failed else 0):
            ctx.fail("bresp", self.props + ["C17"], "write at 0x%x answered with response %d, expected %d" % (a, d["bresp"], 2 if bt.failed else 0))

    def on_ar(self, d):
        self.ctx.count("bus.slave_accesses")
        a = d["araddr"] // self.lanes * self.lanes
        bt = Beat()
        if self.tm is not None:
            self.tm.push("r", a, self.lanes, bt)
        self.rq.append((a, bt, self.ctx.sim.time))

    def on_r(self, d):
        ctx = self.ctx
        if not self.rq:
            ctx.fail("r-unexpected", self.props, "read data %r without an access to answer" % (d,))
            return
        a, bt, t = self.rq.popleft()
        if self.tm is not None:
            if self.tm.ambiguous:
                return
            if bt.todo > 0:
                ctx.fail("r-early", self.props + ["C17"], "read at 0x%x answered without reading the target" % a)
                return
        if "rresp" in d and d["rresp"] != (2 if bt.failed else 0):
            ctx.fail("rresp", self.props + ["C17"], "read at 0x%x answered with response %d, expected %d" % (a, d["rresp"], 2 if bt.failed else 0))
            return
        if bt.failed:
            return
        by = d["rdata"].to_bytes(self.lanes, "little")
        now = ctx.sim.time
        for i in range(self.lanes):
            if self.mem is not None:
                y = (a + i) % self.size
                if not self.mem.ok(y, by[i], t, now):
                    ctx.fail("mem-read", self.mprops, "read at 0x%x: byte 0x%x is %02x, possible %s" % (
                        a, y, by[i], [hex(c) for c in self.mem.candidates(y, t, now)]))
                    return
            elif by[i] != bt.res[i]:
                ctx.fail("target-data", self.props + ["C17"], "read at 0x%x: byte 0x%x is %02x, the target returned %02x" % (
                    a, a + i, by[i], bt.res[i]))
                return
