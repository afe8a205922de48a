"""APB: wires with protocol monitor, native requester / completer, reference models of both sides."""
from collections import deque

from .axi_bus import Beat
from .hw import Pat

REQ = ["paddr", "pwrite", "pwdata", "pstrb"]
OPTIONAL = ["pprot", "pslverr"]


class ApbWires:
    """The wires, and the protocol rules checked at every clock edge."""

    def __init__(self, ctx, cfg, rst, lib_m, lib_s):
        self.ctx = ctx
        self.cfg = cfg
        self.rst = rst
        self.lib_m = lib_m
        self.lib_s = lib_s
        pre = cfg["prefix"] + "_" if cfg["prefix"] else ""
        w = {"paddr": cfg["aw"], "psel": 1, "penable": 1, "pwrite": 1, "pwdata": cfg["lanes"] * 8, "pstrb": cfg["lanes"],
             "pready": 1, "prdata": cfg["lanes"] * 8, "pprot": 3, "pslverr": 1}
        self.s = {n: ctx.sig(pre + n, v) for n, v in w.items() if n not in OPTIONAL or n in cfg["opt"]}
        self.req = [n for n in REQ + ["pprot"] if n in self.s]
        self.cb_setup = []
        self.cb_done = []
        self.state = "idle"
        self.hold = None
        self.wait = 0
        ctx.clk.on(1, self.edge)
        rst.on_assert.append(self._rst)

    def _rst(self):
        self.state = "idle"

    def edge(self):
        ctx = self.ctx
        s = self.s
        sel, en, rdy = s["psel"].ival, s["penable"].ival, s["pready"].ival
        if self.rst.active:
            self.state = "idle"
            if self.lib_m and (sel != 0 or en != 0):
                ctx.fail("select-in-reset", ["C11"], "psel is %s and penable %s at a clock edge with reset asserted" % (s["psel"].bits, s["penable"].bits))
            if self.lib_s and rdy != 0:
                ctx.fail("ready-in-reset", ["C11"], "pready is %s at a clock edge with reset asserted" % s["pready"].bits)
            return
        if self.lib_m:
            bad = None
            if sel is None or en is None:
                bad = "psel is %s and penable %s" % (s["psel"].bits, s["penable"].bits)
            elif en and not sel:
                bad = "penable is high without psel"
            elif self.state == "idle" and en:
                bad = "penable is high without a setup cycle"
            elif self.state == "setup" and not (sel and en):
                bad = "the setup cycle is followed by psel=%d penable=%d" % (sel, en)
            elif self.state == "access" and not (sel and en):
                bad = "psel=%d penable=%d before the completer was ready" % (sel, en)
            elif sel:
                for n in self.req:
                    if s[n].ival is None:
                        bad = "%s has unknown bits (%s) in a transfer" % (n, s[n].bits)
                if self.state in ("setup", "access"):
                    cur = [s[n].bits for n in self.req]
                    if cur != self.hold:
                        bad = "%s changed during the transfer" % [n for n, a, b in zip(self.req, cur, self.hold) if a != b]
                elif bad is None and not s["pwrite"].ival and s["pstrb"].ival != 0:
                    bad = "strobes are 0x%x in a read transfer" % s["pstrb"].ival
            if bad:
                ctx.fail("apb-requester", ["C02"], bad)
                return
        if self.lib_s:
            if rdy is None:
                ctx.fail("apb-completer", ["C02"], "pready is unknown")
                return
            if rdy and not (sel and en):
                ctx.fail("apb-completer", ["C02"], "pready is high with psel=%s penable=%s" % (sel, en))
                return
            if rdy:
                if "pslverr" in s and s["pslverr"].ival is None:
                    ctx.fail("apb-completer", ["C02"], "pslverr is unknown with pready")
                    return
                if not s["pwrite"].ival and s["prdata"].ival is None:
                    ctx.fail("apb-completer", ["C02"], "prdata is unknown with pready")
                    return
        if not sel:
            self.state = "idle"
        elif not en:
            self.state = "setup"
            self.hold = [s[n].bits for n in self.req]
            self.wait = 0
            d = {n: s[n].ival for n in self.req}
            for f in self.cb_setup:
                f(d)
        elif rdy:
            self.state = "idle"
            ctx.last_progress = ctx.cycle
            ctx.count("bus.transfers")
            if self.wait:
                ctx.count("cover.transfer_with_wait_states")
            d = {n: x.ival for n, x in s.items()}
            for f in self.cb_done:
                f(d)
        else:
            self.state = "access"
            self.wait += 1


class ApbTracker:
    """Reference for the requester."""

    def __init__(self, ctx, cfg, wires):
        self.ctx = ctx
        self.cfg = cfg
        self.lanes = cfg["lanes"]
        self.q = deque()
        self.order = []
        self.cur = None
        self.just = []
        wires.cb_setup.append(self.on_setup)
        wires.cb_done.append(self.on_done)
        ctx.sim.settle_hooks.append(self.settle)

    def accept(self, op):
        L = self.lanes
        op.word = op.addr // L
        op.words = (op.length + op.addr % L + L - 1) // L if op.length else 0
        op.n = 0
        op.k = 0
        op.errs = 0
        op.rbeats = []
        self.q.append(op)
        self.order.append(op)

    def unaccept(self, op):
        for q in (self.q, self.order):
            if op in q:
                q.remove(op)

    def abort(self):
        self.q.clear()
        self.order.clear()
        self.just.clear()
        self.cur = None

    def outstanding_bursts(self):
        return int(self.cur is not None)

    def lanes_of(self, op, k):
        s = max((op.word + k) * self.lanes, op.addr)
        e = min((op.word + k + 1) * self.lanes, op.addr + op.length)
        return [(a % self.lanes, a - op.addr) for a in range(s, e)]

    def on_setup(self, d):
        ctx = self.ctx
        q = self.q
        a = d["paddr"]
        while q and q[0].length == 0 and (q[0].n or a >= 64 or a // self.lanes != q[0].word):
            q.popleft()
        if not q:
            ctx.fail("transfer-unexpected", ["C10", "C20"], "transfer %r on the bus without an operation to carry out" % (d,))
            return
        op = q[0]
        k = op.n
        if d["pwrite"] != (op.kind == "W"):
            ctx.fail("transfer-direction", ["C10"], "%r: transfer %d is a %s" % (op, k, "write" if d["pwrite"] else "read"))
            return
        if a // self.lanes != op.word + k:
            ctx.fail("transfer-address", ["C10"], "%r: transfer %d is at 0x%x, expected word 0x%x" % (op, k, a, (op.word + k) * self.lanes))
            return
        want = int(op.kw.get("prot", 2))
        if "pprot" in d and d["pprot"] != want:
            ctx.fail("transfer-prot", ["C10"], "%r: transfer %d has prot %d, expected %d" % (op, k, d["pprot"], want))
            return
        if op.kind == "W":
            strb = mask = val = 0
            for lane, i in (self.lanes_of(op, k) if op.length else ()):
                strb |= 1 << lane
                mask |= 0xff << (8 * lane)
                val |= op.data[i] << (8 * lane)
            if d["pstrb"] != strb:
                ctx.fail("pstrb", ["C10"], "%r: transfer %d has strobes 0x%x, expected 0x%x" % (op, k, d["pstrb"], strb))
                return
            if d["pwdata"] & mask != val:
                ctx.fail("pwdata", ["C10"], "%r: transfer %d has data 0x%x, expected 0x%x" % (op, k, d["pwdata"], val))
                return
        op.n += 1
        self.cur = op
        if op.n > 1:
            ctx.count("cover.multi_word_op")
        if op.n >= op.words:
            q.popleft()

    def on_done(self, d):
        op = self.cur
        if op is None:
            return
        self.cur = None
        op.k += 1
        if d.get("pslverr", 0):
            op.errs += 1
        if op.kind == "R":
            op.rbeats.append(d["prdata"])

    def complete(self, op):
        self.just.append(op)
        return op.k >= op.words and self.cur is not op

    def settle(self):
        for op in self.just:
            for o in list(self.order):
                if o is op:
                    self.order.remove(o)
                    break
                if not o.done:
                    self.ctx.fail("issue-order", ["C10"], "%r completed before %r, issued earlier" % (op, o))
                    return
        self.just.clear()

    def read_data(self, op):
        out = bytearray(op.length)
        if op.length:
            for k, rd in enumerate(op.rbeats[:op.words]):
                for lane, i in self.lanes_of(op, k):
                    out[i] = ((rd or 0) >> (8 * lane)) & 0xff
        return bytes(out)

    def check(self, op, res):
        ctx = self.ctx
        if isinstance(res, tuple) and res and res[0] == "helper":
            return
        if isinstance(res, tuple) and res and res[0] == "words":
            _, vals, ws, bo = res
            data = self.read_data(op)
            exp = [int.from_bytes(data[i * ws:(i + 1) * ws], bo) for i in range(op.length // ws)]
            if list(vals) != exp:
                ctx.fail("words", ["C10"], "%r via %s returned %r, expected %r" % (op, op.helper, vals, exp))
            return
        if res.address != op.addr:
            ctx.fail("result", ["C10"], "%r returned address 0x%x" % (op, res.address))
            return
        if op.kind == "R":
            exp = self.read_data(op)
            if not isinstance(res.data, bytes) or res.data != exp or bytes(res) != exp:
                ctx.fail("rdata", ["C10"], "%r returned %s, the bus delivered %s" % (op, bytes(res.data).hex(), exp.hex()))
                return
        elif res.length != op.length:
            ctx.fail("result", ["C10"], "%r returned length %d" % (op, res.length))
            return
        if bool(op.errs) != (int(res.resp) != 0):
            ctx.fail("resp", ["C10"], "%r returned %s, %d of its transfers failed" % (op, res.resp, op.errs))


class ApbComp:
    """Native completer."""

    def __init__(self, ctx, cfg, wires, rst, scfg):
        self.ctx = ctx
        self.cfg = cfg
        self.c = scfg
        self.rng = ctx.rng("natcomp")
        self.rst = rst
        self.s = wires.s
        self.pat = Pat(ctx, scfg["pat"], "comp")
        self.left = None
        ctx.count("stub.native_apb_completer")
        self.idle(True)
        ctx.clk.on(1, self.edge)
        rst.on_assert.append(lambda: self.idle(False))

    def idle(self, init):
        s = self.s
        f = (lambda n, v: s[n].put(v)) if init else (lambda n, v: s[n].nba(v))
        r = {"low": 0, "high": 1, "x": None}[self.c["idle_ready"]]
        f("pready", r)
        junk = None if self.c["x_idle"] else 0
        f("prdata", junk)
        if "pslverr" in s:
            f("pslverr", junk)
        self.left = None

    def answer(self):
        s = self.s
        self.left = -1
        s["pready"].nba(1)
        if not s["pwrite"].ival:
            s["prdata"].nba(self.rng.getrandbits(self.cfg["lanes"] * 8))
        if "pslverr" in s:
            e = self.rng.random() < self.c["err_p"]
            if e:
                self.ctx.count("fault.error_response")
            s["pslverr"].nba(int(e))

    def edge(self):
        if self.rst.active:
            return
        s = self.s
        sel, en = s["psel"].ival, s["penable"].ival
        if self.left == -1:
            self.idle(False)          # the transfer happened at this edge
        if sel and not en:
            late = self.ctx.cycle >= self.ctx.scn["stall_until"]
            self.left = 0
            if not late and self.rng.random() < self.c["lat_p"]:
                self.left = self.rng.randint(1, self.c["lat_max"])
                self.ctx.count("fault.response_delayed")
            if self.left == 0 and not self.pat.next(True):
                self.answer()
            else:
                s["pready"].nba(0)
        elif sel and en and self.left is not None and self.left >= 0:
            self.left = max(0, self.left - 1) if self.ctx.cycle < self.ctx.scn["stall_until"] else 0
            if self.left == 0 and not self.pat.next(True):
                self.answer()


class ApbReq:
    """Native requester."""

    def __init__(self, ctx, cfg, wires, rst, lst, pat, x_idle):
        self.ctx = ctx
        self.cfg = cfg
        self.rst = rst
        self.s = wires.s
        self.l = lst
        self.i = 0
        self.x = x_idle
        self.st = "idle"
        self.pat = Pat(ctx, pat, "req")
        self.t = 0
        ctx.count("stub.native_apb_requester")
        self.req = wires.req
        for n in ("psel", "penable"):
            self.s[n].put(0)
        for n in self.req:
            self.s[n].put(None if x_idle else 0)
        ctx.clk.on(1, self.edge)
        rst.on_assert.append(self._rst)

    def _rst(self):
        if self.st != "idle":
            self.i += 1
        self.st = "idle"
        self.s["psel"].nba(0)
        self.s["penable"].nba(0)

    def busy(self):
        return self.i < len(self.l)

    def edge(self):
        if self.rst.active:
            return
        s = self.s
        if self.st == "setup":
            s["penable"].nba(1)
            self.st = "access"
            return
        if self.st == "access":
            if s["pready"].ival != 1:
                return
            self.i += 1
            self.st = "idle"
            s["penable"].nba(0)
            s["psel"].nba(0)
            if self.x:
                self.ctx.count("fault.x_on_idle_payload")
                for n in self.req:
                    s[n].nba(None)
            self.t = 0
        if self.i >= len(self.l):
            return
        b = self.l[self.i]
        if self.ctx.cycle < self.ctx.scn["stall_until"]:
            if self.t == 0:
                self.t = self.ctx.cycle + b.get("d", 0)
            if self.ctx.cycle < self.t or self.pat.next(True):
                return
        r = self.ctx.rng("req%s" % b["ds"])
        L = self.cfg["lanes"]
        wr = b["w"]
        strb = {"full": (1 << L) - 1, "zero": 0, "rand": r.getrandbits(L), "even": 0x5555555555 & ((1 << L) - 1)}[b["strb"]] if wr else 0
        v = {"paddr": b["addr"], "pwrite": wr, "pwdata": r.getrandbits(8 * L) if wr or not self.x else None, "pstrb": strb, "pprot": r.getrandbits(3)}
        for n in self.req:
            s[n].nba(v[n])
        s["psel"].nba(1)
        s["penable"].nba(0)
        self.st = "setup"


class ApbSlaveModel:
    """Reference for the library's completers."""

    def __init__(self, ctx, cfg, wires, rst, mem=None, size=None, target=None, port=0, props=("C10",), mprops=None):
        self.ctx = ctx
        self.cfg = cfg
        self.lanes = cfg["lanes"]
        self.mem = mem
        self.size = size or (1 << cfg["aw"])
        self.tm = target
        self.port = port
        self.props = list(props)
        self.mprops = list(mprops or props)
        self.cur = None
        self.touched = set()
        wires.cb_setup.append(self.on_setup)
        wires.cb_done.append(self.on_done)
        rst.on_assert.append(self.abort)

    def abort(self):
        self.cur = None
        if self.mem is not None:
            self.mem.abort(self.ctx.sim.time, self.port)
        if self.tm is not None:
            self.tm.abort()

    def pending(self):
        return int(self.cur is not None)

    def on_setup(self, d):
        L = self.lanes
        a = d["paddr"] // L * L
        bt = Beat()
        now = self.ctx.sim.time
        writes = []
        self.ctx.count("bus.slave_accesses")
        if d["pwrite"]:
            strb = d["pstrb"]
            by = d["pwdata"].to_bytes(L, "little")
            if self.mem is not None:
                for i in range(L):
                    if strb >> i & 1:
                        x = (a + i) % self.size
                        self.touched.add(x >> 12)
                        writes.append(self.mem.write(x, by[i], now, self.port))
            if self.tm is not None:
                i = 0
                while i < L:
                    j = i
                    while j < L and strb >> j & 1:
                        j += 1
                    if j > i:
                        self.tm.push("w", a + i, by[i:j], bt)
                    i = j + 1 if j == i else j
        elif self.tm is not None:
            self.tm.push("r", a, L, bt)
        self.cur = (a, bt, writes, now, d["pwrite"])

    def on_done(self, d):
        ctx = self.ctx
        if self.cur is None:
            return
        a, bt, writes, t, wr = self.cur
        self.cur = None
        now = ctx.sim.time
        for w in writes:
            w.end = now
        if self.tm is not None:
            self.tm.drop_skippable("w" if wr else "r", bt)
            if self.tm.ambiguous:
                return
            if bt.todo > 0:
                ctx.fail("early", self.props + ["C17"], "transfer at 0x%x was answered before the target was accessed" % a)
                return
        if "pslverr" in d and d["pslverr"] != int(bt.failed):
            ctx.fail("pslverr", self.props + ["C17"], "transfer at 0x%x answered with error status %d, expected %d" % (a, d["pslverr"], bt.failed))
            return
        if wr or bt.failed:
            return
        by = d["prdata"].to_bytes(self.lanes, "little")
        for i in range(self.lanes):
            if self.mem is not None:
                y = (a + i) % self.size
                if not self.mem.ok(y, by[i], t, now):
                    ctx.fail("mem-read", self.mprops, "read at 0x%x: byte 0x%x is %02x, possible %s" % (
                        a, y, by[i], [hex(c) for c in self.mem.candidates(y, t, now)]))
                    return
            elif by[i] != bt.res[i]:
                ctx.fail("target-data", self.props + ["C17"], "read at 0x%x: byte 0x%x is %02x, the target returned %02x" % (
                    a, a + i, by[i], bt.res[i]))
                return
