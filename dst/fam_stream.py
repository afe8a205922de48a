"""User-defined streams made with define_stream: library / native source, library / native sink, monitors."""
import cocotb
from cocotb.queue import QueueEmpty, QueueFull
from cocotbext.axi.stream import define_stream

from .common import *
from .hw import Rst, GenWatch, Pat, ChanMon, NatSource, NatSink, WaitWatch, rand_pat

NAME = "stream"
POOL = ["data", "addr", "user", "id", "flag", "len", "Tag", "a"]


def gen(rng, seed, prop):
    horizon = rng.choice([80, 150, 300])
    preset = {"C11": 0.95, "C21": 0.35, "C05": 0.4, "C01": 0.3, "C12": 0.35, "C14": 0.25, "C19": 0.25}.get(prop, 0.2)
    scn = gen_base(rng, seed, NAME, prop, reset=preset, horizon=horizon)
    mode = pick(rng, [("ll", 5), ("ln", 3), ("nl", 3)])
    if prop == "C05":
        mode = pick(rng, [("ll", 1), ("ln", 2)])
    names = rng.sample(POOL, rng.randint(1, 4))
    fields = [{"n": n, "w": pick(rng, [(1, 2), (rng.randint(2, 16), 3), (32, 1), (64, 1), (100, 1), (300, 0.4)]), "opt": int(rng.random() < 0.4),
               "present": 1, "sw": int(rng.random() < 0.3)} for n in names]
    for f in fields[1:]:
        if f["opt"] and rng.random() < 0.4:
            f["present"] = 0
    cfg = {"mode": mode, "fields": fields, "prefix": pick(rng, [("st", 3), ("", 1)]),
           # how the handshake signals are declared: in the list, as names only, or both
           "vn": pick(rng, [("valid", 4), ("svalid", 1), ("strobe", 1)]), "vh": pick(rng, [("list", 3), ("name", 2), ("both", 1)]),
           "rn": pick(rng, [("ready", 4), ("sready", 1), ("go", 1)]), "rh": pick(rng, [("list", 3), ("name", 2), ("both", 1), ("opt", 1)]),
           "ready": int(rng.random() < 0.85),
           "mon": rng.randint(1, 3) if prop == "C19" else (0 if rng.random() < 0.5 else 1)}
    if cfg["vn"] == "strobe" and cfg["vh"] == "list":
        cfg["vh"] = "both"
    if cfg["rn"] == "go" and cfg["rh"] in ("list", "opt"):
        cfg["rh"] = "both"
    if not cfg["ready"]:
        cfg["rh"] = pick(rng, [("none", 1), ("opt", 1)])
        cfg["rn"] = "ready"
    scn["cfg"] = cfg
    heavy = rng.random() < 0.5
    clients = []
    limits = [(-1, 4), (0, 1), (1, 2), (2, 2), (5, 1), (12, 0.5)]
    if mode in ("ll", "ln"):
        for c in range(pick(rng, [(1, 4), (2, 3), (3, 1)])):
            ops = []
            for _ in range(many(rng, 12)):
                op = gen_d(rng, 0.3 if heavy else 0.5)
                op["op"] = pick(rng, [("send", 5), ("send_nowait", 3)])
                op["ds"] = rng.getrandbits(20)
                op["how"] = rng.randint(0, 2)
                if not ops and rng.random() < 0.1:
                    ops.append({"op": "wait"})
                ops.append(op)
                if rng.random() < 0.15:
                    ops.append(dict(gen_d(rng), op="wait"))
            clients.append(ops)
        scn["src"] = {"pat": rand_pat(rng) if rng.random() < 0.5 else {"k": "none"}, "lim": pick(rng, limits)}
    else:
        scn["nat"] = [dict({"ds": rng.getrandbits(20)}, **({"d": rng.randint(0, 12)} if rng.random() < 0.4 else {})) for _ in range(many(rng, 25))]
    scn["natpat"] = rand_pat(rng, heavy)
    scn["x_idle"] = int(rng.random() < 0.4)
    scn["clients"] = clients

    def ctl(p, sink):
        out = []
        if rng.random() < p:
            for _ in range(rng.randint(1, 6)):
                op = gen_d(rng, 0.9, 0.4)
                op["op"] = pick(rng, [("pause", 4), ("pgen", 1), ("clear", 2), ("limit", 2)] + ([] if sink else [("wait", 1)]))
                if op["op"] == "pause":
                    op["v"] = int(rng.random() < 0.6)
                if op["op"] == "pgen":
                    op["pat"] = rand_pat(rng)
                if op["op"] == "limit":
                    op["v"] = rng.choice([-1, 1, 2, 5, 10])
                out.append(op)
        return out
    if mode in ("ll", "ln"):
        scn["ctl"] = ctl(0.6 if prop in ("C14", "C05", "C12", "C21") else 0.35, False)
    if mode in ("ll", "nl"):
        rx = []
        for c in range(pick(rng, [(1, 4), (2, 2), (3, 1)])):
            ops = []
            for _ in range(rng.randint(1, 8)):
                op = gen_d(rng, 0.5, 0.3)
                op["op"] = pick(rng, [("recv", 4), ("recv_nowait", 2), ("wait", 2)])
                if op["op"] == "wait":
                    op.update(gen_wait(rng))
                ops.append(op)
            rx.append(ops)
        scn["rx"] = rx
        scn["snk"] = {"pat": rand_pat(rng, heavy) if rng.random() < 0.7 else {"k": "none"}, "lim": pick(rng, limits)}
        scn["sctl"] = ctl(0.7 if prop in ("C14", "C12") else 0.35, True)
    scn["mon_rd"] = [gen_mon_rd(rng) for _ in range(cfg["mon"])]
    return normalise(scn)


def normalise(scn):
    beats = 0
    for ops in scn.get("clients", []):
        beats += len(ops)
    for f in scn.get("nat", []):
        beats += 1 + f.get("d", 0)
    d = max([sum_d([o]) for o in scn.get("clients", []) + scn.get("rx", []) + [scn.get("ctl", [])] + [scn.get("sctl", [])]] or [0])
    rl = sum(p["len"] + 10 for p in scn["rst"]["pulses"])
    lastr = max([p["at"] for p in scn["rst"]["pulses"]] or [0])
    nops = sum(len(o) for o in scn.get("clients", []) + scn.get("rx", []))
    assert any(f["present"] for f in scn["cfg"]["fields"])
    scn["max_cycles"] = scn["stall_until"] + lastr + rl + d * 2 + beats * 6 + nops * 10 + 200
    return scn


def without_monitors(scn):
    scn["cfg"]["mon"] = 0
    scn["mon_rd"] = []
    return scn


class Txn:
    __slots__ = ("idx", "d", "state")


def make_stream(cfg):
    sig = [f["n"] for f in cfg["fields"] if not f["opt"]]
    opt = [f["n"] for f in cfg["fields"] if f["opt"]]
    kw = {}
    if cfg["vh"] in ("list", "both"):
        sig.append(cfg["vn"])
    if cfg["vh"] in ("name", "both"):
        kw["valid_signal"] = cfg["vn"]
    if cfg["rh"] in ("list", "both"):
        sig.insert(0, cfg["rn"])
    elif cfg["rh"] == "opt":
        opt.append(cfg["rn"])
    if cfg["rh"] in ("name", "both"):
        kw["ready_signal"] = cfg["rn"]
    if opt:
        kw["optional_signals"] = opt
    w = {f["n"]: f["w"] for f in cfg["fields"] if f["sw"]}
    if w:
        kw["signal_widths"] = w
    keep = (list(sig), list(opt), dict(w))
    r = define_stream("My", signals=sig, **kw)
    return r, (keep == (sig, opt, w))


async def build(ctx):
    scn = ctx.scn
    cfg = scn["cfg"]
    mode = cfg["mode"]
    pre = cfg["prefix"] + "_" if cfg["prefix"] else ""
    payload = {f["n"]: ctx.sig(pre + f["n"], f["w"]) for f in cfg["fields"] if f["present"]}
    valid = ctx.sig(pre + cfg["vn"], 1)
    ready = ctx.sig(pre + cfg["rn"], 1) if cfg["ready"] else None
    rst = Rst(ctx, scn["rst"])
    lib_src = mode in ("ll", "ln")
    lib_snk = mode in ("ll", "nl")
    mon = ChanMon(ctx, "stream", valid, ready, payload, rst, lib_src=lib_src, lib_snk=lib_snk and ready is not None)
    (Bus, T, Source, Sink, Monitor), clean = make_stream(cfg)
    if not clean:
        ctx.fail("define", ["C21"], "define_stream changed the lists or the dictionary of its caller")
        return
    rkw = rst.kwargs()

    def bus():
        return Bus.from_prefix(ctx.top, cfg["prefix"]) if cfg["prefix"] else Bus.from_entity(ctx.top)

    # ----- reference
    txns = []
    nxt = [0]
    outstanding = [0]
    edge_time = [-1]
    wire = []               # completed transfers
    wws = []

    def advance():
        while nxt[0] < len(txns) and txns[nxt[0]].state != "queued":
            nxt[0] += 1

    def on_beat(d):
        ctx.count("bus.beats")
        wire.append(d)
        for ww in wws:
            ww.arrive()
        if lib_src:
            advance()
            if nxt[0] >= len(txns):
                ctx.fail("invented", ["C21"], "%r transferred but nothing is outstanding" % (d,))
                return
            t = txns[nxt[0]]
            if d != t.d:
                ctx.fail("mismatch", ["C21"], "transaction %d transferred as %r, expected %r" % (t.idx, d, t.d))
                return
            t.state = "sent"
            outstanding[0] -= 1
            advance()
    mon.cb.append(on_beat)

    class Rx:
        def __init__(self, name, props):
            self.name = name
            self.props = props
            self.pos = 0

        def got(self, o):
            if self.pos >= len(wire):
                ctx.fail("rx-invented", self.props, "%s returned %r, which was not transferred" % (self.name, o))
                return
            exp = wire[self.pos]
            self.pos += 1
            try:
                d = {n: int(getattr(o, n)) for n in payload}
            except ValueError as e:
                d = str(e)
            if d != exp or not isinstance(o, T):
                ctx.fail("rx-mismatch", self.props, "%s returned %r as transfer %d, expected %r" % (self.name, d, self.pos - 1, exp))

    src = snk = None
    if lib_src:
        src = Source(bus(), ctx.hclk, **rkw)
        if scn["src"]["lim"] >= 0:
            src.queue_occupancy_limit = scn["src"]["lim"]
        ctx.count("real.StreamSource")
    if lib_snk:
        snk = Sink(bus(), ctx.hclk, **rkw)
        if scn["snk"]["lim"] >= 0:
            snk.queue_occupancy_limit = scn["snk"]["lim"]
        rx = Rx("sink", ["C21"])
        snk_ww = WaitWatch(ctx, snk, "sink", ["C05"], None)
        wws.append(snk_ww)
        ctx.count("real.StreamSink")
    mons = []
    for i in range(cfg["mon"]):
        mons.append((Monitor(bus(), ctx.hclk, **rkw), Rx("monitor%d" % i, ["C19", "C21"])))
        ctx.count("real.StreamMonitor")
    rst.attach([src, snk] + [m for m, _ in mons])
    nat = None
    if not lib_src:
        nat = NatSource(ctx, "natsrc", valid, ready, payload, rst, scn["natpat"], scn["x_idle"])
        ctx.count("stub.native_stream_source")
    if not lib_snk:
        NatSink(ctx, "natsnk", valid, ready, payload, rst, lambda d: None, scn["natpat"])
        ctx.count("stub.native_stream_sink")

    def on_assert():
        if lib_src:
            q = src.count()
            live = [t for t in txns if t.state == "queued"]
            if not len(live) - 1 <= q <= len(live):
                ctx.fail("queue-count", ["C21", "C11"], "at reset: %d transactions outstanding but %d queued" % (len(live), q))
                return
            for t in live[:len(live) - q]:
                t.state = "discarded"
                outstanding[0] -= 1
                ctx.count("fault.transaction_lost_in_reset")
            advance()
    rst.on_assert.append(on_assert)

    # ----- checks at every edge
    ops_n = {"src": 0, "snk": 0}
    hist = {"src_p": 0, "src_u": 0, "snk_p": 0, "snk_u": 0}
    last = {"cycle": 0, "src": 0, "snk": 0, "v": 0, "out": None, "over": 0, "lim": None}
    pv = [0, 0]
    runs = {"rst": 0}
    waiters = []
    late = []

    def on_edge():
        edge_time[0] = ctx.sim.time
        pv[0] = valid.ival
        pv[1] = 1 if ready is None else ready.ival
    ctx.clk.on(1, on_edge)

    def oldest():
        advance()
        return txns[nxt[0]] if nxt[0] < len(txns) else None

    def settle():
        if late:
            for t in late:
                if t.state == "queued":
                    ctx.fail("wait-early", ["C05"], "wait() returned while transaction %d, accepted before, is outstanding" % t.idx)
                    return
            late.clear()
        if lib_src:
            exp = outstanding[0] == 0
            if src.idle() != exp:
                ctx.fail("idle", ["C05"], "source idle() is %s with %d transactions outstanding" % (src.idle(), outstanding[0]))
                return
            if exp:
                for w in waiters:
                    if not w[1]:
                        ctx.fail("wait-late", ["C05", "C12"], "wait() started in cycle %d still blocked although the source is idle" % w[0])
                        return
        if ctx.cycle == last["cycle"] or ctx.clk.ival != 1:
            return
        last["cycle"] = ctx.cycle
        if rst.active:
            runs["rst"] = 0
            for k in hist:
                hist[k] = 0
        else:
            runs["rst"] += 1
        if lib_src:
            if not rst.active and runs["rst"] > 1:
                if ops_n["src"] == last["src"] and src.pause:
                    hist["src_p"] += 1
                    hist["src_u"] = 0
                    if hist["src_p"] >= 2 and valid.ival == 1 and not (pv[0] == 1 and pv[1] == 0):
                        ctx.fail("paused-beat", ["C14"], "source started a transfer while paused")
                        return
                elif ops_n["src"] == last["src"]:
                    hist["src_u"] += 1
                    hist["src_p"] = 0
                    o = oldest()
                    if hist["src_u"] > 3 and runs["rst"] > 4 and o is not None and valid.ival != 1 and last["v"] == 0 and last["out"] is o:
                        ctx.fail("no-resume", ["C14", "C12", "C21"], "source not paused, %d transactions outstanding, but it drives nothing" % outstanding[0])
                        return
                else:
                    hist["src_p"] = hist["src_u"] = 0
                last["v"] = valid.ival
                last["out"] = oldest()
            last["src"] = ops_n["src"]
        if lib_snk:
            lim = snk.queue_occupancy_limit
            n = snk.count()
            if lim > 0 and ready is not None and n > lim and n > last["over"]:
                ctx.fail("over-limit", ["C14"], "sink holds %d transactions with a limit of %d" % (n, lim))
                return
            if snk.full() != (lim > 0 and n >= lim):
                ctx.fail("full", ["C14"], "full() is %s with %d transactions and limit %d" % (snk.full(), n, lim))
                return
            if ready is not None and not rst.active and runs["rst"] > 1:
                if ops_n["snk"] == last["snk"] and snk.pause:
                    hist["snk_p"] += 1
                    hist["snk_u"] = 0
                    if hist["snk_p"] >= 3 and ready.ival != 0:
                        ctx.fail("paused-ready", ["C14"], "sink still ready %d cycles after being paused" % hist["snk_p"])
                        return
                elif last["lim"] == (len(wire), rx.pos):
                    hist["snk_p"] = hist["snk_u"] = 0
                elif ops_n["snk"] == last["snk"] and not snk.full():
                    hist["snk_u"] += 1
                    hist["snk_p"] = 0
                    if hist["snk_u"] > 3 and runs["rst"] > 4 and valid.ival == 1 and pv == [1, 0] and ready.ival != 1:
                        ctx.fail("no-resume", ["C14", "C12", "C21"], "sink neither paused nor full but not ready")
                        return
                else:
                    hist["snk_p"] = hist["snk_u"] = 0
            last["snk"] = ops_n["snk"]
        ctx.states.add((min(outstanding[0], 4), pv[0], pv[1], min(snk.count(), 3) if snk else -1, bool(rst.active),
                        bool(snk.pause) if snk else bool(src.pause), snk.full() if snk else 0, src.full() if src else 0))
    ctx.sim.settle_hooks.append(settle)

    def notify(pat, key):
        for v in pat.gen():
            ops_n[key] += 1
            yield v
        ops_n[key] += 1

    gw = GenWatch(ctx)

    def set_pgen(comp, pc, key, site):
        ops_n[key] += 1
        p = Pat(ctx, pc, site)
        if pc["k"] == "none" or ctx.cycle >= p.until:
            gw.clear(comp)
            gw.manual(comp, False)
        else:
            gw.set(comp, notify(p, key), key)
    for comp, key in ((src, "src"), (snk, "snk")):
        if comp is not None:
            gw.watch(comp, key)
            if scn[key]["pat"]["k"] != "none":
                set_pgen(comp, scn[key]["pat"], key, key + "pat")

    async def quiet():
        while ctx.cycle < scn["stall_until"]:
            await ctx.cycles(1)

    async def do_wait():
        need = [t for t in txns if t.state == "queued"]
        w = [ctx.cycle, False]
        waiters.append(w)
        await src.wait()
        w[1] = True
        late.extend(need)
        ctx.count("ops.wait")

    async def client(ops):
        for op in ops:
            await ctx.delay(op)
            if op["op"] == "wait":
                await do_wait()
                continue
            r = ctx.rng("t%s" % op["ds"])
            vals = {f["n"]: r.getrandbits(f["w"]) for f in cfg["fields"]}
            t = Txn()
            t.state = "queued"
            if op["how"] == 0:
                o = T(**vals)
            elif op["how"] == 1:
                o = T()
                for n, v in vals.items():
                    setattr(o, n, v)
            else:
                k = cfg["fields"][r.randrange(len(cfg["fields"]))]["n"]      # fields not given are zero
                o = T(**{k: vals[k]})
                vals = {n: v if n == k else 0 for n, v in vals.items()}
            t.d = {n: vals[n] for n in payload}
            full = src.full()
            if op["op"] == "send_nowait":
                try:
                    src.send_nowait(o)
                except QueueFull:
                    ctx.count("cover.queue_full")
                    if not full:
                        ctx.fail("limit-wrong", ["C14", "C21"], "send_nowait refused although full() was False")
                        return
                    continue
                if full:
                    ctx.fail("limit-ignored", ["C14"], "send_nowait accepted although full() was True")
                    return
            else:
                if full:
                    ctx.count("cover.send_blocked")
                await src.send(o)
            if src.queue_occupancy_limit > 0 and src.count() > src.queue_occupancy_limit:
                ctx.fail("limit-ignored", ["C14"], "source holds %d transactions with a limit of %d" % (src.count(), src.queue_occupancy_limit))
                return
            t.idx = len(txns)
            txns.append(t)
            outstanding[0] += 1
            ctx.count("ops.sent")

    async def control(comp, ops, key):
        for i, op in enumerate(ops):
            await ctx.delay(op)
            o = op["op"]
            if o == "pause":
                ops_n[key] += 1
                gw.manual(comp, bool(op["v"]) and ctx.cycle < scn["stall_until"])
                ctx.count("fault.pause_toggle")
            elif o == "pgen":
                set_pgen(comp, op["pat"], key, "%spg%d" % (key, i))
                ctx.count("fault.pause_generator_replaced")
            elif o == "clear":
                ctx.count("fault.clear")
                q = comp.count()
                if key == "src":
                    live = [t for t in txns if t.state == "queued"]
                    if q > len(live) or len(live) - q > (1 if ctx.sim.time != edge_time[0] else 2):
                        ctx.fail("queue-count", ["C21"], "%d transactions outstanding but %d queued" % (len(live), q))
                        return
                    for t in live[len(live) - q:]:
                        t.state = "discarded"
                        outstanding[0] -= 1
                    comp.clear()
                    advance()
                else:
                    comp.clear()
                    rx.pos += q
                if comp.count() or not comp.empty():
                    ctx.fail("clear", ["C21", "C14"], "queue not empty after clear()")
                    return
            elif o == "wait":
                await do_wait()
            else:
                ctx.count("fault.limit_change")
                comp.queue_occupancy_limit = op["v"]
                if key == "snk":
                    last["over"] = comp.count() + 2
                    last["lim"] = len(wire), rx.pos
        await quiet()
        ops_n[key] += 1
        gw.clear(comp)
        gw.manual(comp, False)

    async def reader(ops):
        for op in ops:
            await ctx.delay(op)
            o = op["op"]
            if o == "wait":
                await snk_ww.wait(op["to"], op["u"])
            elif o == "recv":
                rx.got(await snk.recv())
            else:
                emp = snk.empty()
                try:
                    t = snk.recv_nowait()
                except QueueEmpty:
                    if not emp:
                        ctx.fail("recv", ["C21"], "recv_nowait raised QueueEmpty on a non-empty sink")
                        return
                    continue
                rx.got(t)
            ctx.count("ops.reads")
    done = [False]

    async def drainer():
        while True:
            await ctx.cycles(1)
            if ctx.cycle >= scn["stall_until"] or (done[0] and ctx.cycle % 3 == 0):
                while not snk.empty():
                    rx.got(snk.recv_nowait())

    async def mon_reader(m, r, c, ww):
        k = c.get("k", "poll")
        while True:
            if k == "recv":
                r.got(await m.recv())
                continue
            if k == "wait":
                await ww.wait(c["to"], c["u"])
            else:
                await ctx.cycles(c["every"])
            while not m.empty():
                r.got(m.recv_nowait())
            if k == "wait":        # (a wait that keeps timing out after 1 ps would poll a million times)
                await ctx.cycles(1)

    async def feed():
        for f in scn["nat"]:
            if f.get("d"):
                await ctx.cycles(f["d"])
            while rst.active:
                await ctx.cycles(1)
            r = ctx.rng("n%s" % f["ds"])
            nat.q.append({n: r.getrandbits(s.width) for n, s in payload.items()})
            while len(nat.q) > 3:
                await ctx.cycles(1)
    tasks = []
    rtasks = []
    if lib_src:
        tasks += [cocotb.start_soon(client(ops)) for ops in scn["clients"]]
        tasks.append(cocotb.start_soon(control(src, scn["ctl"], "src")))
    else:
        tasks.append(cocotb.start_soon(feed()))
    if lib_snk:
        tasks.append(cocotb.start_soon(control(snk, scn["sctl"], "snk")))
        rtasks = [cocotb.start_soon(reader(ops)) for ops in scn["rx"]]
        cocotb.start_soon(drainer())
    for (m, r), c in zip(mons, scn["mon_rd"]):
        ww = WaitWatch(ctx, m, r.name, ["C05"], None)
        wws.append(ww)
        rtasks.append(cocotb.start_soon(mon_reader(m, r, c, ww)))
    async def unpause():
        await quiet()
        for comp, key in ((src, "src"), (snk, "snk")):
            if comp is not None:
                ops_n[key] += 1
                gw.manual(comp, False)
    tasks.append(cocotb.start_soon(unpause()))
    phase = ["clients"]

    def timeout():
        ctx.fail("stuck", ["*"], "not finished after %d cycles (phase %s, %d transactions outstanding, sink holds %s)" % (
            ctx.cycle, phase[0], outstanding[0], snk.count() if snk else "-"))
    ctx.timeout_fn = timeout
    for i, t in enumerate(tasks):
        phase[0] = "task %d" % i
        await t
    phase[0] = "drain"
    last_pulse = max([p["at"] + p["len"] + 3 for p in scn["rst"]["pulses"]] or [0])
    while ctx.cycle < last_pulse or ctx.cycle < scn["stall_until"]:
        await ctx.cycles(1)
    done[0] = True
    while outstanding[0] > 0 or (nat is not None and (nat.q or nat.busy)):
        await ctx.cycles(1)
    await ctx.cycles(6)
    for ww in wws:
        ww.final()
    for t in rtasks:
        t.kill()
    await ctx.cycles(4)
    for c, r in ([(snk, rx)] if lib_snk else []) + mons:
        while not c.empty():
            r.got(c.recv_nowait())
        if r.pos != len(wire):
            ctx.fail("lost", r.props, "%d transactions were transferred, %s delivered %d" % (len(wire), r.name, r.pos))
            return
    if lib_src:
        for t in txns:
            if t.state == "queued":
                ctx.fail("lost", ["C21"], "transaction %d was never sent" % t.idx)
                return
