"""The session world: every operation of both applications, with the reference model of its outcome."""
import base64
import datetime
import logging
import os
import random
import re
import threading
import uuid

from .documented import member
from . import core
from .core import Core, End, Exp, HarnessError, Link, PipeM, Violation, clean, diff, psrpcore, seams, T, wire

from . import hostui as H
from . import pipes as P
from . import records as R
from . import values as V

class NoCipher(T.PSCryptoProvider):
    def encrypt(self, value):
        raise HarnessError("secure string in a reference round trip")

    decrypt = encrypt

    def register_key(self, key):
        pass


NO_CIPHER = NoCipher()
E_POOL, E_PIPE, E_CORE, E_VER, E_KEY = (
    psrpcore.InvalidRunspacePoolState, psrpcore.InvalidPipelineState, psrpcore.PSRPCoreError, psrpcore.InvalidProtocolVersion, psrpcore.MissingCipherError,
)
LIMITS = [22, 23, 24, 25, 30, 40, 43, 44, 61, 62, 63, 64, 82, 83, 84, 100, 128, 200, 256, 500, 777, 1000, 2048, 4096, 32768, 60000, 65536, 153600, 512000]
APARTMENT = [0, 1, 2]


def pick(items, i):
    items = list(items)
    return items[i % len(items)] if items else None


def poison_value(k):
    k = k % 9
    if k == 8:
        return [1, {"far": 2**63, "near": -(2**63)}]
    if k == 6:
        o = T.PSCustomObject(Good="value")
        T.add_script_property(o, "Bad", V.raising)
        return o
    if k == 7:
        return {"a": 1, V.Poison(): 2}
    if k == 0:
        return V.Poison()
    if k == 1:
        return ["before", 1, V.Poison(), "after"]
    if k == 2:
        return {"a": 1, "b": {"c": [V.PoisonText()]}}
    if k == 3:
        o = T.PSCustomObject(PSTypeName="My.Poison")
        T.add_note_property(o, "good", "value")
        T.add_note_property(o, "bad", V.Poison())
        return o
    if k == 4:
        q = T.PSStack()
        q.append(V.UserType(Alpha=1, Beta=V.Poison()))
        return q
    return T.PSList([T.PSCustomObject(), [V.PoisonText()]])


class LogSink(logging.Handler):
    """An application that runs the library with full logging; what it logs must be text, and hold no secret."""

    def __init__(self, world):
        super().__init__(logging.DEBUG)
        self.world = world
        self.texts = []

    def emit(self, record):
        try:
            self.texts.append(record.getMessage())
        except Exception as x:
            self.world.fail({"C11"}, "a log line of the library cannot be written: %s" % clean(x))


class SessionWorld(Core):
    def __init__(self, cfg):
        super().__init__(cfg)
        if "logged" in cfg:
            logger = logging.getLogger("psrpcore")
            logger.handlers = [LogSink(self)] if cfg["logged"] else []
            logger.setLevel(logging.DEBUG if cfg["logged"] else logging.CRITICAL)
            logger.propagate = False
        r = random.Random("cfg:%s" % cfg["env"])
        self.r = r
        self.size = cfg.get("size", 8)
        self.secure = cfg.get("secure", False)
        self.l_cs, self.l_sc = self.make_link("c"), self.make_link("s")
        self.objs = []
        self.needles = {}
        self.key_spellings = {}
        self.real_calls = 0
        # server configuration
        self.apd_spec = None
        self.apd_extra = {}
        apd = None
        if r.random() < 0.6:
            self.apd_spec = [[gn, V.gen_value(r, 1, 6, self.secure)] for gn in sorted({V.gen_name(r) for _ in range(r.randrange(4))})]
            if r.random() < 0.3:
                self.apd_spec.append(["PSVersionTable", r.choice([("str", "str", "custom"), ["dict", "dict", [[("str", "str", "PSVersion"), ("ver", [7, 1])]], []]])])
            apd = {k: V.build(v) for k, v in self.apd_spec}
        sp = psrpcore.ServerRunspacePool(application_private_data=apd)
        self.s = End("s", sp, "BeforeOpen")
        self.s.our_ver = tuple(cfg.get("sver", (2, 3)))
        self.set_versions(self.s)
        self.s.rpid = uuid.UUID(int=0)
        self.c = None
        self.new_client(None, cfg.get("cver", (2, 3)))

    # ------------------------------------------------------------ set up
    def make_link(self, side):
        """The transport of the data that an end ("c" or "s") sends."""
        return Link(self.cfg["mode"])

    def set_versions(self, end):
        if end.our_ver != (2, 3):
            end.pool.our_capability.protocolversion = T.PSVersion("%d.%d" % tuple(end.our_ver))

    def new_client(self, rpid, ver):
        r = random.Random("client:%s:%d" % (self.cfg["env"], self.seq))
        kw = {}
        self.args_spec = None
        if r.random() < 0.5:
            self.args_spec = ["dict", "dict", [[("str", "str", k), V.gen_value(r, 1, 6, False)] for k in sorted({V.gen_name(r) for _ in range(r.randrange(4))})], []]
            kw["application_arguments"] = V.build(self.args_spec)
        self.host_spec = None
        if r.random() < 0.5:
            self.host_spec = P.gen_host(r)
            kw["host"] = P.build_host(self.host_spec)
        self.apartment, self.thread = 2, 0
        if r.random() < 0.5:
            self.apartment = r.choice(APARTMENT)
            kw["apartment_state"] = member(T.ApartmentState, self.apartment)
        if r.random() < 0.5:
            self.thread = r.randrange(4)
            kw["thread_options"] = member(T.PSThreadOptions, self.thread)
        lo, hi = 1, 1
        if r.random() < 0.6:
            lo, hi = r.choice([(1, 1), (1, 5), (2, 7), (3, 3)])
            kw["min_runspaces"], kw["max_runspaces"] = lo, hi
        if rpid is not None:
            kw["runspace_pool_id"] = rpid
        elif r.random() < 0.3:
            kw["runspace_pool_id"] = uuid.UUID(int=r.getrandbits(128))
        pool = psrpcore.ClientRunspacePool(**kw)
        if "runspace_pool_id" in kw and pool.runspace_pool_id != kw["runspace_pool_id"]:
            self.fail({"C06", "C12"}, "the client pool ignored the id it was given")
        old = self.c
        self.c = End("c", pool, "BeforeOpen")
        self.c.our_ver = tuple(ver)
        self.set_versions(self.c)
        self.c.rpid = pool.runspace_pool_id
        self.c.min, self.c.max = lo, hi
        return old

    def expect_apd(self):
        items = V.expect(["dict", "dict", [[("str", "str", k), v] for k, v in self.apd_spec or []], []])[2]
        table = [[["PSString", "PSRemotingProtocolVersion"], ["PSVersion", "2.3"]], [["PSString", "SerializationVersion"], ["PSVersion", "1.1.0.1"]]]
        for i, (k, _) in enumerate(self.apd_spec or []):
            if k == "PSVersionTable":
                v = items[i][1]
                if v[0] == "dict":
                    v[2].extend(table)
                break
        else:
            items.append([V.st("PSVersionTable"), ["dict", "PSDict", table, []]])
        return items + [[V.st(k), V.st(v)] for k, v in self.apd_extra.items()]

    # ------------------------------------------------------------ invariants after every operation
    def check_state(self, why, tags=()):
        t = set(tags)
        if why == "deliver":
            t.add("C03")
        for end in (self.c, self.s):
            p = end.pool
            st = p.state.name
            if st != end.state:
                self.fail({"C06"} | t, "after %s the %s is %s, expected %s" % (why, self.who(end), st, end.state))
            if (p.min_runspaces, p.max_runspaces) != (end.min, end.max):
                self.fail({"C10"} | t, "after %s the limits of the %s are %s..%s, expected %s..%s" % (why, self.who(end), p.min_runspaces, p.max_runspaces, end.min, end.max))
            if p.runspace_pool_id != end.rpid:
                self.fail({"C06", "C12"} | t, "after %s the %s has another pool id" % (why, self.who(end)))
            if set(p.pipeline_table) != set(end.pipes):
                self.fail({"C07"} | t, "after %s the pipelines of the %s are not those expected" % (why, self.who(end)))
            for pid, m in end.pipes.items():
                if p.pipeline_table[pid] is not m.real:
                    self.fail({"C07"} | t, "after %s the %s holds another object for a pipeline" % (why, self.who(end)))
                if m.real.state.name != m.state:
                    self.fail({"C07"} | t, "after %s a pipeline of the %s is %s, expected %s" % (why, self.who(end), m.real.state.name, m.state))

    def fingerprint(self, op):
        b = lambda n: 0 if n == 0 else 1 if n < 3 else 2
        return (
            op, self.c.state, self.s.state, tuple(sorted(m.state for m in self.c.pipes.values())), tuple(sorted(m.state for m in self.s.pipes.values())), b(len(self.c.out)), b(len(self.s.out)),
            b(self.l_cs.pending()), b(self.l_sc.pending()), bool(self.c.rx), bool(self.s.rx), self.c.key, self.s.key_req, b(len(self.c.pending)), b(len(self.s.asks)), self.disrupted, self.failed,
        )

    # ------------------------------------------------------------ stepping
    def apply(self, op):
        seams.SEAM.ctx = self.ctx
        try:
            self.steps += 1
            self.op_clock(7)
            name = op[0]
            self.states.add(hash(self.fingerprint(name)))
            self.count("op:" + name)
            getattr(self, "op_" + name)(*op[1:])
            self.check_state(name, self.state_tags(name))
        finally:
            seams.SEAM.ctx = None

    def state_tags(self, name):
        if name in ("disconnect", "reconnect", "begin_disconnect", "s_connect", "crash", "connect", "reattach"):
            return {"C12"}
        return set()

    def finish(self):
        """Liveness: once the faults stop everything queued is delivered within a bounded number of steps."""
        seams.SEAM.ctx = self.ctx
        try:
            self.op_settle(0)
            self.check_state("settling")
            if self.c.deferred and self.cfg.get("secure") and self.can_key():
                self.op_exchange_key(0)
                self.op_settle(0)
            self.scan_log()
            self.at_end()
        finally:
            seams.SEAM.ctx = None

    def can_key(self):
        return self.c.state == "Opened" and self.s.state == "Opened" and not self.c.key_req

    def at_end(self):
        pass

    # ------------------------------------------------------------ transport operations
    def end(self, side):
        return self.c if side % 2 == 0 else self.s

    def op_flush(self, side, limit):
        self.flush(self.end(side), None if limit <= 0 else max(22, limit))

    def op_bad_flush(self, side, limit):
        e = self.end(side)
        self.fault("limit_too_small")
        self.call("data_to_send(%d)" % (limit % 22), lambda: e.pool.data_to_send(limit % 22), {"C02", "C08"}, refuse=(ValueError, {"C02", "C08"}), failing=True)

    def op_deliver(self, side, which, n):
        self.deliver(self.end(side), which, n)

    def op_deliver_nothing(self, side):
        """The transport reads zero bytes."""
        end = self.end(side)
        if end.state != "BeforeOpen":
            self.fault("empty_segment")
            self.call("receive_data", lambda: end.pool.receive_data(psrpcore.PSRPPayload(b"", psrpcore.StreamType.default, None)), {"C03"})

    def op_pump(self, side, n):
        for _ in range(max(1, n)):
            if not self.pump(self.end(side)):
                break

    def op_settle(self, limit, senders=None):
        amount = None if limit <= 0 else max(22, limit)
        budget = 500000
        while True:
            moved = False
            for e in (self.c, self.s):
                while (senders is None or e in senders) and self.flush(e, amount):
                    moved = True
                    budget -= 1
                    if budget < 0:
                        self.fail({"C02", "C01"}, "the queue of the %s did not drain" % self.who(e))
                    if budget % 512 == 0:
                        break
                while self.deliver(e, 0, 0):
                    moved = True
                while self.pump(e):
                    moved = True
            if not moved:
                break
        for e in (self.c, self.s):
            if e.rx:
                raise HarnessError("bytes left over after settling")
        self.deadline_pumps += 1

    def op_clock(self, ms):
        try:
            self.ctx.now += datetime.timedelta(milliseconds=ms)
        except OverflowError:
            return
        if ms != 7:
            self.fault("clock_jump" if abs(ms) > 60000 else "clock_step")
        self.time_covered += abs(ms) / 1000.0

    def op_user_fault(self, k):
        self.ctx.user_fault = (None, KeyError, OSError, ModuleNotFoundError)[k % 4]
        if self.ctx.user_fault:
            self.fault("getuser_" + self.ctx.user_fault.__name__)

    # ------------------------------------------------------------ pool life cycle
    def pool_op(self, what, end, fn, valid, noop=(), tags=("C06",), refuse=None, failing=False, args=()):
        """Gate by pool state.  Returns 'noop', True or False."""
        tags = set(tags)
        if end.state in noop:
            self.call(what, fn, tags)
            return "noop"
        if refuse is None and end.state not in valid:
            refuse = (E_POOL, tags | {"C06"})
            failing = False
        ok, _ = self.call(what, fn, tags, refuse=refuse, failing=failing, args=args)
        return ok

    def op_open(self, poison):
        c = self.c
        if poison and self.cfg.get("poison") and c.state == "BeforeOpen":
            saved = dict(c.pool.application_arguments)
            c.pool.application_arguments["poison"] = poison_value(poison)
            self.fault("unserializable")
            self.call("open", c.pool.open, {"C06", "C08"}, refuse=(Exception, {"C08"}), failing=True)
            c.pool.application_arguments.clear()
            c.pool.application_arguments.update(saved)
            return
        if self.pool_op("open", c, c.pool.open, ("BeforeOpen",), ("Opened",)) is not True:
            return
        c.state = "Opening"
        self.capability(c)
        lo, hi = c.min, c.max
        want = {"min": lo, "max": hi, "thread": self.thread, "apartment": self.apartment, "host": P.expect_host(self.host_spec), "args": V.expect(self.args_spec)[2] if self.args_spec else []}
        canon_args = lambda d: V.canon(d)[2]
        got = lambda ev: {"min": int(ev.min_runspaces), "max": int(ev.max_runspaces), "thread": int(ev.ps_thread_options.value), "apartment": int(ev.apartment_state.value), "host": P.canon_host(ev.host_info), "args": canon_args(ev.application_arguments)}

        def effect(e, ev):
            s = self.s
            s.min, s.max = lo, hi
            p = s.pool
            g = {"min": int(p.min_runspaces), "max": int(p.max_runspaces), "thread": int(p.thread_options.value), "apartment": int(p.apartment_state.value), "host": P.canon_host(p.host), "args": canon_args(p.application_arguments)}
            if g != want:
                self.fail({"C06"}, "the server did not adopt what the client announced: %s" % diff(want, g))
            self.private_data()
            self.set_server_state("Opened")

        self.queue(c, "InitRunspacePool", want, got, effect)

    def capability(self, end):
        ver = end.our_ver
        want = ["%d.%d" % tuple(ver), "2.0", "1.1.0.1"]
        got = lambda ev: [str(ev.protocol_version), str(ev.ps_version), str(ev.serialization_version)]

        def effect(e, ev):
            peer = self.peer(end)
            peer.their_ver = ver
            cap = peer.pool.their_capability
            g = [str(cap.protocolversion), str(cap.PSVersion), str(cap.SerializationVersion)]
            if g != want:
                self.fail({"C06", "C13"}, "the %s recorded other versions than its peer announced: %s" % (self.who(peer), diff(want, g)))
            if peer is self.s and peer.state != "Connecting":
                peer.rpid = e.rpid
                self.capability(peer)

        return self.queue(end, "SessionCapability", want, got, effect)

    def private_data(self):
        def effect(e, ev):
            c = self.c
            if not (e.secrets and not c.key):
                g = V.canon(c.pool.application_private_data)[2]
                if g != e.want:
                    self.fail({"C06", "C12"}, "the client did not keep the private data: %s" % diff(e.want, g))
            if c.state == "Connecting":
                c.state = "Opened"

        self.queue(self.s, "ApplicationPrivateData", self.expect_apd(), lambda ev: V.canon(ev.data)[2], effect, secrets=V.secrets([v for _, v in self.apd_spec or []]))

    def set_server_state(self, state, reason=None):
        s = self.s
        s.state = state
        if state in ("Disconnecting", "Disconnected", "Connecting"):
            return
        want = [state, None if reason is None else R.expect_error(reason)]
        got = lambda ev: [ev.state.name, None if ev.reason is None else R.canon_error(ev.reason)]

        def effect(e, ev):
            self.c.state = state

        self.queue(s, "RunspacePoolState", want, got, effect, tags={"C14"} if reason is not None else (), secrets=V.secrets(reason["target"]) if reason and reason["target"] else ())

    def op_connect(self):
        """The client's own connect; only used on a fresh client or one whose pool is disconnected at both ends."""
        c = self.c
        if c.state in ("BeforeOpen", "Disconnected") and self.s.state != "Connecting":
            return
        if self.pool_op("connect", c, c.pool.connect, ("BeforeOpen", "Disconnected"), ("Opened",), tags=("C06", "C12")) is not True:
            return
        c.state = "Connecting"
        cap = self.capability(c)
        conn = self.queue(c, "ConnectRunspacePool", [None, None], lambda ev: [ev.min_runspaces, ev.max_runspaces], lambda e, ev: self.accept_connect(e))
        if self.c.rpid != self.s.rpid:
            cap.refused = {"C12"}
            conn.refused = {"C12"}

    def accept_connect(self, e):
        s = self.s
        lo, hi = s.min, s.max = e.want[0] or s.min, e.want[1] or s.max

        def effect(e, ev):
            self.c.min, self.c.max = lo, hi

        self.queue(s, "RunspacePoolInitData", [lo, hi], lambda ev: [int(ev.min_runspaces), int(ev.max_runspaces)], effect)
        self.private_data()
        self.set_server_state("Opened")

    def key_request_in_flight(self):
        return any(e.kind == "PublicKeyRequest" for e in list(self.s.out) + list(self.c.inbox)) or self.flying("PublicKeyRequest")

    def flying(self, kind):
        """Sent by the server, not yet processed by the client."""
        return any(e.kind == kind and e.extra != "done" for e in self.s.by_oid.values())

    def op_close(self, side):
        e = self.end(side)
        if e is self.c and self.key_request_in_flight():
            return
        tags = {"C06"}
        if e.pipes:
            self.call("close", e.pool.close, tags, refuse=(E_CORE, {"C06"}))
            return
        if self.pool_op("close", e, e.pool.close, ("Closed", "Closing", "Opened")) is True:
            self.moved(e, "Closed")

    def moved(self, e, state, reason=None):
        if e is self.s:
            self.set_server_state(state, reason)
        else:
            e.state = state

    def op_begin_close(self, side):
        e = self.end(side)
        if e.state != "Opened" or (e is self.c and self.key_request_in_flight()):
            return
        self.call("begin_close", e.pool.begin_close, {"C06"})
        self.moved(e, "Closing")

    def op_begin_disconnect(self, side):
        e = self.end(side)
        if e.state != "Opened" or (e is self.c and self.key_request_in_flight()):
            return
        self.call("begin_disconnect", e.pool.begin_disconnect, {"C06", "C12"})
        self.moved(e, "Disconnecting")
        self.disrupted = True
        self.fault("disconnect")

    def op_disconnect(self, side):
        e = self.end(side)
        if e is self.c and self.key_request_in_flight():
            return
        if self.pool_op("disconnect", e, e.pool.disconnect, ("Opened", "Disconnecting", "Disconnected"), tags=("C06", "C12")) is True:
            self.moved(e, "Disconnected")
            self.disrupted = True
            self.fault("disconnect")

    def op_reconnect(self, side):
        e = self.end(side)
        if self.pool_op("reconnect", e, e.pool.reconnect, ("Disconnected", "Opened"), tags=("C06", "C12")) is True:
            self.moved(e, "Opened")

    def op_set_broken(self, seed, poison):
        s = self.s
        if poison and self.cfg.get("poison") and s.state in ("Opened", "Broken"):
            rec = T.ErrorRecord(Exception=T.NETException("boom"), CategoryInfo=T.ErrorCategoryInfo(), TargetObject=poison_value(poison))
            self.fault("unserializable")
            self.call("set_broken", lambda: s.pool.set_broken(rec), {"C08"}, refuse=(Exception, {"C08"}), failing=True)
            return
        r = random.Random("b:%s" % seed)
        d = R.gen_error(r, self.size, False)
        rec = R.build_error(d)
        if self.pool_op("set_broken", s, lambda: s.pool.set_broken(rec), ("Broken", "Opened"), tags=("C06", "C14"), args=[rec]) is True:
            self.set_server_state("Broken", d)

    # ------------------------------------------------------------ disconnected operation, new clients
    def op_s_connect(self):
        """Accepting connections is a no-op on an open pool and refused otherwise; op_crash and op_reattach do the real thing."""
        s = self.s
        if s.state == "Disconnected":
            return
        self.pool_op("connect", s, s.pool.connect, ("Disconnected",), ("Opened",), tags=("C06", "C12"))

    def reset_server_rx(self):
        s = self.s
        s.rx.clear()
        s.partial.clear()
        s.asks.clear()
        s.key_req = False
        self.l_cs = self.make_link("c")

    def op_crash(self, cut, outputs, wrong, ver, seed):
        """The client process dies with any part of its data in flight delivered; later a new client connects."""
        s, c = self.s, self.c
        if s.state not in ("Opened", "Disconnected", "Disconnecting") or c.state in ("BeforeOpen", "Opening"):
            return
        r = random.Random("crash:%s" % seed)
        self.disrupted = True
        self.fault("client_crash")
        # whatever the client still manages to hand to its transport
        for _ in range(r.randrange(3)):
            self.flush(c, r.choice([None, 30, 64, 200]))
        if cut == 0:
            while self.deliver(s, 0, 0):
                pass
        elif self.l_cs.mode == "stream":
            n = self.l_cs.pending()
            if n:
                k = 1 + cut % n
                self.deliver(s, 0, k)
                if k < n:
                    self.fault("truncated_stream")
        else:
            for _ in range(cut % 4):
                self.deliver(s, r.randrange(5), 0)
        while self.pump(s):
            if r.random() < 0.3:
                break
        # the transport accepts what the server has queued for the dead client
        while self.pump(s) or self.flush(s, None):
            pass
        self.drop_client()
        if s.state != "Disconnected":
            if s.state == "Opened" and r.random() < 0.5:
                self.op_begin_disconnect(1)
            self.op_disconnect(1)
        # operations that need an open pool are refused meanwhile
        if r.random() < 0.5:
            self.op_send_event(r.randrange(10**9), 0)
        if r.random() < 0.5:
            self.op_host_call(-1, r.randrange(10**9), 0)
        # pipelines live on
        for _ in range(outputs % 4):
            self.op_s_life(r.randrange(10), r.randrange(10**9))
        self.op_s_connect_new()
        if wrong % 3 == 1:
            self.fault("wrong_pool_connect")
            self.new_client(uuid.UUID(int=r.getrandbits(128)), (2, 3) if ver == 0 else (2, r.randrange(4)))
            self.l_cs, self.l_sc = self.make_link("c"), self.make_link("s")
            self.op_connect()
            while self.flush(self.c, r.choice([None, 40, 100])):
                pass
            while self.deliver(s, 0, 0):
                pass
            while self.pump(s):
                pass
            if s.pool.state.name != "Connecting" or s.pool.runspace_pool_id != s.rpid:
                self.fail({"C12"}, "a connection to another pool changed the server to %s" % s.pool.state.name)
            self.drop_client()
            if r.random() < 0.5:
                self.call("begin_disconnect", s.pool.begin_disconnect, {"C12"})
                s.state = "Disconnecting"
                self.op_disconnect(1)
                self.op_s_connect_new()
        self.new_client(s.rpid, (2, 3) if ver == 0 else (2, r.randrange(4)))
        self.l_cs, self.l_sc = self.make_link("c"), self.make_link("s")
        self.op_connect()
        # the new client takes over pipelines it knows of
        for pid, m in list(s.pipes.items()):
            if m.state == "Running" and r.random() < 0.7:
                p = psrpcore.ClientPowerShell(self.c.pool, pipeline_id=pid)
                p.state = T.PSInvocationState.Running
                self.c.pipes[pid] = PipeM(p, pid, "attached", "Running", None)
        if r.random() < 0.6:
            self.op_settle(0)
        self.count("new_clients")

    def op_s_connect_new(self):
        s = self.s
        if s.state != "Disconnected":
            raise HarnessError("server not disconnected")
        self.call("connect", s.pool.connect, {"C12", "C06"})
        s.state = "Connecting"
        self.reset_server_rx()

    def drop_client(self):
        """The client and everything on its way is gone."""
        c = self.c
        c.out.clear()
        c.pipes.clear()
        c.deferred.clear()
        self.l_cs, self.l_sc = self.make_link("c"), self.make_link("s")
        for e in self.s.by_oid.values():
            e.extra = "done"

    def op_reattach(self, limit, keep=0):
        """Both ends disconnected and nothing under way: the same client uses connect to come back.  With keep != 0
        what the client has not begun to send stays where it is and follows."""
        s, c = self.s, self.c
        if keep > 1 and s.state == c.state == "Opened" and c.out and c.out[0].nfrag == 0:
            self.op_disconnect(0)
            self.op_disconnect(1)
        if s.state != "Disconnected" or c.state != "Disconnected":
            return
        if keep and c.out and c.out[0].nfrag == 0:
            self.op_settle(limit, (s,))
            self.count("reattached_with_unsent_messages")
        else:
            self.op_settle(limit)
        if s.state != "Disconnected" or c.state != "Disconnected":
            return
        self.op_s_connect_new()
        self.op_connect()

    # ------------------------------------------------------------ session key
    def op_exchange_key(self, fault):
        c = self.c
        if c.key_req:
            self.call("exchange_key", c.pool.exchange_key, {"C11"})
            return
        if c.state != "Opened":
            self.call("exchange_key", c.pool.exchange_key, {"C11"}, refuse=(E_POOL, {"C06", "C11"}))
            return
        if fault and self.cfg.get("poison"):
            self.ctx.keygen_fault = 1
            self.fault("keygen")
            self.call("exchange_key", c.pool.exchange_key, {"C11", "C08"}, refuse=(Exception, {"C08", "C11"}), failing=True)
            self.ctx.keygen_fault = 0
            return
        self.call("exchange_key", c.pool.exchange_key, {"C11"})
        self.client_key_sent()

    def client_key_sent(self):
        c = self.c
        c.key_req = True

        def effect(e, ev):
            self.s.key_req = True

            def got_key(e2, ev2):
                self.c.key = True
                self.unlock(self.c)

            self.queue(self.s, "EncryptedSessionKey", True, lambda v: isinstance(v.key, bytes) and len(v.key) > 32, got_key)

        self.queue(c, "PublicKey", True, lambda v: isinstance(v.key, bytes) and len(v.key) > 32, effect)

    def op_request_key(self):
        s, c = self.s, self.c
        if s.key_req:
            self.call("request_key", s.pool.request_key, {"C11"})
            return
        if s.state == "Opened" and c.state not in ("Opened", "Opening", "Connecting"):
            return
        if s.state != "Opened":
            self.call("request_key", s.pool.request_key, {"C11"}, refuse=(E_POOL, {"C06", "C11"}))
            return
        self.call("request_key", s.pool.request_key, {"C11"})
        s.key_req = True

        def effect(e, ev):
            e.extra = "done"
            if not self.c.key_req:
                self.client_key_sent()

        self.queue(s, "PublicKeyRequest", None, None, effect)

    def note_secrets(self, secrets):
        """Remember what must not appear on the wire: the alphanumeric core of each planted secret."""
        for x in secrets or ():
            if isinstance(x, str):
                for run in re.findall("[a-zA-Z0-9]{16,}", x):
                    self.needles[run] = spellings(run.encode("utf-8")) | spellings(run.encode("utf-16-le"))

    def on_sent(self, end, e, m):
        """No secret and no session key in any outgoing message, in any of the usual spellings."""
        if not self.cfg.get("needle"):
            return
        self.note_secrets(e.secrets)
        self.scan_log()
        data = bytes(e.data)
        for run, sp in self.needles.items():
            for x in sp:
                if x in data:
                    self.fail({"C11"}, "the content of a secure string is readable in a %s message of the %s" % (e.kind, self.who(end)))
        for k in self.ctx.urandom_log:
            if len(k) >= 24:
                if k not in self.key_spellings:
                    self.key_spellings[k] = spellings(k)
                for x in self.key_spellings[k]:
                    if x in data:
                        self.fail({"C11"}, "the session key is readable in a %s message of the %s" % (e.kind, self.who(end)))
        while len(self.needles) > 24:
            del self.needles[next(iter(self.needles))]
        self.count("messages_scanned")

    def scan_log(self):
        for h in logging.getLogger("psrpcore").handlers:
            data = "\n".join(h.texts).encode("utf-8", "surrogatepass")
            self.count("log_lines", len(h.texts))
            h.texts = []
            if not self.cfg.get("needle"):
                return
            for run, sp in self.needles.items():
                if any(x in data for x in sp):
                    self.fail({"C11"}, "the content of a secure string is readable in the log of the library")
            for k in self.ctx.urandom_log:
                if len(k) >= 24:
                    if k not in self.key_spellings:
                        self.key_spellings[k] = spellings(k)
                    if repr(k)[2:-1].encode() in data or any(x in data for x in self.key_spellings[k]):
                        self.fail({"C11"}, "the session key is readable in the log of the library")

    def op_twin(self, seed):
        """A second session in the same process: other keys, and secure strings can be handed on between the two."""
        s, c = self.s, self.c
        if not (s.state == "Opened" and c.state == "Opened" and (c.key or c.key_req) and self.cfg.get("secure")):
            return
        r = random.Random("twin:%s" % seed)
        secret = "".join(r.choice(NEEDLE_ALPHA) for _ in range(24))
        spec = ("secure", secret)
        t = SessionWorld({"env": "%s/twin/%s" % (self.cfg["env"], seed), "mode": "stream", "secure": True, "size": 4})
        try:
            for op in (["open", 0], ["settle", 0], ["exchange_key", 0], ["settle", 0]):
                t.apply(op)
            if not c.key:  # in the middle of our own exchange, which goes on afterwards
                self.count("twin_exchanges_between")
                return
            texts = []
            for w in (self, t):
                seams.SEAM.ctx = w.ctx
                v = V.build(spec)
                w.call("send_event", lambda: w.s.pool.send_event(1, "twin", message_data=v), {"C11"}, args=[v])
                e = w.queue(w.s, "UserEvent", V.expect(spec), lambda ev: V.canon(ev.event.MessageData), tags={"C11"}, secrets=[secret])
                while w.s.out:
                    w.flush(w.s, None)
                texts.append(re.findall(rb"<SS[^>]*>([^<]+)</SS>", bytes(e.data)))
            if not texts[0] or not texts[1]:
                self.fail({"C11"}, "a secure string was sent without its encrypted text")
            if texts[0] == texts[1]:
                self.fail({"C11", "C17"}, "two sessions encrypt a secure string to the same text: they share their key")
            seams.SEAM.ctx = t.ctx
            for obj, e0 in list(c.bag) + list(s.bag):
                if e0.want and e0.want[0] == "secure" and not any(d is e0 for d, _ in c.deferred):
                    t.call("relay", lambda: t.s.pool.send_event(2, "relay", message_data=obj), {"C11", "C17"}, args=[obj])
                    t.queue(t.s, "UserEvent", e0.want, lambda ev: V.canon(ev.event.MessageData), tags={"C11", "C17"}, secrets=e0.secrets)
                    self.count("relayed_secrets")
            t.apply(["settle", 0])
            self.count("twin_sessions")
        except Violation as v:
            raise Violation(set(v.tags) | {"C11"}, "second session: %s" % v.what if not v.what.startswith("two sessions") else v.what)
        finally:
            seams.SEAM.ctx = self.ctx

    # ------------------------------------------------------------ runspace limits
    def new_ci(self, ci, end, what, tags):
        if isinstance(ci, bool) or not isinstance(ci, int):
            self.fail(tags, "%s returned %r instead of an identifier" % (what, ci))
        return int(ci)

    def client_request(self, what, kind, fn, tags, want, got, value=None, refuse=None):
        c = self.c
        if refuse is None and c.state != "Opened":
            refuse = (E_POOL, {"C06"} | tags)
        ok, ci = self.call(what, fn, tags, refuse=refuse)
        if not ok:
            return
        ci = self.new_ci(ci, c, what, tags)
        if ci in c.reqs:
            self.fail(tags, "%s returned the identifier of another outstanding request" % what)
        c.reqs[ci] = (kind, value)

        def effect(e, ev):
            self.s.asks[ci] = (kind, value)

        self.queue(c, kind, [ci] + want, lambda ev: [int(ev.ci)] + got(ev), effect)

    def op_get_avail(self):
        self.client_request("get_available_runspaces", "GetAvailableRunspaces", self.c.pool.get_available_runspaces, {"C10"}, [], lambda ev: [])

    def op_reset(self):
        c = self.c
        refuse = None
        if (c.their_ver or (2, 0)) < (2, 3):
            refuse = (E_VER, {"C13"})
        self.client_request("reset_runspace_state", "ResetRunspaceState", c.pool.reset_runspace_state, {"C10", "C13"}, [], lambda ev: [], refuse=refuse)

    def op_set_limit(self, which, value):
        c = self.c
        name = "max" if which % 2 else "min"
        value = value % 9 + 1
        fn = c.pool.set_max_runspaces if name == "max" else c.pool.set_min_runspaces
        what = "set_%s_runspaces" % name
        if c.state not in ("BeforeOpen", "Opened"):
            return
        if value % 3 == 1 and which & 4 and self.cfg.get("poison"):
            # a limit that no message can hold
            far = pick([2**31, -(2**31) - 1, 2**63], value)
            self.fault("unserializable")
            if c.state == "Opened":
                self.call(what, lambda: fn(far), {"C10"}, refuse=(ValueError, {"C08"}), failing=True)
            else:
                self.call(what, lambda: fn(far), {"C10"})
                self.call("open", c.pool.open, {"C08", "C06"}, refuse=(ValueError, {"C08"}), failing=True)
        if c.state == "BeforeOpen" or getattr(c, name) == value:
            ok, ci = self.call(what, lambda: fn(value), {"C10"})
            if ci is not None:
                self.fail({"C10"}, "%s returned %r although nothing has to be requested" % (what, ci))
            setattr(c, name, value)
            return
        kind = "SetMaxRunspaces" if name == "max" else "SetMinRunspaces"
        self.client_request(what, kind, lambda: fn(value), {"C10"}, [value], lambda ev: [int(ev.count)], value)

    def op_answer(self, i, code, n):
        s = self.s
        code = code % 8
        ci = pick(sorted(s.asks), i)
        if code == 7 or ci is None:
            # nothing like this was asked
            bad = max(list(s.asks) + [0]) + 1 + n % 50
            self.call("runspace_availability_response", lambda: s.pool.runspace_availability_response(bad, True), {"C10"}, refuse=(E_CORE, {"C10"}))
            return
        kind, value = s.asks[ci]
        is_set = kind != "GetAvailableRunspaces"
        if code == 6:
            wrong = pick([0, 1, 5], n) if is_set else pick(["1", None, 1.5], n)
            self.call("runspace_availability_response", lambda: s.pool.runspace_availability_response(ci, wrong), {"C10"}, refuse=(E_CORE, {"C10"}))
            return
        if code == 5 and not is_set and self.cfg.get("poison"):
            far = pick([2**63, -(2**63) - 1, 2**70], n)
            self.fault("unserializable")
            self.call("runspace_availability_response", lambda: s.pool.runspace_availability_response(ci, far), {"C10"}, refuse=(ValueError, {"C08"}), failing=True)
        resp = (code < 4) if is_set else pick([0, 1, 3, n % 2**31, 2147483647], n)
        self.call("runspace_availability_response", lambda: s.pool.runspace_availability_response(ci, resp), {"C10"})
        del s.asks[ci]
        if is_set and resp and value is not None:
            setattr(s, "max" if kind == "SetMaxRunspaces" else "min", value)

        def effect(e, ev):
            req = self.c.reqs.pop(ci, None)
            if req is not None and resp is True and req[1] is not None:
                setattr(self.c, "max" if req[0] == "SetMaxRunspaces" else "min", req[1])

        if is_set:
            self.queue(s, "RunspaceAvailability", [ci, resp], lambda ev: [int(ev.ci), bool(ev.success)], effect, event="SetRunspaceAvailability")
        else:
            self.queue(s, "RunspaceAvailability", [ci, resp], lambda ev: [int(ev.ci), int(ev.count)], effect, event="GetRunspaceAvailability")
        if code == 1:
            self.call("runspace_availability_response", lambda: s.pool.runspace_availability_response(ci, resp), {"C10"}, refuse=(E_CORE, {"C10"}))

    # ------------------------------------------------------------ values
    def spec(self, seed, size=None, depth=2):
        size = self.size if size is None else size
        if self.cfg.get("needle"):
            return needle_value(random.Random("n:%s" % seed), size)
        if size > BULK:
            return bulk_value(random.Random("bulk:%s" % seed), size)
        return V.value(seed, depth, size, self.secure)

    def key_refusal(self, end, secrets):
        """A client without the key cannot send secure strings."""
        if secrets and not end.key:
            return (E_KEY, {"C11", "C08"})
        return None

    def ref_canon(self, obj):
        """What an object that the model has no specification of must arrive as: its stand-alone round trip, now."""
        return V.canon(T.deserialize(T.serialize(obj, NO_CIPHER), cipher=NO_CIPHER))

    # ------------------------------------------------------------ user events
    def op_send_event(self, seed, poison):
        s = self.s
        if poison and self.cfg.get("poison") and s.state == "Opened":
            k = poison % 3
            kw = [{"sender": poison_value(poison)}, {"source_args": [1, poison_value(poison)]}, {"message_data": poison_value(poison)}][k]
            self.fault("unserializable")
            self.call("send_event", lambda: s.pool.send_event(1, "x", **kw), {"C14", "C08"}, refuse=(Exception, {"C08"}), failing=True, args=list(kw.values()))
            return
        r = random.Random("ue:%s" % seed)
        d = R.gen_user_event(r, self.size, self.secure)
        kw = R.user_event_args(d)
        lo, now = datetime.datetime.now(), self.ctx.now
        ok, _ = self.call("send_event", lambda: s.pool.send_event(**kw), {"C14"}, refuse=None if s.state == "Opened" else (E_POOL, {"C06", "C12"} if self.disrupted else {"C06"}), args=[kw[k] for k in ("sender", "source_args", "message_data") if k in kw], mut=self.mut(seed))
        if not ok:
            return
        hi = datetime.datetime.now()
        nil = ["nil"]
        want = {
            "event_identifier": d["event_identifier"], "source_identifier": V.st(d["source_identifier"]), "sender": V.expect(d["sender"]) if "sender" in d else nil,
            "source_args": [V.expect(a) for a in d.get("source_args", [])], "message_data": V.expect(d["message_data"]) if "message_data" in d else nil,
            "time_generated": V.expect(d["time_generated"]) if "time_generated" in d else None, "computer": V.st(d["computer"]) if "computer" in d else V.st(self.ctx.node), "runspace_id": str(s.rpid),
        }
        e = self.queue(s, "UserEvent", want, lambda ev: R.canon_user_event(ev.event), secrets=V.secrets([d[k] for k in ("sender", "source_args", "message_data") if k in d]))
        e.ok = self.defaults(want, d, now, lo, hi)

    def defaults(self, want, d, now, lo, hi):
        """What the library fills in itself may come from the simulated environment or from the real one."""

        def ok(got):
            g = dict(got)
            if "time_generated" not in d:
                if not R.time_ok(g["time_generated"], now, lo, hi):
                    return "the generated time is not the time of writing"
                g["time_generated"] = None
            for k, real in seams.REAL.items():
                if k in want and k not in d and g[k] in (real() if callable(real) else [V.st(x) for x in real]) and not (k == "user" and self.ctx.user_fault):
                    g[k] = want[k]
            return None if g == want else diff(want, g)

        return ok

    def mut(self, seed):
        return seed if self.cfg.get("snapshot") and seed % 2 else None

    # ------------------------------------------------------------ client pipelines
    def op_new_pipe(self, seed, meta):
        c = self.c
        if len(c.pipes) >= self.cfg.get("max_pipes", 4):
            return
        if c.state != "Opened" and (self.cfg["mode"] != "stream" or c.state in ("BeforeOpen", "Connecting")):
            return
        r = random.Random("np:%s" % seed)
        kw = {}
        if r.random() < 0.3:
            kw["pipeline_id"] = uuid.UUID(int=r.getrandbits(128))
        if meta:
            d = P.gen_metadata(r, self.size, self.secure)
            args = P.metadata_args(d)
            ok, p = self.call("ClientGetCommandMetadata", lambda: psrpcore.ClientGetCommandMetadata(c.pool, **args, **kw), {"C15"})
            m = PipeM(p, p.pipeline_id, "meta", "NotStarted", d)
        else:
            o = P.gen_options(r, self.size)
            ok, p = self.call("ClientPowerShell", lambda: psrpcore.ClientPowerShell(c.pool, **P.options_args(o), **kw), {"C15"})
            m = PipeM(p, p.pipeline_id, "ps", "NotStarted", P.PipeDef(o, self.apartment))
        if kw and p.pipeline_id != kw["pipeline_id"]:
            self.fail({"C07"}, "the pipeline ignored the id it was given")
        if m.pid in c.pipes or m.pid in self.s.pipes:
            self.fail({"C07", "C17"}, "two pipelines have the same id")
        c.pipes[m.pid] = m

    def cpipe(self, i):
        return pick(self.c.pipes.values(), i)

    def op_build(self, i, seed, n):
        m = self.cpipe(i)
        if m is None or m.kind != "ps":
            return
        r = random.Random("bs:%s" % seed)
        for _ in range(max(1, n)):
            try:
                self.count("build:" + P.build_step(r, m.real, m.definition, self.size, self.secure))
            except Exception as e:
                self.fail({"C15"}, "building a pipeline raised %s" % clean(e))

    def op_p_start(self, i, poison):
        m, c = self.cpipe(i), self.c
        if m is None or m.kind == "attached":
            return
        if self.cfg["mode"] != "stream" and c.state != "Opened":
            return
        tags = {"C07", "C15"}
        startable = m.state in ("NotStarted", "Stopped", "Completed")
        if m.kind == "ps":
            defs = m.definition
            secrets = V.secrets([v for cmd in defs.cmds for _, v in cmd["params"]])
        else:
            defs = m.definition
            secrets = V.secrets(defs["arguments"] or [])
        refuse, failing = None, False
        if not startable:
            refuse = (E_PIPE, {"C07"})
        elif m.kind == "ps" and not defs.cmds:
            refuse, failing = (ValueError, {"C15", "C08"}), True
        else:
            refuse = self.key_refusal(c, secrets)
            failing = refuse is not None
            if refuse is None and poison and self.cfg.get("poison") and m.kind == "ps":
                bad = poison_value(poison)
                cmd = pick(m.real.metadata.commands, poison)
                cmd.add_parameter("poison", bad)
                self.fault("unserializable")
                self.call("start", m.real.start, {"C08"}, refuse=(Exception, {"C08"}), failing=True)
                cmd.parameters.pop()
                return
        ok, _ = self.call("start", m.real.start, tags, refuse=refuse, failing=failing)
        if not ok:
            return
        m.state = "Running"
        m.started += 1
        ver = c.their_ver or (2, 0)
        if m.kind == "ps":
            kind, want, canon = "CreatePipeline", defs.expect(ver), P.canon_powershell
        else:
            kind, want, canon = "GetCommandMetadata", P.expect_metadata(defs), P.canon_metadata

        def effect(e, ev):
            sp = self.s.pipes.get(e.pid)
            if sp is None:
                return
            g = canon(sp.real.metadata)
            if g != want:
                self.fail(e.tags, "the definition the server keeps differs: %s" % diff(want, g))

        self.queue(c, kind, want, lambda ev: canon(ev.pipeline), effect, pid=m.pid, secrets=secrets)

    def before_event(self, end, e):
        """The server application creates the pipeline object when its transport announces a new pipeline."""
        if end is self.s and e.kind in ("CreatePipeline", "GetCommandMetadata") and e.pid not in self.s.pipes:
            if self.cfg.get("orphans") and e.pid.int % 5 == 0:
                # an application that does not want this pipeline: the request is reported as an error, nothing else happens
                e.refused = {"C07"}
                self.fault("unwanted_pipeline")
                return
            try:
                p = psrpcore.ServerPipeline(self.s.pool, e.pid)
            except Exception as x:
                self.fail({"C07"}, "ServerPipeline raised %s" % clean(x))
            self.s.pipes[e.pid] = PipeM(p, e.pid, "server")

    def gate_running(self, m):
        return None if m.state == "Running" else (E_PIPE, {"C07"})

    def op_p_send(self, i, seed, size, poison):
        m, c = self.cpipe(i), self.c
        if m is None:
            return
        self.send_value("send", m, c, m.real.send, "PipelineInput", seed, size, poison)

    def send_value(self, what, m, end, fn, kind, seed, size, poison):
        refuse = self.gate_running(m)
        if refuse is None and poison and self.cfg.get("poison"):
            v = poison_value(poison)
            self.fault("unserializable")
            self.call(what, lambda: fn(v), {"C08"}, refuse=(Exception, {"C08"}), failing=True, args=[v])
            return
        spec = self.spec(seed, size)
        secrets = V.secrets(spec)
        failing = False
        if refuse is None:
            refuse = self.key_refusal(end, secrets)
            failing = refuse is not None
        v = V.build(spec)
        ok, _ = self.call(what, lambda: fn(v), HOME_VALUE, refuse=refuse, args=[v], mut=self.mut(seed) if refuse is None else None, failing=failing)
        if ok:
            self.queue(end, kind, V.expect(spec), lambda ev: V.canon(ev.data), self.keep, pid=m.pid, secrets=secrets)

    def keep(self, e, ev):
        if e.foreign:
            return
        end = self.s if e.kind == "PipelineInput" else self.c
        end.bag.append((ev.data, e))
        del end.bag[:-6]

    def op_p_eof(self, i):
        m = self.cpipe(i)
        if m is None:
            return
        ok, _ = self.call("send_eof", m.real.send_eof, {"C07"}, refuse=self.gate_running(m))
        if ok:
            self.queue(self.c, "EndOfPipelineInput", pid=m.pid)

    def op_p_close(self, side, i):
        end = self.end(side)
        m = pick(end.pipes.values(), i)
        if m is None:
            return
        refuse = None if m.state in ("NotStarted", "Stopped", "Stopping", "Completed", "Failed") else (E_PIPE, {"C07"})
        ok, _ = self.call("close", m.real.close, {"C07"}, refuse=refuse)
        if ok:
            del end.pipes[m.pid]

    def op_begin_stop(self, side, i):
        end = self.end(side)
        m = pick(end.pipes.values(), i)
        if m is None:
            return
        ok, _ = self.call("begin_stop", m.real.begin_stop, {"C07"}, refuse=None if m.state in ("Running", "Stopping") else (E_PIPE, {"C07"}))
        if ok:
            m.state = "Stopping"
            if end is self.s:
                self.pipe_state(m, "Stopping", None)

    # ------------------------------------------------------------ server pipelines
    def spipe(self, i):
        return pick(self.s.pipes.values(), i)

    def pipe_state(self, m, state, reason):
        def effect(e, ev):
            cm = self.c.pipes.get(e.pid)
            if cm is not None:
                cm.state = state

        got = lambda ev: [ev.state.name, None if ev.reason is None else stop_reason(ev.reason)]
        self.queue(self.s, "PipelineState", [state, reason], got, effect, pid=m.pid, tags={"C14"} if reason else ())

    def op_sp_start(self, i):
        m = self.spipe(i)
        if m is None:
            return
        ok, _ = self.call("start", m.real.start, {"C07"}, refuse=None if m.state in ("NotStarted", "Stopped", "Completed") else (E_PIPE, {"C07"}))
        if ok:
            m.state = "Running"
            self.pipe_state(m, "Running", None)

    def op_sp_stop(self, i):
        m = self.spipe(i)
        if m is None:
            return
        if m.state == "Stopped":
            self.call("stop", m.real.stop, {"C07"})
            return
        ok, _ = self.call("stop", m.real.stop, {"C07"}, refuse=None if m.state in ("Running", "Stopping") else (E_PIPE, {"C07"}))
        if ok:
            m.state = "Stopped"
            self.pipe_state(m, "Stopped", STOP_REASON)

    def op_sp_complete(self, i):
        m = self.spipe(i)
        if m is None:
            return
        self.call("complete", m.real.complete, {"C07"})
        m.state = "Completed"
        self.pipe_state(m, "Completed", None)

    def op_write(self, i, seed, size, poison):
        m = self.spipe(i)
        if m is None:
            return
        self.send_value("write_output", m, self.s, m.real.write_output, "PipelineOutput", seed, size, poison)

    def op_buffer_cell(self, i, n):
        """A console cell as an ordinary object.  Its cell type is a listed finding; everything else is checked."""
        m = self.spipe(i)
        if m is None or m.state != "Running":
            return
        fg, bg, kind = n % 16, n // 16 % 16, n % 3
        cell = T.BufferCell(Character=chr(33 + n % 90), ForegroundColor=member(T.ConsoleColor, fg), BackgroundColor=member(T.ConsoleColor, bg), BufferCellType=member(T.BufferCellType, kind))
        want = V.canon(cell)
        self.call("write_output", lambda: m.real.write_output(cell), HOME_VALUE, args=[cell])
        e = self.queue(self.s, "PipelineOutput", want, lambda ev: V.canon(ev.data), pid=m.pid)

        def ok(got):
            if got == want:
                return None
            known = [want[:5] + [want[5][:3] + [["BufferCellType", ["enum", "ControlKeyStates", kind]]]] + want[6:]]
            if got in known:
                self.known.add(BUFFER_CELL)
                return None
            return diff(want, got)

        e.ok = ok

    def op_echo(self, side, i, j):
        """Send back an object that was received, over another pipeline perhaps."""
        end = self.end(side)
        m = pick(end.pipes.values(), i)
        if m is None or m.state != "Running" or not end.bag:
            return
        obj, e0 = end.bag[j % len(end.bag)]
        if e0.secrets:
            if not end.key or not isinstance(obj, T.PSSecureString) or e0.want[0] != "secure":
                return
            want = e0.want
        else:
            want = self.ref_canon(obj)
        fn, kind = (m.real.send, "PipelineInput") if end is self.c else (m.real.write_output, "PipelineOutput")
        self.call("echo", lambda: fn(obj), {"C05", "C07"}, args=[obj])
        self.queue(end, kind, want, lambda ev: V.canon(ev.data), None, pid=m.pid, secrets=e0.secrets)
        self.count("echo")

    def keep_record(self, e, ev):
        self.c.records.append((ev.record, e))
        del self.c.records[:-4]

    def op_relay(self, i, j, how):
        """Send a record that was received once more: as an output or input object (merged streams, a pipeline of records), or again as a record."""
        end = self.c if how % 3 == 0 else self.s
        m = pick(end.pipes.values(), i)
        if m is None or m.state != "Running" or not self.c.records:
            return
        rec, e0 = self.c.records[j % len(self.c.records)]
        kind = e0.kind
        if e0.secrets or e0.ok is not None or kind == "InformationRecord" and end is self.s and (self.s.state == "Connecting" or (self.s.their_ver or (2, 0)) < (2, 3)):
            return
        want, args = dict(e0.want), [rec]
        inv = want.get("inv")
        if inv:
            want["inv"] = inv = dict(inv)
            inv["BoundParameters"] = self.ref_canon(rec.InvocationInfo.BoundParameters)[2]
            inv["UnboundArguments"] = self.ref_canon(rec.InvocationInfo.UnboundArguments)[2]
        if kind == "ErrorRecord":
            want["target"], canon = self.ref_canon(rec.TargetObject), R.canon_error
        elif kind == "InformationRecord":
            want["message_data"], canon = self.ref_canon(rec.MessageData), R.canon_information
        else:
            canon = R.canon_progress if kind == "ProgressRecord" else R.canon_informational
        out, fn = "PipelineOutput", m.real.send if end is self.c else m.real.write_output
        call = lambda: fn(rec)
        if end is self.c:
            out = "PipelineInput"
        elif how % 3 == 2 and kind not in ("ProgressRecord", "InformationRecord"):
            out, args = kind, []
            if kind == "ErrorRecord":
                call = lambda: m.real.write_error(rec.Exception, rec.CategoryInfo, rec.TargetObject, rec.FullyQualifiedErrorId, rec.ErrorDetails, rec.InvocationInfo, rec.PipelineIterationInfo, rec.ScriptStackTrace)
            else:
                fn = getattr(m.real, "write_" + kind[:-len("Record")].lower())
                call = lambda: fn(rec.Message, rec.InvocationInfo, rec.PipelineIterationInfo)
        self.call("relay", call, {"C14"}, args=args)
        get = (lambda ev: canon(ev.record)) if out == kind else lambda ev: canon(ev.data)
        e = self.queue(end, out, want, get, None, pid=m.pid, tags={"C14"})
        e.record, e.mask = kind, e0.mask
        self.count("relay:" + out)

    def op_record(self, i, kind, seed, poison):
        """Error, debug, verbose, warning, progress and information records."""
        m, s = self.spipe(i), self.s
        if m is None:
            return
        r = random.Random("rec:%s" % seed)
        kind = ("error", "debug", "verbose", "warning", "progress", "information")[kind % 6]
        size = self.size
        refuse = self.gate_running(m)
        if kind == "information":
            if s.state == "Connecting":
                return
            if (s.their_ver or (2, 0)) < (2, 3):
                refuse = (E_VER, {"C13"})
        if refuse is None and poison and self.cfg.get("poison") and kind in ("error", "information"):
            v = poison_value(poison)
            self.fault("unserializable")
            if kind == "error":
                self.call("write_error", lambda: m.real.write_error(T.NETException("x"), target_object=v), {"C08"}, refuse=(Exception, {"C08"}), failing=True)
            else:
                self.call("write_information", lambda: m.real.write_information(v, "src"), {"C08"}, refuse=(Exception, {"C08"}), failing=True)
            return
        mut = self.mut(seed) if refuse is None else None
        if kind == "error":
            d = R.gen_error(r, size, self.secure)
            exc, kw = R.build_exc(d), R.error_args(d)
            ok, _ = self.call("write_error", lambda: m.real.write_error(exc, **kw), {"C14"}, refuse=refuse, args=[exc] + [kw[k] for k in sorted(kw)], mut=mut)
            if ok:
                self.queue(s, "ErrorRecord", R.expect_error(d), lambda ev: R.canon_error(ev.record), self.keep_record, pid=m.pid, secrets=V.secrets(d["target"] or []))
        elif kind == "progress":
            d = R.gen_progress(r, size)
            ok, _ = self.call("write_progress", lambda: m.real.write_progress(**R.progress_args(d)), {"C14"}, refuse=refuse)
            if ok:
                self.queue(s, "ProgressRecord", R.expect_progress(d), lambda ev: R.canon_progress(ev.record), self.keep_record, pid=m.pid)
        elif kind == "information":
            d = R.gen_information(r, size, self.secure)
            kw = R.information_args(d)
            lo, now = datetime.datetime.now(), self.ctx.now
            ok, _ = self.call("write_information", lambda: m.real.write_information(**kw), {"C14", "C13"}, refuse=refuse, args=[kw[k] for k in ("message_data", "tags") if k in kw], mut=mut)
            hi = datetime.datetime.now()
            if ok:
                user = "Unknown" if self.ctx.user_fault else self.ctx.user
                want = {
                    "message_data": V.expect(d["message_data"]), "source": V.st(d["source"]), "time_generated": V.expect(d["time_generated"]) if "time_generated" in d else None,
                    "tags": [V.st(t) for t in d.get("tags", [])], "user": V.st(d.get("user", user)), "computer": V.st(d.get("computer", self.ctx.node)), "process_id": d.get("process_id", os.getpid()),
                    "native_thread_id": d.get("native_thread_id", threading.get_native_id()), "managed_thread_id": d.get("managed_thread_id", 0),
                }
                e = self.queue(s, "InformationRecord", want, lambda ev: R.canon_information(ev.record), self.keep_record, pid=m.pid, secrets=V.secrets(d["message_data"]))
                e.mask = True
                e.ok = self.defaults(want, d, now, lo, hi)
        else:
            d = R.gen_informational(r, size)
            fn = getattr(m.real, "write_" + kind)
            kw = R.informational_args(d)
            ok, _ = self.call("write_" + kind, lambda: fn(d["msg"], **kw), {"C14"}, refuse=refuse, args=[kw[k] for k in sorted(kw)], mut=mut)
            if ok:
                self.queue(s, kind.capitalize() + "Record", R.expect_informational(d), lambda ev: R.canon_informational(ev.record), self.keep_record, pid=m.pid)

    def op_s_life(self, i, seed):
        """Any one thing a server pipeline does on its own."""
        r = random.Random("sl:%s" % seed)
        k = r.randrange(10)
        if k < 5:
            self.op_write(i, r.randrange(10**9), self.size, 0)
        elif k < 7:
            self.op_record(i, r.randrange(6), r.randrange(10**9), 0)
        elif k == 7:
            self.op_sp_complete(i)
        elif k == 8:
            self.op_sp_stop(i)
        else:
            self.op_sp_start(i)

    # ------------------------------------------------------------ host calls
    def op_host_call(self, i, seed, poison):
        """i < 0: from the pool, else from a server pipeline.  A third of the calls use the typed helper."""
        s = self.s
        r = random.Random("hc:%s" % seed)
        m = None
        if i >= 0:
            m = self.spipe(i)
            if m is None:
                return
        conn = m.real if m else s.pool
        refuse = None
        if m is not None and m.state != "Running":
            refuse = (E_PIPE, {"C07", "C09"})
        elif s.state != "Opened":
            refuse = (E_POOL, {"C06", "C09"})
        tags = {"C09"}
        typed = r.random() < self.cfg.get("typed", 0.3)
        if refuse is None and poison and self.cfg.get("poison"):
            params = [1, poison_value(poison)]
            self.fault("unserializable")
            self.call("host_call", lambda: conn.host_call(T.HostMethodIdentifier.Write1, params), {"C08"}, refuse=(Exception, {"C08"}), failing=True, args=[params])
            params2 = [poison_value(poison)]
            self.call("host_call", lambda: conn.host_call(T.HostMethodIdentifier.ReadLine, params2), {"C08"}, refuse=(Exception, {"C08"}), failing=True)
            return
        secrets = ()
        if typed:
            name, args, kw, method, want = H.gen_request(r, self.size)
            req = psrpcore.ServerHostRequestor(conn)
            ok, ci = self.call("ServerHostRequestor." + name, lambda: getattr(req, name)(*args, **kw), {"C09", "C16"}, refuse=refuse, args=list(args), mut=self.mut(seed) if refuse is None else None)
            tags |= {"C16"}
            if ok and method not in H.NON_VOID:
                if ci is not None:
                    self.fail({"C16"}, "%s returned %r" % (name, ci))
                ci = -100
        else:
            method = r.choice(H.PLAIN)
            specs = [V.gen_value(r, 1, self.size, self.secure) for _ in range(r.randrange(4))]
            want = [hx(V.expect(x)) for x in specs]
            secrets = V.secrets(specs)
            params = [V.build(x) for x in specs]
            none = not params and r.random() < 0.5
            ok, ci = self.call("host_call", lambda: conn.host_call(T.HostMethodIdentifier[method], None if none else params), tags, refuse=refuse, args=params, mut=self.mut(seed) if refuse is None else None)
        if not ok:
            return
        void = method not in H.NON_VOID
        if void:
            if ci != -100:
                self.fail({"C09", "C16"}, "%s expects no answer but carries identifier %r" % (method, ci))
        else:
            ci = self.new_ci(ci, s, "host call", {"C09"})
            if ci == -100 or ci in s.calls:
                self.fail({"C09"}, "host call %s got identifier %d, which is not its own" % (method, ci))
            s.calls[ci] = (method, m.pid if m else None)

        def effect(e, ev):
            if not void:
                self.c.pending[ci] = (method, e.pid)

        got = lambda ev: [int(ev.ci), ev.method_identifier.name, int(ev.method_identifier.value), [H.hc(p) if typed else hx(V.canon(p)) for p in ev.method_parameters]]
        e = self.queue(s, "PipelineHostCall" if m else "RunspacePoolHostCall", [ci, method, H.METHOD_ID[method], want], got, effect, pid=m.pid if m else None, tags=tags, secrets=secrets)
        e.form = "typed" if typed else None

    def op_host_resp(self, i, how, seed, poison):
        c = self.c
        r = random.Random("hr:%s" % seed)
        how = how % 10
        if how == 9 or not c.pending:
            bad = -100 if seed % 2 else max(list(c.pending) + c.answered + [0]) + 1000
            if how == 8 and c.answered:
                bad = pick(c.answered, seed)
                if bad in c.pending:
                    return
            if c.state != "Opened":
                self.call("host_response", lambda: c.pool.host_response(bad, 1), {"C09"}, refuse=(E_POOL, {"C06"}))
            else:
                self.call("host_response", lambda: c.pool.host_response(bad, 1), {"C09"}, refuse=(Exception, {"C09"}))
            return
        ci = pick(sorted(c.pending), i)
        method, pid = c.pending[ci]
        conn, refuse = c.pool, None
        m = c.pipes.get(pid)
        if m is not None and r.random() < 0.5:
            conn = m.real
            if m.state != "Running":
                refuse = (E_PIPE, {"C07", "C09"})
        if refuse is None and c.state != "Opened":
            refuse = (E_POOL, {"C06", "C09"})
        if refuse is None and poison and self.cfg.get("poison"):
            v = poison_value(poison)
            self.fault("unserializable")
            self.call("host_response", lambda: conn.host_response(ci, v), {"C08"}, refuse=(Exception, {"C08"}), failing=True, args=[v])
            return
        mut = self.mut(seed)
        typed = None
        if method not in H.PLAIN or r.random() < self.cfg.get("typed", 0.3):
            typed = H.gen_answer(r, method, self.size, self.secure and c.key)
        want_err, secrets, failing = None, (), False
        if how in (5, 6):  # an error, perhaps with a value
            d = R.gen_error(r, self.size, False)
            rec = R.build_error(d)
            want_err = R.expect_error(d)
            val = "partial" if how == 6 and method in H.PLAIN else None
            want = hx(["PSString", "partial"]) if val else ["nil"]
            ok, _ = self.call("host_response", lambda: conn.host_response(ci, val, rec), {"C09"}, refuse=refuse, args=[rec], mut=mut if refuse is None else None)
        elif how == 7:
            want = ["nil"]
            ok, _ = self.call("host_response", lambda: conn.host_response(ci), {"C09"}, refuse=refuse)
        elif typed is not None:
            name, args, want = typed
            resp = psrpcore.ClientHostResponder(conn)
            ok, _ = self.call("ClientHostResponder." + name, lambda: getattr(resp, name)(ci, *args), {"C09", "C16"}, refuse=refuse, args=list(args), mut=mut if refuse is None else None)
            if "secure" in repr(want):
                secrets = (1,)
        elif method in H.PLAIN:
            spec = V.gen_value(r, 1, self.size, self.secure)
            secrets = V.secrets(spec)
            want = hx(V.expect(spec))
            if refuse is None:
                refuse = self.key_refusal(c, secrets)
                failing = refuse is not None
            v = V.build(spec)
            ok, _ = self.call("host_response", lambda: conn.host_response(ci, v), {"C09"}, refuse=refuse, args=[v], mut=mut if refuse is None else None, failing=failing)
        else:
            return
        if not ok:
            return
        del c.pending[ci]
        c.answered.append(ci)
        del c.answered[:-8]
        tm = typed is not None

        def effect(e, ev):
            self.s.calls.pop(ci, None)

        got = lambda ev: [int(ev.ci), ev.method_identifier.name, H.hc(ev.result) if tm else hx(V.canon(ev.result)), None if ev.error is None else R.canon_error(ev.error)]
        e = self.queue(c, "PipelineHostResponse" if pid else "RunspacePoolHostResponse", [ci, method, want, want_err], got, effect, pid=pid, secrets=secrets)
        e.form = "typed" if tm and how != 6 else None
        if how == 1 and c.state == "Opened":
            self.call("host_response", lambda: c.pool.host_response(ci, 1), {"C09"}, refuse=(Exception, {"C09"}))

    # ------------------------------------------------------------ objects that are sent more than once
    def op_mk_obj(self, seed, size):
        spec = V.value(seed, 3, size, False)
        self.objs.append([V.build(spec), spec])
        del self.objs[:-4]

    def op_mutate(self, i, seed):
        o = pick(self.objs, i)
        if o is None:
            return
        if V.mutate(o[0], random.Random("mut:%s" % seed)):
            o[1] = None
            self.mutated = True
            self.fault("mutate_after_send")

    def op_send_changed(self, i, route, j, seed):
        """Send an object, change it a little, and send it again."""
        self.op_send_obj(i, route, j)
        o = pick(self.objs, i)
        if o is not None and V.tweak(o[0], random.Random("tw:%s" % seed)):
            o[1] = None
            self.fault("mutate_after_send")
            self.op_send_obj(i, route, j)

    def op_send_obj(self, i, route, j):
        """Hand the same object to one of the operations that send objects."""
        o = pick(self.objs, i)
        if o is None:
            return
        obj, spec = o
        before = V.canon(obj)
        want = V.expect(spec) if spec is not None else self.ref_canon(obj)
        route = route % 8
        t = {"C18"}
        m = self.cpipe(j) if route in (0, 7) else self.spipe(j)
        if route in (0, 1, 2, 4, 7) and (m is None or m.state != "Running") and route != 7:
            return
        if route == 0:
            self.call("send", lambda: m.real.send(obj), t, args=[obj])
            self.queue(self.c, "PipelineInput", want, lambda ev: V.canon(ev.data), pid=m.pid, tags=t)
        elif route == 1:
            self.call("write_output", lambda: m.real.write_output(obj), t, args=[obj])
            self.queue(self.s, "PipelineOutput", want, lambda ev: V.canon(ev.data), pid=m.pid, tags=t)
        elif route == 2:
            self.call("write_error", lambda: m.real.write_error(T.NETException("x"), target_object=obj), t, args=[obj])
            self.queue(self.s, "ErrorRecord", want, lambda ev: V.canon(ev.record.TargetObject), pid=m.pid, tags=t)
        elif route == 3:
            if self.s.state != "Opened":
                return
            args = [obj, obj]
            self.call("send_event", lambda: self.s.pool.send_event(1, "s", source_args=args, message_data=obj), t, args=[obj, args])
            self.queue(self.s, "UserEvent", [want, 2], lambda ev: [V.canon(ev.event.SourceArgs[0]), len(ev.event.SourceArgs)], tags=t)
        elif route == 4:
            if self.s.state != "Opened":
                return
            self.call("host_call", lambda: m.real.host_call(T.HostMethodIdentifier.Write1, [obj]), t, args=[obj])
            self.queue(self.s, "PipelineHostCall", want, lambda ev: V.canon(ev.method_parameters[0]), pid=m.pid, tags=t)
        elif route == 5:
            c = self.c
            ci = pick(sorted(c.pending), j)
            if ci is None or c.state != "Opened" or obj is None or c.pending[ci][0] not in H.PLAIN:
                return
            method, pid = c.pending.pop(ci)
            c.answered.append(ci)
            self.call("host_response", lambda: c.pool.host_response(ci, obj), t, args=[obj])
            self.queue(c, "PipelineHostResponse" if pid else "RunspacePoolHostResponse", want, lambda ev: V.canon(ev.result), lambda e, ev: self.s.calls.pop(ci, None), pid=pid, tags=t)
        elif route == 6:
            if m is None or m.state != "Running" or self.s.state == "Connecting" or (self.s.their_ver or (2, 0)) < (2, 3):
                return
            self.call("write_information", lambda: m.real.write_information(obj, "s"), t, args=[obj])
            self.queue(self.s, "InformationRecord", want, lambda ev: V.canon(ev.record.MessageData), pid=m.pid, tags=t)
        else:
            c = self.c
            if c.state != "Opened" or len(c.pipes) >= self.cfg.get("max_pipes", 4) + 1:
                return
            p = psrpcore.ClientPowerShell(c.pool)
            p.add_command("cmd").add_argument(obj).add_parameter("p", [obj])
            self.call("start", p.start, t, args=[obj])
            c.pipes[p.pipeline_id] = PipeM(p, p.pipeline_id, "attached", "Running", None)
            self.queue(c, "CreatePipeline", want, lambda ev: V.canon(ev.pipeline.commands[0].parameters[0][1]), pid=p.pipeline_id, tags=t)
        if V.canon(obj) != before:
            self.fail({"C18"}, "sending changed the object: %s" % diff(before, V.canon(obj)))
        self.count("objects_sent")


BUFFER_CELL = "a BufferCell sent as an ordinary object arrives with its BufferCellType as a ControlKeyStates value"
HOME_VALUE = {"C05", "C07"}
STOP_REASON = ["The pipeline has been stopped.", -2146233087, 14, "PipelineStoppedException", "PipelineStopped", True]


def stop_reason(rec):
    names = [str(n) for n in rec.Exception.PSObject.type_names]
    return [str(rec.Exception.Message), int(rec.Exception.HResult), int(rec.CategoryInfo.Category.value), str(rec.CategoryInfo.Reason), str(rec.FullyQualifiedErrorId), any("PipelineStoppedException" in n for n in names)]


def hx(c):
    """Generic host parameters are compared in the plain canonical form."""
    return c


NEEDLE_ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def spellings(b):
    """The ways a byte string could be readable: raw, hexadecimal, base64 at each alignment."""
    out = {b, b.hex().encode(), b.hex().upper().encode()}
    for pad in range(3):
        x = base64.b64encode(b"\0" * pad + b).rstrip(b"=")
        out.add(x[(0, 2, 3)[pad]:len(x) - 1])
        out.add(base64.urlsafe_b64encode(b"\0" * pad + b).rstrip(b"=")[(0, 2, 3)[pad]:len(x) - 1])
    return out


BULK = 30000


def bulk_value(r, size):
    """Something that takes many buffers, near the sizes that transports and implementations use."""
    if size > 1 << 20:
        return ("str", "str", ("%x" % r.getrandbits(164) * (size // 41 + 1))[:size])
    n = r.choice([size, size - r.randrange(3000), r.choice([32768, 65536, 131072, 153600]) - r.randrange(200)])
    if r.random() < 0.25:
        return ("bytes", "PSByteArray", r.randbytes(min(n, size) * 3 // 4).hex())
    unit = "".join(r.choice(V.ALPHA) for _ in range(61))
    return ("str", "str", (unit * (n // 61 + 1))[:n])


def needle_value(r, size):
    """A value around secure strings whose content cannot occur by accident."""
    def sec():
        n = r.choice([16, 20, 24, 31, 32, 33, max(16, size)])
        s = "".join(r.choice(NEEDLE_ALPHA) for _ in range(n))
        if r.random() < 0.3:
            s = r.choice(["\u00e9", "\U0001f600", "<", "_x0041_", "\n", " "]) + s
        return ("secure", s)
    k = r.randrange(9)
    if k < 3:
        return sec()
    if k == 3:
        return ["list", r.choice(["list", "PSList", "PSStack"]), [sec() if r.random() < 0.6 else V.gen_prim(r, 6) for _ in range(r.randint(1, 4))], []]
    if k == 4:
        return ["dict", r.choice(["dict", "PSDict"]), [[("str", "str", "k%d" % i), sec() if r.random() < 0.6 else V.gen_prim(r, 6)] for i in range(r.randint(1, 3))], []]
    if k == 5:
        return ["obj", "custom", None, [["Secret", sec()], ["Other", V.gen_prim(r, 6)]], None]
    if k == 6:
        return ["known", "PSCredential", [0, 0, 0, 0], V.gen_str(r, 6), sec()[1], False, None]
    if k == 7:
        return ["xprim", sec(), [["Extra", V.gen_prim(r, 6)]]]
    return V.gen_value(r, 1, 6, False)
