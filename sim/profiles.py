"""What each check explores: configuration, prologue and operation mix, all drawn from the seed of the run.

A profile only decides which operations are likely.  What is right and wrong is decided by the worlds,
the same way for every profile.
"""
import random

from .endure import EndureWorld
from .interop import InteropWorld
from .isolation import IsolationWorld
from .lossy import LossyWorld
from .shell import ShellWorld
from .world import LIMITS, SessionWorld

BIG = 10**9


def idx(w, r, end, states=("Running",), p=0.85):
    """Index of a pipeline, usually one in a state where the operation applies."""
    ms = list(end.pipes.values())
    good = [i for i, m in enumerate(ms) if m.state in states]
    if good and r.random() < p:
        return r.choice(good)
    return r.randrange(max(1, len(ms)))


def limit(w, r):
    return r.choice(w.limits)


def seglen(w, r):
    k = r.randrange(8)
    if k < 3:
        return r.choice([1, 2, 3, 4, 7, 8, 15, 16, 17, 19, 20, 21, 22, 23])
    if k < 5:
        return r.randrange(1, 120)
    if k < 7:
        return r.randrange(100, 1500)
    return 0


def psn(w, r):
    """Poison selector: mostly none."""
    return r.randrange(1, 10) if w.cfg.get("poison") and r.random() < w.poison_rate else 0


def size(w, r):
    return r.choice(w.sizes)


STOPPED = ("NotStarted", "Stopped", "Completed", "Failed", "Stopping")
START = ("NotStarted", "Stopped", "Completed")

OPS = {
    "flush": lambda w, r: ["flush", r.randrange(2), limit(w, r)],
    "bad_flush": lambda w, r: ["bad_flush", r.randrange(2), r.randrange(22)],
    "deliver_nothing": lambda w, r: ["deliver_nothing", r.randrange(2)],
    "deliver": lambda w, r: ["deliver", r.randrange(2), r.randrange(6), seglen(w, r)],
    "pump": lambda w, r: ["pump", r.randrange(2), r.randrange(1, 4)],
    "settle": lambda w, r: ["settle", limit(w, r)],
    "relay": lambda w, r: (lambda how: ["relay", idx(w, r, w.c if how == 0 else w.s), r.randrange(4), how])(r.randrange(3)),
    "clock": lambda w, r: ["clock", r.choice([r.randrange(2000), -r.randrange(5000), r.randrange(10**8), -r.randrange(10**10), r.randrange(10**11)])],
    "user_fault": lambda w, r: ["user_fault", r.randrange(4)],
    "open": lambda w, r: ["open", psn(w, r)],
    "connect": lambda w, r: ["connect"],
    "close": lambda w, r: ["close", r.randrange(2)],
    "begin_close": lambda w, r: ["begin_close", r.randrange(2)],
    "begin_disconnect": lambda w, r: ["begin_disconnect", r.randrange(2)],
    "disconnect": lambda w, r: ["disconnect", r.randrange(2)],
    "reconnect": lambda w, r: ["reconnect", r.randrange(2)],
    "set_broken": lambda w, r: ["set_broken", r.randrange(BIG), psn(w, r)],
    "s_connect": lambda w, r: ["s_connect"],
    "crash": lambda w, r: ["crash", r.choice([0, r.randrange(1, 3000)]), r.randrange(4), r.choice([0, 1, 2]), r.randrange(2) if w.cfg.get("versions") else 0, r.randrange(BIG)],
    "reattach": lambda w, r: ["reattach", limit(w, r), r.choice([0, 0, 1, 2])],
    "exchange_key": lambda w, r: ["exchange_key", psn(w, r)],
    "request_key": lambda w, r: ["request_key"],
    "twin": lambda w, r: ["twin", r.randrange(BIG)],
    "get_avail": lambda w, r: ["get_avail"],
    "reset": lambda w, r: ["reset"],
    "set_limit": lambda w, r: ["set_limit", r.randrange(8 if w.cfg.get("poison") else 2), r.randrange(9)],
    "answer": lambda w, r: ["answer", r.randrange(9), r.randrange(8), r.randrange(10000)],
    "send_event": lambda w, r: ["send_event", r.randrange(BIG), psn(w, r)],
    "new_pipe": lambda w, r: ["new_pipe", r.randrange(BIG), int(r.random() < w.meta_rate)],
    "build": lambda w, r: ["build", idx(w, r, w.c, START), r.randrange(BIG), r.randrange(1, 5)],
    "p_start": lambda w, r: ["p_start", idx(w, r, w.c, START), psn(w, r)],
    "p_send": lambda w, r: ["p_send", idx(w, r, w.c), r.randrange(BIG), size(w, r), psn(w, r)],
    "p_eof": lambda w, r: ["p_eof", idx(w, r, w.c)],
    "p_close": lambda w, r: (lambda side: ["p_close", side, idx(w, r, w.end(side), STOPPED, 0.7)])(r.randrange(2)),
    "begin_stop": lambda w, r: (lambda side: ["begin_stop", side, idx(w, r, w.end(side), ("Running", "Stopping"), 0.7)])(r.randrange(2)),
    "sp_start": lambda w, r: ["sp_start", idx(w, r, w.s, START)],
    "sp_stop": lambda w, r: ["sp_stop", idx(w, r, w.s, ("Running", "Stopping", "Stopped"))],
    "sp_complete": lambda w, r: ["sp_complete", idx(w, r, w.s)],
    "write": lambda w, r: ["write", idx(w, r, w.s), r.randrange(BIG), size(w, r), psn(w, r)],
    "buffer_cell": lambda w, r: ["buffer_cell", idx(w, r, w.s), r.randrange(1000)],
    "echo": lambda w, r: (lambda side: ["echo", side, idx(w, r, w.end(side)), r.randrange(6)])(r.randrange(2)),
    "record": lambda w, r: ["record", idx(w, r, w.s), r.randrange(6), r.randrange(BIG), psn(w, r)],
    "host_call": lambda w, r: ["host_call", idx(w, r, w.s) if r.random() < 0.7 else -1, r.randrange(BIG), psn(w, r)],
    "host_resp": lambda w, r: ["host_resp", r.randrange(8), r.randrange(10), r.randrange(BIG), psn(w, r)],
    "mk_obj": lambda w, r: ["mk_obj", r.randrange(BIG), size(w, r)],
    "send_changed": lambda w, r: ["send_changed", r.randrange(4), r.randrange(8), r.randrange(4), r.randrange(BIG)],
    "mutate": lambda w, r: ["mutate", r.randrange(4), r.randrange(BIG)],
    "send_obj": lambda w, r: ["send_obj", r.randrange(4), r.randrange(8), r.randrange(4)],
}

TRANSPORT = {"flush": 10, "deliver": 12, "pump": 10, "settle": 1.5}
BURSTS = ("write", "p_send", "record", "host_call", "send_event", "get_avail", "set_limit", "reset")
PIPES = {"new_pipe": 2, "build": 2, "p_start": 2, "sp_start": 3, "p_send": 5, "p_eof": 1, "write": 5, "record": 2, "sp_complete": 0.4, "sp_stop": 0.3, "begin_stop": 0.3, "p_close": 0.8}
# what may happen in any session; some runs of every profile mix it in, so that features meet
ANY = {"new_pipe": 1, "build": 1, "p_start": 1, "sp_start": 1, "p_send": 2, "p_eof": 0.5, "write": 2, "record": 2, "sp_complete": 0.5, "sp_stop": 0.4, "begin_stop": 0.4, "p_close": 1, "send_event": 1, "get_avail": 0.7, "set_limit": 0.7,
       "answer": 1.5, "reset": 0.3, "host_call": 2, "host_resp": 2, "echo": 1, "relay": 1, "exchange_key": 0.7, "request_key": 0.5, "disconnect": 0.4, "begin_disconnect": 0.2, "reconnect": 1.2, "reattach": 0.6, "crash": 0.3, "s_connect": 0.1, "connect": 0.1,
       "set_broken": 0.04, "close": 0.04, "begin_close": 0.03, "open": 0.1, "clock": 0.3, "user_fault": 0.2, "deliver_nothing": 0.1, "bad_flush": 0.1}
POOLMSG = {"send_event": 1, "get_avail": 0.6, "set_limit": 0.6, "answer": 1, "reset": 0.3, "host_call": 3, "host_resp": 3}


def mix(*parts, **extra):
    out = {}
    for p in parts:
        for k, v in p.items():
            out[k] = out.get(k, 0) + v
    out.update(extra)
    return out


class Profile:
    """Base: an opened session with pipelines and every kind of traffic."""

    world = SessionWorld
    weights = mix(TRANSPORT, PIPES, POOLMSG)
    core = ()  # operations that the swarm never switches off
    quick, thorough = 2400, 60000
    chunk = 24  # runs per process
    steps = (40, 160)
    pipes = (0, 3)
    opened = 0.9
    modes = ("stream", "channels")
    secure = 0.0
    poison = 0.0
    snapshot = 0.0
    versions = 0.0
    typed = 0.3
    meta = 0.15
    sizes = (3, 8, 8, 20, 60)
    big = (0.1, (400, 3000))
    poison_rate = 0.15
    mixed = 0.25
    key_first = 0.6
    orphans = 0.1
    bursts = 0.03
    huge = 0
    rule = "Session world: one client and one server application over a transport."
    measure = "hash of (operation, states of both pools and of all pipelines, queue and transport fill classes, partial data, key state, outstanding calls and requests, disruption flags) before each operation"
    real = ["psrpcore client pool, client pipelines, host responder", "psrpcore server pool, server pipelines, host requestor", "serializer, fragmenter, crypto provider", "cryptography package (RSA, AES)"]
    stub = ["transport between the two ends (simulated network)", "both applications (operation generator)", "clock, random bytes, uuid4, RSA key generation (pool of fixed keys), user and host names (seams)"]
    assumptions = ["The transport delivers each direction (stream mode) or each pipeline and stream (channels mode) in order and without loss, unless the profile says otherwise.", "Failures that depend on inputs outside the generated kinds or beyond the run counts are not seen."]

    def config(self, r, seed):
        cfg = {"env": seed, "mode": r.choice(self.modes), "size": r.choice([3, 6, 8, 12])}
        for name in ("secure", "poison", "snapshot"):
            cfg[name] = r.random() < getattr(self, name)
        cfg["versions"] = r.random() < self.versions
        if cfg["versions"]:
            for k in ("cver", "sver"):
                cfg[k] = r.choice([(2, 0), (2, 1), (2, 2), (2, 3)] if r.random() < 0.85 else [(2, 4), (2, 10), (3, 0), (10, 1)])
        cfg["typed"] = self.typed
        cfg["shown"] = r.random() < 0.25
        cfg["logged"] = random.Random("log:%s" % seed).random() < 0.15
        cfg["orphans"] = r.random() < self.orphans
        cfg["max_pipes"] = r.choice([2, 3, 4, 6])
        b = random.Random("bursts:%s" % seed)
        cfg["burst"] = b.random() < self.bursts
        if cfg["burst"] and b.random() < 0.15 and self.pipes[1] > 1 and "p_start" in self.weights:
            cfg["max_pipes"] = 140
        return cfg

    def prepare(self, w, r):
        """Choices of the generator that are not part of the system."""
        w.limits = [0] + r.sample(LIMITS, r.choice([1, 3, 8])) if r.random() < 0.8 else [0]
        w.sizes = list(self.sizes)
        if r.random() < self.big[0]:
            w.sizes.append(r.choice(self.big[1]))
        if max(w.sizes) > 1000:
            w.limits = [x for x in w.limits if x == 0 or x > max(w.sizes) // 30] or [0]
        w.poison_rate = self.poison_rate
        w.meta_rate = self.meta
        weights = {}
        if self.mixed and r.random() < self.mixed:
            f = r.choice([0.2, 0.5, 1])
            for k, v in ANY.items():
                weights[k] = f * v * r.choice([0, 1, 1, 2])
        for k, v in self.weights.items():
            weights[k] = weights.get(k, 0) + v * (1 if k in self.core or k in TRANSPORT else r.choice([0, 0.3, 1, 1, 1, 3]))
        self.emphasis(r, weights)
        # the schedule: from lock step to everything piling up
        speed = r.choice([0.3, 1, 1, 3])
        for k in TRANSPORT:
            if k in weights:
                weights[k] *= speed
        if r.random() < 0.15:
            weights["settle"] = weights.get("settle", 0) + 30
        w.names = sorted(weights)
        w.cum = [weights[n] for n in w.names]

    def emphasis(self, r, weights):
        pass

    def prologue(self, w, r):
        if r.random() >= self.opened:
            return
        yield ["open", 0]
        yield ["settle", limit(w, r)]
        if w.cfg.get("secure") and r.random() < self.key_first:
            yield ["exchange_key", 0] if r.random() < 0.5 else ["request_key"]
            yield ["settle", 0]
        for _ in range(r.randint(*self.pipes)):
            yield ["new_pipe", r.randrange(BIG), int(r.random() < self.meta)]
            n = len(w.c.pipes) - 1
            if n < 0:
                continue
            yield ["build", n, r.randrange(BIG), r.randrange(1, 4)]
            yield ["p_start", n, 0]
            if r.random() < 0.9:
                yield ["settle", 0]
                yield ["sp_start", len(w.s.pipes) - 1]
                yield ["settle", 0]

    def generate(self, w, r):
        self.prepare(w, r)
        yield from self.prologue(w, r)
        b = random.Random("burst:%s" % w.cfg["env"])
        at = b.randrange(20) if w.cfg.get("burst") else -1
        if b.random() < self.huge:
            yield from self.enormous(w, b)
        for i in range(r.randint(*self.steps)):
            if i == at:
                yield from self.burst(w, b)
            yield OPS[r.choices(w.names, w.cum)[0]](w, r)

    def enormous(self, w, b):
        """One message that needs more fragments, or one fragment that has more bytes, than two or three bytes count."""
        w.count("enormous")
        n, limit = b.choice([(70000, 22), (70000, 22), (140000, 23), (17 << 20, 0), (17 << 20, 0), (17 << 20, 1 << 24)])
        kind = b.choice(["p_send", "write"])
        yield ["settle", 0]
        yield [kind, 0, b.randrange(BIG), n, 0]
        if n > 1 << 20:  # in some pieces, and reading in between
            side = 1 if kind == "write" else 0
            yield ["flush", side, limit]
            for _ in range(b.randrange(6)):
                yield ["deliver", 1 - side, 5, b.choice([1, 20, 40, 4096, 1 << 20, 5 << 20])]
                yield ["pump", 1 - side, 1]
        yield ["settle", limit]

    def burst(self, w, b):
        """Far more of one thing at the same time than a session usually has."""
        kinds = [k for k, x in zip(w.names, w.cum) if k in BURSTS] or ["p_send"]
        kind, n = "new_pipe" if w.cfg["max_pipes"] > 100 else b.choice(kinds), b.choice([17, 20, 33, 40, 40, 65, 130, 300])
        if kind in ("host_call", "get_avail", "set_limit") and b.random() < 0.04:
            n = 1100
        side = 1 if kind in ("write", "record", "host_call", "send_event") else 0
        if kind == "new_pipe":
            for _ in range(n):
                yield ["new_pipe", b.randrange(BIG), 0]
                k = len(w.c.pipes) - 1
                yield ["build", k, b.randrange(BIG), 1]
                yield ["p_start", k, 0]
            yield ["settle", 0]
            for k in range(len(w.s.pipes)):
                yield ["sp_start", k]
            for _ in range(n):
                yield ["write", idx(w, b, w.s), b.randrange(BIG), size(w, b), 0]
            return
        for _ in range(n):
            yield OPS[kind](w, b)
        w.count("bursts")
        if "drop" in w.names:  # lossy: every message in pieces, the pieces of all messages mixed
            lim = b.choice([30, 40, 64, 100])
            for _ in range(400):
                if not w.end(side).out:
                    break
                yield ["flush", side, lim]
            yield ["shuffle", side, b.randrange(BIG), 1]
        elif b.random() < 0.7:
            yield ["settle", 0]
            reply = {"host_call": "host_resp", "get_avail": "answer", "set_limit": "answer", "reset": "answer"}.get(kind)
            for _ in range(n // 2 if reply else 0):
                yield OPS[reply](w, b)


class P01(Profile):
    quick, thorough = 2200, 55000
    weights = mix(TRANSPORT, PIPES, POOLMSG, {"echo": 0.5, "exchange_key": 0.2, "request_key": 0.2})
    big = (0.3, (400, 3000, 12000))
    secure = 0.1


class P02(Profile):
    huge = 0.0025
    quick, thorough = 2200, 55000
    weights = mix({"flush": 18, "deliver": 4, "pump": 4, "settle": 1, "bad_flush": 1}, PIPES, POOLMSG)
    core = ("p_send", "write", "host_call", "host_resp", "send_event")
    pipes = (1, 4)
    sizes = (1, 3, 8, 20, 60, 150, 600)
    big = (0.4, (1500, 4000, 40000, 80000, 200000))


class P03(Profile):
    huge = 0.0025
    quick, thorough = 2600, 65000
    modes = ("stream",)
    weights = mix({"flush": 6, "deliver": 25, "deliver_nothing": 2, "pump": 12, "settle": 0.5}, PIPES, POOLMSG)
    big = (0.3, (400, 2000))
    steps = (60, 220)


def air_side(w, r):
    full = [s for s in (0, 1) if w.air(s)]
    return r.choice(full) if full and r.random() < 0.9 else r.randrange(2)


def air_i(w, r):
    return r.randrange(40)


LOSSY_OPS = {
    "drop": lambda w, r: ["drop", air_side(w, r), air_i(w, r), r.choice([1, 1, 1, 2, 3])],
    "drop_message": lambda w, r: ["drop_message", air_side(w, r), air_i(w, r)],
    "dup": lambda w, r: ["dup", air_side(w, r), air_i(w, r), air_i(w, r)],
    "resend": lambda w, r: ["resend", air_side(w, r), air_i(w, r), r.choice([0, 10**6 - 1, air_i(w, r)])],
    "swap": lambda w, r: (lambda i: ["swap", air_side(w, r), i, r.choice([i + 1, air_i(w, r)])])(air_i(w, r)),
    "shuffle": lambda w, r: ["shuffle", air_side(w, r), r.randrange(BIG), int(r.random() < 0.75)],
    "damage": lambda w, r: ["damage", air_side(w, r), air_i(w, r), r.randrange(3), r.randrange(200)],
    "go_lossy": lambda w, r: ["go_lossy"],
    "arrive": lambda w, r: ["deliver", r.randrange(2), r.randrange(3), r.choice([0, 1, 1, 2, 3, 5, 10])],
}
OPS.update(LOSSY_OPS)


class P04(Profile):
    mixed = 0
    quick, thorough = 2200, 55000
    world = LossyWorld
    weights = {"flush": 20, "arrive": 7, "pump": 7, "settle": 0.3, "p_send": 6, "write": 6, "record": 2, "send_event": 1.5, "p_eof": 0.7, "drop": 2, "drop_message": 0.5, "dup": 1.5, "resend": 1.5, "swap": 1.5, "shuffle": 1.5, "damage": 1.2}
    core = ("p_send", "write")
    opened = 1.0
    pipes = (1, 3)
    meta = 0.0
    sizes = (3, 20, 60, 150)
    rule = "Lossy world: as the session world, but fragments in flight are dropped, repeated, reordered, interleaved and damaged."
    stub = ["transport between the two ends (simulated lossy network, per fragment)"] + Profile.stub[1:]
    assumptions = ["Only messages that do not change the state of either end are exchanged while the transport is lossy.", "Damage is of the kinds: unknown message type, body that is not well-formed XML."]

    def prologue(self, w, r):
        yield from super().prologue(w, r)
        yield ["go_lossy"]

    def prepare(self, w, r):
        super().prepare(w, r)
        w.limits = [0] + r.sample([30, 40, 60, 64, 100, 128, 200, 400, 1000], 3)


class P05(Profile):
    quick, thorough = 1500, 37500
    weights = mix({"flush": 2, "deliver": 2, "pump": 2, "settle": 4}, {"p_send": 14, "write": 14, "buffer_cell": 0.2, "echo": 4, "record": 2, "host_call": 2, "host_resp": 2, "send_event": 1, "new_pipe": 0.5, "build": 0.7, "p_start": 0.7, "sp_start": 0.7})
    core = ("p_send", "write", "settle", "echo")
    opened = 1.0
    pipes = (1, 2)
    secure = 0.2
    sizes = (2, 5, 8, 12, 20, 40)
    big = (0.2, (200, 1000))
    typed = 0.0


class P06(Profile):
    quick, thorough = 5000, 125000
    weights = mix(TRANSPORT, {k: 0.35 for k in OPS if k not in LOSSY_OPS and k not in ("twin", "buffer_cell", "mk_obj", "mutate", "send_obj", "send_changed", "crash")}, {"open": 2, "close": 2, "begin_close": 0.6, "begin_disconnect": 1, "disconnect": 1.5, "reconnect": 2, "set_broken": 0.5, "s_connect": 1, "connect": 1, "reattach": 1.5, "crash": 0.7})
    opened = 0.5
    pipes = (0, 1)
    steps = (20, 110)
    poison = 0.25
    versions = 0.3


class P07(Profile):
    orphans = 0.3
    quick, thorough = 2000, 50000
    weights = mix(TRANSPORT, PIPES, {"sp_complete": 2, "sp_stop": 1.5, "begin_stop": 1.5, "p_close": 3, "sp_start": 4, "p_start": 4, "new_pipe": 4, "host_call": 1, "host_resp": 1, "send_event": 0.3, "disconnect": 0.1, "reconnect": 0.3})
    pipes = (1, 4)
    steps = (40, 160)


class P08(Profile):
    quick, thorough = 3000, 75000
    weights = mix(TRANSPORT, PIPES, POOLMSG, {"open": 2, "set_broken": 0.3, "exchange_key": 1, "request_key": 0.3, "bad_flush": 1, "build": 2, "echo": 0.3, "close": 0.3, "reconnect": 0.3, "disconnect": 0.1})
    core = ("p_send", "write", "host_call", "p_start", "send_event", "record")
    poison = 1.0
    poison_rate = 0.3
    secure = 0.5
    key_first = 0.3
    opened = 0.8


class P09(Profile):
    quick, thorough = 2600, 65000
    weights = mix(TRANSPORT, {"host_call": 10, "host_resp": 12, "write": 1, "p_send": 1, "send_event": 0.5, "sp_stop": 0.4, "begin_stop": 0.4, "sp_complete": 0.4, "p_close": 0.6, "new_pipe": 0.6, "p_start": 0.7, "sp_start": 1, "disconnect": 0.1, "reconnect": 0.3})
    core = ("host_call", "host_resp")
    pipes = (0, 3)
    poison = 0.2


class P10(Profile):
    quick, thorough = 5500, 137500
    weights = mix(TRANSPORT, {"get_avail": 5, "set_limit": 8, "reset": 2, "answer": 12, "crash": 0.5, "disconnect": 0.2, "reconnect": 0.4, "reattach": 0.3, "new_pipe": 0.2, "p_start": 0.2, "send_event": 0.3})
    core = ("set_limit", "answer", "get_avail")
    pipes = (0, 1)
    versions = 0.3
    opened = 0.8


class P11(Profile):
    quick, thorough = 2400, 60000
    weights = mix(TRANSPORT, PIPES, {"exchange_key": 3, "request_key": 2, "twin": 0.4, "echo": 2, "host_call": 2, "host_resp": 2, "send_event": 1, "crash": 0.4, "record": 2, "p_send": 7, "write": 7, "disconnect": 0.4, "reconnect": 1, "reattach": 0.3})
    core = ("p_send", "write", "exchange_key", "request_key")
    secure = 1.0
    pipes = (1, 2)
    poison = 0.15
    key_first = 0.4

    def config(self, r, seed):
        cfg = super().config(r, seed)
        cfg["needle"] = r.random() < 0.8
        return cfg


class P12(Profile):
    quick, thorough = 2600, 65000
    weights = mix(TRANSPORT, PIPES, POOLMSG, {"crash": 3, "disconnect": 1.5, "begin_disconnect": 0.8, "reconnect": 3, "reattach": 2, "connect": 0.7, "s_connect": 0.7, "exchange_key": 0.5, "request_key": 0.5, "echo": 0.3})
    core = ("crash", "reconnect", "disconnect", "reattach")
    pipes = (0, 3)
    versions = 0.2
    secure = 0.2
    opened = 1.0


class P13(Profile):
    quick, thorough = 3000, 75000
    weights = mix(TRANSPORT, {"reset": 4, "record": 8, "new_pipe": 3, "build": 4, "p_start": 4, "sp_start": 3, "answer": 2, "crash": 1, "write": 0.5, "p_send": 0.5, "sp_complete": 0.5, "p_close": 1, "open": 0.4, "disconnect": 0.1, "reconnect": 0.3})
    core = ("reset", "record", "p_start")
    versions = 0.9
    pipes = (1, 3)
    opened = 0.8


class P14(Profile):
    quick, thorough = 1000, 25000
    weights = mix({"flush": 2, "deliver": 2, "pump": 2, "settle": 4}, {"record": 18, "relay": 4, "send_event": 6, "set_broken": 0.1, "clock": 1.5, "user_fault": 1.5, "sp_stop": 0.3, "sp_start": 0.6, "new_pipe": 0.3, "p_start": 0.3})
    core = ("record", "send_event", "settle")
    pipes = (1, 2)
    opened = 1.0
    secure = 0.15


class P15(Profile):
    quick, thorough = 2200, 55000
    weights = mix({"flush": 3, "deliver": 3, "pump": 3, "settle": 4}, {"new_pipe": 5, "build": 14, "p_start": 7, "sp_start": 2, "sp_complete": 2, "sp_stop": 0.5, "p_close": 4, "p_send": 0.5, "write": 0.5, "p_eof": 0.3})
    core = ("new_pipe", "build", "p_start", "settle", "p_close")
    pipes = (0, 2)
    meta = 0.3
    secure = 0.15
    versions = 0.3
    opened = 1.0


class P16(Profile):
    quick, thorough = 1700, 42500
    weights = mix({"flush": 3, "deliver": 3, "pump": 3, "settle": 4}, {"host_call": 12, "host_resp": 12, "write": 0.5, "sp_stop": 0.2, "exchange_key": 0.5})
    core = ("host_call", "host_resp", "settle")
    typed = 1.0
    pipes = (0, 2)
    secure = 0.5
    opened = 1.0


OPS.update({
    "ambient": lambda w, r: ["ambient"],
    "arith": lambda w, r: ["arith", r.randrange(BIG)],
    "tweak": lambda w, r: ["tweak", r.randrange(3), r.randrange(BIG)],
    "scribble": lambda w, r: ["scribble", r.randrange(2), r.randrange(6), r.randrange(BIG)],
    "shared": lambda w, r: (lambda side: ["shared", side, idx(w, r, w.end(side)), r.randrange(6)])(r.randrange(2)),
})


class Part(Profile):
    """One of several sessions."""

    weights = mix(TRANSPORT, PIPES, POOLMSG, {"ambient": 0.7, "arith": 0.5, "tweak": 1, "scribble": 4, "shared": 2, "echo": 0.7, "relay": 0.5, "exchange_key": 0.4, "request_key": 0.2, "crash": 0.2, "disconnect": 0.1, "reconnect": 0.3, "set_broken": 0.05})
    steps = (15, 70)
    pipes = (0, 2)
    secure = 0.4
    versions = 0.5
    poison = 0.2
    snapshot = 0.2
    big = (0.05, (400,))

    def emphasis(self, r, weights):
        if r.random() < 0.2:  # an application that works on what it receives
            weights["record"] = weights.get("record", 0) + 15
            weights["scribble"] = weights.get("scribble", 0) + 15

    def prologue(self, w, r):
        for _ in range(r.randrange(3)):
            yield ["tweak", r.randrange(3), r.randrange(BIG)]
        yield from super().prologue(w, r)


class P17(Profile):
    quick, thorough = 900, 22500
    world = IsolationWorld
    chunk = 3
    part = Part()
    rule = "Isolation world: two to four sessions in one process, operations interleaved in bursts; each session is also executed alone in a process forked before the first one, and the transcripts are compared."
    real = Profile.real
    assumptions = ["The process and thread identifiers in information records are excluded from the comparison.", "Members of Python enums are shared by design; properties an application attaches to them are not explored."]

    def config(self, r, seed):
        n = r.choice([2, 2, 3, 4])
        subs = [self.part.config(r, "%s/%d" % (seed, k)) for k in range(n)]
        for c in subs:
            c["transcript"] = True
            c["logged"] = False
            c["size"] = min(8, c["size"])
        if r.random() < 0.3:  # identical twins
            subs[1] = dict(subs[0], env=subs[0]["env"] if r.random() < 0.3 else subs[1]["env"])
        return {"env": seed, "sessions": subs}

    def generate(self, w, r):
        gens = {}
        for k in range(len(w.members)):
            gens[k] = None
        burst = r.choice([1, 3, 10, 1000])
        while gens:
            k = r.choice(sorted(gens))
            if gens[k] is None:
                w.born(k)
                if w.members[k] is None:
                    del gens[k]
                    continue
                gens[k] = self.part.generate(w.members[k], random.Random("part:%s:%d" % (w.cfg["env"], k)))
            for _ in range(r.randint(1, burst)):
                op = next(gens[k], None)
                if op is None or w.errors[k] is not None:
                    del gens[k]
                    break
                yield ["on", k, op]


class P18(Profile):
    quick, thorough = 1100, 27500
    weights = mix({"flush": 4, "deliver": 4, "pump": 4, "settle": 2}, PIPES, {"mk_obj": 2, "mutate": 4, "send_obj": 12, "send_changed": 3, "record": 4, "send_event": 2, "host_call": 3, "host_resp": 3, "write": 4, "p_send": 4, "echo": 1, "build": 1, "set_broken": 0.1})
    core = ("mk_obj", "mutate", "send_obj", "write", "p_send")
    snapshot = 0.7
    pipes = (1, 3)
    opened = 1.0
    secure = 0.1


class P19(Profile):
    quick, thorough = 5000, 125000
    world = ShellWorld
    rule = "Shell world: up to three shells, their writers, flushes, values that cannot be converted, and readers of what was flushed so far."
    measure = "hash of (operation, for each shell: pending values, whether one cannot be converted, flushes and values per stream, each by size class) before each operation"
    real = ["psrpcore ClixmlShell, ClixmlOutput, serialize_clixml, deserialize_clixml, serializer"]
    stub = ["writer and reader processes (operation generator)", "clock and randomness (seams)"]
    assumptions = ["Records are built with the documented types; values are not changed between being written and flushed."]
    steps = (5, 60)
    table = {
        "out": (6, lambda r, z: ["out", r.randrange(3), r.randrange(BIG), z]), "same": (1, lambda r, z: ["same", r.randrange(3), r.randrange(3)]),
        "text": (4, lambda r, z: ["text", r.randrange(3), r.randrange(5), r.randrange(BIG), z]), "rec": (4, lambda r, z: ["rec", r.randrange(3), r.randrange(3), r.randrange(BIG)]),
        "poison": (0.7, lambda r, z: ["poison", r.randrange(3), r.randrange(9), r.randrange(3)]), "emit": (3, lambda r, z: ["emit", r.randrange(3)]), "read": (1, lambda r, z: ["read", r.randrange(3), r.randrange(3)]),
        "judge": (0.5, lambda r, z: ["judge", r.randrange(3)]), "foreign": (0.7, lambda r, z: ["foreign", r.randrange(3), r.randrange(BIG)]),
        "document": (0.7, lambda r, z: ["document", r.randrange(BIG), r.choice([0, 1, 1, 1, 2, 3, 6]), z]),
    }

    def config(self, r, seed):
        return {"env": seed, "size": r.choice([3, 6, 8, 12])}

    def generate(self, w, r):
        for _ in range(r.choice([1, 1, 2, 3])):
            yield ["shell"]
        names = sorted(self.table)
        cum = [self.table[n][0] * (1 if n in ("out", "emit") else r.choice([0, 0.3, 1, 1, 3])) for n in names]
        sizes = r.choice([(3, 8), (8, 20), (8, 100)])
        for _ in range(r.randint(*self.steps)):
            yield self.table[r.choices(names, cum)[0]][1](r, r.choice(sizes))


class P23(Profile):
    quick, thorough = 2400, 60000
    world = InteropWorld
    weights = mix(TRANSPORT, PIPES, POOLMSG, {"settle": 3, "record": 3, "exchange_key": 0.5, "request_key": 0.5, "echo": 1, "relay": 1.5, "crash": 0.1, "reattach": 0.2, "set_broken": 0.03})
    modes = ("stream", "channels")
    secure, versions, typed, meta = 0.3, 0.2, 0.5, 0.2
    pipes = (1, 3)
    respell = (0.0, 0.3)
    rule = "Interoperation world: a session in which every message that is sent is read by a reference implementation of the documented wire format that shares no code with psrpcore."
    stub = Profile.stub + ["the other implementation: reference reader and writer of CLIXML messages (sim/refwire.py, sim/interop.py)"]
    assumptions = Profile.assumptions + ["The reference reader was written from MS-PSRP by the same author as the models; members the document calls optional are not demanded."]

    def config(self, r, seed):
        cfg = super().config(r, seed)
        cfg["respell"] = r.choice(self.respell)
        return cfg


class P24(P23):
    quick, thorough = 2400, 60000
    respell = (0.6, 1.0)
    rule = "Interoperation world: a session in which every message is written anew in another permitted spelling and fragmentation before it is delivered."


class P25(Profile):
    quick, thorough = 450, 11000
    world = EndureWorld
    weights = {**{k: v * 0.5 for k, v in ANY.items() if k not in ("set_broken", "close", "begin_close")}, "flush": 3, "deliver": 3, "pump": 3, "settle": 2, "p_send": 3, "write": 3, "arith": 0.5, "scribble": 0.5, "begin_stop": 1.2, "p_close": 1.5, "sp_stop": 0.7, "sp_complete": 0.7, "new_pipe": 1, "p_start": 1, "sp_start": 1}
    core = ("p_send", "write")
    mixed = 0
    steps = (4, 40)
    pipes = (0, 2)
    opened = 1.0
    secure = 0.3
    poison = 0.4
    poison_rate = 0.3
    versions = 0.1
    rule = "Endurance world: a cycle of arbitrary operations of the session world, at the end of which all work is finished, is repeated; what both pools and the library still refer to is counted after each cycle."
    assumptions = Profile.assumptions[:1] + ["Work counts as finished when its pipelines are closed at both ends and its host calls and requests are answered; what an abandoned prompt leaves behind is not judged.", "Retention is counted in objects and bytes reachable from the pools and from the library's modules and classes; growth that stops within 36 cycles is taken for a bounded cache."]

    def config(self, r, seed):
        return dict(super().config(r, seed), logged=False)

    def generate(self, w, r):
        self.prepare(w, r)
        yield ["open", 0]
        yield ["settle", 0]
        if w.cfg.get("secure") and r.random() < self.key_first:
            yield ["exchange_key", 0]
            yield ["settle", 0]
        yield ["begin"]
        gen = self.prologue(w, r)
        for op in gen:
            if op[0] != "open":
                yield op
        for _ in range(r.randint(*self.steps)):
            yield OPS[r.choices(w.names, w.cum)[0]](w, r)
        if r.random() < 0.3:
            yield ["guest", r.randrange(4)]
        yield ["repeat", 8]


PROFILES = {"C%s" % k[1:]: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}
