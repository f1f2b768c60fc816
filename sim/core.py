"""Core of the simulated session: two ends, the transport between them, and the reference model they are compared with.

The client and the server are the real psrpcore objects.  The transport, the clock, the randomness and
the applications on both sides belong to the simulator.  Every step is an operation (a small JSON list);
a run is a list of operations and nothing else, so it can be replayed and minimised.
"""
import hashlib
import random
import re
import uuid
from collections import deque

from . import seams

seams.install()

import psrpcore  # noqa: E402
from psrpcore import types as T  # noqa: E402

from . import values as V  # noqa: E402
from . import wire  # noqa: E402

KEPT_EVENTS = {"ErrorRecord", "WarningRecord", "VerboseRecord", "DebugRecord", "InformationRecord", "ProgressRecord", "UserEvent", "RunspacePoolHostCall", "PipelineHostCall", "RunspacePoolHostResponse", "PipelineHostResponse", "PipelineState", "RunspacePoolState"}
PROMPT = {"RunspacePoolHostCall", "PipelineHostCall", "RunspacePoolHostResponse", "PipelineHostResponse"}

HOME = {
    "SessionCapability": {"C06", "C13", "C12"}, "InitRunspacePool": {"C06"}, "ApplicationPrivateData": {"C06", "C12"}, "RunspacePoolState": {"C06", "C12"},
    "ConnectRunspacePool": {"C12"}, "RunspacePoolInitData": {"C12", "C10"}, "CreatePipeline": {"C15", "C13", "C05"}, "GetCommandMetadata": {"C15", "C05"},
    "PipelineInput": {"C05", "C07"}, "PipelineOutput": {"C05", "C07"}, "EndOfPipelineInput": {"C07"}, "PipelineState": {"C07"},
    "ErrorRecord": {"C14"}, "DebugRecord": {"C14"}, "VerboseRecord": {"C14"}, "WarningRecord": {"C14"}, "ProgressRecord": {"C14"}, "InformationRecord": {"C14", "C13"},
    "UserEvent": {"C14", "C05"}, "RunspacePoolHostCall": {"C09", "C16"}, "PipelineHostCall": {"C09", "C16"}, "RunspacePoolHostResponse": {"C09", "C16"}, "PipelineHostResponse": {"C09", "C16"},
    "RunspaceAvailability": {"C10"}, "SetMaxRunspaces": {"C10"}, "SetMinRunspaces": {"C10"}, "GetAvailableRunspaces": {"C10"}, "ResetRunspaceState": {"C10", "C13"},
    "PublicKey": {"C11"}, "PublicKeyRequest": {"C11"}, "EncryptedSessionKey": {"C11"},
}


class Violation(Exception):
    def __init__(self, tags, what):
        super().__init__(what)
        self.tags = set(tags)
        self.what = what


class HarnessError(Exception):
    """The simulator itself did something it must not do."""


def clean(e):
    return "%s: %s" % (type(e).__name__, re.sub(r"0x[0-9a-f]{6,}", "0x..", str(e))[:160])


def diff(want, got, path=""):
    """Short description of the first difference of two canonical forms."""
    if type(want) is not type(got):
        return "%s: expected %r, got %r" % (path or "value", short(want), short(got))
    if isinstance(want, dict):
        for k in sorted(set(want) | set(got), key=str):
            if k not in want or k not in got:
                return "%s.%s: only %s" % (path, k, "received" if k not in want else "expected")
            if want[k] != got[k]:
                return diff(want[k], got[k], "%s.%s" % (path, k))
    if isinstance(want, (list, tuple)):
        for i, (a, b) in enumerate(zip(want, got)):
            if a != b:
                return diff(a, b, "%s[%d]" % (path, i))
        if len(want) != len(got):
            return "%s: expected %d items %r, got %d %r" % (path, len(want), short(want), len(got), short(got))
    return "%s: expected %r, got %r" % (path or "value", short(want), short(got))


def short(x):
    s = repr(x)
    return s if len(s) < 140 else s[:137] + "..."


class Exp:
    """One message the model says was queued, and how its arrival has to look."""

    __slots__ = ("kind", "pid", "rpid", "stream", "want", "got", "ok", "effect", "tags", "secrets", "oid", "nfrag", "data", "event", "refused", "seq", "mask", "extra", "form", "record", "foreign")

    def __init__(self, kind, pid, rpid, want, got, effect, tags, secrets):
        self.kind, self.pid, self.rpid = kind, pid, rpid
        self.stream = "prompt_response" if kind in PROMPT else "default"
        self.want, self.got, self.effect, self.secrets = want, got, effect, secrets
        self.ok = None
        self.tags = set(HOME[kind]) | set(tags)
        self.oid = None
        self.nfrag = 0
        self.data = bytearray()
        self.event = kind
        self.refused = None
        self.mask = False
        self.extra = None
        self.form = None
        self.foreign = False
        self.record = None


class PipeM:
    """Model of one end of a pipeline."""

    def __init__(self, real, pid, kind, state="NotStarted", definition=None):
        self.real, self.pid, self.kind, self.state, self.definition = real, pid, kind, state, definition
        self.started = 0
        self.responder = None


class End:
    def __init__(self, name, pool, state):
        self.name, self.pool, self.state = name, pool, state
        self.pipes = {}
        self.out = deque()
        self.by_oid = {}
        self.rx = bytearray()
        self.partial = {}
        self.inbox = deque()
        self.min = self.max = 0
        self.their_ver = None
        self.our_ver = (2, 3)
        self.key = name == "s"
        self.key_req = False
        self.reqs = {}  # client: ci -> (kind, value), unanswered
        self.asks = {}  # server: ci -> (kind, value), unanswered
        self.used_ci = set()
        self.calls = {}  # server: ci -> (method, pid), outstanding host calls
        self.pending = {}  # client: ci -> (method, pid)
        self.answered = []  # client: ci values already answered
        self.deferred = []  # client: (exp, event) whose secure strings cannot be read yet
        self.bag = []
        self.seen = []  # events whose content the application may change
        self.records = []
        self.rpid = None
        self.oids = set()


class Link:
    """One direction of the transport."""

    def __init__(self, mode):
        self.mode = mode
        self.segs = deque()  # stream mode: payloads not yet delivered, in order
        self.chans = {}  # channels mode: (pid, stream) -> payloads

    def put(self, payload):
        if self.mode == "stream":
            self.segs.append(payload)
        else:
            self.chans.setdefault((payload.pipeline_id, payload.stream_type), deque()).append(payload)

    def pending(self):
        return sum(len(p.data) for p in self.segs) + sum(len(p.data) for q in self.chans.values() for p in q)

    def live(self):
        return [k for k, q in self.chans.items() if q]


class Core:
    keeps_events = False

    def __init__(self, cfg):
        self.cfg = cfg
        self.ctx = seams.Context(cfg["env"])
        seams.SEAM.ctx = self.ctx
        self.steps = 0
        self.trace = hashlib.sha1()
        self.lines = [] if cfg.get("transcript") else None
        self.stats = {}
        self.states = set()
        self.known = set()  # listed findings that were seen
        self.refused_tags = set()
        self.disrupted = False
        self.failed = False
        self.mutated = False
        self.time_covered = 0.0
        self.deadline_pumps = 0
        self.inject_dead = False
        self.seq = 0

    # ------------------------------------------------------------ bookkeeping
    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fault(self, kind):
        self.count("fault:" + kind)

    def log(self, *parts):
        line = repr(parts)
        self.trace.update(line.encode("utf-8", "surrogatepass"))
        if self.lines is not None:
            self.lines.append(line)

    def amb(self):
        t = set()
        if self.disrupted:
            t.add("C12")
        if self.failed:
            t.add("C08")
        if self.mutated:
            t.add("C18")
        return t

    def fail(self, tags, what):
        raise Violation(set(tags) | self.amb(), what)

    def peer(self, end):
        return self.s if end is self.c else self.c

    def link_from(self, end):
        return self.l_cs if end is self.c else self.l_sc

    # ------------------------------------------------------------ calling the library
    def call(self, what, fn, tags, refuse=None, args=(), mut=None, failing=False):
        """Run one library operation.  refuse = (exception class, property ids) when the model says it must raise.

        failing marks refusals caused by a fault or an unusable value, which must leave no trace (C08).
        Returns (ok, result).
        """
        before = None
        if args:
            try:
                before = [V.snap(a) for a in args]
            except Exception as e:  # unreadable on purpose
                before = clean(e)
        try:
            res = fn()
            err = None
        except Exception as e:
            res, err = None, e
        if args:
            try:
                after = [V.snap(a) for a in args]
            except Exception as e:
                after = clean(e)
            if before != after:
                self.fail({"C18"}, "%s changed the object it was given: %s" % (what, diff(before, after)))
        if mut is not None:
            r = random.Random(mut)
            for a in args:
                if V.mutate(a, r):
                    self.mutated = True
                    self.fault("mutate_after_send")
        if refuse is None:
            if err is not None:
                self.fail(set(tags) | self.refused_tags, "%s raised %s" % (what, clean(err)))
            self.log("call", what)
            return True, res
        cls, ptags = refuse
        if err is None:
            self.fail(set(ptags) | set(tags), "%s was accepted, expected %s" % (what, cls.__name__))
        if not isinstance(err, cls):
            self.fail(set(ptags) | set(tags), "%s raised %s, expected %s" % (what, clean(err), cls.__name__))
        self.refused_tags |= set(ptags)
        self.count("refused")
        if failing:
            self.failed = True
            self.refused_tags.add("C08")
            self.fault("failed_operation")
        self.log("refused", what, type(err).__name__)
        return False, None

    def queue(self, end, kind, want=None, got=None, effect=None, pid=None, tags=(), secrets=(), event=None):
        e = Exp(kind, pid, end.rpid, want, got, effect, tags, secrets)
        if event:
            e.event = event
        self.seq += 1
        e.seq = self.seq
        end.out.append(e)
        self.count("msg:" + kind)
        return e

    # ------------------------------------------------------------ sending
    def flush(self, end, amount):
        """One data_to_send call, checked against the queue of the model.  False when nothing was queued."""
        try:
            p = end.pool.data_to_send() if amount is None else end.pool.data_to_send(amount)
        except Exception as e:
            self.fail({"C02", "C01"}, "data_to_send(%s) raised %s" % (amount, clean(e)))
        if p is None:
            if end.out:
                e = end.out[0]
                self.fail({"C02", "C01"} | (e.tags if e.nfrag == 0 else set()), "data_to_send returned nothing while a %s message is queued" % e.kind)
            self.log("flush", end.name, None)
            return False
        if not isinstance(p.data, bytes):
            self.fail({"C02"}, "payload data is %s" % type(p.data).__name__)
        if not end.out:
            self.fail({"C01", "C02"} | self.refused_tags, "data_to_send returned %d bytes although nothing is queued" % len(p.data))
        if amount is not None and len(p.data) > amount:
            self.fail({"C02"}, "payload of %d bytes exceeds the limit of %d" % (len(p.data), amount))
        try:
            frags = wire.fragments(p.data)
        except wire.WireError as e:
            self.fail({"C02", "C01", "C23"}, "malformed payload: %s" % e)
        if not frags or not any(f.data for f in frags):
            self.fail({"C02"}, "payload without data although messages are queued")
        done = []
        for f in frags:
            if not end.out:
                self.fail({"C01", "C02"} | self.refused_tags, "a fragment was sent that belongs to no queued message")
            e = end.out[0]
            if p.pipeline_id != e.pid or p.stream_type.name != e.stream:
                self.fail({"C02", "C01"} | e.tags, "payload labelled %s/%s carries a %s message of %s/%s" % (self.pname(p.pipeline_id), p.stream_type.name, e.kind, self.pname(e.pid), e.stream))
            if e.oid is None:
                if f.oid in end.oids:
                    self.fail({"C02", "C01", "C17"}, "object id %d was used for two messages" % f.oid)
                if f.oid == 0:
                    self.fail({"C02"}, "object id 0")
                e.oid = f.oid
                end.oids.add(f.oid)
                end.by_oid[f.oid] = e
            elif f.oid != e.oid:
                self.fail({"C02", "C01"}, "fragment of object %d while message %d is unfinished" % (f.oid, e.oid))
            if f.fid != e.nfrag or f.start != (e.nfrag == 0):
                self.fail({"C02", "C01", "C23"}, "fragment %d of a message is numbered %d, start flag %s" % (e.nfrag, f.fid, f.start))
            e.nfrag += 1
            e.data += f.data
            if f.end:
                end.out.popleft()
                self.sent(end, e)
                done.append(e.kind)
        self.log("flush", end.name, len(p.data), len(frags), self.pname(p.pipeline_id), p.stream_type.name, done)
        self.count("payloads")
        self.count("fragments", len(frags))
        if not (end is self.c and self.inject_dead):
            self.link_from(end).put(p)
        return True

    def sent(self, end, e):
        """A whole message left an end: check its header and what it discloses."""
        try:
            m = wire.message(bytes(e.data))
        except wire.WireError as err:
            self.fail({"C02", "C01", "C23"} | e.tags, "%s: %s" % (e.kind, err))
        want = wire.TYPES[e.kind]
        if m.type != want:
            name = {v: k for k, v in wire.TYPES.items()}.get(m.type, hex(m.type))
            self.fail({"C01", "C23"} | e.tags | self.refused_tags, "a %s message was sent where a %s message was queued" % (name, e.kind))
        if m.dest != (2 if end is self.c else 1):
            self.fail({"C01", "C23"}, "%s message is addressed to %d" % (e.kind, m.dest))
        if e.kind == "SessionCapability" and end is self.s and m.rpid.int == 0:
            e.rpid = m.rpid  # like PowerShell, the server introduces itself before it belongs to a pool
        if m.rpid != e.rpid:
            self.fail({"C01", "C23"} | e.tags, "%s message carries a different pool id" % e.kind)
        if m.pid != e.pid:
            self.fail({"C01", "C23", "C07"} | e.tags, "%s message carries pipeline id %s, expected %s" % (e.kind, self.pname(m.pid), self.pname(e.pid)))
        self.on_sent(end, e, m)

    def on_sent(self, end, e, m):
        pass

    def pname(self, pid):
        return "pool" if pid is None else "pipeline-%s" % str(pid)[:8]

    # ------------------------------------------------------------ transport
    def deliver(self, end, which, n):
        """Hand bytes that are in flight to an end.  Stream mode: the first n bytes, whatever the payload boundaries."""
        link = self.link_from(self.peer(end))
        if link.mode == "stream":
            total = link.pending()
            if not total:
                return False
            n = total if n <= 0 else min(n, total)
            label = link.segs[0]
            buf = bytearray()
            while len(buf) < n:
                p = link.segs.popleft()
                need = n - len(buf)
                if len(p.data) > need:
                    buf += p.data[:need]
                    link.segs.appendleft(p._replace(data=p.data[need:]))
                    self.fault("split_segment")
                else:
                    buf += p.data
            data = bytes(buf)
        else:
            live = link.live()
            if not live:
                return False
            k = live[which % len(live)]
            if which % len(live):
                self.fault("reorder_channels")
            label = link.chans[k].popleft()
            data = label.data
        try:
            end.pool.receive_data(psrpcore.PSRPPayload(data, label.stream_type, label.pipeline_id))
        except Exception as e:
            self.fail({"C03", "C01"}, "receive_data raised %s" % clean(e))
        end.rx += data
        if end is self.s and end.state == "BeforeOpen":
            end.state = "Opening"
        self.log("deliver", end.name, len(data))
        self.count("bytes", len(data))
        return True

    def parse(self, end):
        """The model of reassembly: complete messages go to the inbox in the order their last fragment arrived."""
        src = self.peer(end)
        while True:
            f, n = wire.take(end.rx)
            if f is None:
                return
            del end.rx[:n]
            e = src.by_oid.get(f.oid)
            if e is None:
                raise HarnessError("unknown object id in flight")
            if f.end:
                end.inbox.append(e)

    # ------------------------------------------------------------ receiving
    def pump(self, end):
        """One next_event call, checked against the model.  False when nothing was due."""
        self.parse(end)
        e = end.inbox[0] if end.inbox else None
        if e is not None:
            self.before_event(end, e)
        try:
            ev = end.pool.next_event()
            err = None
        except Exception as x:
            ev, err = None, x
        if e is None:
            if err is not None:
                self.fail({"C03", "C01"}, "next_event of the %s raised %s although no complete message is there" % (self.who(end), clean(err)))
            if ev is not None:
                self.fail({"C01", "C03"}, "unexpected event %s at the %s" % (type(ev).__name__, self.who(end)))
            return False
        end.inbox.popleft()
        if e.refused is not None:
            if err is None:
                self.fail(e.refused, "%s message that must be refused was accepted" % e.kind)
            if not isinstance(err, psrpcore.PSRPCoreError):
                self.fail(e.refused, "%s message that must be refused raised %s" % (e.kind, clean(err)))
            self.log("event-refused", end.name, e.kind)
            return True
        if err is not None:
            self.fail({"C01", "C03"} | e.tags, "receiving a %s message at the %s raised %s" % (e.kind, self.who(end), clean(err)))
        if ev is None:
            self.fail({"C01", "C03"} | e.tags, "no event although a complete %s message was delivered to the %s" % (e.kind, self.who(end)))
        name = type(ev).__name__
        if name != e.event + "Event":
            self.fail({"C01", "C03"} | e.tags, "event %s at the %s where a %s message was sent" % (name, self.who(end), e.event))
        if ev.message_type.name != e.kind or int(ev.message_type.value) != wire.TYPES[e.kind]:
            self.fail({"C01"} | e.tags, "%s event carries message type %s" % (e.kind, ev.message_type.name))
        if ev.runspace_pool_id != e.rpid or ev.pipeline_id != e.pid:
            self.fail({"C01", "C07"} | e.tags, "%s event carries identifiers of another target" % e.kind)
        self.examine(end, e, ev)
        if e.effect is not None:
            try:
                e.effect(e, ev)
            except (Violation, HarnessError):
                raise
            except Exception as x:
                self.fail({"C01"} | e.tags, "processing the %s event raised %s" % (e.kind, clean(x)))
        if self.keeps_events and e.event in KEPT_EVENTS:
            end.seen.append((ev, e))
            del end.seen[:-6]
        self.count("events")
        return True

    def examine(self, end, e, ev):
        if e.got is None:
            self.log("event", end.name, e.kind)
            return
        locked = bool(e.secrets) and not end.key
        if self.cfg.get("shown"):
            # an application that writes every event to its log
            try:
                texts = repr(ev), str(ev)
            except psrpcore.MissingCipherError:
                if not locked:
                    self.fail(e.tags | {"C11"}, "showing the %s event raised MissingCipherError although no key is needed" % e.kind)
            except Exception as x:
                self.fail(e.tags, "showing the %s event raised %s" % (e.kind, clean(x)))
            else:
                if not all(isinstance(t, str) for t in texts):
                    self.fail(e.tags, "the %s event is not shown as text" % e.kind)
            self.count("shown")
        try:
            got = e.got(ev)
        except psrpcore.MissingCipherError:
            if locked:
                end.deferred.append((e, ev))
                self.count("read_before_key")
                self.log("event-locked", end.name, e.kind)
                return
            self.fail(e.tags | {"C11"}, "reading the %s event raised MissingCipherError although the key is there" % e.kind)
        except Exception as x:
            self.fail(e.tags, "reading the %s event raised %s" % (e.kind, clean(x)))
        if locked:
            self.fail({"C11"}, "a secure string of a %s event was readable before the key was exchanged" % e.kind)
        self.compare(e, got)
        self.log("event", end.name, e.kind, "masked" if e.mask else hashlib.sha1(repr(got).encode("utf-8", "surrogatepass")).hexdigest())

    def compare(self, e, got):
        bad = None
        if e.ok is not None:
            bad = e.ok(got)
        elif got != e.want:
            bad = diff(e.want, got)
        if bad:
            t = set(e.tags)
            if e.secrets:
                t.add("C11")
            self.fail(t, "%s event differs from what was sent: %s" % (e.kind, bad))

    def unlock(self, end):
        for e, ev in end.deferred:
            try:
                got = e.got(ev)
            except Exception as x:
                self.fail(e.tags | {"C11"}, "reading a secure string after the key exchange raised %s" % clean(x))
            self.compare(e, got)
        end.deferred.clear()

    def who(self, end):
        return "client" if end is self.c else "server"

    def before_event(self, end, e):
        pass
