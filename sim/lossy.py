"""A transport that loses, repeats, reorders and damages fragments (C04).

The session is opened and its pipelines are started over a reliable transport.  Then the transport turns
lossy and only messages without effect on the state of either end are exchanged: input, output, records
and user events.  The reference model is one automaton per object id: a fragment is in order if its
number is the one expected next, any other fragment is offending, a completed copy is one event - or one
error when one of its fragments was damaged.
"""
import random

from . import core, wire
from .core import HarnessError, Link, clean, psrpcore
from .world import SessionWorld


class Flying:
    __slots__ = ("oid", "fid", "end", "raw", "off", "bad", "label", "copy")

    def __init__(self, oid, fid, end, raw, off, label, bad=False, copy=False):
        self.oid, self.fid, self.end, self.raw, self.off, self.label, self.bad, self.copy = oid, fid, end, raw, off, label, bad, copy

    def again(self):
        return Flying(self.oid, self.fid, self.end, self.raw, self.off, self.label, self.bad, True)


class LossyLink(Link):
    def __init__(self, mode):
        super().__init__(mode)
        self.lossy = False
        self.air = []
        self.offsets = {}

    def put(self, payload):
        if not self.lossy:
            return super().put(payload)
        pos = 0
        for f in wire.fragments(payload.data):
            n = 21 + len(f.data)
            off = self.offsets.get(f.oid, 0)
            self.offsets[f.oid] = off + len(f.data)
            self.air.append(Flying(f.oid, f.fid, f.end, payload.data[pos:pos + n], off, payload))
            pos += n


class LossyWorld(SessionWorld):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.l_cs, self.l_sc = LossyLink(cfg["mode"]), LossyLink(cfg["mode"])
        self.lossy = False
        self.asm = {"c": {}, "s": {}}  # receiver: oid -> [next fragment, damaged]
        self.due = {"c": [], "s": []}  # events in order
        self.errors = {"c": 0, "s": 0}

    def op_go_lossy(self):
        if self.lossy:
            return
        self.op_settle(0)
        self.lossy = True
        self.l_cs.lossy = self.l_sc.lossy = True

    # ------------------------------------------------------------ faults
    def air(self, side):
        return self.link_from(self.end(side)).air if self.lossy else []

    def op_drop(self, side, i, n):
        air = self.air(side)
        if not air:
            return
        i %= len(air)
        k = len(air[i:i + max(1, n)])
        del air[i:i + max(1, n)]
        self.count("fault:fragment_lost", k)

    def op_drop_message(self, side, i):
        air = self.air(side)
        if not air:
            return
        oid = air[i % len(air)].oid
        n = len(air)
        air[:] = [f for f in air if f.oid != oid]
        self.count("fault:fragment_lost", n - len(air))

    def op_dup(self, side, i, j):
        air = self.air(side)
        if not air:
            return
        air.insert(j % (len(air) + 1), air[i % len(air)].again())
        self.fault("fragment_repeated")

    def op_resend(self, side, i, j):
        """Every fragment of one message that is in the air once more, in order, the copy starting at j."""
        air = self.air(side)
        if not air:
            return
        oid = air[i % len(air)].oid
        copies = [f.again() for f in air if f.oid == oid and not f.copy]
        j %= len(air) + 1
        air[j:j] = copies
        self.count("fault:fragment_repeated", len(copies))

    def op_swap(self, side, i, j):
        air = self.air(side)
        if len(air) < 2:
            return
        i, j = i % len(air), j % len(air)
        if i != j:
            air[i], air[j] = air[j], air[i]
            self.fault("fragment_reordered")

    def op_shuffle(self, side, seed, whole):
        """Interleave the messages in the air; with whole != 0 the order within each message is kept."""
        air = self.air(side)
        if len(air) < 2:
            return
        r = random.Random("sh:%s" % seed)
        if whole:
            queues = {}
            for f in air:
                queues.setdefault((f.oid, f.copy), []).append(f)
            out, keys = [], sorted(queues)
            while keys:
                k = r.choice(keys)
                out.append(queues[k].pop(0))
                if not queues[k]:
                    keys.remove(k)
            air[:] = out
            self.fault("messages_interleaved")
        else:
            r.shuffle(air)
            self.fault("fragment_reordered")

    def op_damage(self, side, i, kind, at):
        """Make one message undecodable: an unknown message type, or a body that is not XML."""
        air = self.air(side)
        if not air:
            return
        f = air[i % len(air)]
        raw = bytearray(f.raw)
        data = len(raw) - 21
        if kind % 3 == 0:
            if f.off != 0 or data < 8:
                return
            raw[25:29] = b"\x77\x77\x00\x00"
            self.fault("message_type_damaged")
        else:
            lo = max(0, 46 - f.off)
            if data <= lo:
                return
            p = 21 + lo + at % (data - lo)
            if raw[p:p + 1] == b"<":
                return
            raw[p] = 0x3C
            self.fault("message_body_damaged")
        f.raw = bytes(raw)
        f.bad = True

    # ------------------------------------------------------------ transport
    def op_deliver(self, side, which, n):
        if not self.lossy:
            return super().op_deliver(side, which, n)
        end = self.end(side)
        link = self.link_from(self.peer(end))
        n = len(link.air) if n <= 0 else min(n, len(link.air))
        if not n:
            return
        fs, link.air[:n] = link.air[:n], []
        for f in fs:
            self.arrive(end, f)
        data = b"".join(f.raw for f in fs)
        # hand the bytes over in pieces; events may be asked for in between
        r = random.Random("cut:%s:%s" % (self.steps, which))
        pos = 0
        while pos < len(data):
            k = len(data) - pos if which == 0 else min(len(data) - pos, r.choice([1, 20, 21, 22, 60, 500, len(data)]))
            try:
                end.pool.receive_data(psrpcore.PSRPPayload(data[pos:pos + k], fs[0].label.stream_type, fs[0].label.pipeline_id))
            except Exception as e:
                self.fail({"C04", "C03"}, "receive_data raised %s" % clean(e))
            pos += k
        self.log("deliver", end.name, n, len(data))
        self.count("bytes", len(data))

    def arrive(self, end, f):
        """The reference automaton."""
        asm = self.asm[end.name]
        st = asm.setdefault(f.oid, [0, False])
        if f.fid != st[0]:
            self.errors[end.name] += 1
            self.count("offending_fragments")
            return
        st[0] += 1
        st[1] = st[1] or f.bad
        if f.end:
            del asm[f.oid]
            if st[1]:
                self.errors[end.name] += 1
                self.count("undecodable_messages")
            else:
                self.due[end.name].append(self.peer(end).by_oid[f.oid])

    def op_pump(self, side, n):
        if not self.lossy:
            return super().op_pump(side, n)
        for _ in range(max(1, n)):
            if not self.lossy_pump(self.end(side)):
                break

    def lossy_pump(self, end):
        due, who = self.due[end.name], self.who(end)
        try:
            ev = end.pool.next_event()
        except Exception as e:
            if not self.errors[end.name]:
                self.fail({"C04"}, "next_event of the %s raised %s although every fragment that arrived was in order" % (who, clean(e)))
            self.errors[end.name] -= 1
            self.log("error", end.name, type(e).__name__)
            self.count("errors_reported")
            return True
        if ev is None:
            if due:
                self.fail({"C04"} | due[0].tags, "a complete copy of a %s message arrived in order at the %s but no event appears" % (due[0].kind, who))
            if self.errors[end.name]:
                self.fail({"C04"}, "%d offending fragments or undecodable messages arrived at the %s without an error" % (self.errors[end.name], who))
            return False
        if not due:
            self.fail({"C04", "C01"}, "event %s at the %s although no complete copy of a message arrived in order" % (type(ev).__name__, who))
        e = due.pop(0)
        if type(ev).__name__ != e.event + "Event" or ev.pipeline_id != e.pid or ev.runspace_pool_id != e.rpid:
            self.fail({"C04", "C01"} | e.tags, "event %s at the %s where a %s message arrived" % (type(ev).__name__, who, e.kind))
        e.tags.add("C04")
        self.examine(end, e, ev)
        self.count("events")
        return True

    def op_settle(self, limit, senders=None):
        if not self.lossy:
            return super().op_settle(limit, senders)
        amount = None if limit <= 0 else max(22, limit)
        for side in (0, 1):
            while self.flush(self.end(side), amount):
                pass
        for side in (0, 1):
            self.op_deliver(side, 0, 0)
            while self.lossy_pump(self.end(side)):
                pass
        self.deadline_pumps += 1

    def at_end(self):
        """Progress: after the last fault everything new is delivered, whatever was lost before."""
        if not self.lossy:
            return
        self.op_send_event(1, 0)
        for i in range(3):
            self.op_write(i, 1000 + i, 60, 0)
            self.op_p_send(i, 2000 + i, 60, 0)
        self.op_settle(64)
        self.check_state("settling")
