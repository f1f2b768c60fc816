"""Several sessions in one process (C17).

Every session of the run is recorded and also executed alone, with the same operations and the same
environment, in a process that was forked before any session existed.  Both transcripts - calls, refusals,
payload sizes, message digests, events, errors - must be identical.
"""
import json
import operator
import os
import random
import sys

from . import core, records as R, seams, values as V
from .core import HarnessError, Violation, psrpcore, T
from .world import SessionWorld, pick

SHARED = {}
PROBED = []
NUMERIC = ["PSByte", "PSSByte", "PSInt16", "PSUInt16", "PSInt", "PSUInt", "PSInt64", "PSUInt64", "PSChar", "PSSingle", "PSDouble", "PSDecimal"]
ARITH = ["add", "sub", "mul", "floordiv", "mod", "and_", "or_", "xor", "lt", "le", "eq", "gt", "ge"]
NUMERIC = [n for n in NUMERIC if hasattr(T, n)]
TYPES = [c for _, c in sorted(vars(T).items()) if isinstance(c, type) and hasattr(c, "PSObject")]


def type_state(cls):
    o = cls.PSObject
    out = [list(o.type_names), o.to_string, o.rehydrate]
    for which in (o.extended_properties, o.adapted_properties):
        out.append([(p.name, p.mandatory, p.ps_type.__name__ if p.ps_type else None, repr(getattr(p, "value", None)) if not callable(getattr(p, "value", None)) else "") for p in which])
    return out


class Member(SessionWorld):
    """One session of several.  Adds operations that use what a process may share."""

    keeps_events = True

    def op_tweak(self, what, seed):
        """Change the configuration of this session through the public attributes of its own objects."""
        what %= 3
        key, val = "tweak%d" % (seed % 5), "t%d" % seed
        if what == 0 and self.c.state == "BeforeOpen":
            self.c.pool.application_arguments[key] = val
            self.args_spec = self.args_spec or ["dict", "dict", [], []]
            self.args_spec[2] = [kv for kv in self.args_spec[2] if kv[0][2] != key] + [[("str", "str", key), ("str", "str", val)]]
        elif what == 1 and self.s.state == "BeforeOpen":
            self.s.pool.application_private_data[key] = val
            self.apd_extra[key] = val
        elif what == 2:
            m = self.cpipe(seed)
            if m is not None and m.kind == "ps" and m.state == "NotStarted":
                m.real.metadata.history = val
                m.definition.options["history"] = val
        self.log("tweak", what)

    def op_scribble(self, side, i, seed):
        """The application changes an object it received; it is its own."""
        end = self.end(side)
        if seed % 3 and end.seen:
            ev, e = end.seen.pop(i % len(end.seen))
            if not any(d is e for d, _ in end.deferred):
                for name in ("record", "event", "method_parameters", "result", "error", "reason"):
                    obj = getattr(ev, name, None)
                    end.records[:] = [x for x in end.records if x[0] is not obj]
                    V.mutate(obj, random.Random("se:%s" % seed))
                self.fault("received_event_changed")
            return
        if not end.bag:
            return
        obj, e = end.bag.pop(i % len(end.bag))
        if any(d is e for d, _ in end.deferred):
            return  # not looked at yet
        V.mutate(obj, random.Random("sc:%s" % seed))
        self.fault("received_object_changed")

    def op_shared(self, side, i, which):
        """Send an object that other sessions of the process send as well."""
        end = self.end(side)
        m = pick(end.pipes.values(), i)
        if m is None or m.state != "Running":
            return
        which %= 6
        spec = V.value("shared:%d" % which, 2, 8, False)
        if which not in SHARED:
            SHARED[which] = V.build(spec)
        obj = SHARED[which]
        fn, kind = (m.real.send, "PipelineInput") if end is self.c else (m.real.write_output, "PipelineOutput")
        self.call("shared", lambda: fn(obj), {"C18", "C05"}, args=[obj])
        self.queue(end, kind, V.expect(spec), lambda ev: V.canon(ev.data), self.keep, pid=m.pid, tags={"C17"})

    def op_ambient(self):
        """What this session can see of the state all sessions share: the metadata of the types."""
        for cls in TYPES:
            self.log("type", cls.__name__, *type_state(cls))

    def op_arith(self, seed):
        """Local arithmetic and comparison with the numeric types; one result must not depend on others."""
        r = random.Random("ar:%s" % seed)
        a, b = (getattr(T, r.choice(NUMERIC))(r.choice([0, 1, 2, 5, 100])) for _ in range(2))
        if r.random() < 0.3:
            b = r.choice([3, "x", 2.5, None])
        for name in r.sample(ARITH, 3):
            try:
                res = getattr(operator, name)(a, b)
                res = (type(res).__name__, str(res))
            except (TypeError, ValueError, ArithmeticError) as e:
                res = type(e).__name__
            self.log("arith", name, type(a).__name__, type(b).__name__, res)

    def finish(self):
        super().finish()
        self.op_ambient()

    def sent(self, end, e):
        super().sent(end, e)
        # information records hold process and thread ids; the padding of the encrypted key is random
        if e.kind not in ("InformationRecord", "EncryptedSessionKey"):
            self.log("message", e.kind, e.oid, core.hashlib.sha1(bytes(e.data)).hexdigest())


def alone(cfg, ops):
    """The whole life of one session.  Returns its transcript."""
    w, err = None, None
    try:
        w = Member(cfg)
        seams.SEAM.ctx = None
        for op in ops:
            w.apply(op)
        w.finish()
    except Violation as v:
        err = v.what
    except HarnessError:
        raise
    except Exception as e:
        err = core.clean(e)
    return w.lines if w else [], err


class Solo:
    """A process forked now that executes one session later."""

    def __init__(self, cfg):
        a, self.wr = os.pipe()
        self.rd, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for fd in sorted(int(n) for n in os.listdir("/proc/self/fd")):
                    if fd > 2 and fd not in (a, b):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                with os.fdopen(a, "rb") as fd:
                    raw = fd.read()
                if raw:
                    try:
                        res = alone(cfg, json.loads(raw))
                    except BaseException as e:
                        res = ["HARNESS " + core.clean(e)], None
                    with os.fdopen(b, "wb") as fd:
                        fd.write(json.dumps(res).encode())
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    def result(self, ops):
        with os.fdopen(self.wr, "wb") as fd:
            fd.write(json.dumps(ops).encode())
        with os.fdopen(self.rd, "rb") as fd:
            raw = fd.read()
        os.waitpid(self.pid, 0)
        if not raw:
            raise HarnessError("the process of a session that runs alone ended without a result")
        return json.loads(raw)


class IsolationWorld:
    def __init__(self, cfg):
        self.cfg = cfg
        SHARED.clear()
        if not PROBED:
            PROBED.append(True)
            R.ALWAYS.update(seams.probe())
        self.solos = [Solo(c) for c in cfg["sessions"]]
        self.members = [None] * len(self.solos)
        self.ops = [[] for _ in self.solos]
        self.errors = [None] * len(self.solos)
        self.trace = core.hashlib.sha1()
        self.stats, self.states, self.known = {}, set(), set()
        self.steps, self.time_covered = 0, 0.0
        self.switches, self.last = 0, None

    def guard(self, k, fn):
        try:
            fn()
        except Violation as v:
            self.errors[k] = v.what
        except HarnessError:
            raise
        except Exception as e:
            self.errors[k] = core.clean(e)
        finally:
            seams.SEAM.ctx = None

    def born(self, k):
        if self.members[k] is None and self.errors[k] is None:
            def make():
                self.members[k] = Member(self.cfg["sessions"][k])
            self.guard(k, make)

    def apply(self, op):
        """["on", session, operation]"""
        k = op[1] % len(self.solos)
        self.born(k)
        if self.errors[k] is not None:
            return
        self.steps += 1
        self.switches += k != self.last
        self.last = k
        self.ops[k].append(op[2])
        self.guard(k, lambda: self.members[k].apply(op[2]))

    def finish(self):
        for k in range(len(self.solos)):
            self.born(k)
            if self.errors[k] is None:
                self.guard(k, self.members[k].finish)
        for k, solo in enumerate(self.solos):
            lines, err = solo.result(self.ops[k])
            if lines and lines[0].startswith("HARNESS"):
                raise HarnessError(lines[0])
            m = self.members[k]
            mine = m.lines if m else []
            if m:
                self.trace.update(m.trace.digest())
                for n, c in m.stats.items():
                    self.stats[n] = self.stats.get(n, 0) + c
                self.states |= m.states
                self.time_covered += m.time_covered
            for i, (a, b) in enumerate(zip(lines, mine)):
                if a != b:
                    raise Violation({"C17"}, "step %d of session %d is %s among other sessions but %s alone" % (i, k, core.short(b), core.short(a)))
            if err != self.errors[k]:
                raise Violation({"C17"}, "session %d: %s among other sessions, %s alone" % (k, self.errors[k] or "no failure", err or "no failure"))
            if len(lines) != len(mine):
                raise Violation({"C17"}, "session %d does %d steps among other sessions but %d alone" % (k, len(mine), len(lines)))
        # object identity: nothing mutable is shared between sessions
        self.stats["session_switches"] = self.switches
        for k, e in enumerate(self.errors):
            if e is not None:
                raise Violation({"other"}, e)
