"""A session that goes on and on (C25).

A run is a set-up, a cycle of arbitrary operations that ends with everything finished, and the same cycle again and
again.  After each cycle all work is over: nothing is queued or on its way, nobody waits for an answer, all pipelines
are closed.  What the pools (and the library's modules and classes) still hold then must not grow from cycle to cycle.
"""
import collections
import gc
import sys
import types
import weakref

from .core import T, psrpcore
from . import values as V
from .isolation import Member

FUNCTIONS = (types.FunctionType, types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType)
SKIP = (types.ModuleType, type, types.FrameType, types.CodeType)
SCALAR = (int, float, complex, bool, type(None))
FIRST, LAST = 8, 36


def library():
    """Everything the modules and classes of the library refer to."""
    out = []
    for name in sorted(sys.modules):
        if name.split(".")[0] == "psrpcore":
            for v in list(vars(sys.modules[name]).values()):
                out.append(v)
                if isinstance(v, type) and v.__module__.split(".")[0] == "psrpcore":
                    out.extend(vars(v).values())
    return out


def retained(roots):
    """Number of objects by type, and of their bytes, characters and entries, that can be reached."""
    seen, todo, kinds, size = set(), list(roots), collections.Counter(), 0
    while todo:
        o = todo.pop()
        if isinstance(o, SCALAR) and type(o) in SCALAR or isinstance(o, SKIP) or id(o) in seen:
            continue
        seen.add(id(o))
        kinds[type(o).__name__] += 1
        if isinstance(o, FUNCTIONS):
            if isinstance(o, types.FunctionType):
                todo += [c for c in (o.__closure__ or ())] + list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
                if o.__dict__:
                    todo.append(o.__dict__)
            continue
        if isinstance(o, (str, bytes, bytearray, list, tuple, dict, set, frozenset, collections.deque)):
            size += len(o)
        todo += gc.get_referents(o)
    return kinds, size


def growing(series):
    return len(series) > 3 and all(a < b for a, b in zip(series, series[1:]))


class EndureWorld(Member):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.cycle = None
        self.cycles = 0
        self.lost = False
        V.SALT[0] = ""

    def apply(self, op):
        if op[0] == "begin":
            self.cycle = []
        elif op[0] == "repeat":
            self.repeat(op[1])
        else:
            if self.cycle is not None:
                self.cycle.append(op)
            super().apply(op)

    def do(self, *op):
        Member.apply(self, list(op))

    def op_reattach(self, limit, keep=0):
        self.op_settle(limit)
        # requests that the server dropped when it accepted connections are not answered, so not finished
        self.lost = self.lost or bool(self.s.asks)
        super().op_reattach(limit, keep)

    def op_guest(self, stage):
        """A short session of the same process; the application forgets it at some stage of its life."""
        c, s = psrpcore.ClientRunspacePool(), psrpcore.ServerRunspacePool()

        def over(a, b):
            p = a.data_to_send()
            while p:
                b.receive_data(p)
                p = a.data_to_send()
            while b.next_event():
                pass

        c.open()
        p = q = None
        if stage > 0:
            over(c, s)
            over(s, c)
            p = psrpcore.ClientPowerShell(c, no_input=False)
            p.add_script("guest")
            q = psrpcore.ServerPipeline(s, p.pipeline_id)
            p.start()
        if stage > 1:
            over(c, s)
            q.start()
            q.host_call(T.HostMethodIdentifier.ReadLine)
            q.write_output({"a": [1]})
            c.set_max_runspaces(4)
            over(s, c)
            over(c, s)
        if stage > 2:
            q.complete()
            over(s, c)
            p.close()
            q.close()
            c.close()
            s.close()
        refs = [weakref.ref(c), weakref.ref(s)]
        del c, s, p, q
        gc.collect()
        if any(r() is not None for r in refs):
            self.fail({"C25"}, "a pool that its application has dropped is kept alive")
        self.count("guests")

    def tidy(self):
        """Bring all work to its end.  False when this session cannot (it was closed, for instance)."""
        c, s = self.c, self.s
        self.do("settle", 0)
        for _ in range(3):
            for side, e in enumerate((c, s)):
                if e.state == "Disconnecting":
                    self.do("disconnect", side)
                if e.state == "Disconnected":
                    self.do("reconnect", side)
            self.do("settle", 0)
        if c.state != "Opened" or s.state != "Opened":
            return False
        for k in range(400):
            if not c.pending:
                break
            self.do("host_resp", 0, 5 + k % 3, k, 0)
        for k in range(400):
            if not s.asks:
                break
            self.do("answer", 0, k % 2 * 4, 0)
        self.do("settle", 0)
        for i, m in enumerate(list(s.pipes.values())):
            if m.state == "NotStarted" and m.pid in c.pipes and c.pipes[m.pid].state == "Running":
                self.do("sp_start", i)
            if m.state == "Running":
                self.do("sp_complete", i)
            elif m.state == "Stopping":
                self.do("sp_stop", i)
        self.do("settle", 0)
        for i, m in enumerate(list(c.pipes.values())):
            if m.state == "Running" and m.pid not in s.pipes:
                self.do("begin_stop", 0, i)
        for side, e in enumerate((c, s)):
            for i in reversed(range(len(e.pipes))):
                self.do("p_close", side, i)
        self.do("settle", 0)
        if self.lost or c.pipes or s.pipes or c.pending or s.asks or c.out or s.out:
            return False
        return True

    def repeat(self, n):
        ops, self.cycle = self.cycle, None
        if not ops or not self.tidy():
            return
        series = {k: [] for k in ("client", "server", "library", "client bytes", "server bytes", "library bytes")}
        kinds = {}
        n = max(FIRST, n)
        k = 0
        while k < n:
            V.SALT[0] = "%04d" % k
            for op in ops:
                self.do(*op)
            if not self.tidy():
                return
            k += 1
            self.cycles += 1
            self.count("cycles")
            self.measure(series, kinds, k)
            if k == n and n < LAST and any(growing(v[-5:]) for v in series.values()):
                n = LAST  # rather a bounded cache than a leak?
        if n < LAST:
            return
        for who, v in sorted(series.items()):
            if growing(v[-25:]):
                word = who.split()[0]
                diff = {t: x - kinds[word][0].get(t, 0) for t, x in kinds[word][1].items() if x - kinds[word][0].get(t, 0) >= 10}
                self.fail({"C25"}, "what the %s holds between cycles of finished work grows in each cycle: %s" % (who, ", ".join("%s %+d" % p for p in sorted(diff.items())[:6]) or "%d to %d" % (v[-25], v[-1])))

    def measure(self, series, kinds, k):
        gc.collect(0)
        for who, roots in (("client", [self.c.pool]), ("server", [self.s.pool]), ("library", None)):
            count, size = retained(library() if roots is None else roots)
            series[who].append(sum(count.values()))
            series[who + " bytes"].append(size)
            kinds.setdefault(who, [count, count])
            if k == LAST - 25:
                kinds[who][0] = count
            kinds[who][1] = count
