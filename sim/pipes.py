"""Reference model of pipeline definitions (C15, C13): what the client built, what the server must receive."""
from psrpcore import Command
from psrpcore import types as T

from . import values as V
from .documented import member
from .values import canon, gen_str, norm, st

MERGES = ("error", "warning", "verbose", "debug", "information")


# ---------------------------------------------------------------- host details
def gen_host(r, size=6):
    d = {"flags": [r.random() < 0.5 for _ in range(4)], "data": None}
    if r.random() < 0.5:
        n = lambda: r.choice([0, 1, 80, 9999, 2147483647])
        d["data"] = [r.randrange(16), r.randrange(16), [n(), n()], [n(), n()], n(), [n(), n()], [n(), n()], [n(), n()], [n(), n()], gen_str(r, size)]
    return d


def build_host(d):
    if d is None:
        return None
    data = None
    if d["data"]:
        x = d["data"]
        data = T.HostDefaultData(ForegroundColor=member(T.ConsoleColor, x[0]), BackgroundColor=member(T.ConsoleColor, x[1]), CursorPosition=T.Coordinates(*x[2]), WindowPosition=T.Coordinates(*x[3]), CursorSize=x[4],
                                 BufferSize=T.Size(*x[5]), WindowSize=T.Size(*x[6]), MaxWindowSize=T.Size(*x[7]), MaxPhysicalWindowSize=T.Size(*x[8]), WindowTitle=x[9])
    f = d["flags"]
    return T.HostInfo(IsHostNull=f[0], IsHostUINull=f[1], IsHostRawUINull=f[2], UseRunspaceHost=f[3], HostDefaultData=data)


def expect_host(d):
    if d is None:
        return {"flags": [True] * 4, "data": None}
    x = d["data"]
    return {"flags": list(d["flags"]), "data": None if x is None else [v if not isinstance(v, str) else norm(v) for v in x]}


def canon_host(h):
    x = h.HostDefaultData
    pt = lambda c: [int(c.X), int(c.Y)]
    sz = lambda c: [int(c.Width), int(c.Height)]
    return {
        "flags": [bool(h.IsHostNull), bool(h.IsHostUINull), bool(h.IsHostRawUINull), bool(h.UseRunspaceHost)],
        "data": None if x is None else [int(x.ForegroundColor.value), int(x.BackgroundColor.value), pt(x.CursorPosition), pt(x.WindowPosition), int(x.CursorSize), sz(x.BufferSize), sz(x.WindowSize), sz(x.MaxWindowSize), sz(x.MaxPhysicalWindowSize), str(x.WindowTitle)],
    }


# ---------------------------------------------------------------- PowerShell pipelines
def gen_options(r, size):
    d = {}
    for k, f in (
        ("add_to_history", lambda: r.random() < 0.5),
        ("apartment_state", lambda: r.randrange(3)),
        ("history", lambda: gen_str(r, size)),
        ("host", lambda: gen_host(r, size)),
        ("is_nested", lambda: r.random() < 0.5),
        ("no_input", lambda: r.random() < 0.5),
        ("remote_stream_options", lambda: r.randrange(16)),
        ("redirect_shell_error_to_out", lambda: r.random() < 0.5),
    ):
        if r.random() < 0.4:
            d[k] = f()
    return d


def options_args(d):
    kw = dict(d)
    if "apartment_state" in kw:
        kw["apartment_state"] = member(T.ApartmentState, kw["apartment_state"])
    if "remote_stream_options" in kw:
        kw["remote_stream_options"] = member(T.RemoteStreamOptions, kw["remote_stream_options"])
    if "host" in kw:
        kw["host"] = build_host(kw["host"])
    return kw


class PipeDef:
    """Mirrors the builder calls made on one ClientPowerShell."""

    def __init__(self, options, pool_apartment):
        self.options = options
        self.apartment = options.get("apartment_state", pool_apartment)
        self.cmds = []

    def add(self, text, script, local):
        self.cmds.append({"text": text, "script": script, "local": local, "params": [], "eos": False, "merge": {}, "my": [0, 0], "unclaimed": False})

    def redirect(self, cmd, which, to):
        names = MERGES if which == "all" else (which,)
        for n in names:
            cmd["merge"][n] = to
            if n == "error":
                if to == 0:
                    cmd["my"] = [0, 0]
                elif to != 8:
                    cmd["my"] = [2, to]

    def expect(self, version):
        """version: the protocol version of the peer as a tuple, (2, 0) while unknown."""
        out = []
        for i, c in enumerate(self.cmds):
            merges = {}
            for n in MERGES:
                ok = version >= ((2, 3) if n == "information" else (2, 2))
                merges[n] = c["merge"].get(n, 0) if ok else 0
            out.append({
                "text": ["PSString", norm(c["text"])], "script": c["script"], "local": c["local"], "params": [[None if n is None else norm(n), V.expect(v)] for n, v in c["params"]],
                "eos": c["eos"] or i == len(self.cmds) - 1, "merge": merges, "my": list(c["my"]), "unclaimed": c["unclaimed"],
            })
        o = self.options
        return {
            "cmds": out, "add_to_history": o.get("add_to_history", False), "apartment_state": self.apartment, "history": st(o.get("history")), "host": expect_host(o.get("host")),
            "is_nested": o.get("is_nested", False), "no_input": o.get("no_input", True), "remote_stream_options": o.get("remote_stream_options", 0), "redirect_shell_error_to_out": o.get("redirect_shell_error_to_out", True),
        }


def canon_powershell(p):
    out = []
    for c in p.commands:
        out.append({
            "text": canon(c.command_text), "script": bool(c.is_script), "local": None if c.use_local_scope is None else bool(c.use_local_scope),
            "params": [[None if n is None else str(n), canon(v)] for n, v in c.parameters], "eos": bool(c.end_of_statement),
            "merge": {n: int(getattr(c, "merge_" + n).value) for n in MERGES}, "my": [int(c.merge_my.value), int(c.merge_to.value)], "unclaimed": bool(c.merge_unclaimed),
        })
    return {
        "cmds": out, "add_to_history": bool(p.add_to_history), "apartment_state": int(p.apartment_state.value), "history": canon(p.history), "host": canon_host(p.host),
        "is_nested": bool(p.is_nested), "no_input": bool(p.no_input), "remote_stream_options": int(p.remote_stream_options.value), "redirect_shell_error_to_out": bool(p.redirect_shell_error_to_out),
    }


def several(r, val):
    """Named parameters in any order; a name may also be that of a parameter of the builder method itself."""
    names = r.sample(["p", "q", "b", "zz", "Path", "force", "_x", "name", "value", "parameters"], r.randrange(1, 4))
    return {n: val() for n in names}


def refused(kind, fn):
    try:
        fn()
    except kind:
        return
    raise AssertionError("a builder call that the documentation forbids was accepted")


def misuse(r, pipe, model, val):
    """A builder call that must be refused and must leave the definition as it was (seen when it is started)."""
    k = r.randrange(6)
    if not model.cmds and k < 3:
        if k == 0:
            refused(ValueError, lambda: pipe.add_argument(V.build(val())))
        elif k == 1:
            refused(ValueError, lambda: pipe.add_parameter("p", V.build(val())))
        else:
            refused(ValueError, lambda: pipe.add_parameters(p=1, q=2))
        return "refused_parameter"
    if k < 4 or not model.cmds:
        local = r.random() < 0.5
        refused(TypeError, lambda: pipe.add_command(Command("never"), use_local_scope=local))
        return "refused_command"
    which = r.choice(MERGES + ("all",))
    to = member(T.PipelineResultTypes, r.choice([2, 3, 4, 5, 6, 7, 9]))
    refused(ValueError, lambda: getattr(r.choice(pipe.metadata.commands), "redirect_" + which)(to))
    return "refused_redirect"


def build_step(r, pipe, model, size, secure=False, poison=None):
    """One builder call on the real pipeline and on the model.  Returns a short name of what was called."""
    if r.random() < 0.08:
        return misuse(r, pipe, model, lambda: V.gen_value(r, 1, size, secure))

    def val():
        s = V.gen_value(r, r.choice([0, 1, 1, 2]), size, secure)
        return s
    k = r.randrange(12)
    local = r.choice([None, None, True, False])
    text = gen_str(r, size)
    if not model.cmds or k in (0, 1):
        if k % 3 == 0:
            pipe.add_script(text, use_local_scope=local)
            model.add(text, True, local)
            return "add_script"
        if k % 3 == 1:
            pipe.add_command(text, use_local_scope=local)
            model.add(text, False, local)
            return "add_command"
        c = Command(text, is_script=local is True, use_local_scope=local)
        model.add(text, local is True, local)
        m = model.cmds[-1]
        for _ in range(r.randrange(3)):
            name, s = gen_str(r, 5), val()
            how = r.randrange(4)
            if how == 0:
                c.add_argument(V.build(s))
                m["params"].append([None, s])
            elif how == 1:
                items = several(r, val)
                c.add_parameters(**{n: V.build(v) for n, v in items.items()})
                m["params"] += [[n, v] for n, v in items.items()]
            elif how == 2:
                c.add_parameter(name)
                m["params"].append([name, ("bool", True)])
            else:
                c.add_parameter(name, V.build(s))
                m["params"].append([name, s])
        if r.random() < 0.5:
            which, to = r.choice(MERGES + ("all",)), r.choice([0, 1, 8])
            getattr(c, "redirect_" + which)(member(T.PipelineResultTypes, to))
            model.redirect(m, which, to)
        if r.random() < 0.3:
            c.merge_unclaimed = m["unclaimed"] = True
        if r.random() < 0.3:
            c.end_of_statement = m["eos"] = True
        pipe.add_command(c)
        return "add_command_object"
    m = model.cmds[-1]
    if k in (2, 3):
        s = val()
        pipe.add_argument(V.build(s))
        m["params"].append([None, s])
        return "add_argument"
    if k in (4, 5):
        name, s = gen_str(r, 6), val()
        pipe.add_parameter(name, V.build(s))
        m["params"].append([name, s])
        return "add_parameter"
    if k == 6:
        name = gen_str(r, 6)
        pipe.add_parameter(name)
        m["params"].append([name, ("bool", True)])
        return "add_switch"
    if k == 7:
        items = several(r, val)
        pipe.add_parameters(**{n: V.build(s) for n, s in items.items()})
        for n, s in items.items():
            m["params"].append([n, s])
        return "add_parameters"
    if k in (8, 9):
        pipe.add_statement()
        m["eos"] = True
        return "add_statement"
    # redirections of any command of the pipeline
    i = r.randrange(len(model.cmds))
    which, to = r.choice(MERGES + ("all",)), r.choice([0, 1, 1, 8])
    getattr(pipe.metadata.commands[i], "redirect_" + which)(member(T.PipelineResultTypes, to))
    model.redirect(model.cmds[i], which, to)
    return "redirect"


# ---------------------------------------------------------------- command metadata queries
def gen_metadata(r, size, secure=False):
    return {
        "name": r.choice([gen_str(r, size), [gen_str(r, size) for _ in range(r.randrange(3))]]),
        "command_type": r.choice([None, 1, 8, 383, 9]),
        "namespace": r.choice([None, [], [gen_str(r, size)]]),
        "arguments": r.choice([None, [V.gen_value(r, 1, size, secure) for _ in range(r.randrange(3))]]),
    }


def metadata_args(d):
    kw = {"name": d["name"] if isinstance(d["name"], str) else list(d["name"])}
    if d["command_type"] is not None:
        kw["command_type"] = member(T.CommandTypes, d["command_type"])
    if d["namespace"] is not None:
        kw["namespace"] = list(d["namespace"])
    if d["arguments"] is not None:
        kw["arguments"] = [V.build(x) for x in d["arguments"]]
    return kw


def expect_metadata(d):
    names = [d["name"]] if isinstance(d["name"], str) else d["name"]
    return {
        "name": [st(n) for n in names], "command_type": 383 if d["command_type"] is None else d["command_type"],
        "namespace": None if d["namespace"] is None else [st(n) for n in d["namespace"]],
        "arguments": None if d["arguments"] is None else [V.expect(a) for a in d["arguments"]],
    }


def canon_metadata(p):
    return {
        "name": [canon(n) for n in p.name], "command_type": int(p.command_type.value), "namespace": None if p.namespace is None else [canon(n) for n in p.namespace],
        "arguments": None if p.arguments is None else [canon(a) for a in p.arguments],
    }
