"""Reference table of the typed host requests and answers (C16), written from the documentation of the helpers."""
import uuid

from psrpcore import types as T

from . import values as V
from .documented import member
from .values import canon, gen_str, norm, st

NON_VOID = set(
    "GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture ReadLine ReadLineAsSecureString Prompt PromptForCredential1 PromptForCredential2 "
    "PromptForChoice GetForegroundColor GetBackgroundColor GetCursorPosition GetWindowPosition GetCursorSize GetBufferSize GetWindowSize GetWindowTitle GetMaxWindowSize "
    "GetMaxPhysicalWindowSize GetKeyAvailable ReadKey GetBufferContents GetIsRunspacePushed GetRunspace PromptForChoiceMultipleSelection".split()
)
# MS-PSRP 2.2.3.17: host method identifiers in order, from 1
METHODS = (
    "GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication NotifyEndApplication "
    "ReadLine ReadLineAsSecureString Write1 Write2 WriteLine1 WriteLine2 WriteLine3 WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine Prompt "
    "PromptForCredential1 PromptForCredential2 PromptForChoice GetForegroundColor SetForegroundColor GetBackgroundColor SetBackgroundColor GetCursorPosition SetCursorPosition "
    "GetWindowPosition SetWindowPosition GetCursorSize SetCursorSize GetBufferSize SetBufferSize GetWindowSize SetWindowSize GetWindowTitle SetWindowTitle GetMaxWindowSize "
    "GetMaxPhysicalWindowSize GetKeyAvailable ReadKey FlushInputBuffer SetBufferContents1 SetBufferContents2 GetBufferContents ScrollBufferContents PushRunspace PopRunspace "
    "GetIsRunspacePushed GetRunspace PromptForChoiceMultipleSelection"
).split()
METHOD_ID = {n: i + 1 for i, n in enumerate(METHODS)}
# methods whose parameters and results the library passes through untouched
PLAIN = (
    "GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication NotifyEndApplication "
    "ReadLine ReadLineAsSecureString Write1 WriteLine1 WriteLine2 WriteErrorLine WriteDebugLine WriteVerboseLine WriteWarningLine PromptForCredential1 GetCursorSize SetCursorSize "
    "GetWindowTitle SetWindowTitle GetKeyAvailable FlushInputBuffer PushRunspace PopRunspace GetIsRunspacePushed GetRunspace"
).split()


def num(v):
    return None if v is None else int(v)


def hc(o):
    """Canonical form of one decoded host parameter or result."""
    if isinstance(o, T.Coordinates):
        return ["Coordinates", num(o.X), num(o.Y)]
    if isinstance(o, T.Size):
        return ["Size", num(o.Width), num(o.Height)]
    if isinstance(o, T.Rectangle):
        return ["Rectangle", num(o.Left), num(o.Top), num(o.Right), num(o.Bottom)]
    if isinstance(o, T.BufferCell):
        return ["BufferCell", canon(o.Character), hc(o.ForegroundColor), hc(o.BackgroundColor), hc(o.BufferCellType)]
    if isinstance(o, T.KeyInfo):
        return ["KeyInfo", num(o.VirtualKeyCode), canon(o.Character), hc(o.ControlKeyState), bool(o.KeyDown)]
    if isinstance(o, T.ChoiceDescription):
        return ["ChoiceDescription", canon(o.Label), canon(o.HelpMessage)]
    if isinstance(o, T.FieldDescription):
        return ["FieldDescription", canon(o.Name), canon(o.ParameterTypeName), canon(o.ParameterTypeFullName), canon(o.ParameterAssemblyFullName), canon(o.Label), canon(o.HelpMessage), bool(o.IsMandatory)]
    if isinstance(o, T.ProgressRecord):
        from .records import canon_progress

        return ["ProgressRecord", canon_progress(o)]
    if isinstance(o, list):
        return ["list", [hc(e) for e in list.__iter__(o)]]
    return canon(o)


def cc(v):
    return ["enum", "ConsoleColor", v]


def I(v):
    return ["PSInt", v]


def L(items):
    return ["list", items]


def n32(r):
    return r.choice([0, 1, -1, 2, 80, 9999, 2147483647, -2147483648])


def opt(r, f):
    return f() if r.random() < 0.5 else None


def gen_char(r):
    """(value to pass, code unit expected)"""
    k = r.randrange(4)
    if k == 0:
        c = r.choice("aZ0 <&_")
        return c, ord(c)
    n = r.choice([0, 9, 65, 0x263A, 0xD800, 0xFFFF])
    if k == 1:
        return n, n
    return T.PSChar(n), n


def gen_cell(r):
    c, n = gen_char(r)
    f, b, t = r.randrange(16), r.randrange(16), r.randrange(3)
    return T.BufferCell(Character=T.PSChar(c), ForegroundColor=member(T.ConsoleColor, f), BackgroundColor=member(T.ConsoleColor, b), BufferCellType=member(T.BufferCellType, t)), ["BufferCell", ["PSChar", n], cc(f), cc(b), ["enum", "BufferCellType", t]]


def gen_cells(r, size):
    rows, cols = r.choice([(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 4), (1, max(1, min(size, 40)))])
    real, exp = [], []
    for _ in range(rows):
        line = [gen_cell(r) for _ in range(cols)]
        real.append([c for c, _ in line])
        exp.append(L([e for _, e in line]))
    return real, L(exp)


def gen_choices(r, size):
    real, exp = [], []
    for _ in range(r.randrange(4)):
        label, help_ = gen_str(r, size), opt(r, lambda: gen_str(r, size))
        real.append(T.ChoiceDescription(Label=label) if help_ is None else T.ChoiceDescription(Label=label, HelpMessage=help_))
        exp.append(["ChoiceDescription", st(label), st(help_)])
    return real, L(exp)


def gen_fields(r, size):
    real, exp = [], []
    for _ in range(r.randrange(4)):
        v = [gen_str(r, size)] + [opt(r, lambda: gen_str(r, size)) for _ in range(5)]
        m = r.random() < 0.5
        kw = dict(zip(("Name", "ParameterTypeName", "ParameterTypeFullName", "ParameterAssemblyFullName", "Label", "HelpMessage"), v))
        real.append(T.FieldDescription(IsMandatory=m, **{k: x for k, x in kw.items() if x is not None}))
        exp.append(["FieldDescription"] + [st("" if x is None and i > 3 else x) for i, x in enumerate(v)] + [m])
    return real, L(exp)


GETTERS = {
    "get_name": "GetName", "get_version": "GetVersion", "get_instance_id": "GetInstanceId", "get_current_culture": "GetCurrentCulture", "get_current_ui_culture": "GetCurrentUICulture",
    "enter_nested_prompt": "EnterNestedPrompt", "exit_nested_prompt": "ExitNestedPrompt", "notify_begin_application": "NotifyBeginApplication", "notify_end_application": "NotifyEndApplication",
    "pop_runspace": "PopRunspace", "get_is_runspace_pushed": "GetIsRunspacePushed", "read_line": "ReadLine", "read_line_as_secure_string": "ReadLineAsSecureString",
    "get_foreground_color": "GetForegroundColor", "get_background_color": "GetBackgroundColor", "get_cursor_position": "GetCursorPosition", "get_window_position": "GetWindowPosition",
    "get_cursor_size": "GetCursorSize", "get_buffer_size": "GetBufferSize", "get_window_size": "GetWindowSize", "get_window_title": "GetWindowTitle", "get_max_window_size": "GetMaxWindowSize",
    "get_max_physical_window_size": "GetMaxPhysicalWindowSize", "get_key_available": "GetKeyAvailable", "flush_input_buffer": "FlushInputBuffer",
}
LINES = {"write_error_line": "WriteErrorLine", "write_debug_line": "WriteDebugLine", "write_verbose_line": "WriteVerboseLine", "write_warning_line": "WriteWarningLine", "set_window_title": "SetWindowTitle"}
OTHERS = [
    "set_should_exit", "write", "write_line", "write_progress", "prompt", "prompt_for_credential", "prompt_for_choice", "prompt_for_multiple_choice", "set_foreground_color", "set_background_color",
    "set_cursor_position", "set_window_position", "set_cursor_size", "set_buffer_size", "set_window_size", "read_key", "set_buffer_cells", "set_buffer_contents", "get_buffer_contents", "scroll_buffer_contents",
]
REQUESTS = sorted(list(GETTERS) + list(LINES) + OTHERS)


def gen_request(r, size):
    """(helper, args, kwargs, method, expected parameters)"""
    # the getters take no parameters: fewer of them
    name = r.choice(sorted(GETTERS)) if r.random() < 0.45 else r.choice(sorted(LINES) + OTHERS * 2)
    s = lambda: gen_str(r, size)
    if name in GETTERS:
        return name, [], {}, GETTERS[name], []
    if name in LINES:
        v = s()
        return name, [v], {}, LINES[name], [st(v)]
    if name == "set_should_exit":
        v = n32(r)
        return name, [v], {}, "SetShouldExit", [I(v)]
    if name in ("write", "write_line"):
        v = s() if name == "write" else opt(r, s)
        fg, bg = opt(r, lambda: r.randrange(16)), opt(r, lambda: r.randrange(16))
        kw = {}
        if fg is not None:
            kw["foreground_color"] = member(T.ConsoleColor, fg)
        if bg is not None:
            kw["background_color"] = member(T.ConsoleColor, bg)
        args = [] if v is None else [v]
        if fg is None and bg is None:
            if name == "write":
                return name, args, kw, "Write1", [st(v)]
            return name, args, kw, "WriteLine1" if v is None else "WriteLine2", [] if v is None else [st(v)]
        return name, args, kw, "Write2" if name == "write" else "WriteLine3", [cc(fg or 0), cc(bg or 0), st(v or "")]
    if name == "write_progress":
        d = {"source_id": n32(r), "activity_id": n32(r), "activity": s(), "status_description": s()}
        for k, f in (("current_operation", s), ("parent_activity_id", lambda: n32(r)), ("percent_complete", lambda: r.choice([0, 50, 100])), ("record_type", lambda: r.randrange(2)), ("seconds_remaining", lambda: n32(r))):
            v = opt(r, f)
            if v is not None:
                d[k] = v
        from .records import expect_progress

        exp = expect_progress(d)
        kw = dict(d)
        if "record_type" in kw:
            kw["record_type"] = member(T.ProgressRecordType, kw["record_type"])
        return name, [], kw, "WriteProgress", [["PSInt", d["source_id"]], ["ProgressRecord", exp]]
    if name == "prompt":
        a, b = s(), s()
        real, exp = gen_fields(r, size)
        return name, [a, b, real], {}, "Prompt", [st(a), st(b), exp]
    if name == "prompt_for_credential":
        kw, exp = {}, [st("PSRPCore credential request"), st("Enter your credentials."), ["nil"], st("")]
        for i, k in enumerate(("caption", "message", "username", "target_name")):
            v = opt(r, s)
            if v is not None:
                kw[k] = v
                exp[i] = st(v)
        t, o = opt(r, lambda: r.choice([1, 2, 3])), opt(r, lambda: r.choice([0, 1, 2, 3]))
        if t is not None:
            kw["allowed_credential_types"] = member(T.PSCredentialTypes, t)
        if o is not None:
            kw["options"] = member(T.PSCredentialUIOptions, o)
        if t is None and o is None:
            return name, [], kw, "PromptForCredential1", exp
        dt = 3 if t is None else t
        do = 1 if o is None else o
        return name, [], kw, "PromptForCredential2", exp + [["enum", "PSCredentialTypes", dt], ["enum", "PSCredentialUIOptions", do]]
    if name in ("prompt_for_choice", "prompt_for_multiple_choice"):
        a, b = s(), s()
        real, exp = gen_choices(r, size)
        if name == "prompt_for_choice":
            d = opt(r, lambda: r.choice([0, 1, 2, -1]))
            return name, [a, b, real], {} if d is None else {"default_choice": d}, "PromptForChoice", [st(a), st(b), exp, I(-1 if d is None else d)]
        d = opt(r, lambda: [r.randrange(4) for _ in range(r.randrange(4))])
        return name, [a, b, real], {} if d is None else {"default_choices": list(d)}, "PromptForChoiceMultipleSelection", [st(a), st(b), exp, L([I(x) for x in d or []])]
    if name in ("set_foreground_color", "set_background_color"):
        v = r.randrange(16)
        return name, [member(T.ConsoleColor, v)], {}, "SetForegroundColor" if name == "set_foreground_color" else "SetBackgroundColor", [cc(v)]
    if name in ("set_cursor_position", "set_window_position"):
        x, y = n32(r), n32(r)
        return name, [x, y], {}, "SetCursorPosition" if name == "set_cursor_position" else "SetWindowPosition", [["Coordinates", x, y]]
    if name == "set_cursor_size":
        v = n32(r)
        return name, [v], {}, "SetCursorSize", [I(v)]
    if name in ("set_buffer_size", "set_window_size"):
        x, y = n32(r), n32(r)
        return name, [x, y], {}, "SetBufferSize" if name == "set_buffer_size" else "SetWindowSize", [["Size", x, y]]
    if name == "read_key":
        o = opt(r, lambda: r.randrange(1, 16))
        return name, [] if o is None else [member(T.ReadKeyOptions, o)], {}, "ReadKey", [["enum", "ReadKeyOptions", 4 if o is None else o]]
    rect = lambda: [n32(r) for _ in range(4)]
    if name == "get_buffer_contents":
        x = rect()
        return name, x, {}, "GetBufferContents", [["Rectangle"] + x]
    if name == "set_buffer_contents":
        x, y = n32(r), n32(r)
        real, exp = gen_cells(r, size)
        return name, [x, y, real], {}, "SetBufferContents2", [["Coordinates", x, y], exp]
    c, n = gen_char(r)
    fg, bg = opt(r, lambda: r.randrange(16)), opt(r, lambda: r.randrange(16))
    kw = {}
    if fg is not None:
        kw["foreground"] = member(T.ConsoleColor, fg)
    if bg is not None:
        kw["background"] = member(T.ConsoleColor, bg)
    cell = ["BufferCell", ["PSChar", n], cc(15 if fg is None else fg), cc(0 if bg is None else bg), ["enum", "BufferCellType", 0]]
    if name == "set_buffer_cells":
        x = rect()
        return name, x + [c], kw, "SetBufferContents1", [["Rectangle"] + x, cell]
    src, clip, x, y = rect(), rect(), n32(r), n32(r)
    return name, src + [x, y] + clip + [c], kw, "ScrollBufferContents", [["Rectangle"] + src, ["Coordinates", x, y], ["Rectangle"] + clip, cell]


def gen_answer(r, method, size, secure=False):
    """(helper, args after ci, expected result) of the typed answer to a method, or None."""
    s = lambda: gen_str(r, size)
    simple = {"GetName": "get_name", "GetCurrentCulture": "get_current_culture", "GetCurrentUICulture": "get_current_ui_culture", "ReadLine": "read_line", "GetWindowTitle": "get_window_title"}
    if method in simple:
        v = s()
        return simple[method], [v], st(v)
    if method == "GetVersion":
        v = ".".join(str(r.choice([0, 1, 5, 2147483647])) for _ in range(r.randint(2, 4)))
        return "get_version", [v if r.random() < 0.5 else T.PSVersion(v)], ["PSVersion", v]
    if method == "GetInstanceId":
        v = uuid.UUID(int=r.getrandbits(128))
        return "get_instance_id", [v], ["PSGuid", str(v)]
    if method in ("GetIsRunspacePushed", "GetKeyAvailable"):
        v = r.random() < 0.5
        return "get_is_runspace_pushed" if method == "GetIsRunspacePushed" else "get_key_available", [v], ["bool", v]
    if method == "ReadLineAsSecureString":
        if not secure:
            return None
        v = s()
        return "read_line_as_secure_string", [T.PSSecureString(v)], ["secure", norm(v)]
    if method == "Prompt":
        d = {}
        for i in range(r.randrange(4)):
            d["k%d%s" % (i, gen_str(r, 4))] = V.gen_value(r, 1, size, secure)
        return "prompt", [{k: V.build(v) for k, v in d.items()}], V.expect(["dict", "PSDict", [[("str", "str", k), v] for k, v in d.items()], []])
    if method in ("PromptForCredential1", "PromptForCredential2"):
        if not secure:
            return None
        spec = ["known", "PSCredential", [0, 0, 0, 0], s(), s(), False, None]
        return "prompt_for_credential", [V.build(spec)], V.expect(spec)
    if method == "PromptForChoice":
        v = n32(r)
        return "prompt_for_choice", [v], I(v)
    if method == "PromptForChoiceMultipleSelection":
        if r.random() < 0.4:
            v = n32(r)
            return "prompt_for_multiple_choice", [v], L([I(v)])
        v = [n32(r) for _ in range(r.randrange(4))]
        return "prompt_for_multiple_choice", [v], L([I(x) for x in v])
    if method in ("GetForegroundColor", "GetBackgroundColor"):
        v = r.randrange(16)
        return "get_foreground_color" if method == "GetForegroundColor" else "get_background_color", [member(T.ConsoleColor, v)], cc(v)
    if method in ("GetCursorPosition", "GetWindowPosition"):
        x, y = n32(r), n32(r)
        return "get_cursor_position" if method == "GetCursorPosition" else "get_window_position", [x, y], ["Coordinates", x, y]
    if method == "GetCursorSize":
        v = n32(r)
        return "get_cursor_size", [v], I(v)
    sizes = {"GetBufferSize": "get_buffer_size", "GetWindowSize": "get_window_size", "GetMaxWindowSize": "get_max_window_size", "GetMaxPhysicalWindowSize": "get_max_physical_window_size"}
    if method in sizes:
        x, y = n32(r), n32(r)
        return sizes[method], [x, y], ["Size", x, y]
    if method == "ReadKey":
        c, n = gen_char(r)
        kd = r.random() < 0.5
        args, st_, code = [c, kd], 0, 0
        if r.random() < 0.6:
            st_ = r.choice([0, 1, 8, 256, 511])
            args.append(member(T.ControlKeyStates, st_))
            if r.random() < 0.6:
                code = n32(r)
                args.append(code)
        return "read_key", args, ["KeyInfo", code, ["PSChar", n], ["enum", "ControlKeyStates", st_], kd]
    if method == "GetBufferContents":
        real, exp = gen_cells(r, size)
        return "get_buffer_contents", [real], exp
    return None
