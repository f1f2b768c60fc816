"""Specifications of stream records, user events and failure reasons (C14)."""
import datetime
import re

from psrpcore import types as T
from psrpcore.types import ErrorCategoryInfo, ErrorDetails, ErrorRecord, InvocationInfo, NETException

from . import values as V
from .documented import member
from .values import canon, gen_str, norm, st

try:
    from psrpcore.types._complex import RemoteCommandInfo
except ImportError:  # the name is private, any object with these attributes does
    class RemoteCommandInfo:
        def __init__(self, CommandType, Name, Definition, Visibility):
            self.CommandType, self.Name, self.Definition, self.Visibility = CommandType, Name, Definition, Visibility


ALWAYS = set()  # optional fields that are always given, because their default is not under control (see seams.probe)


def maybe(r, f, p=0.5, name=None):
    return f() if r.random() < p or name in ALWAYS else None


def i32(r):
    return r.choice([0, 1, -1, 7, 2147483647, -2147483648])


def gen_invocation(r, size):
    """InvocationInfo: every field may be absent."""
    s = lambda: gen_str(r, size)
    d = {}
    for name, f in (
        ("BoundParameters", lambda: ["dict", "dict", [[("str", "str", "p%d" % i), V.gen_prim(r, size)] for i in range(r.randrange(3))], []]),
        ("CommandOrigin", lambda: r.choice([0, 1])),
        ("ExpectingInput", lambda: r.random() < 0.5),
        ("HistoryId", lambda: r.choice([0, 1, -1, 2**63 - 1])),
        ("InvocationName", s),
        ("Line", s),
        ("MyCommand", lambda: [r.choice([1, 8, 64, 383]), s(), s(), r.choice([0, 1])]),
        ("OffsetInLine", lambda: i32(r)),
        ("PipelineLength", lambda: i32(r)),
        ("PipelinePosition", lambda: i32(r)),
        ("ScriptLineNumber", lambda: i32(r)),
        ("ScriptName", s),
        ("UnboundArguments", lambda: ["list", "list", [V.gen_prim(r, size) for _ in range(r.randrange(3))], []]),
        ("PSScriptRoot", s),
        ("PSCommandPath", s),
        ("PositionMessage", s),
        ("DisplayScriptPosition", lambda: [maybe(r, s)] + [r.choice([0, 1, 7, 2147483647]) for _ in range(4)]),
    ):
        v = maybe(r, f)
        if v is not None:
            d[name] = v
    return d


def build_invocation(d):
    if d is None:
        return None
    kw = {}
    for k, v in d.items():
        if k in ("BoundParameters", "UnboundArguments"):
            v = V.build(v)
        elif k == "CommandOrigin":
            v = member(T.CommandOrigin, v)
        elif k == "MyCommand":
            v = RemoteCommandInfo(member(T.CommandTypes, v[0]), v[1], v[2], member(T.SessionStateEntryVisibility, v[3]))
        elif k == "DisplayScriptPosition":
            v = T.ScriptExtent(T.ScriptPosition(v[0], v[1], v[2], "start"), T.ScriptPosition(v[0], v[3], v[4], "end"))
        kw[k] = v
    return InvocationInfo(**kw)


INT_FIELDS = ("OffsetInLine", "PipelineLength", "PipelinePosition", "ScriptLineNumber")


def expect_invocation(d):
    if d is None:
        return None
    out = {
        "BoundParameters": V.expect(d["BoundParameters"])[2] if "BoundParameters" in d else [],
        "UnboundArguments": V.expect(d["UnboundArguments"])[2] if "UnboundArguments" in d else [],
        "CommandOrigin": d.get("CommandOrigin"),
        "ExpectingInput": d.get("ExpectingInput"),
        "HistoryId": d.get("HistoryId"),
        "InvocationName": st(d.get("InvocationName")),
        "Line": norm(d.get("Line") or ""),
        "ScriptName": st(d.get("ScriptName")),
        "MyCommand": [d["MyCommand"][0], norm(d["MyCommand"][1]), norm(d["MyCommand"][2]), d["MyCommand"][3]] if "MyCommand" in d else None,
    }
    for f in INT_FIELDS:
        out[f] = d.get(f)
    x = d.get("DisplayScriptPosition")
    out["extent"] = [st(x[0])] + x[1:] if x else derived_extent(out)
    return out


def derived_extent(o):
    """Where the command was, for a sender that says nothing of it but the script, the line and the column."""
    n, c, line = o["ScriptLineNumber"], o["OffsetInLine"], o["Line"]
    return [["PSString", o["ScriptName"][1] if len(o["ScriptName"]) > 1 else ""], n, c, n, len(line) + 1 if line else c]


def canon_invocation(o):
    if o is None:
        return None
    num = lambda v: None if v is None else int(v)
    my = o.MyCommand
    out = {
        "BoundParameters": canon(o.BoundParameters)[2],
        "UnboundArguments": canon(o.UnboundArguments)[2],
        "CommandOrigin": None if o.CommandOrigin is None else int(o.CommandOrigin.value),
        "ExpectingInput": None if o.ExpectingInput is None else bool(o.ExpectingInput),
        "HistoryId": num(o.HistoryId),
        "InvocationName": canon(o.InvocationName),
        "Line": str(o.Line or ""),
        "ScriptName": canon(o.ScriptName),
        "MyCommand": None if my is None else [int(my.CommandType.value), str(my.Name), str(my.Definition), int(my.Visibility.value)],
    }
    for f in INT_FIELDS:
        out[f] = num(getattr(o, f))
    x = o.DisplayScriptPosition
    out["extent"] = [canon(x.File)] + [num(getattr(x, k)) for k in ("StartLineNumber", "StartColumnNumber", "EndLineNumber", "EndColumnNumber")]
    return out


# ---------------------------------------------------------------- error records
def gen_error(r, size, secure=False):
    s = lambda: gen_str(r, size)
    return {
        "exc": {"Message": s(), "HResult": i32(r), "HelpLink": maybe(r, s), "Source": maybe(r, s), "StackTrace": maybe(r, s), "names": r.choice([None, None, ["System.InvalidOperationException"], ["My.Boom", "My.Base"]])},
        "inner": maybe(r, s, 0.3),
        "cat": maybe(r, lambda: [r.randrange(32), maybe(r, s), maybe(r, s), maybe(r, s), maybe(r, s)], 0.6),
        "target": maybe(r, lambda: V.gen_value(r, 1, size, secure), 0.6),
        "fqid": maybe(r, s),
        "details": maybe(r, lambda: r.choice([[s(), None], [None, s()], [s(), s()], ["", ""]])),
        "inv": maybe(r, lambda: gen_invocation(r, size)),
        "pii": [r.choice([0, 1, 2, -1]) for _ in range(r.randrange(3))] if r.random() < 0.5 else None,
        "trace": maybe(r, s),
    }


def build_exc(d):
    e = d["exc"]
    o = NETException(Message=e["Message"], HResult=e["HResult"], HelpLink=e["HelpLink"], Source=e["Source"], StackTrace=e["StackTrace"], InnerException=None if d["inner"] is None else NETException(Message=d["inner"]))
    if e["names"]:
        o.PSObject.type_names = e["names"] + list(o.PSObject.type_names)
    return o


def error_args(d):
    """Keyword arguments of write_error."""
    kw = {}
    if d["cat"] is not None:
        c = d["cat"]
        kw["category_info"] = ErrorCategoryInfo(Category=member(T.ErrorCategory, c[0]), Activity=c[1], Reason=c[2], TargetName=c[3], TargetType=c[4])
    if d["target"] is not None:
        kw["target_object"] = V.build(d["target"])
    if d["fqid"] is not None:
        kw["fully_qualified_error_id"] = d["fqid"]
    if d["details"] is not None:
        kw["error_details"] = ErrorDetails(Message=d["details"][0], RecommendedAction=d["details"][1])
    if d["inv"] is not None:
        kw["invocation_info"] = build_invocation(d["inv"])
        if d["pii"] is not None:
            kw["pipeline_iteration_info"] = list(d["pii"])
    if d["trace"] is not None:
        kw["script_stack_trace"] = d["trace"]
    return kw


def build_error(d):
    """An ErrorRecord object, as used for a reason or the error of a host response."""
    k = error_args(d)
    rec = ErrorRecord(
        Exception=build_exc(d),
        CategoryInfo=k.get("category_info") or ErrorCategoryInfo(),
        TargetObject=k.get("target_object"),
        FullyQualifiedErrorId=k.get("fully_qualified_error_id"),
        InvocationInfo=k.get("invocation_info"),
        ErrorDetails=k.get("error_details"),
        PipelineIterationInfo=k.get("pipeline_iteration_info"),
        ScriptStackTrace=k.get("script_stack_trace"),
    )
    rec.serialize_extended_info = d["inv"] is not None
    return rec


def expect_error(d):
    e, c = d["exc"], d["cat"] or [0, None, None, None, None]
    return {
        "exc": [st(e["Message"]), e["HResult"], st(e["HelpLink"]), st(e["Source"]), st(e["StackTrace"]), st(d["inner"]) if d["inner"] is not None else None,
                [norm(n) for n in (e["names"] or [])]],
        "cat": [c[0]] + [st(x) for x in c[1:]],
        "target": ["nil"] if d["target"] is None else V.expect(d["target"]),
        "fqid": st(d["fqid"]),
        "details": None if d["details"] is None else [st(x) for x in d["details"]],
        "inv": expect_invocation(d["inv"]),
        "pii": list(d["pii"]) if d["inv"] is not None and d["pii"] is not None else None,
        "trace": st(d["trace"]),
    }


def canon_error(o):
    e, c = o.Exception, o.CategoryInfo
    names = []
    for n in e.PSObject.type_names:
        n = str(n)
        n = re.sub("^(Deserialized[.])+", "", n)  # one prefix for each time it was received
        if n not in ("System.Exception", "System.Object"):
            names.append(n)
    inner = getattr(e, "InnerException", None)
    return {
        "exc": [canon(e.Message), None if e.HResult is None else int(e.HResult), canon(e.HelpLink), canon(e.Source), canon(e.StackTrace), None if inner is None else canon(inner.Message), names],
        "cat": [int(c.Category.value), canon(c.Activity), canon(c.Reason), canon(c.TargetName), canon(c.TargetType)],
        "target": canon(o.TargetObject),
        "fqid": canon(o.FullyQualifiedErrorId),
        "details": None if o.ErrorDetails is None else [canon(o.ErrorDetails.Message), canon(o.ErrorDetails.RecommendedAction)],
        "inv": canon_invocation(o.InvocationInfo),
        "pii": None if o.PipelineIterationInfo is None else [int(x) for x in o.PipelineIterationInfo],
        "trace": canon(o.ScriptStackTrace),
    }


# ---------------------------------------------------------------- debug, verbose, warning
def gen_informational(r, size):
    return {"msg": gen_str(r, size), "inv": maybe(r, lambda: gen_invocation(r, size)), "pii": [r.randrange(-1, 3) for _ in range(r.randrange(3))] if r.random() < 0.5 else None}


def informational_args(d):
    kw = {}
    if d["inv"] is not None:
        kw["invocation_info"] = build_invocation(d["inv"])
        if d["pii"] is not None:
            kw["pipeline_iteration_info"] = list(d["pii"])
    return kw


def expect_informational(d):
    return {"msg": st(d["msg"]), "inv": expect_invocation(d["inv"]), "pii": list(d["pii"]) if d["inv"] is not None and d["pii"] is not None else None}


def canon_informational(o):
    return {"msg": canon(o.Message), "inv": canon_invocation(o.InvocationInfo), "pii": None if o.PipelineIterationInfo is None else [int(x) for x in o.PipelineIterationInfo]}


# ---------------------------------------------------------------- progress
def gen_progress(r, size):
    d = {"activity": gen_str(r, size), "activity_id": i32(r), "status_description": gen_str(r, size)}
    for k, f in (("current_operation", lambda: gen_str(r, size)), ("parent_activity_id", lambda: i32(r)), ("percent_complete", lambda: r.choice([0, 50, 100, -1])),
                 ("record_type", lambda: r.randrange(2)), ("seconds_remaining", lambda: i32(r))):
        v = maybe(r, f, name=k)
        if v is not None:
            d[k] = v
    return d


def progress_args(d):
    kw = dict(d)
    if "record_type" in kw:
        kw["record_type"] = member(T.ProgressRecordType, kw["record_type"])
    return kw


def expect_progress(d):
    return {
        "Activity": st(d["activity"]), "ActivityId": d["activity_id"], "StatusDescription": st(d["status_description"]), "CurrentOperation": st(d.get("current_operation")),
        "ParentActivityId": d.get("parent_activity_id", -1), "PercentComplete": d.get("percent_complete", -1), "RecordType": d.get("record_type", 0), "SecondsRemaining": d.get("seconds_remaining", -1),
    }


def canon_progress(o):
    return {
        "Activity": canon(o.Activity), "ActivityId": int(o.ActivityId), "StatusDescription": canon(o.StatusDescription), "CurrentOperation": canon(o.CurrentOperation),
        "ParentActivityId": int(o.ParentActivityId), "PercentComplete": int(o.PercentComplete), "RecordType": int(o.RecordType.value), "SecondsRemaining": int(o.SecondsRemaining),
    }


# ---------------------------------------------------------------- information
def gen_information(r, size, secure=False):
    d = {"message_data": V.gen_value(r, 1, size, secure), "source": gen_str(r, size)}
    for k, f in (("time_generated", lambda: V.gen_dt(r)), ("tags", lambda: [gen_str(r, 5) for _ in range(r.choice([0, 1, 2, 2, 3, 12]))]), ("user", lambda: gen_str(r, size)), ("computer", lambda: gen_str(r, size)),
                 ("process_id", lambda: r.choice([0, 1, 2**32 - 1])), ("native_thread_id", lambda: r.choice([0, 1, 2**32 - 1])), ("managed_thread_id", lambda: r.choice([0, 1, 2**32 - 1]))):
        v = maybe(r, f, name=k)
        if v is not None:
            d[k] = v
    return d


def information_args(d):
    kw = dict(d)
    kw["message_data"] = V.build(d["message_data"])
    if "time_generated" in d:
        kw["time_generated"] = V.build(d["time_generated"])
    if "tags" in d:
        kw["tags"] = list(d["tags"])
    return kw


def canon_information(o):
    return {
        "message_data": canon(o.MessageData), "source": canon(o.Source), "time_generated": canon(o.TimeGenerated), "tags": [canon(t) for t in o.Tags], "user": canon(o.User),
        "computer": canon(o.Computer), "process_id": int(o.ProcessId), "native_thread_id": int(o.NativeThreadId), "managed_thread_id": int(o.ManagedThreadId),
    }


# ---------------------------------------------------------------- user events
def gen_user_event(r, size, secure=False):
    d = {"event_identifier": i32(r), "source_identifier": gen_str(r, size)}
    for k, f in (("sender", lambda: V.gen_value(r, 1, size, secure)), ("source_args", lambda: [V.gen_value(r, 1, size, secure) for _ in range(r.choice([0, 1, 2, 2, 9]))]),
                 ("message_data", lambda: V.gen_value(r, 1, size, secure)), ("time_generated", lambda: V.gen_dt(r)), ("computer", lambda: gen_str(r, size))):
        v = maybe(r, f, name=k)
        if v is not None:
            d[k] = v
    return d


def user_event_args(d):
    kw = dict(d)
    for k in ("sender", "message_data", "time_generated"):
        if k in d:
            kw[k] = V.build(d[k])
    if "source_args" in d:
        kw["source_args"] = [V.build(x) for x in d["source_args"]]
    return kw


def canon_user_event(o):
    return {
        "event_identifier": int(o.EventIdentifier), "source_identifier": canon(o.SourceIdentifier), "sender": canon(o.Sender), "source_args": [canon(a) for a in o.SourceArgs],
        "message_data": canon(o.MessageData), "time_generated": canon(o.TimeGenerated), "computer": canon(o.ComputerName), "runspace_id": str(o.RunspaceId),
    }


def dt_canon(dt):
    """What a clock reading (naive datetime) has to arrive as."""
    return ["PSDateTime", dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond, 0, None]


def time_ok(got, sim_now, real_lo, real_hi):
    """got is the canonical form of a generated time: the simulated clock, or the real one at the moment of writing."""
    if got == dt_canon(sim_now):
        return True
    try:
        d = datetime.datetime(*got[1:8])
        if got[9] is not None:
            d -= datetime.timedelta(seconds=got[9])
            lo, hi = (x.astimezone(datetime.timezone.utc).replace(tzinfo=None) for x in (real_lo, real_hi))
        else:
            lo, hi = real_lo, real_hi
        return lo - datetime.timedelta(milliseconds=1) <= d <= hi + datetime.timedelta(milliseconds=1)
    except (ValueError, TypeError, IndexError):
        return False
