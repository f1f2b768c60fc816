"""Reference reader of message bodies, written from MS-PSRP 2.2.2 to 2.2.6 (CLIXML).

A peer that is not psrpcore: it shares no code with the library.  parse() turns a body into a tree and
refuses what a strict reader refuses (unknown elements, bad lexical forms, dangling references);
Reader.view() turns the tree of a message into the same canonical form the model expects at the receiver.
"""
import base64
import binascii
import datetime
import decimal
import re
import struct
import uuid
from xml.etree import ElementTree

from .values import _Refs, fl


class Refused(Exception):
    """A strict peer could not read this."""


PRIM = {
    "S": "PSString", "C": "PSChar", "B": "bool", "DT": "PSDateTime", "TS": "PSDuration", "By": "PSByte", "SB": "PSSByte", "U16": "PSUInt16", "I16": "PSInt16", "U32": "PSUInt", "I32": "PSInt",
    "U64": "PSUInt64", "I64": "PSInt64", "Sg": "PSSingle", "Db": "PSDouble", "D": "PSDecimal", "BA": "PSByteArray", "G": "PSGuid", "URI": "PSUri", "Version": "PSVersion", "XD": "PSXml",
    "SBK": "PSScriptBlock", "SS": "secure", "Nil": "nil",
}
INTS = {"By": (0, 255), "SB": (-128, 127), "U16": (0, 2**16 - 1), "I16": (-(2**15), 2**15 - 1), "U32": (0, 2**32 - 1), "I32": (-(2**31), 2**31 - 1), "U64": (0, 2**64 - 1), "I64": (-(2**63), 2**63 - 1), "C": (0, 65535)}
TEXT = {"S", "URI", "XD", "SBK"}
CONTAINERS = {"LST": "PSList", "IE": "PSIEnumerable", "STK": "PSStack", "QUE": "PSQueue", "DCT": "PSDict"}

ESC = re.compile("_x([0-9a-fA-F]{4})_")
RE_INT = re.compile(r"-?[0-9]+\Z")
RE_DEC = re.compile(r"-?[0-9]+(\.[0-9]+)?\Z")
RE_FLOAT = re.compile(r"(-?[0-9]+(\.[0-9]+)?(E[+-]?[0-9]+)?|-?INF|NaN)\Z")
RE_DT = re.compile(r"([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})(?:\.([0-9]{1,7}))?(Z|([+-])([0-9]{2}):([0-9]{2}))?\Z")
RE_TS = re.compile(r"(-?)P(?=[0-9T])(?:([0-9]+)D)?(?:T(?=[0-9])(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)(?:\.([0-9]{1,7}))?S)?)?\Z")
RE_GUID = re.compile("[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\\Z")
RE_VER = re.compile("[0-9]+(\\.[0-9]+){1,3}\\Z")

ENUM_BASE = ["System.Enum", "System.ValueType", "System.Object"]
ENUMS = {  # .NET name: (class, underlying element)
    "System.ConsoleColor": ("ConsoleColor", "I32"), "System.Management.Automation.ErrorCategory": ("ErrorCategory", "I32"),
    "System.Management.Automation.Runspaces.ApartmentState": ("ApartmentState", "I32"), "System.Threading.ApartmentState": ("ApartmentState", "I32"),
    "System.Management.Automation.Runspaces.PSThreadOptions": ("PSThreadOptions", "I32"), "System.Management.Automation.ProgressRecordType": ("ProgressRecordType", "I32"),
    "System.Management.Automation.PSInvocationState": ("PSInvocationState", "I32"), "System.Management.Automation.Runspaces.RunspacePoolState": ("RunspacePoolState", "I32"),
    "System.Management.Automation.CommandOrigin": ("CommandOrigin", "I32"), "System.Management.Automation.Remoting.RemoteHostMethodId": ("HostMethodIdentifier", "I32"),
    "System.Management.Automation.SessionStateEntryVisibility": ("SessionStateEntryVisibility", "I32"), "Sim.UserEnum": ("UserEnum", "I64"), "Sim.ByteEnum": ("ByteEnum", "By"),
    "System.Management.Automation.RemoteStreamOptions": ("RemoteStreamOptions", "I32"), "System.Management.Automation.CommandTypes": ("CommandTypes", "I32"),
    "System.Management.Automation.Host.ControlKeyStates": ("ControlKeyStates", "I32"), "System.Management.Automation.PSCredentialTypes": ("PSCredentialTypes", "I32"),
    "System.Management.Automation.Host.ReadKeyOptions": ("ReadKeyOptions", "I32"), "Sim.UserFlags": ("UserFlags", "U32"),
    "System.Management.Automation.Runspaces.PipelineResultTypes": ("PipelineResultTypes", "I32"),
}
OBJ = "System.Object"
HOST = "System.Management.Automation.Host."
KNOWN = {  # first type name: (class, remaining type names)
    "System.Management.Automation.PSCustomObject": ("PSCustomObject", [OBJ]), "Sim.UserType": ("UserType", ["Sim.UserBase", OBJ]), "Sim.UserText": ("UserText", [OBJ]), "System.Exception": ("NETException", [OBJ]),
    HOST + "Coordinates": ("Coordinates", ["System.ValueType", OBJ]), HOST + "Size": ("Size", ["System.ValueType", OBJ]), HOST + "Rectangle": ("Rectangle", ["System.ValueType", OBJ]),
    HOST + "KeyInfo": ("KeyInfo", [OBJ]), HOST + "ChoiceDescription": ("ChoiceDescription", [OBJ]), "System.Management.Automation.PSCredential": ("PSCredential", [OBJ]),
    "Sim.UserList": ("UserList", [OBJ]), "Sim.UserDict": ("UserDict", [OBJ]), "Sim.UserQueue": ("UserQueue", [OBJ]), "Sim.UserStack": ("UserStack", [OBJ]),
}
PROGRESS = "System.Management.Automation.ProgressRecord"


def unescape(s):
    s = ESC.sub(lambda m: chr(int(m.group(1), 16)), s)
    return s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")


class Prim:
    __slots__ = ("tag", "text", "value")

    def __init__(self, tag, text):
        self.tag, self.text = tag, text


class Obj:
    __slots__ = ("names", "base", "ts", "props", "ms", "kind", "items", "ref", "uses", "fixed")

    def __init__(self):
        self.fixed = False  # whether the order of the parts matters
        self.names, self.base, self.ts, self.props, self.ms, self.kind, self.items, self.ref, self.uses = [], None, None, [], [], None, None, None, 0


class _Parser:
    def __init__(self, local=False):
        self.local = local  # secure strings outside of a session: hexadecimal digits
        self.refs = {}
        self.tns = {}
        self.elements = 0

    def node(self, el, named=False):
        self.elements += 1
        extra = set(el.attrib) - {"RefId", "N"}
        if extra or (el.tag not in ("Obj", "Ref") and "RefId" in el.attrib) or ("N" in el.attrib and not named) or (named and "N" not in el.attrib):
            raise Refused("attributes %s of a <%s>" % (sorted(el.attrib), el.tag))
        if el.tail and el.tail.strip():
            raise Refused("text between elements")
        if el.tag == "Ref":
            if len(el) or el.text:
                raise Refused("a <Ref> with content")
            o = self.refs.get(el.attrib.get("RefId"))
            if o is None:
                raise Refused("<Ref> to %r, which was not seen before" % el.attrib.get("RefId"))
            o.uses += 1
            return o
        if el.tag in PRIM:
            if len(el):
                raise Refused("elements inside a <%s>" % el.tag)
            return self.prim(el.tag, el.text or "")
        if el.tag == "PR":
            return self.progress(el)
        if el.tag != "Obj":
            raise Refused("unknown element <%s>" % el.tag)
        return self.obj(el)

    def obj(self, el):
        o = Obj()
        o.ref = el.attrib.get("RefId")
        if o.ref is not None:
            if not RE_INT.match(o.ref) or o.ref in self.refs:
                raise Refused("RefId %r is used twice or is no number" % o.ref)
            self.refs[o.ref] = o
        if el.text and el.text.strip():
            raise Refused("text inside an <Obj>")
        seen = set()
        for k in el:
            slot = "TN" if k.tag in ("TN", "TNRef") else k.tag if k.tag in ("ToString", "Props", "MS") else "container" if k.tag in CONTAINERS else "base"
            if slot in seen:
                raise Refused("an <Obj> with two parts of one sort (%s)" % k.tag)
            seen.add(slot)
            if k.tail and k.tail.strip():
                raise Refused("text between elements")
            if k.tag == "TN":
                o.names = []
                for t in k:
                    if t.tag != "T" or len(t):
                        raise Refused("<%s> in a <TN>" % t.tag)
                    o.names.append(unescape(t.text or ""))
                ref = k.attrib.get("RefId")
                if ref is None or ref in self.tns:
                    raise Refused("type names with RefId %r, used twice or absent" % ref)
                self.tns[ref] = o.names
            elif k.tag == "TNRef":
                if k.attrib.get("RefId") not in self.tns:
                    raise Refused("<TNRef> to %r, which was not seen before" % k.attrib.get("RefId"))
                o.names = self.tns[k.attrib["RefId"]]
            elif k.tag == "ToString":
                o.ts = unescape(k.text or "")
            elif k.tag in ("Props", "MS"):
                out = [(unescape(p.attrib["N"]) if "N" in p.attrib else None, self.node(p, True)) for p in k]
                if k.tag == "Props":
                    o.props = out
                else:
                    o.ms = out
            elif k.tag == "DCT":
                o.kind, o.items = k.tag, []
                for en in k:
                    if en.tag != "En" or len(en) != 2 or [x.attrib.get("N") for x in en] != ["Key", "Value"]:
                        raise Refused("a dictionary entry that is not a key and a value")
                    o.items.append((self.node(en[0], True), self.node(en[1], True)))
            elif k.tag in CONTAINERS:
                o.kind = k.tag
                o.items = [self.node(e) for e in k]
            else:
                o.base = self.node(k)
                if not isinstance(o.base, Prim) and o.base.kind != "PR":
                    raise Refused("an <Obj> directly inside an <Obj>")
        return o

    def progress(self, el):
        o = Obj()
        o.kind = "PR"
        want = {"AV": "S", "AI": "I32", "PI": "I32", "PC": "I32", "T": "S", "SR": "I32", "SD": "S"}
        o.items = {}
        for k in el:
            if len(k) or k.tag in o.items:
                raise Refused("<%s> in a <PR>" % k.tag)
            if k.tag in want:
                o.items[k.tag] = self.prim(want[k.tag], k.text or "")
            elif k.tag in ("S", "Nil") and "S" not in o.items:
                o.items["S"] = self.prim(k.tag, k.text or "")
            else:
                raise Refused("<%s> in a <PR>" % k.tag)
        if set(o.items) - {"S"} != set(want):
            raise Refused("a <PR> that lacks a part")
        return o

    def prim(self, tag, text):
        p = Prim(tag, text)
        bad = Refused("<%s> with the text %r" % (tag, text[:60]))
        if tag in TEXT:
            p.value = unescape(text)
        elif tag == "Nil":
            if text:
                raise bad
            p.value = None
        elif tag == "B":
            if text not in ("true", "false"):
                raise bad
            p.value = text == "true"
        elif tag in INTS:
            if not RE_INT.match(text) or not INTS[tag][0] <= int(text) <= INTS[tag][1]:
                raise bad
            p.value = int(text)
        elif tag in ("Sg", "Db"):
            if not RE_FLOAT.match(text):
                raise bad
            p.value = float(text)
        elif tag == "D":
            if not RE_DEC.match(text):
                raise bad
            p.value = decimal.Decimal(text)
        elif tag == "SS" and self.local:
            if len(text) % 4 or not re.match("[0-9A-Fa-f]*\\Z", text):
                raise bad
            p.value = bytes.fromhex(text)
        elif tag in ("BA", "SS"):
            try:
                p.value = base64.b64decode(text, validate=True)
            except binascii.Error:
                raise bad
        elif tag == "G":
            if not RE_GUID.match(text):
                raise bad
            p.value = str(uuid.UUID(text))
        elif tag == "Version":
            if not RE_VER.match(text):
                raise bad
            p.value = text
        elif tag == "DT":
            m = RE_DT.match(text)
            if not m:
                raise bad
            y, mo, d, h, mi, s = (int(x) for x in m.groups()[:6])
            frac = (m.group(7) or "").ljust(7, "0")
            off = None
            if m.group(8):
                off = 0 if m.group(8) == "Z" else (int(m.group(10)) * 60 + int(m.group(11))) * (60 if m.group(9) == "+" else -60)
            try:
                datetime.datetime(y, mo, d, h, mi, s)
            except ValueError:
                raise bad
            p.value = [y, mo, d, h, mi, s, int(frac[:6]), int(frac[6]) * 100, off]
        elif tag == "TS":
            m = RE_TS.match(text)
            if not m:
                raise bad
            d, h, mi, s = (int(x or 0) for x in m.groups()[1:5])
            ns = (((d * 24 + h) * 60 + mi) * 60 + s) * 10**9 + int((m.group(6) or "").ljust(7, "0")) * 100
            p.value = -ns if m.group(1) else ns
        return p


def parse(body):
    """The root node of a message body (bytes)."""
    try:
        text = body.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Refused("the body is not UTF-8: %s" % e)
    if text.startswith("\ufeff"):
        text = text[1:]
    try:
        el = ElementTree.fromstring(text)
    except ElementTree.ParseError as e:
        raise Refused("the body is not well-formed: %s" % e)
    p = _Parser()
    return p.node(el), p.elements


NS = "http://schemas.microsoft.com/powershell/2004/04"


def parse_document(text):
    """The (stream, node) pairs of a CLIXML document outside of a session."""
    try:
        root = ElementTree.fromstring(text)
    except ElementTree.ParseError as e:
        raise Refused("the document is not well-formed: %s" % e)
    for el in root.iter():
        if not el.tag.startswith("{%s}" % NS):
            raise Refused("an element %s outside the CLIXML namespace" % el.tag)
        el.tag = el.tag[len(NS) + 2:]
    if root.tag != "Objs" or root.attrib != {"Version": "1.1.0.1"} or (root.text and root.text.strip()):
        raise Refused("the root is <%s %s>" % (root.tag, root.attrib))
    p = _Parser(True)
    out = []
    for el in root:
        stream = el.attrib.pop("S", "output").lower()
        out.append((stream, p.node(el)))
    return out


# ---------------------------------------------------------------- canonical forms
class Reader:
    def __init__(self, decrypt, enum_name=None):
        self.decrypt = decrypt
        self.enum_name = enum_name

    def graph(self, n):
        refs = _Refs()
        refs.all = True
        return self.canon(n, refs)

    def canon(self, n, refs=None):
        refs = refs or _Refs()
        if isinstance(n, Prim):
            return self.prim(n)
        if n.kind == "PR":
            refs.visit(("pr", id(n)))
            i = n.items
            return ["obj", refs.n - 1, "ProgressRecord", [PROGRESS, OBJ], None, [
                ["ActivityId", self.prim(i["AI"])], ["Activity", self.prim(i["AV"])], ["StatusDescription", self.prim(i["SD"])], ["CurrentOperation", self.prim(i["S"]) if "S" in i else ["nil"]],
                ["ParentActivityId", self.prim(i["PI"])], ["PercentComplete", self.prim(i["PC"])], ["RecordType", ["enum", "ProgressRecordType", self.record_type(i["T"])]], ["SecondsRemaining", self.prim(i["SR"])]], []]
        first = n.names[0] if n.names else None
        if n.base is not None:
            if n.names[1:] == ENUM_BASE or first in ENUMS:
                return self.enum(n)
            if isinstance(n.base, Prim) and n.base.tag == "B":
                return self.prim(n.base)  # a bool has no place for what comes with it
            props = n.props + n.ms
            again = refs.again(id(n)) if props else None
            if again:
                return again
            base = self.canon(n.base, refs)
            if n.names:
                base = base + [["typenames", ["Deserialized." + t for t in n.names]]]
            if props:
                return ["x", base, self.pairs(props, refs)] + ([n.ts] if refs.all else [])
            return base
        if n.kind is not None:
            again = refs.again(id(n))
            if again:
                return again
            cls = KNOWN[first][0] if first in KNOWN and first.startswith("Sim.") else CONTAINERS[n.kind]
            if n.kind == "DCT":
                return ["dict", cls, [[self.canon(a, refs), self.canon(b, refs)] for a, b in n.items], self.pairs(n.props + n.ms, refs)]
            items = [self.canon(e, refs) for e in n.items]
            if n.kind == "QUE":
                return ["queue", cls, items]
            return ["seq", cls, items, self.pairs(n.props + n.ms, refs)]
        idx, again = refs.visit(id(n))
        if again:
            return ["ref", idx]
        if first in KNOWN:
            cls, rest = KNOWN[first]
            if n.names[1:] != rest:
                raise Refused("an object of type %s with the base types %s" % (first, n.names[1:]))
            names = n.names
        else:
            cls, names = "PSObject", ["Deserialized." + t for t in n.names]
        return ["obj", idx, cls, list(names), n.ts, self.pairs(n.props, refs), self.pairs(n.ms, refs)]

    def pairs(self, props, refs):
        return [[name, self.canon(v, refs)] for name, v in props]

    def record_type(self, p):
        if p.value not in ("Processing", "Completed"):
            raise Refused("a progress record of type %r" % p.value)
        return int(p.value == "Completed")

    def prim(self, p):
        t = p.tag
        if t == "Nil":
            return ["nil"]
        if t == "SS":
            return ["secure", self.decrypt(p.value)]
        if t in ("Sg", "Db"):
            return [PRIM[t], fl(p.value)]
        if t == "D":
            return [PRIM[t], format(p.value, "f")]
        if t == "DT":
            return [PRIM[t]] + list(p.value)
        if t == "BA":
            return [PRIM[t], p.value.hex()]
        return [PRIM[t], p.value]

    def enum(self, n):
        first = n.names[0]
        if n.names[1:] != ENUM_BASE:
            raise Refused("an enumeration %s with the base types %s" % (first, n.names[1:]))
        if not isinstance(n.base, Prim) or n.base.tag not in INTS:
            raise Refused("an enumeration %s with the value <%s>" % (first, getattr(n.base, "tag", "?")))
        if first not in ENUMS:
            return ["names", self.prim(n.base), n.ts]
        cls, tag = ENUMS[first]
        if n.base.tag != tag:
            raise Refused("the value of a %s is a <%s>" % (first, n.base.tag))
        if self.enum_name is not None:
            want = self.enum_name(cls, n.base.value)
            if want is not None and n.ts != want:
                raise Refused("the %s %d has the text %r instead of %r" % (cls, n.base.value, n.ts, want))
        return ["enum", cls, n.base.value]

    # ------------------------------------------------------------ reading message properties
    def fields(self, n, optional=(), required=None, what="message"):
        if isinstance(n, Prim) or n.kind is not None or n.base is not None:
            raise Refused("the %s is not an object with properties" % what)
        out = {}
        for name, v in n.props + n.ms:
            if name in out:
                raise Refused("the %s has two properties %r" % (what, name))
            out[name] = v
        if required is not None:
            lack = set(required) - set(out)
            if lack:
                raise Refused("the %s lacks %s" % (what, sorted(lack)))
        return out

    def typed(self, v, tag, nil=False):
        if v is None or (isinstance(v, Prim) and v.tag == "Nil"):
            if nil:
                return None
            raise Refused("<Nil> where a <%s> belongs" % tag)
        if not isinstance(v, Prim) or v.tag != tag:
            raise Refused("<%s> where a <%s> belongs" % (getattr(v, "tag", "Obj"), tag))
        return v.value

    def st(self, v):
        """A string or nil."""
        if v is None:
            return ["nil"]
        c = self.canon(v)
        if c[0] not in ("PSString", "nil"):
            raise Refused("%s where a string belongs" % c[0])
        return c

    def en(self, v, cls, nil=False):
        if nil and (v is None or isinstance(v, Prim) and v.tag == "Nil"):
            return None
        c = self.canon(v)
        if c[:2] != ["enum", cls]:
            raise Refused("%s where a %s belongs" % (c[:2], cls))
        return c[2]

    def items(self, v, kind, nil=False):
        if nil and (v is None or isinstance(v, Prim) and v.tag == "Nil"):
            return None
        if isinstance(v, Prim) or v.kind not in ((kind,) if isinstance(kind, str) else kind):
            raise Refused("no <%s> where one belongs" % (kind,))
        return v.items

    def entries(self, v, nil=False):
        items = self.items(v, "DCT", nil)
        if items is None:
            return []
        refs = _Refs()
        return [[self.canon(a, refs), self.canon(b, refs)] for a, b in items]

    # ------------------------------------------------------------ messages
    def view(self, e, root):
        return getattr(self, "on_" + e.kind)(root, e)

    def on_SessionCapability(self, n, e):
        f = self.fields(n, required=("protocolversion", "PSVersion", "SerializationVersion"))
        return [self.typed(f[k], "Version") for k in ("protocolversion", "PSVersion", "SerializationVersion")]

    def on_InitRunspacePool(self, n, e):
        f = self.fields(n, required=("MinRunspaces", "MaxRunspaces", "PSThreadOptions", "ApartmentState", "HostInfo", "ApplicationArguments"))
        return {"min": self.typed(f["MinRunspaces"], "I32"), "max": self.typed(f["MaxRunspaces"], "I32"), "thread": self.en(f["PSThreadOptions"], "PSThreadOptions"),
                "apartment": self.en(f["ApartmentState"], "ApartmentState"), "host": self.host(f["HostInfo"]), "args": self.entries(f["ApplicationArguments"], True)}

    def host(self, n):
        f = self.fields(n, required=("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost"), what="HostInfo")
        out = {"flags": [self.typed(f[k], "B") for k in ("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost")], "data": None}
        if "_hostDefaultData" not in f or isinstance(f["_hostDefaultData"], Prim):
            return out
        d = self.fields(f["_hostDefaultData"], required=("data",), what="host default data")["data"]
        got = {}
        for k, v in self.items(d, "DCT"):
            tv = self.fields(v, required=("T", "V"), what="host default value")
            got[self.typed(k, "I32")] = (self.typed(tv["T"], "S"), tv["V"])
        if set(got) != set(range(10)):
            raise Refused("host default data with the keys %s" % sorted(got))
        types = ["System.ConsoleColor", "System.ConsoleColor", HOST + "Coordinates", HOST + "Coordinates", "System.Int32"] + [HOST + "Size"] * 4 + ["System.String"]
        data = []
        for i, want in enumerate(types):
            t, v = got[i]
            if t != want:
                raise Refused("host default value %d has the type %s" % (i, t))
            if want.endswith("Coordinates"):
                data.append(self.xy(v, "x", "y"))
            elif want.endswith("Size"):
                data.append(self.xy(v, "width", "height"))
            else:
                data.append(self.typed(v, "S" if want == "System.String" else "I32"))
        out["data"] = data
        return out

    def xy(self, v, *names):
        f = self.fields(v, required=names, what="/".join(names))
        return [self.typed(f[k], "I32") for k in names]

    def on_ApplicationPrivateData(self, n, e):
        return self.entries(self.fields(n, required=("ApplicationPrivateData",))["ApplicationPrivateData"], True)

    def state(self, n, name, states):
        f = self.fields(n, required=(name,))
        v = self.typed(f[name], "I32")
        if v not in states:
            raise Refused("%s %d" % (name, v))
        r = f.get("ExceptionAsErrorRecord")
        return [states[v], None if r is None or isinstance(r, Prim) else self.error(r)]

    def on_RunspacePoolState(self, n, e):
        return self.state(n, "RunspaceState", {0: "BeforeOpen", 1: "Opening", 2: "Opened", 3: "Closed", 4: "Closing", 5: "Broken", 6: "NegotiationSent", 7: "NegotiationSucceeded", 8: "Connecting", 9: "Disconnected"})

    def on_PipelineState(self, n, e):
        return self.state(n, "PipelineState", {0: "NotStarted", 1: "Running", 2: "Stopping", 3: "Stopped", 4: "Completed", 5: "Failed", 6: "Disconnected"})

    def on_ConnectRunspacePool(self, n, e):
        if isinstance(n, Prim):
            if n.tag != "S" or n.value:
                raise Refused("a connection request with the body <%s>%r" % (n.tag, n.value))
            return [None, None]
        f = self.fields(n)
        return [self.typed(f.get(k), "I32", True) for k in ("MinRunspaces", "MaxRunspaces")]

    def on_RunspacePoolInitData(self, n, e):
        f = self.fields(n, required=("MinRunspaces", "MaxRunspaces"))
        return [self.typed(f["MinRunspaces"], "I32"), self.typed(f["MaxRunspaces"], "I32")]

    def on_PublicKeyRequest(self, n, e):
        if not isinstance(n, Prim) or n.tag != "S" or n.value:
            raise Refused("a request for the public key with a body")
        return None

    def on_PublicKey(self, n, e):
        return self.typed(self.fields(n, required=("PublicKey",))["PublicKey"], "S")

    def on_EncryptedSessionKey(self, n, e):
        return self.typed(self.fields(n, required=("EncryptedSessionKey",))["EncryptedSessionKey"], "S")

    def on_GetAvailableRunspaces(self, n, e):
        return [self.typed(self.fields(n, required=("ci",))["ci"], "I64")]

    on_ResetRunspaceState = on_GetAvailableRunspaces

    def on_SetMaxRunspaces(self, n, e, name="MaxRunspaces"):
        f = self.fields(n, required=("ci", name))
        return [self.typed(f["ci"], "I64"), self.typed(f[name], "I32")]

    def on_SetMinRunspaces(self, n, e):
        return self.on_SetMaxRunspaces(n, e, "MinRunspaces")

    def on_RunspaceAvailability(self, n, e):
        f = self.fields(n, required=("ci", "SetMinMaxRunspacesResponse"))
        v = f["SetMinMaxRunspacesResponse"]
        if not isinstance(v, Prim) or v.tag not in ("B", "I32", "I64"):
            raise Refused("an answer of type <%s>" % getattr(v, "tag", "Obj"))
        return [self.typed(f["ci"], "I64"), v.value]

    def on_PipelineInput(self, n, e):
        if e.record == "ProgressRecord":
            return self.progress_element(n)
        if e.record:
            return getattr(self, "on_" + e.record)(n, e)
        return self.canon(n)

    on_PipelineOutput = on_PipelineInput

    def on_UserEvent(self, n, e):
        p = "PSEventArgs."
        f = self.fields(n, required=[p + k for k in ("EventIdentifier", "SourceIdentifier", "TimeGenerated", "Sender", "SourceArgs", "MessageData", "ComputerName", "RunspaceId")])
        f = {k[len(p):]: v for k, v in f.items() if k.startswith(p)}
        return {"event_identifier": self.typed(f["EventIdentifier"], "I32"), "source_identifier": self.st(f["SourceIdentifier"]), "sender": self.canon(f["Sender"]),
                "source_args": [self.canon(a) for a in self.items(f["SourceArgs"], "LST")], "message_data": self.canon(f["MessageData"]),
                "time_generated": self.canon(f["TimeGenerated"]), "computer": self.st(f["ComputerName"]), "runspace_id": self.typed(f["RunspaceId"], "G")}

    # ------------------------------------------------------------ records
    def error(self, n):
        f = self.fields(n, required=("Exception", "TargetObject", "FullyQualifiedErrorId", "ErrorCategory_Category", "SerializeExtendedInfo"), what="error record")
        if n.names != ["System.Management.Automation.ErrorRecord", OBJ]:
            raise Refused("an error record with the type names %s" % n.names)
        x = f["Exception"]
        xf = self.fields(x, required=("Message",), what="exception")
        if [re.sub("^(Deserialized[.])+", "", t) for t in x.names[-2:]] != ["System.Exception", OBJ]:
            raise Refused("an exception with the type names %s" % x.names)
        inner = xf.get("InnerException")
        inner = None if inner is None or isinstance(inner, Prim) else self.st(self.fields(inner, required=("Message",))["Message"])
        names = [re.sub("^(Deserialized[.])+", "", t) for t in x.names[:-2]]
        details = None
        if "ErrorDetails_Message" in f or "ErrorDetails_RecommendedAction" in f:
            details = [self.st(f.get("ErrorDetails_Message")), self.st(f.get("ErrorDetails_RecommendedAction"))]
        inv = f.get("InvocationInfo")
        extended = self.typed(f["SerializeExtendedInfo"], "B")
        if extended and (inv is None or isinstance(inv, Prim)):
            raise Refused("an error record with extended information but without InvocationInfo")
        pii = None
        if extended:
            v = f.get("PipelineIterationInfo")
            pii = None if v is None or isinstance(v, Prim) else [self.typed(k, "I32") for k in self.items(v, "LST")]
        return {
            "exc": [self.st(xf["Message"]), self.typed(xf.get("HResult"), "I32", True), self.st(xf.get("HelpLink")), self.st(xf.get("Source")), self.st(xf.get("StackTrace")), inner, names],
            "cat": [self.typed(f["ErrorCategory_Category"], "I32")] + [self.st(f.get("ErrorCategory_" + k)) for k in ("Activity", "Reason", "TargetName", "TargetType")],
            "target": self.canon(f["TargetObject"]), "fqid": self.st(f["FullyQualifiedErrorId"]), "details": details,
            "inv": self.invocation(f) if extended else None, "pii": pii, "trace": self.st(f.get("ErrorDetails_ScriptStackTrace")),
        }

    def on_ErrorRecord(self, n, e):
        return self.error(n)

    def invocation(self, f):
        p = "InvocationInfo_"
        lack = {p + k for k in ("BoundParameters", "CommandOrigin", "ExpectingInput", "InvocationName", "Line", "OffsetInLine", "PipelineLength", "PipelinePosition", "PSScriptRoot", "PSCommandPath", "PositionMessage", "ScriptLineNumber", "ScriptName", "UnboundArguments")} - set(f)
        if lack:
            raise Refused("an invocation without %s" % sorted(lack))
        g = lambda k: f.get(p + k)
        line = self.st(g("Line"))
        my = None
        if f.get("CommandInfo_CommandType") is not None and not (isinstance(f["CommandInfo_CommandType"], Prim) and f["CommandInfo_CommandType"].tag == "Nil"):
            my = [self.en(f["CommandInfo_CommandType"], "CommandTypes"), self.typed(f.get("CommandInfo_Name"), "S"), self.typed(f.get("CommandInfo_Definition"), "S"), self.en(f.get("CommandInfo_Visibility"), "SessionStateEntryVisibility")]
        ua = self.items(g("UnboundArguments"), "LST", True)
        out = {
            "BoundParameters": self.entries(g("BoundParameters"), True), "UnboundArguments": [self.canon(v) for v in ua or []],
            "CommandOrigin": self.en(g("CommandOrigin"), "CommandOrigin", True), "ExpectingInput": self.typed(g("ExpectingInput"), "B", True), "HistoryId": self.typed(g("HistoryId"), "I64", True),
            "InvocationName": self.st(g("InvocationName")), "Line": line[1] if len(line) > 1 else "", "ScriptName": self.st(g("ScriptName")), "MyCommand": my,
        }
        for k in ("OffsetInLine", "PipelineLength", "PipelinePosition", "ScriptLineNumber"):
            out[k] = self.typed(g(k), "I32", True)
        if "SerializeExtent" in f and self.typed(f["SerializeExtent"], "B"):
            x = "ScriptExtent_"
            out["extent"] = [self.st(f[x + "File"])] + [self.typed(f[x + k], "I32", True) for k in ("StartLineNumber", "StartColumnNumber", "EndLineNumber", "EndColumnNumber")]
        else:
            n, c = out["ScriptLineNumber"], out["OffsetInLine"]  # the sender leaves it to the reader
            name = out["ScriptName"]
            out["extent"] = [["PSString", name[1] if len(name) > 1 else ""], n, c, n, len(out["Line"]) + 1 if out["Line"] else c]
        return out

    def on_DebugRecord(self, n, e):
        f = self.fields(n, required=("InformationalRecord_Message", "InformationalRecord_SerializeInvocationInfo"))
        ext = self.typed(f["InformationalRecord_SerializeInvocationInfo"], "B")
        v = f.get("InformationalRecord_PipelineIterationInfo")
        pii = None if not ext or v is None or isinstance(v, Prim) else [self.typed(k, "I32") for k in self.items(v, "LST")]
        return {"msg": self.st(f["InformationalRecord_Message"]), "inv": self.invocation(f) if ext else None, "pii": pii}

    on_VerboseRecord = on_WarningRecord = on_DebugRecord

    def on_ProgressRecord(self, n, e):
        return self.progress(n)

    def progress(self, n):
        f = self.fields(n, required=("Activity", "ActivityId", "StatusDescription", "CurrentOperation", "ParentActivityId", "PercentComplete", "Type", "SecondsRemaining"), what="progress record")
        i = lambda k: self.typed(f[k], "I32")
        return {"Activity": self.st(f["Activity"]), "ActivityId": i("ActivityId"), "StatusDescription": self.st(f["StatusDescription"]), "CurrentOperation": self.st(f["CurrentOperation"]),
                "ParentActivityId": i("ParentActivityId"), "PercentComplete": i("PercentComplete"), "RecordType": self.en(f["Type"], "ProgressRecordType"), "SecondsRemaining": i("SecondsRemaining")}

    def stream_item(self, stream, n):
        """One object of a CLIXML document in the form of its stream."""
        text = isinstance(n, Prim)
        if stream == "output":
            return self.canon(n)
        if stream == "error":
            return self.st(n) if text else self.error(n)
        if stream in ("debug", "verbose", "warning"):
            return self.st(n)
        if stream == "information":
            return self.st(n) if text else self.on_InformationRecord(n, None)
        if stream != "progress":
            raise Refused("an object on the stream %r" % stream)
        f = self.fields(n, required=("SourceId", "Record"), what="progress")
        self.typed(f["SourceId"], "I64")
        return self.progress_element(f["Record"])

    def progress_element(self, pr):
        if isinstance(pr, Prim) or pr.kind != "PR":
            raise Refused("no <PR> in a progress object")
        i = pr.items
        return {"Activity": self.prim(i["AV"]), "ActivityId": i["AI"].value, "StatusDescription": self.prim(i["SD"]), "CurrentOperation": self.prim(i["S"]) if "S" in i else ["nil"],
                "ParentActivityId": i["PI"].value, "PercentComplete": i["PC"].value, "RecordType": self.record_type(i["T"]), "SecondsRemaining": i["SR"].value}

    def on_InformationRecord(self, n, e):
        names = ("MessageData", "Source", "TimeGenerated", "Tags", "User", "Computer", "ProcessId", "NativeThreadId", "ManagedThreadId")
        f = self.fields(n, required=names)
        u = lambda k: self.typed(f[k], "U32")
        return {"message_data": self.canon(f["MessageData"]), "source": self.st(f["Source"]), "time_generated": self.canon(f["TimeGenerated"]), "tags": [self.st(t) for t in self.items(f["Tags"], "LST")],
                "user": self.st(f["User"]), "computer": self.st(f["Computer"]), "process_id": u("ProcessId"), "native_thread_id": u("NativeThreadId"), "managed_thread_id": u("ManagedThreadId")}

    # ------------------------------------------------------------ pipelines
    def on_CreatePipeline(self, n, e):
        f = self.fields(n, required=("NoInput", "ApartmentState", "RemoteStreamOptions", "AddToHistory", "HostInfo", "PowerShell", "IsNested"))
        p = self.fields(f["PowerShell"], required=("IsNested", "Cmds", "History", "RedirectShellErrorOutputPipe"), what="PowerShell object")
        if self.typed(p["IsNested"], "B") != self.typed(f["IsNested"], "B"):
            raise Refused("two different values of IsNested")
        groups = [self.items(p["Cmds"], "LST")]
        if "ExtraCmds" in p and not isinstance(p["ExtraCmds"], Prim):
            extra = [self.items(self.fields(x, required=("Cmds",), what="ExtraCmds")["Cmds"], "LST") for x in self.items(p["ExtraCmds"], "LST")]
            if extra and [id(c) for c in groups[0]] != [id(c) for c in extra[0]]:
                a = [self.command(c) for c in groups[0]]
                if a != [self.command(c) for c in extra[0]]:
                    raise Refused("Cmds is not the first statement of ExtraCmds")
            groups = extra or groups
        cmds = []
        for g in groups:
            for i, c in enumerate(g):
                d = self.command(c)
                d["eos"] = i == len(g) - 1
                cmds.append(d)
        return {"cmds": cmds, "add_to_history": self.typed(f["AddToHistory"], "B"), "apartment_state": self.en(f["ApartmentState"], "ApartmentState"), "history": self.st(p["History"]), "host": self.host(f["HostInfo"]),
                "is_nested": self.typed(f["IsNested"], "B"), "no_input": self.typed(f["NoInput"], "B"), "remote_stream_options": self.en(f["RemoteStreamOptions"], "RemoteStreamOptions"),
                "redirect_shell_error_to_out": self.typed(p["RedirectShellErrorOutputPipe"], "B")}

    def command(self, n):
        f = self.fields(n, required=("Cmd", "Args", "IsScript", "UseLocalScope", "MergeMyResult", "MergeToResult", "MergePreviousResults"), what="command")
        m = lambda k: self.en(f[k], "PipelineResultTypes") if k in f else 0
        params = []
        for a in self.items(f["Args"], "LST"):
            nv = self.fields(a, required=("N", "V"), what="argument")
            params.append([self.typed(nv["N"], "S", True), self.canon(nv["V"])])
        prev = m("MergePreviousResults")
        if prev not in (0, 3):
            raise Refused("MergePreviousResults %d" % prev)
        return {"text": self.st(f["Cmd"]), "script": self.typed(f["IsScript"], "B"), "local": self.typed(f["UseLocalScope"], "B", True), "params": params, "eos": False,
                "merge": {k: m("Merge" + k.capitalize()) for k in ("error", "warning", "verbose", "debug", "information")}, "my": [m("MergeMyResult"), m("MergeToResult")], "unclaimed": prev == 3}

    def on_GetCommandMetadata(self, n, e):
        f = self.fields(n, required=("Name", "CommandType", "Namespace", "ArgumentList"))
        ns, args = self.items(f["Namespace"], "LST", True), self.items(f["ArgumentList"], "LST", True)
        return {"name": [self.st(x) for x in self.items(f["Name"], "LST")], "command_type": self.en(f["CommandType"], "CommandTypes"), "namespace": None if ns is None else [self.st(x) for x in ns],
                "arguments": None if args is None else [self.canon(a) for a in args]}

    # ------------------------------------------------------------ host calls (2.2.6: host parameter encoding)
    def on_RunspacePoolHostCall(self, n, e):
        f = self.fields(n, required=("ci", "mi", "mp"))
        mi = f["mi"]
        num = self.en(mi, "HostMethodIdentifier")
        params = self.items(f["mp"], "LST")
        method = mi.ts
        if e.form == "typed":
            kinds = PARAMS.get(method)
            if kinds is None:
                params = [self.canon(p) for p in params]
            else:
                if len(params) != len(kinds):
                    raise Refused("%s with %d parameters" % (method, len(params)))
                params = [self.param(k, p) for k, p in zip(kinds, params)]
        else:
            params = [self.canon(p) for p in params]
        return [self.typed(f["ci"], "I64"), method, num, params]

    on_PipelineHostCall = on_RunspacePoolHostCall

    def on_RunspacePoolHostResponse(self, n, e):
        f = self.fields(n, required=("ci", "mi"))
        self.en(f["mi"], "HostMethodIdentifier")
        method = f["mi"].ts
        mr, me = f.get("mr"), f.get("me")
        if mr is None or isinstance(mr, Prim) and mr.tag == "Nil":
            res = ["nil"]
        elif e.form == "typed" and method in RESULTS:
            res = self.param(RESULTS[method], mr)
        else:
            res = self.canon(mr)
        return [self.typed(f["ci"], "I64"), method, res, None if me is None or isinstance(me, Prim) else self.error(me)]

    on_PipelineHostResponse = on_RunspacePoolHostResponse

    def param(self, k, v):
        if k == "any":
            return self.canon(v)
        if k == "str":
            return self.st(v)
        if k == "int":
            return ["PSInt", self.typed(v, "I32")]
        if k.startswith("enum:"):
            return ["enum", k[5:], self.typed(v, "I32")]
        if k == "coord":
            return ["Coordinates"] + self.xy(v, "x", "y")
        if k == "size":
            return ["Size"] + self.xy(v, "width", "height")
        if k == "rect":
            return ["Rectangle"] + self.xy(v, "left", "top", "right", "bottom")
        if k == "key":
            f = self.fields(v, required=("virtualKeyCode", "character", "controlKeyState", "keyDown"), what="key")
            return ["KeyInfo", self.typed(f["virtualKeyCode"], "I32"), ["PSChar", self.typed(f["character"], "C")], ["enum", "ControlKeyStates", self.typed(f["controlKeyState"], "I32")], self.typed(f["keyDown"], "B")]
        if k == "cell":
            f = self.fields(v, required=("character", "foregroundColor", "backgroundColor", "bufferCellType"), what="cell")
            i = lambda x: self.typed(f[x], "I32")
            return ["BufferCell", ["PSChar", self.typed(f["character"], "C")], ["enum", "ConsoleColor", i("foregroundColor")], ["enum", "ConsoleColor", i("backgroundColor")], ["enum", "BufferCellType", i("bufferCellType")]]
        if k == "cells":  # row-major with the sizes of the two dimensions
            f = self.fields(v, required=("mae", "mal"), what="array")
            dims = [self.typed(x, "I32") for x in self.items(f["mal"], "LST")]
            cells = [self.param("cell", x) for x in self.items(f["mae"], "LST")]
            if len(dims) != 2 or dims[0] * dims[1] != len(cells):
                raise Refused("an array of %s with %d elements" % (dims, len(cells)))
            return ["list", [["list", cells[i * dims[1]:(i + 1) * dims[1]]] for i in range(dims[0])]]
        if k == "progress":
            return ["ProgressRecord", self.progress(v)]
        if k == "ints":
            return ["list", [self.param("int", x) for x in self.items(v, "LST")]]
        if k == "choices":
            out = []
            for x in self.items(v, "LST"):
                f = self.fields(x, required=("label", "helpMessage"), what="choice")
                out.append(["ChoiceDescription", self.st(f["label"]), self.st(f["helpMessage"])])
            return ["list", out]
        if k == "fields":
            out = []
            for x in self.items(v, "LST"):
                f = self.fields(x, required=("name", "label", "parameterTypeName", "parameterTypeFullName", "parameterAssemblyFullName", "helpMessage", "isMandatory", "metadata"), what="field")
                self.items(f["metadata"], "LST")
                out.append(["FieldDescription"] + [self.st(f[q]) for q in ("name", "parameterTypeName", "parameterTypeFullName", "parameterAssemblyFullName", "label", "helpMessage")] + [self.typed(f["isMandatory"], "B")])
            return ["list", out]
        raise AssertionError(k)


PARAMS = {
    "SetShouldExit": ["int"], "Write1": ["str"], "Write2": ["enum:ConsoleColor", "enum:ConsoleColor", "str"], "WriteLine1": [], "WriteLine2": ["str"], "WriteLine3": ["enum:ConsoleColor", "enum:ConsoleColor", "str"],
    "WriteErrorLine": ["str"], "WriteDebugLine": ["str"], "WriteVerboseLine": ["str"], "WriteWarningLine": ["str"], "WriteProgress": ["int", "progress"], "Prompt": ["str", "str", "fields"],
    "PromptForCredential1": ["str"] * 4, "PromptForCredential2": ["str"] * 4 + ["enum:PSCredentialTypes", "enum:PSCredentialUIOptions"], "PromptForChoice": ["str", "str", "choices", "int"],
    "PromptForChoiceMultipleSelection": ["str", "str", "choices", "ints"], "SetForegroundColor": ["enum:ConsoleColor"], "SetBackgroundColor": ["enum:ConsoleColor"], "SetCursorPosition": ["coord"],
    "SetWindowPosition": ["coord"], "SetCursorSize": ["int"], "SetBufferSize": ["size"], "SetWindowSize": ["size"], "SetWindowTitle": ["str"], "ReadKey": ["enum:ReadKeyOptions"],
    "SetBufferContents1": ["rect", "cell"], "SetBufferContents2": ["coord", "cells"], "GetBufferContents": ["rect"], "ScrollBufferContents": ["rect", "coord", "rect", "cell"],
}
RESULTS = {
    "PromptForChoice": "int", "PromptForChoiceMultipleSelection": "ints", "GetForegroundColor": "enum:ConsoleColor", "GetBackgroundColor": "enum:ConsoleColor", "GetCursorPosition": "coord",
    "GetWindowPosition": "coord", "GetCursorSize": "int", "GetBufferSize": "size", "GetWindowSize": "size", "GetMaxWindowSize": "size", "GetMaxPhysicalWindowSize": "size", "ReadKey": "key", "GetBufferContents": "cells",
}


def public_key_blob(key):
    """CAPI PUBLICKEYBLOB of an RSA key (MS-PSRP 2.2.2.3)."""
    n = key.public_key().public_numbers()
    bits = n.n.bit_length()
    return b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1" + struct.pack("<II", bits, n.e) + n.n.to_bytes(bits // 8, "little")


def session_key(blob, key):
    """The session key in a CAPI SIMPLEBLOB (MS-PSRP 2.2.2.4)."""
    from cryptography.hazmat.primitives.asymmetric import padding

    if blob[:12] != b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00" or len(blob) != 12 + key.key_size // 8:
        raise Refused("the encrypted session key has the header %s and %d bytes" % (blob[:12].hex(), len(blob)))
    try:
        return key.decrypt(blob[12:][::-1], padding.PKCS1v15())
    except ValueError as e:
        raise Refused("the session key cannot be decrypted with the private key of the client: %s" % e)


def decrypt(keys, data):
    """Text of a secure string: AES-256 in CBC mode, no IV, PKCS #7, UTF-16."""
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    if len(data) % 16 == 0 and data:
        for k in keys:
            d = Cipher(algorithms.AES(k), modes.CBC(b"\0" * 16)).decryptor()
            plain = d.update(data) + d.finalize()
            pad = plain[-1]
            if 1 <= pad <= 16 and plain.endswith(bytes([pad]) * pad):
                return plain[:-pad].decode("utf-16-le", "surrogatepass")
    raise Refused("a secure string that the session key does not open")
