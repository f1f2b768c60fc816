"""Interoperation world (C23, C24): a peer that is not psrpcore sits between the two ends.

Every whole message that leaves an end is read by the reference reader (refwire) and has to say exactly what the
application asked for.  Then it is written anew in another of the spellings the protocol permits, cut into other
fragments under the same object id, and delivered; the receiver has to understand the same.
"""
import base64
import random
import re
from xml.sax.saxutils import escape

from .core import Link, diff  # isort: skip (installs the seams)
from . import hostui as H
from . import refwire as W
from . import seams
from . import values as V
from . import wire
from .world import STOP_REASON, SessionWorld

LISTS = [
    ["System.Collections.ArrayList", "System.Object"], ["System.Object[]", "System.Array", "System.Object"],
    ["System.Collections.Generic.List`1[[System.Management.Automation.PSObject, System.Management.Automation, Version=3.0.0.0, Culture=neutral, PublicKeyToken=31bf3856ad364e35]]", "System.Object"],
]
NULLABLE = {
    "RunspacePoolState": ["ExceptionAsErrorRecord"], "PipelineState": ["ExceptionAsErrorRecord"], "RunspacePoolHostResponse": ["mr", "me"], "PipelineHostResponse": ["mr", "me"],
}
PRIMS = [("S", ""), ("S", "text"), ("I32", "-5"), ("I64", "1"), ("B", "true"), ("Nil", ""), ("DT", "2020-01-02T03:04:05.1234567Z"), ("TS", "PT1H0.5S"), ("G", "6f9619ff-8b86-d011-b42d-00c04fc964ff"),
         ("BA", "AAE="), ("D", "1.10"), ("Db", "2.5"), ("URI", "http://host/"), ("Version", "1.2"), ("C", "65"), ("By", "255"), ("XD", "<a />"), ("SBK", "{ 1 }")]
# the parts of these messages may come in any order
UNORDERED = set(wire.TYPES) - {"PipelineInput", "PipelineOutput"}


def enum_name(cls, value):
    """The documented text of an enumeration value, when there is one."""
    c = V.ENUMS.get(cls) or V.FLAGS.get(cls)
    if cls in V.FLAGS and value & (value - 1):
        return None  # the text of combinations is not specified
    if c is None:
        return H.METHODS[value - 1] if cls == "HostMethodIdentifier" and 0 < value <= len(H.METHODS) else None
    for name, m in c.__members__.items():
        if int(m.value) == value:
            return "None" if name == "none" else name
    return None


def stop_reason(rec):
    """The members of an error record that matter of the record sent for a stopped pipeline."""
    x, cat = rec["exc"], rec["cat"]
    return [x[0][1], x[1], cat[0], cat[2][-1], rec["fqid"][-1], any("PipelineStoppedException" in n for n in x[6])]


# ---------------------------------------------------------------- writing a message in another spelling
class Speller:
    """Writes a tree of refwire nodes as CLIXML; every free choice is drawn from r."""

    def __init__(self, r, kind):
        self.r, self.kind = r, kind
        self.on = {k: r.random() < 0.4 for k in ("space", "refids", "esc", "raw", "charref", "quotes", "dates", "numbers", "order", "parts", "tn", "lists", "share", "bom", "case")}
        self.refs = {}
        self.tns = {}
        self.leaves = {}
        self.next = r.randrange(50) if self.on["refids"] else 0
        self.step = r.choice([1, 1, 2, 7]) if self.on["refids"] else 1
        self.used = {k for k, v in self.on.items() if v}

    def fresh(self):
        n = self.next
        self.next += self.step
        return n

    def gap(self):
        return self.r.choice(["", "", "\n", "  ", "\r\n\t"]) if self.on["space"] else ""

    def quote(self, s):
        q = "'" if self.on["quotes"] and self.r.random() < 0.5 else '"'
        return q + s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;").replace("'", "&apos;") + q

    def attr(self, pairs):
        pairs = [p for p in pairs if p[1] is not None]
        if self.on["quotes"]:
            self.r.shuffle(pairs)
        return "".join(" %s=%s" % (k, self.quote(str(v)) if k != "N" else v) for k, v in pairs)

    def text(self, s, attr=False):
        """s escaped for CLIXML and for XML."""
        r, out, i = self.r, [], 0
        units = s
        while i < len(units):
            c = units[i]
            o = ord(c)
            must = o < 32 or 0xD800 <= o <= 0xDFFF or o in (0xFFFE, 0xFFFF) or (c == "_" and units[i + 1:i + 2] in ("x", "X")) or (o == 0xFEFF and i == 0)
            usual = must or 0x7F <= o <= 0x9F or o > 0xFFFF
            if must or (usual and not (self.on["raw"] and o != 0x85)) or (self.on["esc"] and r.random() < 0.1):
                f = "_x%04x_" if self.on["case"] and r.random() < 0.5 else "_x%04X_"
                b = c.encode("utf-16-be", "surrogatepass")
                out.append("".join(f % int.from_bytes(b[j:j + 2], "big") for j in range(0, len(b), 2)))
            elif self.on["charref"] and r.random() < 0.1 and c != "_":
                out.append(r.choice(["&#%d;", "&#x%x;"]) % o)
            else:
                e = escape(c)
                out.append({'"': "&quot;", "'": "&apos;"}.get(e, e) if attr else e)
            i += 1
        return "".join(out)

    def name(self, n):
        if n is None:
            return None
        t = n if n in ("Key", "Value") else self.text(n, True)
        return ("'%s'" if self.on["quotes"] and self.r.random() < 0.5 else '"%s"') % t

    def leaf(self, tag, text, n=None, extra=()):
        if text == "" and self.r.random() < 0.7:
            return "<%s%s />" % (tag, self.attr([("N", self.name(n))] + list(extra))) if self.r.random() < 0.8 else "<%s%s/>" % (tag, self.attr([("N", self.name(n))]))
        return "<%s%s>%s</%s>" % (tag, self.attr([("N", self.name(n))] + list(extra)), text, tag)

    def prim(self, p, n=None):
        t, v, r = p.tag, p.value, self.r
        if t == "Nil":
            return "<Nil%s />" % self.attr([("N", self.name(n))])
        if t in W.TEXT:
            return self.leaf(t, self.text(v), n)
        text = p.text
        if t == "DT" and self.on["dates"]:
            y, mo, d, h, mi, s, us, ns, off = v
            frac = "%06d%d" % (us, ns // 100)
            if r.random() < 0.5:
                frac = frac.rstrip("0")
            text = "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, h, mi, s) + ("." + frac if frac else "")
            if off is not None:
                text += "Z" if off == 0 and r.random() < 0.5 else "%s%02d:%02d" % ("-" if off < 0 else "+", abs(off) // 3600, abs(off) // 60 % 60)
        elif t == "TS" and self.on["dates"] and r.random() < 0.4:
            # parts that are not carried over
            total, frac = divmod(abs(v) // 100, 10**7)
            cut = [r.random() < 0.5 for _ in range(3)]
            d, total = divmod(total, 86400) if cut[0] else (0, total)
            h, total = divmod(total, 3600) if cut[1] else (0, total)
            m, total = divmod(total, 60) if cut[2] else (0, total)
            text = "-" * (v < 0) + "P" + "%dD" % d * bool(d) + "T" + "%dH" % h * bool(h) + "%dM" % m * bool(m) + "%d" % total + (".%07d" % frac if frac else "") + "S"
        elif t == "TS" and self.on["dates"] and text.endswith("S") and "." in text:
            head, frac = text[:-1].split(".")
            text = head + "." + frac.ljust(7, "0") + "S"
        elif t in ("Sg", "Db") and self.on["numbers"] and text.endswith(".0"):
            text = text[:-2]
        elif t == "G" and self.on["numbers"]:
            text = text.upper()
        return self.leaf(t, text, n)

    def node(self, x, n=None, unordered=False):
        if isinstance(x, W.Prim):
            return self.prim(x, n)
        if x.kind == "PR":
            return self.pr(x, n)
        if id(x) in self.refs:
            return "<Ref%s />" % self.attr([("RefId", self.refs[id(x)]), ("N", self.name(n))])
        key = None
        if self.on["share"] and x.kind in ("LST", "DCT") and not x.props and not x.ms and x.base is None and x.ts is None:
            flat = x.items if x.kind == "LST" else [y for pair in x.items for y in pair]
            if all(isinstance(y, W.Prim) for y in flat):
                key = (x.kind, tuple(x.names), tuple((y.tag, y.text) for y in flat))
                if key in self.leaves and self.r.random() < 0.7:
                    return "<Ref%s />" % self.attr([("RefId", self.leaves[key]), ("N", self.name(n))])
        ref = self.fresh()
        if x.ref is not None:
            self.refs[id(x)] = ref
        parts = []
        if x.base is not None:
            parts.append(lambda: self.node(x.base))
        if x.ts is not None:
            parts.append(lambda: self.leaf("ToString", self.text(x.ts)))
        if x.kind is not None and x.fixed:
            parts.append(lambda: self.container(x))
        if x.props:
            parts.append(lambda: self.props("Props", x.props, unordered))
        if x.ms:
            parts.append(lambda: self.props("MS", x.ms, unordered))
        if x.kind is not None and not x.fixed:
            parts.append(lambda: self.container(x))
        if self.on["parts"] and not x.fixed:
            self.r.shuffle(parts)
        # the type names come first, or after the value of an extended primitive
        parts.insert(int(self.on["parts"] and isinstance(x.base, W.Prim) and len(parts) == 1 and self.r.random() < 0.5), lambda: self.names(x))
        body = "".join(self.gap() + p() for p in parts) + self.gap()
        if key is not None:
            self.leaves[key] = ref
        return "<Obj%s>%s</Obj>" % (self.attr([("RefId", ref), ("N", self.name(n))]), body)

    def names(self, x):
        names = x.names
        if self.on["lists"] and names == LISTS[0] and x.kind == "LST":
            names = self.r.choice(LISTS)
        if not names:
            return ""
        key = tuple(names)
        if key in self.tns and not (self.on["tn"] and self.r.random() < 0.5):
            return "<TNRef%s />" % self.attr([("RefId", self.r.choice(self.tns[key]))])
        ref = self.fresh()
        self.tns.setdefault(key, []).append(ref)
        return "<TN%s>%s</TN>" % (self.attr([("RefId", ref)]), "".join(self.gap() + "<T>%s</T>" % self.text(t) for t in names) + self.gap())

    def props(self, tag, props, unordered):
        props = list(props)
        if unordered and self.on["order"]:
            self.r.shuffle(props)
        inner = {"HostInfo", "PowerShell", "_hostDefaultData"}
        return "<%s>%s</%s>" % (tag, "".join(self.gap() + self.node(v, n, unordered and n in inner) for n, v in props) + self.gap(), tag)

    def container(self, x):
        if x.kind == "DCT":
            body = "".join(self.gap() + "<En>%s%s%s%s%s</En>" % (self.gap(), self.node(a, "Key"), self.gap(), self.node(b, "Value"), self.gap()) for a, b in x.items)
        else:
            body = "".join(self.gap() + self.node(v) for v in x.items)
        body += self.gap()
        return "<%s>%s</%s>" % (x.kind, body, x.kind) if body or self.r.random() < 0.3 else "<%s />" % x.kind

    def pr(self, x, n):
        order = ["AV", "AI", "S", "PI", "PC", "T", "SR", "SD"]
        out = []
        for k in order:
            if k not in x.items:
                continue
            p = x.items[k]
            out.append("<Nil />" if p.tag == "Nil" else self.leaf(k, self.text(p.value) if p.tag == "S" else p.text))
        return "<PR%s>%s</PR>" % (self.attr([("N", self.name(n))]), "".join(self.gap() + o for o in out) + self.gap())

    def document(self, items):
        """A CLIXML document of (stream, node) pairs."""
        out = []
        for stream, n in items:
            s = self.node(n)
            m = re.match("<[A-Za-z0-9]+", s).end()
            case = self.r.choice([str.lower, str.capitalize, str.upper])
            a = "" if stream == "output" and self.r.random() < 0.3 else " S=%s" % self.quote(case(stream))
            out.append(self.gap() + s[:m] + a + s[m:])
        head = "<Objs%s" % self.attr([("Version", "1.1.0.1"), ("xmlns", W.NS)])
        if not out and self.r.random() < 0.5:
            return head + " />"
        return head + ">" + "".join(out) + self.gap() + "</Objs>"

    def message(self, root):
        s = self.node(root, None, self.kind in UNORDERED)
        return ("\ufeff" if self.on["bom"] else "").encode() + s.encode("utf-8")


# ---------------------------------------------------------------- the peer in the middle
class ProxyLink(Link):
    def __init__(self, mode, world, side):
        super().__init__(mode)
        self.world, self.side = world, side
        self.parts = {}

    def put(self, payload):
        for f in wire.fragments(payload.data):
            self.parts.setdefault(f.oid, bytearray()).extend(f.data)
            if f.end:
                data = self.world.respell(getattr(self.world, self.side), f.oid, bytes(self.parts.pop(f.oid)))
                for chunk in data:
                    super().put(payload._replace(data=chunk))


class InteropWorld(SessionWorld):
    def __init__(self, cfg):
        self.waiting = []  # messages with secure strings that were sent before the key
        self.key_of_session = None
        self.client_key = None
        super().__init__(cfg)

    def make_link(self, side):
        return ProxyLink(self.cfg["mode"], self, side)

    # ------------------------------------------------------------ C23: what is sent
    def on_sent(self, end, e, m):
        super().on_sent(end, e, m)
        if not m.data:
            if e.kind != "EndOfPipelineInput" and not (e.kind in ("PipelineInput", "PipelineOutput") and e.want == ["nil"]):
                self.fail({"C23"} | e.tags, "%s message without a body" % e.kind)
            return
        if e.kind == "EndOfPipelineInput":
            self.fail({"C23"} | e.tags, "the end of the pipeline input has a body")
        try:
            root, n = W.parse(m.data)
        except W.Refused as x:
            self.fail({"C23"} | e.tags, "a strict peer refuses the %s message of the %s: %s" % (e.kind, self.who(end), x))
        self.count("messages_read")
        self.count("elements_read", n)
        if e.kind == "PublicKey":
            self.saw_public_key(end, e, root)
        elif e.kind == "EncryptedSessionKey":
            self.saw_session_key(end, e, root)
        elif e.secrets and self.key_of_session is None:
            self.waiting.append((end, e, root))
        else:
            self.read(end, e, root)

    def read(self, end, e, root):
        reader = W.Reader(self.open_secret, enum_name)
        try:
            got = reader.view(e, root)
        except W.Refused as x:
            self.fail({"C23"} | e.tags, "a strict peer refuses the %s message of the %s: %s" % (e.kind, self.who(end), x))
        if isinstance(e.want, list) and e.want[-1:] == [STOP_REASON]:
            got[-1] = stop_reason(got[-1])
        bad = e.ok(got) if e.ok is not None else None if got == e.want else diff(e.want, got)
        if bad:
            self.fail({"C23"} | e.tags, "the %s message of the %s does not say what it should: %s" % (e.kind, self.who(end), bad))

    def open_secret(self, data):
        if self.key_of_session is None:
            raise W.Refused("a secure string in a message that should have none")
        return W.decrypt([self.key_of_session], data)

    def saw_public_key(self, end, e, root):
        try:
            blob = base64.b64decode(W.Reader(None).view(e, root), validate=True)
        except (W.Refused, ValueError) as x:
            self.fail({"C23"} | e.tags, "a strict peer refuses the public key: %s" % x)
        if blob[:12] != b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1":
            self.fail({"C23"} | e.tags, "the public key has the header %s" % blob[:12].hex())
        self.client_key = None
        for k in seams.SEAM.keys():
            if W.public_key_blob(k) == blob:
                self.client_key = k
        if self.client_key is None:
            self.fail({"C23"} | e.tags, "the public key is not that of the client")

    def saw_session_key(self, end, e, root):
        try:
            blob = base64.b64decode(W.Reader(None).view(e, root), validate=True)
            key = W.session_key(blob, self.client_key)
        except (W.Refused, ValueError) as x:
            self.fail({"C23"} | e.tags, "a strict peer refuses the session key: %s" % x)
        if len(key) != 32:
            self.fail({"C23"} | e.tags, "the session key has %d bytes" % len(key))
        if self.key_of_session not in (None, key):
            self.fail({"C23", "C11"} | e.tags, "the server sent another session key than before")
        self.key_of_session = key
        self.count("session_keys_opened")
        waiting, self.waiting = self.waiting, []
        for w in waiting:
            self.read(*w)

    # ------------------------------------------------------------ C24: what is received
    def vary(self, e, root, r):
        """Members that may be null or absent, and members the receiver does not know."""
        if e.kind not in UNORDERED or isinstance(root, W.Prim) or not root.ms or root.kind or root.base is not None:
            return
        if r.random() < 0.4:
            have = dict(root.ms)
            for name in NULLABLE.get(e.kind, ()):
                if name in have and isinstance(have[name], W.Prim) and have[name].tag == "Nil":
                    root.ms = [p for p in root.ms if p[0] != name]
                    self.count("spelling:null_omitted")
                elif name not in have:
                    nil = W.Prim("Nil", "")
                    nil.value = None
                    root.ms = root.ms + [(name, nil)]
                    self.count("spelling:null_added")
        if r.random() < 0.5:
            for p in root.ms:
                if p[0] == "SerializeExtent" and isinstance(p[1], W.Prim) and p[1].value is False:
                    root.ms = [q for q in root.ms if q is not p]
                    self.count("spelling:extent_omitted")
        if r.random() < 0.2:
            extra = W.Prim("S", "later version")
            extra.value = extra.text
            root.ms = root.ms + [("FutureProperty", extra)]
            self.count("spelling:unknown_member")

    def other_connect(self, e, r):
        """Another client names the limits it wants, one of them or neither; without any it sends no object at all."""
        lo = r.choice([1, 2, 3, 5])
        lims = [r.choice([lo, None]), r.choice([lo + r.randrange(4), None])]
        if lims == [None, None]:
            root = W.Prim("S", "")
            root.value = ""
        else:
            root = W.parse(b'<Obj RefId="0"><MS>%s</MS></Obj>' % b"".join(b'<I32 N="%s">%d</I32>' % (n, v) for n, v in zip((b"MinRunspaces", b"MaxRunspaces"), lims) if v is not None))[0]
        e.want = lims
        self.count("spelling:connect_limits")
        return root

    def other_object(self, e, r):
        """An object that another implementation sends: containers and values that refer to each other, and to what they are in."""
        done, size = [], r.choice([3, 6, 12])
        containers = [("LST", LISTS), ("IE", [["System.Linq.Enumerable+Iterator", "System.Object"], []]), ("STK", [["System.Collections.Stack", "System.Object"], []]),
                      ("QUE", [["System.Collections.Queue", "System.Object"], []]), ("DCT", [["System.Collections.Hashtable", "System.Object"], []])]

        def prim(key=None):
            p = r.choice(PRIMS) if key is None else key
            out = W._Parser().prim(*p)
            return out

        def obj():
            o = W.Obj()
            o.ref = "0"
            done.append(o)
            return o

        def pairs(above, depth, least):
            return [("m%d" % i, node(above, depth + 1)) for i in range(r.randint(least, 3))]

        def node(above, depth):
            if depth and (r.random() < 0.25 or len(done) >= size or depth > 8):
                return prim()
            if depth and r.random() < 0.35:
                self.count("foreign_refs")
                o = r.choice(above if r.random() < 0.5 else done)
                # a container or value that is not complete can be named only after its kind is known
                if any(o is a for a in above):
                    self.count("foreign_cycles")
                return o
            o = obj()
            how = r.randrange(8)
            if how < 5:
                kind, names = r.choice(containers)
                o.kind, o.items, o.names, o.fixed = kind, [], r.choice(names), True
                inner = above + [o]
                if kind == "DCT":
                    o.items = [(prim(("S", "key %d" % i)) if r.random() < 0.7 else prim(("I32", str(i + 7))), node(inner, depth + 1)) for i in range(r.randint(0, 3))]
                else:
                    o.items = [node(inner, depth + 1) for _ in range(r.randint(0, 4))]
                if kind != "QUE" and r.random() < 0.2:
                    o.ms = pairs(inner, depth, 1)
            elif how == 5:
                o.base, o.fixed = prim(r.choice([p for p in PRIMS if p[0] != "Nil"])), True
                o.ms = pairs(above + [o], depth, 1)
                o.names = r.choice([[], [], ["Vendor.Value", "System.Object"], ["Vendor.Value", "Vendor.Base", "System.Object"]])
                o.ts = r.choice(["", "as text", "_x000A_"])
            else:
                o.names = r.choice([["System.Management.Automation.PSCustomObject", "System.Object"], ["Vendor.Thing", "System.Object"], ["Vendor.Thing", "Vendor.Base"], []])
                inner = above + [o]
                if r.random() < 0.5:
                    o.props = pairs(inner, depth, 1)
                if r.random() < 0.7:
                    o.ms = [("n" + n, v) for n, v in pairs(inner, depth, 1)]
                o.ts = r.choice([None, None, "", "text"])
            return o

        root = node([], 0)
        e.foreign = True
        e.want = W.Reader(None).graph(root)
        e.got = lambda ev: V.graph(ev.data)
        self.count("foreign_objects")
        return root

    def respell(self, end, oid, data):
        """The payloads (lists of fragments) by which another implementation would have sent this message."""
        e = end.by_oid[oid]
        r = random.Random("spell:%s:%d:%s" % (self.cfg["env"], oid, end.name))
        head, body = data[:wire.MSG_HEADER], data[wire.MSG_HEADER:]
        mode = self.cfg.get("respell", 0.8)
        if body and r.random() < mode:
            root, _ = W.parse(body)
            if e.kind == "SessionCapability" and r.random() < 0.5:
                tz = W.Prim("BA", "AAEAAAD/////AQAAAA==")
                tz.value = base64.b64decode(tz.text)
                root.ms = root.ms + [("TimeZone", tz)]
                self.count("spelling:timezone")
            if e.kind == "ConnectRunspacePool" and r.random() < 0.7:
                root = self.other_connect(e, r)
            if e.kind in ("PipelineOutput", "PipelineInput") and not e.secrets and e.ok is None and r.random() < 0.06:
                root = self.other_object(e, r)
            self.vary(e, root, r)
            sp = Speller(r, e.kind)
            if e.foreign:
                sp.on["share"] = False
            new = sp.message(root)
            try:
                back, _ = W.parse(new)
            except W.Refused as x:
                raise RuntimeError("the speller wrote what the reader refuses: %s" % x)
            if new != body:
                self.count("messages_respelled")
                for k in sp.used:
                    self.count("spelling:" + k)
            body = new
        e.tags.add("C24")
        data = head + body
        out, frags, i, n = [], b"", 0, 0
        few = r.random() < 0.3
        while True:
            size = len(data) if few else r.choice([1, 2, 20, 40, 41, 100, 1000, len(data)])
            f = wire.Frag(oid, n, n == 0, i + size >= len(data), data[i:i + size])
            frags += f.pack()
            i += size
            n += 1
            if f.end or r.random() < 0.5:
                out.append(frags)
                frags = b""
            if f.end:
                break
            if n > 60:
                few = True
        self.count("fragments_respelled", n)
        return out
