"""Value specifications: what to send (build), what must arrive (expect), what arrived (canon).

A spec is a small tree (DAG for shared objects) of plain tuples and lists produced from a seed.
build() turns it into library or plain Python objects, expect() into the canonical form the
peer has to receive, independently of the library.  canon() turns a received object into the
same canonical form through its public attributes only.
"""
import datetime
import decimal
import enum
import queue
import random
import uuid

from psrpcore import types as T
from .documented import NUMBERS, member
from psrpcore.types import PSType


# ---------------------------------------------------------------- user defined types
@PSType(["Sim.UserEnum"])
class UserEnum(T.PSEnumBase, base_type=T.PSInt64):
    none = 0
    Small = -5
    Big = 9223372036854775807
    Low = -9223372036854775808


@PSType(["Sim.UserFlags"])
class UserFlags(T.PSFlagBase, base_type=T.PSUInt):
    none = 0
    A = 1
    B = 2
    C = 4
    Top = 2147483648


@PSType(["Sim.ByteEnum"])
class ByteEnum(T.PSEnumBase, base_type=T.PSByte):
    Zero = 0
    Max = 255


@PSType(
    ["Sim.UserType", "Sim.UserBase"],
    adapted_properties=[
        T.PSNoteProperty("Alpha", ps_type=T.PSInt),
        T.PSNoteProperty("Beta"),
        T.PSNoteProperty("Gamma", value="default", ps_type=T.PSString),
    ],
    extended_properties=[T.PSNoteProperty("Delta")],
)
class UserType(T.PSObject):
    pass


@PSType(["Sim.UserText"], adapted_properties=[T.PSNoteProperty("Text")])
class UserText(T.PSObject):
    def __str__(self):
        return "text:%s" % (self.Text,)


@PSType(["Sim.UserList"])
class UserList(T.PSListBase):
    pass


@PSType(["Sim.UserDict"])
class UserDict(T.PSDictBase):
    pass


@PSType(["Sim.UserQueue"])
class UserQueue(T.PSQueueBase):
    pass


@PSType(["Sim.UserStack"])
class UserStack(T.PSStackBase):
    pass


class PlainEnum(enum.Enum):
    one = 1
    two = 2
    huge = 5000000000


class PlainObject:
    pass


class Poison:
    """A plain object whose attribute cannot be read."""

    @property
    def broken(self):
        raise RuntimeError("injected: poison attribute")


def raising(obj):
    raise RuntimeError("injected: poison getter")


class PoisonText(T.PSObject):
    """A library object whose string form cannot be made."""

    def __str__(self):
        raise RuntimeError("injected: poison string")


ENUMS = {
    c.__name__: c
    for c in (
        T.ConsoleColor,
        T.ErrorCategory,
        T.ApartmentState,
        T.PSThreadOptions,
        T.ProgressRecordType,
        T.PSInvocationState,
        T.RunspacePoolState,
        T.CommandOrigin,
        T.HostMethodIdentifier,
        T.SessionStateEntryVisibility,
        UserEnum,
        ByteEnum,
    )
}
FLAGS = {
    c.__name__: c
    for c in (
        T.RemoteStreamOptions,
        T.CommandTypes,
        T.ControlKeyStates,
        T.PSCredentialTypes,
        T.ReadKeyOptions,
        UserFlags,
    )
}
FLAG_MAX = {
    "RemoteStreamOptions": 15,
    "CommandTypes": 383,
    "ControlKeyStates": 511,
    "PSCredentialTypes": 3,
    "ReadKeyOptions": 15,
    "UserFlags": 7,
}
ENUM_VALUES = {name: sorted(set(NUMBERS[name].values()) if name in NUMBERS else (int(m.value) for m in cls)) for name, cls in ENUMS.items()}

INTS = {
    "PSByte": (0, 255),
    "PSSByte": (-128, 127),
    "PSInt16": (-(2**15), 2**15 - 1),
    "PSUInt16": (0, 2**16 - 1),
    "PSInt": (-(2**31), 2**31 - 1),
    "PSUInt": (0, 2**32 - 1),
    "PSInt64": (-(2**63), 2**63 - 1),
    "PSUInt64": (0, 2**64 - 1),
}
BASE_NAMES = {
    "PSString": ["System.String", "System.Object"],
}
OBJ = "System.Object"


# ---------------------------------------------------------------- generation
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 "
SPICE = [
    "_x0041_", "_X0041_", "_x005F_", "_x", "_", "x0041_", "_x00", "\x00", "\x01", "\x08", "\t", "\n", "\r", "\r\n",
    "\x0b", "\x1f", "\x7f", "\x80", "\x85", "\x9f", "\u2028", "\ud800", "\udfff", "\udc00", "\ud83d", "\ude00", "\U0001f600", "\U00010000",
    "\U0010ffff", "\ufffe", "\uffff", "\ufeff", "<", ">", "&", "'", '"', "]]>", "<!--", "\u0100_x0041_", "e\u0301", " ", "\u00a0",
    "\u5f00\u7800", "\u4e00", "#< CLIXML", "_xD83D__xDE00_", "_x_x0041_", "0x_x",
]


def norm(s):
    return s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")


SALT = [""]  # makes the same work carry other content (C25)


def gen_str(r, size=8):
    k = r.random()
    if k < 0.08:
        return ""
    n = r.randint(1, max(1, size))
    if k < 0.55:
        return "".join(r.choice(ALPHA) for _ in range(n)) + SALT[0]
    out = []
    for _ in range(n):
        out.append(r.choice(SPICE) if r.random() < 0.45 else r.choice(ALPHA))
    return "".join(out) + SALT[0]


def gen_name(r):
    if r.random() < 0.8:
        return r.choice(["Name", "Value", "Key", "Count", "Item", "a", "B", "prop one", "x_y", "Data"]) + r.choice(["", "1", "2"]) + SALT[0]
    return r.choice(["_x0041_", "p\u00e9", "\U0001f600", "a.b", "a<b", "_x", "\u4e00"]) + str(r.randrange(9))


def gen_prim(r, size, secure=False):
    k = r.randrange(24 if secure else 22)
    if k == 0:
        return ("nil",)
    if k == 1:
        return ("bool", r.random() < 0.5)
    if k == 2:
        return ("int", r.choice([0, 1, -1, 2**31 - 1, 2**31, -(2**31), -(2**31) - 1, 2**63 - 1, -(2**63), r.randrange(-1000, 1000)]))
    if k in (3, 4):
        name = r.choice(sorted(INTS))
        lo, hi = INTS[name]
        return ("psint", name, r.choice([lo, hi, lo + 1, hi - 1, max(lo, 0), r.randint(lo, hi)]))
    if k in (5, 6, 7):
        return ("str", r.choice(["str", "PSString"]), gen_str(r, size))
    if k == 8:
        return ("str", r.choice(["PSUri", "PSXml", "PSScriptBlock"]), gen_str(r, size))
    if k == 9:
        return ("bytes", r.choice(["bytes", "PSByteArray"]), r.randbytes(r.choice([0, 1, 2, 3, size])).hex())
    if k == 10:
        return ("char", r.choice([0, 1, 9, 10, 65, 0xD800, 0xFFFE, 0xFFFF, r.randrange(65536)]))
    if k == 11:
        return ("float", r.choice(["float", "PSSingle", "PSDouble"]), r.choice(["0.0", "-0.0", "1.5", "1e+300", "1e-300", "inf", "-inf", "nan", "0.1", repr(r.random() * 1e6), "1.7976931348623157e+308", "5e-324"]))
    if k == 12:
        return ("dec", r.choice(["Decimal", "PSDecimal"]), r.choice(["0", "1.0", "1.10", "-0.5", "79228162514264337593543950335", "1E+5", "1E-28", "-79228162514264337593543950335", str(r.randrange(10**12)) + ".25"]))
    if k in (13, 14):
        return gen_dt(r)
    if k in (15, 16):
        return gen_dur(r)
    if k == 17:
        return ("guid", r.choice(["UUID", "PSGuid"]), r.choice([0, 2**128 - 1, r.getrandbits(128)]))
    if k == 18:
        return ("ver", [r.choice([0, 1, 2, 10, 2147483647]) for _ in range(r.randint(2, 4))])
    if k == 19:
        name = r.choice(sorted(ENUMS))
        return ("enum", name, r.choice(ENUM_VALUES[name]))
    if k == 20:
        name = r.choice(sorted(FLAGS))
        v = r.randrange(FLAG_MAX[name] + 1)
        if name == "CommandTypes":
            v &= 383
        if name == "UserFlags" and r.random() < 0.3:
            v |= 2147483648
        if v == 0 and name in ("CommandTypes", "PSCredentialTypes", "ReadKeyOptions"):
            v = 1
        return ("enum", name, v)
    if k == 21:
        return ("plainenum", r.choice(["one", "two", "huge"]))
    return ("secure", gen_str(r, size))


def tz_seconds(tz):
    """Offsets are given in minutes, or as "s" and seconds."""
    return int(tz[1:]) if isinstance(tz, str) else None if tz is None else tz * 60


def gen_dt(r):
    y = r.choice([1, 9, 99, 999, 1000, 1970, 2000, 2024, 9999, r.randint(1, 9999)])
    us = r.choice([0, 0, 1, 10, 100000, 123456, 999999, r.randrange(10**6)])
    plain = r.random() < 0.3
    ns = 0 if plain else r.choice([0, 0, 100, 900, 100 * r.randrange(10)])
    tz = r.choice([None, None, 0, 60, -60, 330, -210, 30, -30, 840, -720, r.randint(-1439, 1439), "s%d" % r.randint(-50000, 50000)])
    if isinstance(tz, str) and not 1 < y < 9999:
        tz = 1
    return ("dt", "datetime" if plain else "PSDateTime", [y, r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60), us, ns], tz)


def gen_dur(r):
    day = 86400 * 10**7
    ticks = r.choice(
        [0, 1, 10, 10**7, 10 * 10**7, 20 * 10**7, 59 * 10**7, 60 * 10**7, 100 * 10**7, 3600 * 10**7, day, 10 * day, day - 1, day + 1,
         9999999, 123 * 10**5, 100 * 10**6 + 1, r.randrange(10 * day), r.randrange(2**62), 922337203685477580, 30 * 60 * 10**7,
         r.randrange(100) * 10**7, r.randrange(60) * 60 * 10**7, r.randrange(24) * 36000000000 + r.randrange(2) * 10**7]
    )
    if r.random() < 0.4:
        ticks = -ticks
    plain = r.random() < 0.3
    if plain:
        ticks -= ticks % 10
    return ("dur", "timedelta" if plain else "PSDuration", ticks)


def gen_value(r, depth=2, size=8, secure=False, pool=None):
    """A value spec.  pool collects object specs of the message so that some are shared."""
    if pool is None:
        pool = []
    if depth <= 0 or r.random() < 0.4:
        s = gen_prim(r, size, secure)
        if s[0] in ("psint", "str", "bytes", "char", "float", "dec", "dt", "dur", "guid", "secure") and r.random() < 0.2:
            if s[1] not in ("str", "bytes", "float", "Decimal", "datetime", "timedelta", "UUID"):
                return ["xprim", s, gen_props(r, depth - 1, size, secure, pool)]
        return s
    if pool and r.random() < 0.18:
        return r.choice(pool)
    k = r.randrange(12)
    if k in (0, 1):
        kind = r.choice(["list", "list", "PSList", "PSStack", "PSIEnumerable", "UserList", "UserStack"])
        props = gen_props(r, 0, size, secure, pool) if kind != "list" and r.random() < 0.2 else []
        return ["list", kind, [gen_value(r, depth - 1, size, secure, pool) for _ in range(r.randrange(5))], props]
    if k == 2:
        kind = r.choice(["PSQueue", "UserQueue", "Queue", "LifoQueue", "PriorityQueue"])
        if kind == "PriorityQueue":
            return ["queue", kind, [("int", r.randrange(-5, 2**31)) for _ in range(r.randrange(6))]]
        return ["queue", kind, [gen_value(r, depth - 1, size, secure, pool) for _ in range(r.randrange(4))]]
    if k in (3, 4):
        kind = r.choice(["dict", "dict", "PSDict", "UserDict"])
        items = {}
        for _ in range(r.randrange(5)):
            key = gen_key(r, depth, size, pool)
            items[repr(key) if key[0] == "str" else key[0].replace("plain", "")] = [key, gen_value(r, depth - 1, size, secure, pool)]
        props = gen_props(r, 0, size, secure, pool) if kind != "dict" and r.random() < 0.15 else []
        # an entry of a dictionary hides a property of the same name
        props = [[n, v[2] if v[0] == "alias" else v] for n, v in props]
        return ["dict", kind, list(items.values()), props]
    if k in (5, 6, 7):
        kind = r.choice(["custom", "custom", "named", "base", "bare", "names"])
        extra = None
        if kind == "named":
            extra = r.choice(["My.Type", "My.Type2", "T\u00e9<x>", "_x0041_"]) + SALT[0]
        if kind == "names":
            extra = [r.choice(["A.B", "A.C", "D"]) + SALT[0] for _ in range(r.randint(1, 3))]
        o = ["obj", kind, extra, gen_props(r, depth - 1, size, secure, pool), gen_str(r, size) if r.random() < 0.25 else None]
        pool.append(o)
        return o
    if k == 8:
        o = ["user", r.randrange(-(2**31), 2**31), gen_value(r, depth - 1, size, secure, pool), gen_str(r, size) if r.random() < 0.5 else None, gen_value(r, depth - 1, size, secure, pool)]
        pool.append(o)
        return o
    if k == 9:
        o = ["usertext", gen_str(r, size)]
        pool.append(o)
        return o
    if k == 10:
        return ["plainobj", gen_props(r, depth - 1, size, secure, pool, plain=True)]
    kind = r.choice(["Coordinates", "Size", "Rectangle", "KeyInfo", "ChoiceDescription", "NETException", "ProgressRecord"] + (["PSCredential"] if secure else []))
    n = lambda: r.choice([0, 1, -1, 80, 2147483647, -(2**31)])
    o = ["known", kind, [n(), n(), n(), n()], gen_str(r, size), gen_str(r, size), r.random() < 0.5, gen_value(r, depth - 1, size, secure, pool) if kind == "NETException" and r.random() < 0.4 else None]
    if kind == "NETException":
        pool.append(o)
    return o


def gen_key(r, depth, size, pool):
    """The key of a dictionary: mostly a string, and one of each other kind at most (1 and 1.0 are the same key)."""
    k = r.randrange(30)
    if k > 9:
        return ("str", "str", gen_name(r)) if k > 12 else ("int", r.randrange(100, 200))
    if k == 0:
        return ("guid", r.choice(["UUID", "PSGuid"]), r.getrandbits(128))
    if k == 1:
        return ("enum", "ConsoleColor", r.randrange(16)) if r.random() < 0.5 else ("plainenum", r.choice(["two", "huge"]))
    if k == 2:
        return gen_dt(r)
    if k == 3:
        return gen_dur(r)
    if k == 4:
        return ("psint", "PSInt64", r.randrange(10**6, 10**12))
    if k == 5:
        return ("float", "PSDouble", repr(r.randrange(100) + 0.5))
    if k == 6:
        return ("char", r.randrange(2000, 60000))
    if k == 7 and depth > 1:
        o = ["obj", "custom", None, gen_props(r, 0, size, False, pool), None]
        pool.append(o)
        return o
    if k == 8:
        return ["xprim", ("str", "PSString", "a key of its own " + gen_str(r, size)), gen_props(r, 0, size, False, pool)]
    if r.random() < 0.5:
        return ("ver", [r.randrange(10) for _ in range(r.randint(2, 4))])
    return ("dec", "PSDecimal", "123456789.%d" % r.randrange(1, 10))


def gen_props(r, depth, size, secure, pool, plain=False):
    out = {}
    for _ in range(r.randint(1, 3)):
        name = r.choice(["alpha", "beta", "Gamma", "delta2", "my_x0041_", "_single", "na\u00efve", "_x0042_t", "_Other__y", "PSObjects", "two words"]) if plain else gen_name(r)
        out[name] = gen_value(r, depth, size, secure, pool)
    if not plain and r.random() < 0.2:  # members whose value is computed when it is asked for
        name = gen_name(r) + "!"
        prims = [k for k, v in out.items() if type(v) is tuple and v[0] not in ("secure", "nil")]
        how = r.randrange(3)
        if how == 0 and prims:
            k = r.choice(prims)
            out[name] = ("alias", k, out[k])
        elif how == 1:
            out[name] = ("script", gen_prim(r, size, False))
        else:
            out[name] = ("cast", r.choice(["PSInt64", "PSByte", "PSUInt16"]), r.randrange(128))
    return [[k, v] for k, v in out.items()]


def gen_large(r, size, secure):
    """Values with more parts than fit in one digit: long lists, wide objects, deep nesting, many kinds of object."""
    pool = []
    n = r.choice([9, 10, 11, 12, 17, 33, 64])
    k = r.randrange(10)
    if k > 6:
        return gen_cycle(r, size, secure)
    if k == 0:
        return ["list", r.choice(["list", "PSList", "PSStack", "PSIEnumerable"]), [gen_prim(r, size, secure) for _ in range(n)], []]
    if k == 1:
        return ["queue", r.choice(["PSQueue", "Queue"]), [gen_prim(r, size, secure) for _ in range(n)]]
    if k == 2:
        return ["dict", r.choice(["dict", "PSDict"]), [[("str", "str", "%s:%d" % (gen_name(r), i)), gen_prim(r, size, secure)] for i in range(n)], []]
    if k == 3:
        return ["obj", r.choice(["custom", "base", "bare"]), None, [["p%d" % i, gen_prim(r, size, secure)] for i in range(n)], None]
    if k == 4:  # every object of another kind, and some of them again
        objs = [["obj", "names", ["K%d" % (i % 23), "A"][: r.randint(1, 2)], gen_props(r, 0, size, secure, pool), None] for i in range(n)]
        return ["list", "list", objs + [r.choice(objs) for _ in range(5)], []]
    if k == 5:
        return ["obj", "names", ["T%d" % i for i in range(n)], gen_props(r, 0, size, secure, pool), gen_str(r, size)]
    v = gen_value(r, 1, size, secure, pool)
    for i in range(n):
        how = r.randrange(3)
        v = ["list", "list", [v], []] if how == 0 else ["dict", "dict", [[("str", "str", "in"), v]], []] if how == 1 else ["obj", "custom", None, [["in", v]], None]
    return v


def gen_cycle(r, size, secure):
    """Objects that refer to themselves or to an object that contains them: trees with parent links."""
    def node(depth):
        props = gen_props(r, 0, size, secure, [])[: r.randint(0, 2)]
        links = [["link%d" % i, ("up", r.randint(0, depth))] for i in range(r.randint(depth == 0, 2))]
        kids = [node(depth + 1) for _ in range(r.randint(0, 2))] if depth < 3 else []
        how = r.randrange(4)
        if how == 0 and kids:
            below = [["kids", ["list", r.choice(["list", "PSStack"]), kids + ([("up", r.randint(0, depth))] if r.random() < 0.5 else []), []]]]
        elif how == 1 and kids:
            below = [["kids", ["dict", "dict", [[("str", "str", "k%d" % i), x] for i, x in enumerate(kids + [("up", r.randint(0, depth))])], []]]]
        elif how == 2 and kids:
            below = [["kids", ["queue", "PSQueue", kids]]]
        else:
            below = [["kid%d" % i, x] for i, x in enumerate(kids)]
        parts = [links, below, props]
        r.shuffle(parts)
        seen = set()
        all_ = [p for part in parts for p in part if not (norm(p[0]).lower() in seen or seen.add(norm(p[0]).lower()))]
        kind, extra = r.choice([("custom", None), ("base", None), ("bare", None), ("names", ["Tree.Node", "A"])])
        return ["obj", kind, extra, all_, gen_str(r, size) if r.random() < 0.2 else None]

    return node(0)


def value(seed, depth=2, size=8, secure=False):
    r = random.Random("v:%s" % (seed,))
    if depth >= 2 and r.random() < 0.03:
        return gen_large(r, size, secure)
    return gen_value(r, depth, size, secure)


# ---------------------------------------------------------------- construction
def _add_props(obj, props, memo):
    for name, s in props:
        if s[0] == "alias":
            T.add_alias_property(obj, name, s[1])
        elif s[0] == "script":
            T.add_script_property(obj, name, lambda o, v=build(s[1], memo): v)
        elif s[0] == "cast":
            T.add_note_property(obj, name, s[2], ps_type=getattr(T, s[1]))
        else:
            T.add_note_property(obj, name, build(s, memo))


def build(s, memo=None):
    memo = {} if memo is None else memo
    if isinstance(s, list) and id(s) in memo:
        return memo[id(s)]
    o = _build(s, memo)
    if isinstance(s, list):
        memo[id(s)] = o
    return o


def _build(s, memo):
    k = s[0]
    if k == "up":  # the object around this place, or one further out
        return memo["above"][-1 - s[1]]
    if k == "nil":
        return None
    if k in ("bool", "int"):
        return s[1]
    if k == "psint":
        return getattr(T, s[1])(s[2])
    if k == "str":
        return s[2] if s[1] == "str" else getattr(T, s[1])(s[2])
    if k == "bytes":
        b = bytes.fromhex(s[2])
        return b if s[1] == "bytes" else T.PSByteArray(b)
    if k == "char":
        return T.PSChar(s[1])
    if k == "float":
        f = float(s[2])
        return f if s[1] == "float" else getattr(T, s[1])(f)
    if k == "dec":
        return decimal.Decimal(s[2]) if s[1] == "Decimal" else T.PSDecimal(s[2])
    if k == "dt":
        y, mo, d, h, mi, sec, us, ns = s[2]
        tz = None if s[3] is None else (datetime.timezone.utc if s[3] == 0 else datetime.timezone(datetime.timedelta(seconds=tz_seconds(s[3]))))
        if s[1] == "datetime":
            return datetime.datetime(y, mo, d, h, mi, sec, us, tz)
        return T.PSDateTime(y, mo, d, h, mi, sec, us, tz, nanosecond=ns)
    if k == "dur":
        if s[1] == "timedelta":
            return datetime.timedelta(microseconds=s[2] // 10)
        return T.PSDuration(nanoseconds=s[2] * 100)
    if k == "guid":
        return uuid.UUID(int=s[2]) if s[1] == "UUID" else T.PSGuid(int=s[2])
    if k == "ver":
        return T.PSVersion(".".join(str(p) for p in s[1]))
    if k == "enum":
        return member(ENUMS.get(s[1]) or FLAGS[s[1]], s[2])
    if k == "plainenum":
        return PlainEnum[s[1]]
    if k == "secure":
        return T.PSSecureString(s[1])
    if k == "xprim":
        o = _build(s[1], memo)
        _add_props(o, s[2], memo)
        return o
    if k == "list":
        o = [] if s[1] == "list" else (getattr(T, s[1], None) or globals()[s[1]])()
        for e in s[2]:
            o.append(build(e, memo))
        _add_props(o, s[3], memo)
        return o
    if k == "queue":
        o = {"PSQueue": T.PSQueue, "UserQueue": UserQueue, "Queue": queue.Queue, "LifoQueue": queue.LifoQueue, "PriorityQueue": queue.PriorityQueue}[s[1]]()
        for e in s[2]:
            o.put(build(e, memo))
        return o
    if k == "dict":
        o = {} if s[1] == "dict" else (T.PSDict() if s[1] == "PSDict" else UserDict())
        for ks, vs in s[2]:
            o[build(ks, memo)] = build(vs, memo)
        _add_props(o, s[3], memo)
        return o
    if k == "obj":
        kind, extra, props, ts = s[1:]
        if kind in ("custom", "named"):
            o = T.PSCustomObject(**({"PSTypeName": extra} if kind == "named" else {}))
        else:
            o = T.PSObject()
            if kind == "bare":
                o.PSObject.type_names = []
            elif kind == "names":
                o.PSObject.type_names = list(extra)
        memo[id(s)] = o
        above = memo.setdefault("above", [])
        above.append(o)
        _add_props(o, props, memo)
        above.pop()
        if ts is not None:
            o.PSObject.to_string = ts
        return o
    if k == "user":
        o = UserType(Alpha=s[1], Beta=build(s[2], memo), Delta=build(s[4], memo))
        if s[3] is not None:
            o.Gamma = s[3]
        return o
    if k == "usertext":
        return UserText(Text=s[1])
    if k == "plainobj":
        o = PlainObject()
        for name, v in s[1]:
            setattr(o, name, build(v, memo))
        return o
    if k == "known":
        kind, n, a, b, flag, inner = s[1:]
        if kind == "Coordinates":
            return T.Coordinates(n[0], n[1])
        if kind == "Size":
            return T.Size(n[0], n[1])
        if kind == "Rectangle":
            return T.Rectangle(*n)
        if kind == "KeyInfo":
            return T.KeyInfo(n[0], T.PSChar(n[1] % 65536), member(T.ControlKeyStates, n[2] & 511), flag)
        if kind == "ChoiceDescription":
            return T.ChoiceDescription(Label=a, HelpMessage=b)
        if kind == "PSCredential":
            return T.PSCredential(UserName=a, Password=T.PSSecureString(b))
        if kind == "NETException":
            return T.NETException(Message=a, HelpLink=b, HResult=n[0], InnerException=None if inner is None else build(inner, memo))
        if kind == "ProgressRecord":
            return T.ProgressRecord(ActivityId=n[0], Activity=a, StatusDescription=b, CurrentOperation=a if flag else None, ParentActivityId=n[1], PercentComplete=n[2],
                                    RecordType=T.ProgressRecordType.Completed if flag else T.ProgressRecordType.Processing, SecondsRemaining=n[3])
    raise AssertionError("unknown spec %r" % (s,))


# ---------------------------------------------------------------- expectation
STR_CLASS = {"str": "PSString", "PSString": "PSString", "PSUri": "PSUri", "PSXml": "PSXml", "PSScriptBlock": "PSScriptBlock"}


class _Refs:
    def __init__(self):
        self.n = 0
        self.seen = {}
        self.above = []
        self.all = False  # whether lists, dictionaries and extended primitives are told apart by identity too

    def again(self, key):
        """A reference to a container that was met before, when containers are told apart."""
        if not self.all:
            return None
        idx, again = self.visit(key)
        return ["ref", idx] if again else None

    def visit(self, key):
        if key in self.seen:
            return self.seen[key], True
        self.seen[key] = self.n
        self.n += 1
        return self.n - 1, False


def fl(x):
    return repr(float(x))


def expect(s, refs=None):
    refs = refs or _Refs()
    k = s[0]
    if k == "up":
        return ["ref", refs.above[-1 - s[1]]]
    if k == "alias":
        return expect(s[2], refs)
    if k == "script":
        return expect(s[1], refs)
    if k == "cast":
        return [s[1], s[2]]
    if k == "nil":
        return ["nil"]
    if k == "bool":
        return ["bool", bool(s[1])]
    if k == "int":
        return ["PSInt" if -(2**31) <= s[1] < 2**31 else "PSInt64", s[1]]
    if k == "psint":
        return [s[1], s[2]]
    if k == "str":
        return [STR_CLASS[s[1]], norm(s[2])]
    if k == "bytes":
        return ["PSByteArray", s[2]]
    if k == "char":
        return ["PSChar", s[1]]
    if k == "float":
        return ["PSSingle" if s[1] == "float" else s[1], fl(s[2])]
    if k == "dec":
        return ["PSDecimal", format(decimal.Decimal(s[2]), "f")]
    if k == "dt":
        off = tz_seconds(s[3])
        if off and off % 60:  # there is no way to write such an offset, what counts is the moment
            y, mo, d, h, mi, sec, us, ns = s[2]
            t = datetime.datetime(y, mo, d, h, mi, sec, us) - datetime.timedelta(seconds=off)
            return ["PSDateTime", t.year, t.month, t.day, t.hour, t.minute, t.second, us, ns, 0]
        return ["PSDateTime"] + list(s[2]) + [off]
    if k == "dur":
        return ["PSDuration", s[2] * 100]
    if k == "guid":
        return ["PSGuid", str(uuid.UUID(int=s[2]))]
    if k == "ver":
        return ["PSVersion", ".".join(str(p) for p in s[1])]
    if k == "enum":
        return ["enum", s[1], s[2]]
    if k == "plainenum":
        v = PlainEnum[s[1]].value
        names = ["Deserialized." + n for n in (PlainEnum.__module__ + ".PlainEnum", "System.Enum", "System.ValueType")]
        return ["names", ["PSInt" if v < 2**31 else "PSInt64", v], s[1]]
    if k == "secure":
        return ["secure", norm(s[1])]
    if k == "xprim":
        base = expect(s[1], refs)
        return ["x", base, [[norm(n), expect(v, refs)] for n, v in s[2]]]
    if k == "list":
        cls = "PSList" if s[1] == "list" else s[1]
        items = [expect(e, refs) for e in s[2]]
        return ["seq", cls, items, [[norm(n), expect(v, refs)] for n, v in s[3]]]
    if k == "queue":
        items = list(s[2])
        if s[1] == "LifoQueue":
            items.reverse()
        if s[1] == "PriorityQueue":
            items.sort()
        return ["queue", "UserQueue" if s[1] == "UserQueue" else "PSQueue", [expect(e, refs) for e in items]]
    if k == "dict":
        cls = "UserDict" if s[1] == "UserDict" else "PSDict"
        items = [[expect(a, refs), expect(b, refs)] for a, b in s[2]]
        return ["dict", cls, items, [[norm(n), expect(v, refs)] for n, v in s[3]]]
    if k == "plainobj":
        refs.visit(("plain", refs.n))
        # a plain object sends its public attributes in alphabetical order
        return ["obj", refs.n - 1, "PSCustomObject", ["System.Management.Automation.PSCustomObject", OBJ], None, [], [[n, expect(v, refs)] for n, v in sorted(s[1], key=lambda p: p[0])]]
    if k in ("obj", "user", "usertext") or (k == "known" and s[1] == "NETException"):
        idx, again = refs.visit(id(s))
        if again:
            return ["ref", idx]
        if k == "obj":
            kind, extra, props, ts = s[1:]
            if kind == "custom":
                cls, names = "PSCustomObject", ["System.Management.Automation.PSCustomObject", OBJ]
            elif kind == "named":
                cls, names = "PSObject", ["Deserialized." + norm(extra), "Deserialized.System.Management.Automation.PSCustomObject", "Deserialized." + OBJ]
            elif kind == "base":
                cls, names = "PSObject", ["Deserialized." + OBJ]
            elif kind == "bare":
                cls, names = "PSObject", []
            else:
                cls, names = "PSObject", ["Deserialized." + n for n in extra]
            refs.above.append(idx)
            props = [[norm(n), expect(v, refs)] for n, v in props]
            refs.above.pop()
            return ["obj", idx, cls, names, norm(ts) if ts is not None else None, [], props]
        if k == "user":
            adapted = [["Alpha", ["PSInt", s[1]]], ["Beta", expect(s[2], refs)], ["Gamma", ["PSString", norm(s[3] if s[3] is not None else "default")]]]
            return ["obj", idx, "UserType", ["Sim.UserType", "Sim.UserBase", OBJ], None, adapted, [["Delta", expect(s[4], refs)]]]
        if k == "usertext":
            return ["obj", idx, "UserText", ["Sim.UserText", OBJ], norm("text:%s" % s[1]), [["Text", ["PSString", norm(s[1])]]], []]
        kind, n, a, b, flag, inner = s[1:]
        adapted = [["Message", st(a)], ["Data", ["nil"]], ["HelpLink", st(b)], ["HResult", ["PSInt", n[0]]], ["InnerException", ["nil"] if inner is None else expect(inner, refs)],
                   ["Source", ["nil"]], ["StackTrace", ["nil"]], ["TargetSite", ["nil"]]]
        return ["obj", idx, "NETException", ["System.Exception", OBJ], None, adapted, []]
    if k == "known":
        kind, n, a, b, flag, inner = s[1:]
        refs.visit(("known", refs.n))
        idx = refs.n - 1
        i = lambda v: ["PSInt", v]
        ns = "System.Management.Automation.Host."
        if kind == "Coordinates":
            return ["obj", idx, kind, [ns + kind, "System.ValueType", OBJ], None, [["X", i(n[0])], ["Y", i(n[1])]], []]
        if kind == "Size":
            return ["obj", idx, kind, [ns + kind, "System.ValueType", OBJ], None, [["Width", i(n[0])], ["Height", i(n[1])]], []]
        if kind == "Rectangle":
            return ["obj", idx, kind, [ns + kind, "System.ValueType", OBJ], None, [["Left", i(n[0])], ["Top", i(n[1])], ["Right", i(n[2])], ["Bottom", i(n[3])]], []]
        if kind == "KeyInfo":
            return ["obj", idx, kind, [ns + kind, OBJ], None, [["VirtualKeyCode", i(n[0])], ["Character", ["PSChar", n[1] % 65536]], ["ControlKeyState", ["enum", "ControlKeyStates", n[2] & 511]], ["KeyDown", ["bool", flag]]], []]
        if kind == "ChoiceDescription":
            return ["obj", idx, kind, [ns + kind, OBJ], None, [["Label", st(a)], ["HelpMessage", st(b)]], []]
        if kind == "PSCredential":
            return ["obj", idx, kind, ["System.Management.Automation.PSCredential", OBJ], None, [["UserName", st(a)], ["Password", ["secure", norm(b)]]], []]
        if kind == "ProgressRecord":
            return ["obj", idx, kind, ["System.Management.Automation.ProgressRecord", OBJ], None,
                    [["ActivityId", i(n[0])], ["Activity", st(a)], ["StatusDescription", st(b)], ["CurrentOperation", st(a) if flag else ["nil"]], ["ParentActivityId", i(n[1])], ["PercentComplete", i(n[2])],
                     ["RecordType", ["enum", "ProgressRecordType", 1 if flag else 0]], ["SecondsRemaining", i(n[3])]], []]
    raise AssertionError("unknown spec %r" % (s,))


def st(s):
    return ["nil"] if s is None else ["PSString", norm(s)]


def snap(o):
    """What an application can see of an object it hands to the library."""
    flags = sorted((k, v) for k, v in vars(o).items() if k[0] != "_" and (v is None or isinstance(v, (bool, int, str)))) if hasattr(o, "__dict__") else []
    return [canon(o), flags]


# ---------------------------------------------------------------- canonical form of a received object
CLASS_NAMES = {}


def _default_names(cls):
    n = CLASS_NAMES.get(cls)
    if n is None:
        n = CLASS_NAMES[cls] = list(cls.PSObject.type_names)
    return n


def _props(o, which, refs):
    return [[p.name, canon(p.get_value(o), refs)] for p in getattr(o.PSObject, which + "_properties")]


def graph(o):
    """The canonical form that also tells which containers are the same."""
    refs = _Refs()
    refs.all = True
    return canon(o, refs)


def canon(o, refs=None):
    refs = refs or _Refs()
    if o is None:
        return ["nil"]
    if isinstance(o, bool):
        return ["bool", bool(o)]
    name = type(o).__name__
    if isinstance(o, enum.Enum):
        return ["enum", name, int(o.value)]
    base = None
    if isinstance(o, T.PSSecureString):
        base = ["secure", str(o.decrypt())]
    elif isinstance(o, datetime.datetime):
        off = o.utcoffset()
        base = [name, o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond, getattr(o, "nanosecond", 0), None if off is None else int(off.total_seconds())]
    elif isinstance(o, datetime.timedelta):
        base = [name, getattr(o, "nanoseconds", 0) + o.microseconds * 1000 + o.seconds * 10**9 + o.days * 86400 * 10**9]
    elif isinstance(o, int):
        base = [name, int(o)]
    elif isinstance(o, float):
        base = [name, fl(o)]
    elif isinstance(o, decimal.Decimal):
        base = [name, decimal.Decimal.__format__(o, "f")]
    elif isinstance(o, str):
        base = [name, str.__str__(o)]
    elif isinstance(o, bytes):
        base = [name, bytes.hex(o)]
    elif isinstance(o, uuid.UUID):
        base = [name, str(uuid.UUID(int=o.int))]
    elif isinstance(o, T.PSVersion):
        base = [name, str(o)]
    if base is not None:
        if not isinstance(o, T.PSObject):
            return base
        ext, ada = o.PSObject.extended_properties, o.PSObject.adapted_properties
        names = list(o.PSObject.type_names)
        if names != _default_names(type(o)):
            if names and names[0].startswith("Deserialized.sim.values.PlainEnum"):
                base = ["names", base, o.PSObject.to_string]
            else:
                base = base + [["typenames", names]]
        if ext or ada:
            again = refs.again(id(o))
            if again:
                return again
            return ["x", base, [[p.name, canon(p.get_value(o), refs)] for p in list(ada) + list(ext)]] + ([o.PSObject.to_string] if refs.all else [])
        return base
    if isinstance(o, (queue.Queue, list, dict)):
        again = refs.again(id(o))
        if again:
            return again
    if isinstance(o, queue.Queue):
        with o.mutex:
            items = list(o.queue)
        if isinstance(o, queue.LifoQueue):
            items.reverse()
        return ["queue", name, [canon(e, refs) for e in items]]
    if isinstance(o, list):
        items = [canon(e, refs) for e in list.__iter__(o)]
        props = (_props(o, "adapted", refs) + _props(o, "extended", refs)) if isinstance(o, T.PSObject) else []
        return ["seq", name, items, props]
    if isinstance(o, dict):
        items = [[canon(a, refs), canon(b, refs)] for a, b in dict.items(o)]
        props = (_props(o, "adapted", refs) + _props(o, "extended", refs)) if isinstance(o, T.PSObject) else []
        return ["dict", name, items, props]
    if isinstance(o, T.PSObject):
        idx, again = refs.visit(id(o))
        if again:
            return ["ref", idx]
        refs.seen[("keep", id(o))] = o
        return ["obj", idx, name, list(o.PSObject.type_names), o.PSObject.to_string, _props(o, "adapted", refs), _props(o, "extended", refs)]
    if isinstance(o, tuple):
        return ["tuple", name, [canon(e, refs) for e in o]]
    # plain Python object: its public attributes
    idx, again = refs.visit(id(o))
    if again:
        return ["ref", idx]
    refs.seen[("keep", id(o))] = o
    return ["py", idx, name, [[n, canon(v, refs)] for n, v in sorted(vars(o).items())]]


def secrets(s, out=None):
    """Every secure string in a spec."""
    out = [] if out is None else out
    if isinstance(s, (list, tuple)):
        if len(s) == 2 and s[0] == "secure":
            out.append(s[1])
        elif s and s[0] == "known" and s[1] == "PSCredential":
            out.append(s[4])
        else:
            for e in s:
                if isinstance(e, (list, tuple)):
                    secrets(e, out)
    return out


# ---------------------------------------------------------------- mutation of a built object (snapshot property)
def mutate(o, r, depth=3):
    """Change a mutable object in place; True when something was changed."""
    if depth < 0 or o is None or isinstance(o, (bool, enum.Enum)):
        return False
    kids = []
    done = False
    if isinstance(o, queue.Queue):
        with o.mutex:
            kids = list(o.queue)
        o.put(-99 if isinstance(o, queue.PriorityQueue) else "mutated")
        done = True
    elif isinstance(o, list):
        kids = list(list.__iter__(o))
        if r.random() < 0.5 and len(o):
            list.pop(o)
        else:
            list.append(o, "mutated")
        done = True
    elif isinstance(o, dict):
        kids = list(dict.values(o))
        dict.__setitem__(o, "mutated-key", "mutated")
        done = True
    elif isinstance(o, T.PSSecureString):
        return False
    elif isinstance(o, T.PSObject):
        for p in list(o.PSObject.extended_properties) + list(o.PSObject.adapted_properties):
            if isinstance(p, T.PSNoteProperty):
                v = p.get_value(o)
                kids.append(v)
                if p.ps_type is None and r.random() < 0.7:
                    p.set_value("mutated", o)
                    done = True
        if not isinstance(o, (int, float, str, bytes, uuid.UUID, datetime.datetime, datetime.timedelta, decimal.Decimal)):
            o.PSObject.type_names.insert(0, "Mutated.Type")
            T.add_note_property(o, "MutatedProp", "mutated", force=True)
            done = True
    elif isinstance(o, PlainObject):
        kids = list(vars(o).values())
        o.alpha = "mutated"
        done = True
    for kid in kids:
        done = mutate(kid, r, depth - 1) or done
    return done


def tweak(o, r):
    """Replace one scalar inside a mutable object by another of the same type and, mostly, the same length."""
    spots = []

    def visit(x, put, depth):
        if type(x) is int and put is not None:
            spots.append(lambda: put(x + 1 if x < 0 or str(x)[-1:] != "9" and x < 2**63 - 1 else x - 1))
        elif type(x) is str and x and put is not None:
            spots.append(lambda: put(x[:-1] + ("b" if x[-1] == "a" else "a")))
        elif type(x) is bool and put is not None:
            spots.append(lambda: put(not x))
        if depth < 0 or x is None or isinstance(x, (bool, enum.Enum)):
            return
        if isinstance(x, list):
            for i, v in enumerate(list(list.__iter__(x))):
                visit(v, lambda n, i=i: list.__setitem__(x, i, n), depth - 1)
        elif isinstance(x, dict):
            for k, v in list(dict.items(x)):
                visit(v, lambda n, k=k: dict.__setitem__(x, k, n), depth - 1)
        if isinstance(x, T.PSObject) and not isinstance(x, T.PSSecureString):
            for p in list(x.PSObject.extended_properties) + list(x.PSObject.adapted_properties):
                if isinstance(p, T.PSNoteProperty):
                    visit(p.get_value(x), (lambda n, p=p: p.set_value(n, x)) if p.ps_type is None else None, depth - 1)
        elif isinstance(x, PlainObject):
            for k, v in list(vars(x).items()):
                visit(v, lambda n, k=k: setattr(x, k, n), depth - 1)

    visit(o, None, 4)
    if not spots:
        return False
    r.choice(spots)()
    return True
