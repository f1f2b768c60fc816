"""The shell helper (C19): a process that writes records and flushes, and a reader of its output.

The simulator interleaves the writers of several shells, their flushes, values that cannot be converted,
and readers that look at whatever has been flushed when the process dies.
"""
import random

from . import core, values as V
from .core import Core, Violation, clean, diff, psrpcore, seams, T
from . import records as R
from . import interop as I, refwire as W
from .world import poison_value, pick

STREAMS = ("output", "error", "debug", "verbose", "warning", "progress", "information")


class Scramble(T.PSCryptoProvider):
    """The protection of secure strings in documents the application writes and reads itself."""

    def encrypt(self, value):
        return bytes(b ^ 0x5A for b in value.encode("utf-16-le", "surrogatepass")).hex()

    def decrypt(self, value):
        return bytes(b ^ 0x5A for b in bytes.fromhex(value)).decode("utf-16-le", "surrogatepass")


class ShellM:
    def __init__(self):
        self.real = psrpcore.ClixmlShell()
        self.pending = []  # (stream, expected) or None for a value that cannot be converted
        self.flushed = {s: [] for s in STREAMS}
        self.out = []


def canon_for(stream, o):
    if stream == "output":
        return V.canon(o)
    if stream == "error":
        return R.canon_error(o)
    if stream in ("debug", "verbose", "warning"):
        return V.canon(o.Message)
    if stream == "progress":
        return R.canon_progress(o)
    return R.canon_information(o) if isinstance(o, T.InformationRecord) else V.canon(o)


class ShellWorld(Core):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.size = cfg.get("size", 8)
        self.secure = True
        self.shells = []
        self.shared = {}

    def sh(self, k):
        return pick(self.shells, k)

    def fingerprint(self, op):
        return (op,) + tuple((min(3, len(s.pending)), any(p is None for p in s.pending), min(3, len(s.out)), tuple(min(2, len(v)) for v in s.flushed.values())) for s in self.shells)

    def apply(self, op):
        seams.SEAM.ctx = self.ctx
        try:
            self.steps += 1
            self.time_covered += 0.007
            self.states.add(hash(self.fingerprint(op[0])))
            self.count("op:" + op[0])
            getattr(self, "op_" + op[0])(*op[1:])
        finally:
            seams.SEAM.ctx = None

    def finish(self):
        seams.SEAM.ctx = self.ctx
        try:
            for k in range(len(self.shells)):
                self.op_emit(k)
                self.op_emit(k)
                self.op_read(k, 0)
                self.op_judge(k)
                self.op_foreign(k, k)
                if self.shells[k].pending:
                    self.fail({"C19"}, "values are left over after the last flush")
        finally:
            seams.SEAM.ctx = None

    # ------------------------------------------------------------ writing
    def op_shell(self):
        if len(self.shells) < 3:
            self.shells.append(ShellM())

    def write(self, s, stream, fn, want):
        """A value that cannot be converted may be refused at once or when it is flushed."""
        try:
            fn()
        except Exception as e:
            if want is not None:
                self.fail({"C19"}, "writing to the %s stream raised %s" % (stream, clean(e)))
            return
        s.pending.append(None if want is None else (stream, want))
        self.log("write", stream)

    def op_out(self, k, seed, size):
        s = self.sh(k)
        if s is None:
            return
        spec = V.value(seed, 2, size, True)
        v = V.build(spec)
        self.write(s, "output", lambda: s.real.write_output(v), V.expect(spec))

    def op_same(self, k, i):
        """One object that is written again and again, to any shell."""
        s = self.sh(k)
        if s is None:
            return
        i %= 3
        if i not in self.shared:
            spec = V.value(i + 1000 * self.size, 2, 6, False)
            self.shared[i] = (V.build(spec), V.expect(spec))
        v, want = self.shared[i]
        self.write(s, "output", lambda: s.real.write_output(v), want)

    def op_text(self, k, stream, seed, size):
        s = self.sh(k)
        if s is None:
            return
        r = random.Random("t:%s" % seed)
        stream = ("error", "debug", "verbose", "warning", "information")[stream % 5]
        text = V.gen_str(r, size)
        want = V.st(text)
        if stream == "error":
            want = {
                "exc": [want, None, None, None, None, None, []], "cat": [0] + [["nil"]] * 4, "target": ["nil"], "fqid": ["PSString", "NativeCommandError"], "details": None, "inv": None, "pii": None, "trace": ["nil"],
            }
        self.write(s, stream, lambda: getattr(s.real, "write_" + stream)(text), want)

    def op_rec(self, k, kind, seed):
        s = self.sh(k)
        if s is None:
            return
        r = random.Random("r:%s" % seed)
        kind %= 3
        if kind == 0:
            d = R.gen_error(r, self.size, True)
            rec = R.build_error(d)
            self.write(s, "error", lambda: s.real.write_error(rec), R.expect_error(d))
        elif kind == 1:
            d = R.gen_progress(r, self.size)
            a = R.progress_args(d)
            names = {"activity": "Activity", "activity_id": "ActivityId", "status_description": "StatusDescription", "current_operation": "CurrentOperation", "parent_activity_id": "ParentActivityId", "percent_complete": "PercentComplete", "record_type": "RecordType", "seconds_remaining": "SecondsRemaining"}
            rec = T.ProgressRecord(**{names[n]: v for n, v in a.items()})
            self.write(s, "progress", lambda: s.real.write_progress(r.randrange(5), rec), R.expect_progress(d))
        else:
            d = R.gen_information(r, self.size, True)
            a = R.information_args(d)
            names = {"message_data": "MessageData", "source": "Source", "time_generated": "TimeGenerated", "tags": "Tags", "user": "User", "computer": "Computer", "process_id": "ProcessId", "native_thread_id": "NativeThreadId", "managed_thread_id": "ManagedThreadId"}
            for n, v in (("user", "u"), ("computer", "c"), ("process_id", 1), ("native_thread_id", 2), ("managed_thread_id", 3), ("tags", []), ("time_generated", T.PSDateTime(2021, 1, 2, 3, 4, 5))):
                a.setdefault(n, v)
            want = {
                "message_data": V.expect(d["message_data"]), "source": V.st(d["source"]), "time_generated": V.expect(d["time_generated"]) if "time_generated" in d else ["PSDateTime", 2021, 1, 2, 3, 4, 5, 0, 0, None], "tags": [V.st(t) for t in d.get("tags", [])],
                "user": V.st(a["user"]), "computer": V.st(a["computer"]), "process_id": a["process_id"], "native_thread_id": a["native_thread_id"], "managed_thread_id": a["managed_thread_id"],
            }
            rec = T.InformationRecord(**{names[n]: v for n, v in a.items()})
            self.write(s, "information", lambda: s.real.write_information(rec), want)

    def op_poison(self, k, which, stream):
        s = self.sh(k)
        if s is None:
            return
        self.fault("unserializable")
        v = poison_value(which)
        if stream % 3 == 0:
            self.write(s, "output", lambda: s.real.write_output(v), None)
        elif stream % 3 == 1:
            rec = T.ErrorRecord(Exception=T.NETException("x"), CategoryInfo=T.ErrorCategoryInfo(), TargetObject=v)
            self.write(s, "error", lambda: s.real.write_error(rec), None)
        else:
            rec = T.InformationRecord(MessageData=v, Source="s", User="u", Computer="c", ProcessId=1, NativeThreadId=1, ManagedThreadId=1)
            self.write(s, "information", lambda: s.real.write_information(rec), None)

    # ------------------------------------------------------------ flushing and reading
    def op_emit(self, k):
        """One flush.  While values that cannot be converted are pending it may fail, at most once for each."""
        s = self.sh(k)
        if s is None:
            return
        bad = sum(1 for p in s.pending if p is None)
        for _ in range(bad + 1):
            try:
                text = s.real.data_to_send()
                break
            except Exception as e:
                if not bad:
                    self.fail({"C19"}, "flushing raised %s although every value can be converted" % clean(e))
                bad -= 1
                self.failed = True
                self.fault("failed_flush")
        if not isinstance(text, str):
            self.fail({"C19"}, "a flush returned %s" % type(text).__name__)
        s.pending = [p for p in s.pending if p is not None]
        if not s.pending and text:
            self.fail({"C19"}, "a flush returned %r although nothing was written" % text[:60])
        if s.pending and not text:
            self.fail({"C19"}, "a flush returned nothing although %d values are pending" % len(s.pending))
        for stream, want in s.pending:
            s.flushed[stream].append(want)
        s.pending = []
        s.out.append(text)
        self.log("emit", len(text))
        self.count("flushes")
        if not text:
            self.fault("empty_flush")

    def op_read(self, k, how):
        """A reader that has everything flushed so far."""
        s = self.sh(k)
        if s is None:
            return
        whole = "".join(s.out)
        parts = whole.split("\n") if whole else []
        if whole:
            if parts[0] != "#< CLIXML":
                self.fail({"C19"}, "the output starts with %r instead of the stream marker" % whole[:40])
            if any("#< CLIXML" in p for p in parts[1:]) and whole.count("#< CLIXML\n") > 1:
                self.fail({"C19"}, "the stream marker was emitted more than once")
            if not all(parts[1:]):
                self.fail({"C19"}, "the output contains an empty line")
        if how % 3 == 1:
            docs = list(s.out)
        elif how % 3 == 2 and len(parts) == 2:
            docs = whole
        else:
            docs = parts[1:]
        try:
            got = psrpcore.ClixmlOutput.from_clixml(docs)
        except Exception as e:
            self.fail({"C19"}, "reading the output raised %s" % clean(e))
        self.compare(s, got, {"C19"}, "")
        self.log("read", {st: len(v) for st, v in s.flushed.items()})

    def compare(self, s, got, tags, how):
        for stream in STREAMS:
            want = s.flushed[stream]
            try:
                have = [self.pick(stream, o, w) for o, w in zip(getattr(got, stream), want + [None] * 9999)]
            except Exception as e:
                self.fail(tags, "a %s record %scannot be read: %s" % (stream, how, clean(e)))
            if have != want:
                self.fail(tags, "the %s stream %sdiffers from what was written: %s" % (stream, how, diff(want, have)))
            self.count("events", len(want))

    # ------------------------------------------------------------ the process at the other end is not psrpcore
    def documents(self, s):
        out = []
        for line in "".join(s.out).split("\n")[1:]:
            try:
                out.append(W.parse_document(line))
            except W.Refused as x:
                self.fail({"C19", "C23"}, "a strict reader refuses the output: %s" % x)
        return out

    def op_judge(self, k):
        """Everything flushed so far is read by the reference reader."""
        s = self.sh(k)
        if s is None:
            return
        got = {st: [] for st in STREAMS}
        reader = W.Reader(lambda b: b.decode("utf-16-le", "surrogatepass"), I.enum_name)
        for doc in self.documents(s):
            for stream, n in doc:
                i = len(got.get(stream, []))
                try:
                    v = reader.stream_item(stream, n)
                except W.Refused as x:
                    self.fail({"C19", "C23"}, "a strict reader refuses an object of the %s stream: %s" % (stream, x))
                w = s.flushed[stream][i] if i < len(s.flushed[stream]) else None
                if stream == "error" and isinstance(v, list) and isinstance(w, dict) and w["exc"][1] is None:
                    v = w if v == w["exc"][0] else v
                got[stream].append(v)
        for stream in STREAMS:
            if got[stream] != s.flushed[stream]:
                self.fail({"C19", "C23"}, "the %s stream does not say what was written: %s" % (stream, diff(s.flushed[stream], got[stream])))
            self.count("objects_read", len(got[stream]))

    def op_foreign(self, k, seed):
        """Another implementation writes the same objects; psrpcore reads them."""
        s = self.sh(k)
        if s is None:
            return
        r = random.Random("f:%s" % seed)
        docs = self.documents(s)
        if r.random() < 0.2:
            docs.insert(r.randrange(len(docs) + 1), [])
        texts = []
        for doc in docs:
            sp = I.Speller(r, "PipelineOutput")
            text = sp.document(doc)
            try:
                W.parse_document(text)
            except W.Refused as x:
                raise RuntimeError("the speller wrote what the reader refuses: %s" % x)
            for used in sp.used:
                self.count("spelling:" + used)
            texts.append(r.choice(["", "", "#< CLIXML\n", "#< CLIXML\r\n"]) + text + r.choice(["", "\n", "\r\n"]))
            self.count("documents_respelled")
        try:
            got = psrpcore.ClixmlOutput.from_clixml(texts)
        except Exception as e:
            self.fail({"C19", "C24"}, "reading the output of another implementation raised %s" % clean(e))
        self.compare(s, got, {"C19", "C24"}, "as another implementation writes it ")

    # ------------------------------------------------------------ documents without a shell
    def op_document(self, seed, n, size):
        """serialize_clixml and deserialize_clixml: one value or many, with and without streams."""
        r = random.Random("d:%s" % seed)
        cipher = Scramble()
        items = []  # (stream or None, object, expected)
        shared = {}
        for i in range(n):
            stream = r.choice([None, None] + list(STREAMS))
            if shared and r.random() < 0.2:
                v, want = r.choice(list(shared.values()))
            else:
                spec = V.value(r.randrange(10**9), 2, size, True)
                v, want = V.build(spec), V.expect(spec)
                shared[i] = (v, want)
            items.append((stream, v, want))
        given = [v if st is None else (v, T.ClixmlStream(st)) for st, v, _ in items]
        before = [V.snap(v) for _, v, _ in items]
        bare = n == 1 and not isinstance(given[0], list) and r.random() < 0.6
        if r.random() < 0.2:
            self.fault("unserializable")
            bad = list(given)
            bad.insert(r.randrange(n + 1), (poison_value(r.randrange(1, 10)), T.ClixmlStream.OUTPUT))
            try:
                T.serialize_clixml(bad, cipher)
            except Exception:
                pass
            else:
                self.fail({"C19"}, "a document with a value that cannot be converted was written")
        try:
            text = T.serialize_clixml(given[0] if bare else given, cipher)
        except Exception as e:
            self.fail({"C19"}, "serialize_clixml raised %s" % clean(e))
        after = [V.snap(v) for _, v, _ in items]
        if after != before:
            self.fail({"C18", "C19"}, "serialize_clixml changed the value it was given: %s" % diff(before, after))
        want = [(st, w) for st, _, w in items]
        try:
            nodes = W.parse_document(text)
            reader = W.Reader(lambda b: bytes(x ^ 0x5A for x in b).decode("utf-16-le", "surrogatepass"), I.enum_name)
            have = [(st, reader.canon(nd)) for st, nd in nodes]
        except W.Refused as x:
            self.fail({"C19", "C23"}, "a strict reader refuses the document: %s" % x)
        spoken = [(st or "output", w) for st, w in want]
        if have != spoken:
            self.fail({"C19", "C23"}, "the document does not say what was written: %s" % diff(spoken, have))
        texts = [(text, "", spoken)]
        # another implementation writes the same, on other streams and on streams nobody knows
        streams = [r.choice([st, st, "nobody"]) for st, _ in spoken]
        sp = I.Speller(r, "PipelineOutput")
        texts.append((sp.document([(st, nd) for st, (_, nd) in zip(streams, nodes)]), "as another implementation writes it ", [("output" if st == "nobody" else st, w) for st, (_, w) in zip(streams, spoken)]))
        for used in sp.used:
            self.count("spelling:" + used)
        for doc, how, exp in texts:
            doc = r.choice(["", "#< CLIXML\n", "#< CLIXML\r\n", "#< CLIXML"]) + doc
            tags = {"C19", "C24"} if how else {"C19"}
            for preserve in (False, True):
                try:
                    got = T.deserialize_clixml(doc, cipher, preserve_streams=preserve)
                    if preserve:
                        got = [(T.ClixmlStream(b).value, V.canon(a)) for a, b in got]
                    else:
                        got = [V.canon(a) for a in got]
                except Exception as e:
                    self.fail(tags, "a document %scannot be read: %s" % (how, clean(e)))
                w = exp if preserve else [b for _, b in exp]
                if got != w:
                    self.fail(tags, "a document %sreads differently from what was written: %s" % (how, diff(w, got)))
        self.count("documents")
        self.count("events", 2 * n)
        self.log("document", n, len(text))

    def pick(self, stream, o, want):
        c = canon_for(stream, o)
        if stream == "error" and isinstance(want, dict) and want["exc"][1] is None:
            # written as text: only the message and the classification are defined
            c["exc"][1:] = want["exc"][1:]
        return c
