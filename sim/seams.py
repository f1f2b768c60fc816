"""Every source of nondeterminism psrpcore touches, behind one object the simulator owns.

install() must run before psrpcore is imported.  The seams are the public functions of the
standard library and of the cryptography package that psrpcore calls; nothing in /repo is
changed.  While no session is current (SEAM.ctx is None) the original functions answer.
"""
import datetime
import getpass
import os
import platform
import random
import secrets
import sys
import threading
import uuid

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
REPO_SRC = os.environ.get("PSRPCORE_SRC", "/repo/src")


class KeygenFault(OSError):
    """Injected: the RSA key pair could not be generated."""


class Context:
    """Environment of one simulated session: randomness, clock, host information."""

    def __init__(self, seed):
        self.rng = random.Random("env:%s" % seed)
        self.now = datetime.datetime(2021, 3, 4, 5, 6, 7, 89)
        self.node = "simhost-%d" % self.rng.randrange(1000)
        self.user = "simuser-%d" % self.rng.randrange(1000)
        self.pid = 1000 + self.rng.randrange(9000)
        self.tid = 1000 + self.rng.randrange(9000)
        self.user_fault = None  # exception class raised by getuser
        self.keygen_fault = 0  # number of key generations to fail
        self.urandom_log = []
        self.keygens = 0

    def urandom(self, n):
        b = bytearray(self.rng.randbytes(n))
        # Bytes that are treated specially more easily than others, far more often than by chance.
        for i in self.rng.choice([(), (), (), (0,), (n - 1,), (0, n - 1), (n // 2,)]) if n else ():
            b[i] = self.rng.choice([0, 0, 0, 10, 32, 255])
        b = bytes(b)
        self.urandom_log.append(b)
        return b

    def uuid4(self):
        return uuid.UUID(int=self.rng.getrandbits(128), version=4)


class Seam:
    def __init__(self):
        self.ctx = None
        self.installed = False
        self._keys = None
        self.calls = {}

    def count(self, name):
        self.calls[name] = self.calls.get(name, 0) + 1

    def keys(self):
        if self._keys is None:
            from cryptography.hazmat.primitives import serialization

            with open(os.path.join(DATA, "sim_rsa_keys.pem"), "rb") as fd:
                parts = fd.read().split(b"-----END PRIVATE KEY-----\n")
            self._keys = [
                serialization.load_pem_private_key(
                    p + b"-----END PRIVATE KEY-----\n", None, unsafe_skip_rsa_key_validation=True
                )
                for p in parts
                if p.strip()
            ]
        return self._keys


SEAM = Seam()
REAL = {}  # the real environment, as far as psrpcore shows it to peers


def probe():
    """Names of record fields whose default does not come from the seams: psrpcore asks the environment in another way."""
    import psrpcore as P

    old, SEAM.ctx = SEAM.ctx, Context("probe")
    ctx = SEAM.ctx
    try:
        c, s = P.ClientRunspacePool(), P.ServerRunspacePool()
        s.our_capability.protocolversion = c.our_capability.protocolversion
        c.open()

        def move(a, b):
            while True:
                x = a.data_to_send()
                if x is None:
                    break
                b.receive_data(x)
            out = []
            while True:
                e = b.next_event()
                if e is None:
                    return out
                out.append(e)

        move(c, s), move(s, c)
        p = P.ClientPowerShell(c)
        p.add_command("x")
        q = P.ServerPipeline(s, p.pipeline_id)
        p.start()
        move(c, s)
        q.start()
        move(s, c)
        s.send_event(1, "x")
        q.write_information("x", "x")
        u, r = [e for e in move(s, c) if hasattr(e, "event") or hasattr(e, "record")]
        u, r = u.event, r.record
        want = [(u.TimeGenerated, ctx.now, "time_generated"), (r.TimeGenerated, ctx.now, "time_generated"), (r.ProcessId, ctx.pid, "process_id"), (r.NativeThreadId, ctx.tid, "native_thread_id"),
                (r.Computer, ctx.node, "computer"), (u.ComputerName, ctx.node, "computer"), (r.User, ctx.user, "user")]
        return {name for got, exp, name in want if got != exp}
    except Exception:
        return set()  # the checks themselves will tell
    finally:
        SEAM.ctx = old


def install():
    if SEAM.installed:
        return
    SEAM.installed = True
    for name in list(sys.modules):
        if name == "psrpcore" or name.startswith("psrpcore."):
            raise RuntimeError("psrpcore imported before the seams were installed")

    real_urandom, real_uuid4 = os.urandom, uuid.uuid4
    real_node, real_getuser = platform.node, getpass.getuser

    def urandom(n):
        if SEAM.ctx is None:
            return real_urandom(n)
        SEAM.count("urandom")
        return SEAM.ctx.urandom(n)

    def uuid4():
        if SEAM.ctx is None:
            return real_uuid4()
        SEAM.count("uuid4")
        return SEAM.ctx.uuid4()

    def node():
        if SEAM.ctx is None:
            return real_node()
        SEAM.count("node")
        return SEAM.ctx.node

    def getuser():
        if SEAM.ctx is None:
            return real_getuser()
        SEAM.count("getuser")
        if SEAM.ctx.user_fault is not None:
            raise SEAM.ctx.user_fault("injected: no user name")
        return SEAM.ctx.user

    real_getpid, real_native_id = os.getpid, threading.get_native_id

    def getpid():
        return real_getpid() if SEAM.ctx is None else SEAM.ctx.pid

    def get_native_id():
        return real_native_id() if SEAM.ctx is None else SEAM.ctx.tid

    import socket

    pid0, tid0 = real_getpid(), real_native_id()
    REAL.update(computer=[real_node(), os.uname().nodename, socket.gethostname()], process_id=lambda: {real_getpid(), pid0}, native_thread_id=lambda: {real_native_id(), tid0, threading.main_thread().native_id})
    try:
        REAL["user"] = [real_getuser()]
    except Exception:
        REAL["user"] = ["Unknown"]
    os.urandom = urandom
    secrets.token_bytes = lambda n=32: urandom(n)
    os.getpid = getpid
    threading.get_native_id = get_native_id
    uuid.uuid4 = uuid4
    platform.node = node
    getpass.getuser = getuser

    from cryptography.hazmat.primitives.asymmetric import rsa

    real_gen = rsa.generate_private_key

    def generate_private_key(*args, **kwargs):
        ctx = SEAM.ctx
        if ctx is None:
            return real_gen(*args, **kwargs)
        SEAM.count("rsa_keygen")
        ctx.keygens += 1
        if ctx.keygen_fault > 0:
            ctx.keygen_fault -= 1
            SEAM.count("rsa_keygen_fault")
            raise KeygenFault("injected: key generation failed")
        size = kwargs.get("key_size", args[1] if len(args) > 1 else None)
        if size != 2048:
            return real_gen(*args, **kwargs)
        keys = SEAM.keys()
        return keys[ctx.rng.randrange(len(keys))]

    real_numbers = rsa.RSAPublicNumbers

    class PublicKey:
        """The real public key, its PKCS #1 v1.5 padding drawn from the seed instead of from OpenSSL."""

        def __init__(self, key, e, n):
            self._key, self._e, self._n = key, e, n

        def __getattr__(self, name):
            return getattr(self._key, name)

        def encrypt(self, plaintext, padding):
            ctx = SEAM.ctx
            size = (self._n.bit_length() + 7) // 8
            if ctx is None or type(padding).__name__ != "PKCS1v15" or len(plaintext) > size - 11:
                return self._key.encrypt(plaintext, padding)
            SEAM.count("rsa_encrypt")
            wanted = ctx.rng.choice([None, None, None, None, None, None, 0, -1])
            fill = bytearray(1 + b % 255 for b in ctx.rng.randbytes(size - len(plaintext) - 3))
            for i in range(1200):
                fill[0], fill[1] = 1 + i % 255, 1 + i // 255
                value = int.from_bytes(b"\0\2" + fill + b"\0" + bytes(plaintext), "big")
                out = pow(value, self._e, self._n).to_bytes(size, "big")
                if wanted is None or out[wanted] == 0:
                    break
            if out[0] == 0 or out[-1] == 0:
                SEAM.count("rsa_zero_byte")
            return out

    class RSAPublicNumbers:
        def __new__(cls, e, n):
            return object.__new__(cls) if SEAM.ctx is not None else real_numbers(e, n)

        def __init__(self, e, n):
            self.e, self.n = e, n

        def public_key(self, backend=None):
            return PublicKey(real_numbers(self.e, self.n).public_key(), self.e, self.n)

    rsa.RSAPublicNumbers = RSAPublicNumbers

    rsa.generate_private_key = generate_private_key

    sys.path.insert(0, REPO_SRC)
    sys.dont_write_bytecode = True
    import psrpcore  # noqa: F401
    from psrpcore.types import PSDateTime

    if not os.path.abspath(psrpcore.__file__).startswith(os.path.abspath(REPO_SRC)):
        raise RuntimeError("psrpcore was imported from %s" % psrpcore.__file__)

    real_now = PSDateTime.now

    def now(cls, tz=None):
        ctx = SEAM.ctx
        if ctx is None or tz is not None:
            return real_now(tz)
        SEAM.count("now")
        return cls(ctx.now)

    PSDateTime.now = classmethod(now)
