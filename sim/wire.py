"""Reference parser of the PSRP wire format, written from MS-PSRP 2.2.1 and 2.2.4.

Shares nothing with psrpcore: it is the oracle for what the sender put on the wire and
the predictor of which messages are complete at the receiver.
"""
import struct
import uuid

HEADER = 21
MSG_HEADER = 40


class WireError(Exception):
    pass


class Frag:
    __slots__ = ("oid", "fid", "start", "end", "data")

    def __init__(self, oid, fid, start, end, data):
        self.oid, self.fid, self.start, self.end, self.data = oid, fid, start, end, data

    def pack(self):
        return struct.pack(">QQBI", self.oid, self.fid, (1 if self.start else 0) | (2 if self.end else 0), len(self.data)) + self.data


def take(buf):
    """The first whole fragment of buf and its length, or (None, 0)."""
    if len(buf) < HEADER:
        return None, 0
    oid, fid, flags, n = struct.unpack(">QQBI", bytes(buf[:HEADER]))
    if len(buf) < HEADER + n:
        return None, 0
    return Frag(oid, fid, bool(flags & 1), bool(flags & 2), bytes(buf[HEADER : HEADER + n])), HEADER + n


def fragments(data):
    out, i = [], 0
    while i < len(data):
        f, n = take(data[i:])
        if f is None:
            raise WireError("%d trailing bytes do not form a whole fragment" % (len(data) - i))
        if data[i + 16] & ~3:
            raise WireError("unknown fragment flags %#x" % data[i + 16])
        out.append(f)
        i += n
    return out


class Msg:
    __slots__ = ("dest", "type", "rpid", "pid", "data")


def message(data):
    if len(data) < MSG_HEADER:
        raise WireError("message of %d bytes" % len(data))
    m = Msg()
    m.dest, m.type = struct.unpack("<iI", data[:8])
    m.rpid = uuid.UUID(bytes_le=bytes(data[8:24]))
    pid = uuid.UUID(bytes_le=bytes(data[24:40]))
    m.pid = None if pid.int == 0 else pid
    m.data = bytes(data[40:])
    return m


# MS-PSRP 2.2.1: message type values
TYPES = {
    "SessionCapability": 0x00010002,
    "InitRunspacePool": 0x00010004,
    "PublicKey": 0x00010005,
    "EncryptedSessionKey": 0x00010006,
    "PublicKeyRequest": 0x00010007,
    "ConnectRunspacePool": 0x00010008,
    "SetMaxRunspaces": 0x00021002,
    "SetMinRunspaces": 0x00021003,
    "RunspaceAvailability": 0x00021004,
    "RunspacePoolState": 0x00021005,
    "CreatePipeline": 0x00021006,
    "GetAvailableRunspaces": 0x00021007,
    "UserEvent": 0x00021008,
    "ApplicationPrivateData": 0x00021009,
    "GetCommandMetadata": 0x0002100A,
    "RunspacePoolInitData": 0x0002100B,
    "ResetRunspaceState": 0x0002100C,
    "RunspacePoolHostCall": 0x00021100,
    "RunspacePoolHostResponse": 0x00021101,
    "PipelineInput": 0x00041002,
    "EndOfPipelineInput": 0x00041003,
    "PipelineOutput": 0x00041004,
    "ErrorRecord": 0x00041005,
    "PipelineState": 0x00041006,
    "DebugRecord": 0x00041007,
    "VerboseRecord": 0x00041008,
    "WarningRecord": 0x00041009,
    "ProgressRecord": 0x00041010,
    "InformationRecord": 0x00041011,
    "PipelineHostCall": 0x00041100,
    "PipelineHostResponse": 0x00041101,
}
