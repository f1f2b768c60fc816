"""The names and numbers that .NET documents for the enumerations a program uses with psrpcore.

Values are built by *name*, the way a program writes them, while what arrives - and what is on the wire - is
compared by *number*: a table of the library that gives a name another number is seen as another value.
"""

TAGS = {"C05", "C06", "C14", "C15", "C16", "C23"}


def seq(*names):
    return {n: i for i, n in enumerate(names)}


NUMBERS = {
    "ApartmentState": seq("STA", "MTA", "Unknown"),
    "BufferCellType": seq("Complete", "Leading", "Trailing"),
    "CommandOrigin": seq("Runspace", "Internal"),
    "CommandTypes": {"Alias": 1, "Function": 2, "Filter": 4, "Cmdlet": 8, "ExternalScript": 16, "Application": 32, "Script": 64, "Configuration": 256, "All": 383},
    "ConsoleColor": seq("Black", "DarkBlue", "DarkGreen", "DarkCyan", "DarkRed", "DarkMagenta", "DarkYellow", "Gray", "DarkGray", "Blue", "Green", "Cyan", "Red", "Magenta", "Yellow", "White"),
    "ControlKeyStates": {"none": 0, "RightAltPressed": 1, "LeftAltPressed": 2, "RightCtrlPressed": 4, "LeftCtrlPressed": 8, "ShiftPressed": 16, "NumLockOn": 32, "ScrollLockOn": 64, "CapsLockOn": 128, "EnhancedKey": 256},
    "ErrorCategory": seq(
        "NotSpecified", "OpenError", "CloseError", "DeviceError", "DeadlockDetected", "InvalidArgument", "InvalidData", "InvalidOperation", "InvalidResult", "InvalidType", "MetadataError",
        "NotImplemented", "NotInstalled", "ObjectNotFound", "OperationStopped", "OperationTimeout", "SyntaxError", "ParserError", "PermissionDenied", "ResourceBusy", "ResourceExists",
        "ResourceUnavailable", "ReadError", "WriteError", "FromStdErr", "SecurityError", "ProtocolError", "ConnectionError", "AuthenticationError", "LimitsExceeded", "QuotaExceeded", "NotEnabled",
    ),
    "PSCredentialTypes": {"Generic": 1, "Domain": 2, "Default": 3},
    "PSCredentialUIOptions": {"none": 0, "ValidateUserNameSyntax": 1, "AlwaysPrompt": 2, "ReadOnlyUsername": 3, "Default": 1},
    "PSInvocationState": seq("NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected"),
    "PSThreadOptions": seq("Default", "UseNewThread", "ReuseThread", "UseCurrentThread"),
    "PipelineResultTypes": seq("none", "Output", "Error", "Warning", "Verbose", "Debug", "Information", "All", "Null"),
    "ProgressRecordType": seq("Processing", "Completed"),
    "ReadKeyOptions": {"AllowCtrlC": 1, "NoEcho": 2, "IncludeKeyDown": 4, "IncludeKeyUp": 8},
    "RemoteStreamOptions": {"none": 0, "AddInvocationInfoToErrorRecord": 1, "AddInvocationInfoToWarningRecord": 2, "AddInvocationInfoToDebugRecord": 4, "AddInvocationInfoToVerboseRecord": 8, "AddInvocationInfo": 15},
    "RunspacePoolState": seq("BeforeOpen", "Opening", "Opened", "Closed", "Closing", "Broken", "Disconnecting", "Disconnected", "Connecting"),
    "SessionStateEntryVisibility": seq("Public", "Private"),
}


def named(cls, name):
    try:
        return cls[name]
    except KeyError:
        from .core import Violation

        raise Violation(TAGS, "%s has no %s, which .NET documents" % (cls.__name__, name))


def member(cls, number):
    """The value a program gets when it writes the documented name (or names) of that number."""
    table = NUMBERS.get(cls.__name__)
    if table is None or isinstance(number, cls):
        return cls(number)
    exact = [named(cls, n) for n, i in table.items() if i == number]
    if exact:
        return next((m for m in exact if int(m.value) != number), exact[0])
    bits = [named(cls, n) for n, i in table.items() if i and i & (i - 1) == 0 and i & number]
    if bits and sum(table[m] for m in table if table[m] and table[m] & (table[m] - 1) == 0 and table[m] & number) == number:
        out = bits[0]
        for b in bits[1:]:
            out = out | b
        return out
    return cls(number)
