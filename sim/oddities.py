"""Exception classes user code and libraries really have."""


class TwoArgs(Exception):
    def __init__(self, code, detail):
        super().__init__(f"{code}: {detail}")
        self.code, self.detail = code, detail


class KeywordOnly(ValueError):
    def __init__(self, *, reason):
        super().__init__(reason)


class Coded(RuntimeError):
    """Accepts only an int."""

    def __init__(self, code, text=""):
        super().__init__(int(code), text)


class Slotted(Exception):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return f"<{self.text}>"


def make(kind, token):
    if kind == "twoargs":
        return TwoArgs(7, token)
    if kind == "keyword":
        return KeywordOnly(reason=token)
    if kind == "coded":
        return Coded(3, token)
    if kind == "slotted":
        return Slotted(token)
    if kind == "unicode":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, token)
    if kind == "oserror":
        return OSError(5, token)
    if kind == "key":
        return KeyError(token)
    if kind == "memory":
        return MemoryError(token)
    if kind == "stop":
        return StopIteration(token)
    if kind == "local":
        class Local(Exception):
            pass

        return Local(token)
    if kind == "assertion":
        return AssertionError(token)
    if kind == "index":
        return IndexError(token)
    if kind == "linalg":
        import numpy.linalg

        return numpy.linalg.LinAlgError(token)
    return ValueError(token)


KINDS = ["value", "key", "oserror", "memory", "stop", "assertion", "index", "linalg", "twoargs", "keyword", "coded",
         "slotted", "unicode", "local"]
