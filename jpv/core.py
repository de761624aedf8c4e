"""Violations, per-case context and small helpers shared by the checks."""


class Violation(Exception):
    """The property does not hold for the current case."""


class CaseTimeout(BaseException):
    """Raised by the per-case alarm."""


def short(value, limit=160):
    try:
        text = repr(value)
    except Exception as exc:  # an object that was restored only half way
        text = f"<{type(value).__name__}, repr failed: {type(exc).__name__}>"
    return text if len(text) <= limit else text[: limit - 3] + "..."


class Ctx:
    """Collects what a case exercised."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)


def lib(what, fn, *args, **kwargs):
    """Call into the library; any exception it lets escape breaks the property."""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except Exception as exc:
        raise Violation(f"{what} raised {type(exc).__name__}: {short(str(exc))}") from exc


def outcome(fn, *args, **kwargs):
    """('ok', value) or ('exc', type, text)."""
    try:
        return ("ok", fn(*args, **kwargs))
    except Violation:
        raise
    except Exception as exc:
        return ("exc", type(exc), str(exc))
    except BaseException as exc:
        # jsonpickle's own error is not an Exception
        if type(exc).__name__ != "ClassNotFoundError":
            raise
        return ("exc", type(exc), str(exc))
