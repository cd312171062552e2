"""Shared by drivers: exceptions by what they are, not by how they are spelled."""
KINDS = [KeyError, IndexError, TypeError, UnicodeError, ValueError, OSError, AttributeError,
         NotImplementedError, LookupError]


def exc_kind(e):
    for k in KINDS:
        if isinstance(e, k):
            return k.__name__
    return type(e).__name__


def ticks(v, unit, none=9999999, odd=8888888):
    """v as an integer number of units, `odd` when it is not one."""
    if v is None:
        return none
    try:
        x = float(v) / unit
    except (TypeError, ValueError):
        return odd
    n = round(x) if x == x and abs(x) < 1e9 else odd
    return n if abs(x - n) < 1e-6 else odd
