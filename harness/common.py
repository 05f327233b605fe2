"""helpers shared by the contracts (dual mode: symbolic and concrete)"""
REJECT = (TypeError, ValueError)


def attempt(f, *a, exc=(TypeError, ValueError), **k):
    """(True, result) or (False, exception) when f rejects its argument"""
    try:
        return True, f(*a, **k)
    except exc as e:
        return False, e


def inset(E, x, intervals):
    """x in a union of closed intervals (None: unbounded)"""
    alts = []
    for lo, hi in intervals:
        c = []
        if lo is not None:
            c.append(x >= lo)
        if hi is not None:
            c.append(x <= hi)
        alts.append(E.And(*c) if c else True)
    return E.Or(*alts)
