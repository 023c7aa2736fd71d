"""First differing subterms of two terms (debugging aid)."""
def tdiff(a, b, path="", out=None, cap=6):
    from sa.terms import T
    from sa.common import short
    out = [] if out is None else out
    if a is b or len(out) >= cap:
        return out
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            if x is not y:
                tdiff(x, y, f"{path}/{a.op}.{i}", out, cap)
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            tdiff(x, y, f"{path}[{i}]", out, cap)
        return out
    if a == b:
        return out
    out.append((path[-300:], short(a, 150) if isinstance(a, T) else str(a)[:150], short(b, 150) if isinstance(b, T) else str(b)[:150]))
    return out
