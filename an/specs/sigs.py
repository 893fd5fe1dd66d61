"""Families of signatures for declaration witnesses."""
import itertools


def accepted(n):
    """all signatures of length n with the null generators last"""
    for k in range(n + 1):
        for s in itertools.product("+-", repeat=k):
            yield "".join(s) + "0" * (n - k)


def long_ones(lengths):
    for n in lengths:
        h = n // 2
        yield "+" * n
        yield "-" * n
        yield "+-" * h + "+" * (n % 2)
        yield "-+" * h + "-" * (n % 2)
        yield "+" * (n - 1) + "0"
        yield "+" * (n - 2) + "-0"
        yield "+" * (n - 1) + "-"
        yield "-" * (n - 1) + "0"
        yield ("++-" * n)[:n - 3] + "000"
        yield "+-" * (h - 1) + "--" + "+" * (n % 2)


def family(tier):
    full = 6 if tier == "quick" else 8
    longs = (7, 8, 9, 16, 31, 32, 33, 34, 63) if tier == "quick" else tuple(range(7, 64, 3)) + (8, 9, 16, 32, 33, 63)
    out, seen = [], set()
    for s in itertools.chain(*[accepted(n) for n in range(1, full + 1)], long_ones(sorted(set(longs)))):
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


def lit(s):
    return "[" + ",".join(s) + "]"


def masks(s):
    return tuple(sum(1 << i for i, c in enumerate(s) if c == k) for k in "+-0")


def traits(s):
    """marker traits a signature calls for"""
    n = len(s)
    out = set()
    if n % 2 == 0 and s == "+-" * (n // 2):
        out.add("SplitSignature")
    if "0" not in s:
        out.add("NonDegenerate")
    if s == "-":
        out.add("ComplexAlgebra")
    if s == "--":
        out.add("QuaternionicAlgebra")
    if s in ("-", "--"):
        out.add("DivisionAlgebra")
    if n >= 2 and s == "+" * (n - 1) + "0":
        out.add("PGAlgebra<%d>" % (n - 1))
    out.add("ClBasis<%d>" % n)
    return out
