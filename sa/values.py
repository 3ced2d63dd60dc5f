"""Abstract values and linear forms.

int                      constant (unsigned, masked to the instruction width)
('p', obj, off)          address inside object obj (off: int or linear value)
('f', key) / ('x', name) library-defined function / external (real) function
('t', ...)               token: an unknown value with an identity
('L', c, ((tok,k),...))  linear form c + sum k*tok
('B', pred, a, b, w)     result of a comparison
('O', op, a, b)          other operation on unknowns
('ss', base, add, del)   signal set: base set plus/minus known signals
('u',)                   undefined
"""
from ir import MASK, sx


def istok(v):
    return type(v) is tuple and v[0] == "t"


def lin(v, w=64):
    """-> (const, ((tok,k),...)) or None"""
    if type(v) is int:
        return (sx(v, w) if w <= 64 else v, ())
    if v[0] == "t":
        return (0, ((v, 1),))
    if v[0] == "L":
        return (v[1], v[2])
    if v[0] in ("B", "O"):
        return (0, ((v, 1),))
    return None


def unlin(c, terms, w=64):
    if not terms:
        return c & MASK[w]
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    return ("L", c, terms)


def ladd(a, b, kb=1):
    d = dict(a[1])
    for t, k in b[1]:
        n = d.get(t, 0) + k * kb
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return (a[0] + kb * b[0], tuple(sorted(d.items(), key=repr)))


def lscale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((t, c * k) for t, c in a[1]))


def depth(v):
    if type(v) is not tuple:
        return 0
    m = 0
    for y in v:
        if type(y) is tuple:
            d = depth(y)
            if d > m:
                m = d
    return m + 1


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def cmpconst(pred, a, b, w):
    if pred[0] == "s":
        a, b = sx(a, w), sx(b, w)
    else:
        a, b = a & MASK[w], b & MASK[w]
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred.lstrip("us")]


def tokens(v, out):
    """collect tokens mentioned in a value"""
    if type(v) is tuple:
        if v and v[0] == "t":
            if v in out:
                return
            out.add(v)
        for y in v:
            if type(y) is tuple or type(y) is frozenset:
                tokens(y, out)
    elif type(v) is frozenset:
        for y in v:
            tokens(y, out)


def knownbits(v, w=32):
    """(mask of bits known 1, mask of bits known 0)"""
    M = MASK[w]
    if type(v) is int:
        return v & M, ~v & M
    if type(v) is tuple and v[0] == "O":
        op = v[1]
        if op in ("and", "or", "xor"):
            a1, a0 = knownbits(v[2], w)
            b1, b0 = knownbits(v[3], w)
            if op == "and":
                return a1 & b1, (a0 | b0) & M
            if op == "or":
                return (a1 | b1) & M, a0 & b0
            return ((a1 & b0) | (a0 & b1)) & M, ((a1 & b1) | (a0 & b0)) & M
    return 0, 0


def passbits(v, tok, w=32):
    """mask of bits of v that are exactly tok's bits (through and/or/xor with constants)"""
    M = MASK[w]
    if v == tok:
        return M
    if type(v) is tuple and v[0] == "O" and v[1] in ("and", "or", "xor"):
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if type(y) is int:
                pb = passbits(x, tok, w)
                if v[1] == "and":
                    return pb & y & M
                if v[1] in ("or", "xor"):
                    return pb & ~y & M
    return 0
