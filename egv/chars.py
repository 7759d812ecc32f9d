"""Strings whose characters are hexadecimal digits of arbitrary value.

A symbolic digit is a character of the Unicode private-use area standing for an entry of eng.sym_chars: (value term in 0..15, upper),
so lengths, slices and concatenations are those of ordinary strings; operations that look at the characters branch on the value.
Only used by engines with sym_chars set (C03)."""
import z3
from values import *

BASE, TOP = 0xE000, 0xF8FF

def is_char(ch):
    return BASE <= ord(ch) <= TOP

def symbolic(s):
    return isinstance(s, str) and any(is_char(c) for c in s)

def digit(eng, v, upper=True):
    """the digit of value v (a term known to be in 0..15)"""
    if not is_sym(v):
        return ('%X' if upper else '%x') % v
    eng.sym_chars.append((v, upper))
    if BASE + len(eng.sym_chars) > TOP:
        raise Unsupported('too many symbolic characters')
    return chr(BASE + len(eng.sym_chars) - 1)

def entry(eng, ch):
    return eng.sym_chars[ord(ch) - BASE]

def code(eng, ch):
    """character code"""
    if not is_char(ch):
        return ord(ch)
    v, u = entry(eng, ch)
    return z3.If(v < 10, 48 + v, (55 if u else 87) + v)

def is_in(eng, ch, chars):
    """condition: ch is one of the (concrete) chars"""
    if not is_char(ch):
        return ch in chars
    v, u = entry(eng, ch)
    ds = [int(c, 16) for c in chars if c in ('0123456789ABCDEF' if u else '0123456789abcdef')]
    return z3.Or([v == d for d in ds]) if ds else False

def equal(eng, a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x == y:
            continue
        if not is_char(x) and not is_char(y):
            return False
        if is_char(x) and is_char(y):
            (v, u), (w, t) = entry(eng, x), entry(eng, y)
            cs.append(z3.And(v == w, z3.BoolVal(True) if u == t else v < 10))
        else:
            x, y = (x, y) if is_char(x) else (y, x)
            cs.append(zbool(is_in(eng, x, y)))
    return z3.And(cs) if cs else True

def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def parse(eng, s):
    """value of stoi(s, base 16) for a string of hexadecimal digits"""
    t = 0
    for ch in s:
        if is_char(ch):
            d = entry(eng, ch)[0]
        elif ch in '0123456789abcdefABCDEF':
            d = int(ch, 16)
        else:
            raise Unsupported('number with a character that is no digit')
        t = t * 16 + d
    return z3.simplify(t) if is_sym(t) else t

def value(eng, s):
    """the integer a string of digits denotes"""
    return z3.Sum([(entry(eng, c)[0] if is_char(c) else z3.IntVal(int(c, 16))) * 16 ** (len(s) - 1 - i) for i, c in enumerate(s)]) if s else z3.IntVal(0)

def printed(eng, v, upper, width, fill):
    """stream << hex << v"""
    if not eng.valid(z3.And(v >= 0, v <= 255)):
        raise Unsupported('hexadecimal output of a number above 255')
    two = width == 2 and fill == '0' or eng.branch(v >= 16)
    if two:
        hi = eng.fresh('hi', 'int', 0, 15)
        lo = v - 16 * hi
        eng.fact(z3.And(lo >= 0, lo <= 15))
        return (digit(eng, hi, upper) + digit(eng, lo, upper)).rjust(width or 0, fill)
    return digit(eng, v, upper).rjust(width or 0, fill)

def settled(eng, goal):
    """goal with the digits the path has fixed put in"""
    sub = []
    for c in eng.pc:
        if z3.is_eq(c):
            a, b = c.children()
            if z3.is_int_value(a):
                a, b = b, a
            if z3.is_int_value(b) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                sub.append((a, b))
    return z3.simplify(z3.substitute(goal, sub)) if sub and is_sym(goal) else goal
