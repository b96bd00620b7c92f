"""Independent reader of the text notation of kernel expressions (sums with +, products with *, brackets, CP(…, …) and CW(…, …))."""
import re
import ref

_tok = re.compile(r'\s*([A-Za-z]+|[-+*(),])')


def parse(s):
    toks, pos = [], 0
    s = s.strip()
    while pos < len(s):
        m = _tok.match(s, pos)
        if not m: raise ValueError('cannot read %r at %d' % (s, pos))
        toks.append(m.group(1)); pos = m.end()
    i = [0]
    def peek(): return toks[i[0]] if i[0] < len(toks) else None
    def eat(x = None):
        t = peek()
        if t is None or (x is not None and t != x): raise ValueError('expected %r in %r at token %d, found %r' % (x, s, i[0], t))
        i[0] += 1
        return t
    def summ():
        ts = [prod()]
        while peek() == '+': eat(); ts.append(prod())
        return ts[0] if len(ts) == 1 else ('+', tuple(ts))
    def prod():
        ts = [atom()]
        while peek() == '*': eat(); ts.append(atom())
        return ts[0] if len(ts) == 1 else ('*', tuple(ts))
    def atom():
        t = eat()
        if t == '(':
            r = summ(); eat(')'); return r
        if t in ('CP', 'CW'):
            eat('('); l = summ(); eat(','); r = summ(); eat(')')
            return (t, l, r)
        if t in ref.BASES: return t
        raise ValueError('unexpected %r in %r' % (t, s))
    r = summ()
    if peek() is not None: raise ValueError('trailing text in %r' % s)
    return r


def flat(t):
    """Structure up to order, associativity and one-element wrappers (nothing simplified)"""
    if ref.is_base(t): return t
    if t[0] in ('CP', 'CW'): return (t[0], flat(t[1]), flat(t[2]))
    out = []
    for x in map(flat, t[1]):
        if not ref.is_base(x) and x[0] == t[0]: out += list(x[1])
        else: out.append(x)
    return out[0] if len(out) == 1 else (t[0], ref.srt(out))
