"""Symbolic regular expressions: the set of end positions of a match, each with its condition, without forking.

Only what a boolean match needs is computed symbolically; group contents are computed by a forking
backtracking matcher with Python's priorities.
"""
import re as _re
try:
    from re import _parser, _constants as _c
except ImportError:                                    # pragma: no cover
    import sre_parse as _parser
    import sre_constants as _c
from .core import Unsupported
from .values import SymStr, vand, vor, vnot, ch_in, code_of, mkbool, rng, mkstr, str_items, Sym


def _ranges(codes):
    return codes


_CATS = {
    "CATEGORY_DIGIT": set(range(48, 58)),
    "CATEGORY_SPACE": {9, 10, 11, 12, 13, 28, 29, 30, 31, 32},
    "CATEGORY_WORD": set(range(48, 58)) | set(range(65, 91)) | set(range(97, 123)) | {95},
}
ASCII = frozenset(range(128))


def class_codes(items, ignorecase):
    """(negated, set of ASCII code points)"""
    neg = False
    out = set()
    for op, arg in items:
        n = str(op)
        if n == "NEGATE":
            neg = True
        elif n == "LITERAL":
            out.add(arg)
        elif n == "RANGE":
            out |= set(range(arg[0], min(arg[1], 127) + 1))
        elif n == "CATEGORY":
            cn = str(arg)
            if cn.startswith("CATEGORY_NOT_"):
                out |= ASCII - _CATS["CATEGORY_" + cn[len("CATEGORY_NOT_"):]]
            else:
                out |= _CATS[cn]
        else:
            raise Unsupported("regex class " + n)
    if ignorecase:
        out |= {ord(chr(c).swapcase()) for c in out if chr(c).isalpha() and c < 128}
    return neg, out


def ch_pred(c, neg, codes):
    r = ch_in(c, codes)
    return vnot(r) if neg else r


class Matcher:
    def __init__(self, items, flags):
        self.s = items
        self.n = len(items)
        self.flags = flags
        self.ic = bool(flags & _re.IGNORECASE)

    def single(self, op, arg, i):
        """Condition that the single-character node matches character i."""
        n = str(op)
        c = self.s[i]
        if n == "LITERAL":
            codes = {arg}
            if self.ic:
                codes |= {ord(chr(arg).swapcase())}
            return ch_in(c, codes)
        if n == "NOT_LITERAL":
            codes = {arg}
            if self.ic:
                codes |= {ord(chr(arg).swapcase())}
            return vnot(ch_in(c, codes))
        if n == "ANY":
            if self.flags & _re.DOTALL:
                return True
            return vnot(ch_in(c, {10}))
        if n == "IN":
            neg, codes = class_codes(arg, self.ic)
            return ch_pred(c, neg, codes)
        return None

    def at(self, arg, i):
        n = str(arg)
        if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            if n == "AT_BEGINNING" and self.flags & _re.MULTILINE:
                raise Unsupported("multiline regex")
            return i == 0
        if n == "AT_END":
            if self.flags & _re.MULTILINE:
                raise Unsupported("multiline regex")
            if i == self.n:
                return True
            if i == self.n - 1:
                return ch_in(self.s[i], {10})
            return False
        if n == "AT_END_STRING":
            return i == self.n
        if n in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            w = _CATS["CATEGORY_WORD"]
            a = ch_in(self.s[i - 1], w) if i > 0 else False
            b = ch_in(self.s[i], w) if i < self.n else False
            d = vor([vand([a, vnot(b)]), vand([vnot(a), b])])
            return d if n == "AT_BOUNDARY" else vnot(d)
        raise Unsupported("regex anchor " + n)

    def ends(self, nodes, starts):
        """starts: {pos: cond} -> {pos: cond} after the node sequence."""
        cur = starts
        for op, arg in nodes:
            cur = self.step(op, arg, cur)
            if not cur:
                return cur
        return cur

    def step(self, op, arg, cur):
        n = str(op)
        out = {}

        def put(p, c):
            if c is False:
                return
            out[p] = vor([out[p], c]) if p in out else c
        if n in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            for p, c in cur.items():
                if p < self.n:
                    put(p + 1, vand([c, self.single(op, arg, p)]))
            return out
        if n == "AT":
            for p, c in cur.items():
                put(p, vand([c, self.at(arg, p)]))
            return out
        if n == "SUBPATTERN":
            if arg[1] or arg[2]:
                raise Unsupported("inline regex flags")
            return self.ends(arg[3], cur)
        if n == "BRANCH":
            for alt in arg[1]:
                for p, c in self.ends(alt, cur).items():
                    put(p, c)
            return out
        if n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            if n.startswith("POSS"):
                raise Unsupported("possessive repeat")
            lo, hi, sub = arg
            hi = self.n + lo + 1 if str(hi) == "MAXREPEAT" else hi
            k = 0
            while k < lo:
                cur = self.ends(sub, cur)
                k += 1
                if not cur:
                    return {}
            for p, c in cur.items():
                put(p, c)
            front = cur
            while k < hi and front:
                nxt = self.ends(sub, front)
                front = {p: c for p, c in nxt.items()}
                stop = True
                for p, c in front.items():
                    if c is not False:
                        put(p, c)
                        stop = False
                k += 1
                if stop or k > self.n + lo:
                    break
            return out
        if n in ("ASSERT", "ASSERT_NOT"):
            d, sub = arg
            if d < 0:
                raise Unsupported("lookbehind")
            for p, c in cur.items():
                e = vor(list(self.ends(sub, {p: True}).values()))
                put(p, vand([c, e if n == "ASSERT" else vnot(e)]))
            return out
        raise Unsupported("regex construct " + n)

    # -- backtracking with groups (forks)
    def bt(self, nodes, i, groups, k):
        if not nodes:
            return k(i, groups)
        (op, arg), rest = nodes[0], nodes[1:]
        n = str(op)
        if n in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            if i < self.n and bool(self.single(op, arg, i)):
                return self.bt(rest, i + 1, groups, k)
            return None
        if n == "AT":
            return self.bt(rest, i, groups, k) if bool(self.at(arg, i)) else None
        if n == "SUBPATTERN":
            g = arg[0]

            def done(j, gr):
                if g is not None:
                    gr = dict(gr)
                    gr[g] = (i, j)
                return self.bt(rest, j, gr, k)
            return self.bt(list(arg[3]), i, groups, done)
        if n == "BRANCH":
            for alt in arg[1]:
                r = self.bt(list(alt) + rest, i, groups, k)
                if r is not None:
                    return r
            return None
        if n in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = arg
            hi = 10 ** 9 if str(hi) == "MAXREPEAT" else hi
            return self.rep(list(sub), lo, hi, 0, i, groups, rest, k, n == "MAX_REPEAT", -1)
        if n in ("ASSERT", "ASSERT_NOT"):
            d, sub = arg
            if d < 0:
                raise Unsupported("lookbehind")
            r = self.bt(list(sub), i, groups, lambda j, gr: (j, gr))
            if (r is not None) == (n == "ASSERT"):
                return self.bt(rest, i, groups, k)
            return None
        raise Unsupported("regex construct " + n)

    def rep(self, sub, lo, hi, cnt, i, groups, rest, k, greedy, last):
        def more():
            if cnt >= hi or (i == last and cnt >= lo):
                return None
            return self.bt(sub, i, groups,
                           lambda j, gr: self.rep(sub, lo, hi, cnt + 1, j, gr, rest, k, greedy, i))

        def stop():
            return self.bt(rest, i, groups, k) if cnt >= lo else None
        for f in ((more, stop) if greedy else (stop, more)):
            r = f()
            if r is not None:
                return r
        return None


class SymMatch:
    __vp_safe__ = True

    def __init__(self, pat, s, start, kind):
        self.re, self.string = pat, s
        self._span = None
        self._start, self._kind = start, kind

    def _do(self):
        if self._span is None:
            it = str_items(self.string)
            m = Matcher(SymStr(it).expand(), self.re.flags)
            nodes = list(self.re.tree)

            def fin(j, gr):
                if self._kind == "fullmatch" and j != m.n:
                    return None
                return (j, gr)
            r = m.bt(nodes, self._start, {}, fin)
            if r is None:
                raise Unsupported("regex engines disagree")
            g = dict(r[1])
            g[0] = (self._start, r[0])
            self._span = g
        return self._span

    def _g(self, k, default=None):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        sp = self._do()
        if k > self.re.groups:
            raise IndexError("no such group")
        if k not in sp:
            return default
        a, b = sp[k]
        return mkstr(SymStr(str_items(self.string)).expand()[a:b])

    def group(self, *ks):
        if not ks:
            return self._g(0)
        if len(ks) == 1:
            return self._g(ks[0])
        return tuple(self._g(k) for k in ks)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._g(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._g(i, default) for n, i in self.re.groupindex.items()}

    def span(self, k=0):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        return self._do().get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def __bool__(self):
        return True


class Pattern:
    """re.Pattern stand-in: real regex on native strings, symbolic on symbolic ones."""
    __vp_safe__ = True

    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.tree = _parser.parse(pattern, flags)
        self.groupindex = dict(self.real.groupindex)
        self.groups = self.real.groups

    def _m(self, s, kind):
        if not isinstance(s, SymStr):
            return getattr(self.real, kind)(s)
        it = SymStr(str_items(s)).expand()
        m = Matcher(it, self.flags)
        for start in ([0] if kind != "search" else range(len(it) + 1)):
            e = m.ends(list(self.tree), {start: True})
            if kind == "fullmatch":
                c = e.get(len(it), False)
            else:
                c = vor(list(e.values()))
            if c:
                return SymMatch(self, s, start, kind)
        return None

    def match(self, s, *a):
        return self._m(s, "match")

    def fullmatch(self, s, *a):
        return self._m(s, "fullmatch")

    def search(self, s, *a):
        return self._m(s, "search")

    def __getattr__(self, n):
        real = getattr(self.real, n)
        if not callable(real):
            return real

        def f(*a, **k):
            if any(isinstance(x, Sym) for x in a):
                raise Unsupported("re.%s on a symbolic string" % n)
            return real(*a, **k)
        f.__vp_safe__ = True
        return f
