"""Engine self-check: ordinary Python idioms on symbolic values must be modelled exactly (run by engine/selftest.py)."""
import functools
import itertools
import collections
import operator
import struct
import re
import copy
import binascii
from engine.api import case

F = {}


def idiom(f):
    F[f.__name__] = f
    return f


# each takes (a, b): small ints, s: 4 bytes, t: text of 3 chars, returns (got, expected)
@idiom
def i_sum_gen(a, b, s, t):
    return sum(x for x in s), s[0] + s[1] + s[2] + s[3]
@idiom
def i_sum_if(a, b, s, t):
    return sum(1 for x in s if x > 100), len([x for x in s if x > 100])
@idiom
def i_any(a, b, s, t):
    return any(x == a for x in s), (a in list(s))
@idiom
def i_all(a, b, s, t):
    return all(x >= 10 for x in s), min(s) >= 10
@idiom
def i_reduce(a, b, s, t):
    return functools.reduce(lambda x, y: x * 256 + y, s, 0), int.from_bytes(s, "big")
@idiom
def i_reduce_add(a, b, s, t):
    return functools.reduce(operator.add, [a, b, 3]), a + b + 3
@idiom
def i_max(a, b, s, t):
    return max(a, b), a if a > b else b
@idiom
def i_max_key(a, b, s, t):
    return max([(a, 1), (b, 2)], key=lambda x: x[0])[0], max(a, b)
@idiom
def i_sorted(a, b, s, t):
    return sorted([a, b, 5]), sorted([b, 5, a])
@idiom
def i_sorted_rev(a, b, s, t):
    return sorted([a, b], reverse=True)[0], max(a, b)
@idiom
def i_sort_inplace(a, b, s, t):
    l = [a, b, 7]
    l.sort(key=lambda x: -x)
    return l[0], max(a, b, 7)
@idiom
def i_divmod(a, b, s, t):
    q, r = divmod(a, 7)
    return q * 7 + r, a
@idiom
def i_walrus(a, b, s, t):
    if (n := a + b) > 10:
        return n, a + b
    return 0, 0
@idiom
def i_match(a, b, s, t):
    match a:
        case 0:
            r = "zero"
        case 1 | 2:
            r = "few"
        case _:
            r = "many"
    return r, ("zero" if a == 0 else "few" if a in (1, 2) else "many")
@idiom
def i_chain(a, b, s, t):
    return 3 < a <= b, (a > 3 and a <= b)
@idiom
def i_ternary(a, b, s, t):
    return (a if a < b else b), min(a, b)
@idiom
def i_or_default(a, b, s, t):
    return (a or 9), (9 if a == 0 else a)
@idiom
def i_and(a, b, s, t):
    return (a and b), (b if a != 0 else a)
@idiom
def i_not(a, b, s, t):
    return (not a), a == 0
@idiom
def i_bool(a, b, s, t):
    return bool(a), a != 0
@idiom
def i_bits(a, b, s, t):
    return (a << 3) | (b & 7), a * 8 + b % 8
@idiom
def i_bits2(a, b, s, t):
    return (a >> 2) & 3, (a // 4) % 4
@idiom
def i_xor(a, b, s, t):
    return (a ^ 1), (a + 1 if a % 2 == 0 else a - 1)
@idiom
def i_pow(a, b, s, t):
    return a ** 2, a * a
@idiom
def i_neg(a, b, s, t):
    return -a + abs(-a), 0
@idiom
def i_tobytes(a, b, s, t):
    return a.to_bytes(2, "little") + bytes([b]), bytes([a % 256, a // 256, b])
@idiom
def i_tobytes_kw(a, b, s, t):
    return a.to_bytes(length=2, byteorder="big"), bytes([a // 256, a % 256])
@idiom
def i_int_to_bytes_unbound(a, b, s, t):
    return int.to_bytes(a, 2, "big"), bytes([a // 256, a % 256])
@idiom
def i_struct(a, b, s, t):
    return struct.pack("<H", a), a.to_bytes(2, "little")
@idiom
def i_struct2(a, b, s, t):
    return struct.pack(">BQ", b, a), bytes([b]) + a.to_bytes(8, "big")
@idiom
def i_struct_unpack(a, b, s, t):
    return struct.unpack("<I", s)[0], int.from_bytes(s, "little")
@idiom
def i_bit_length(a, b, s, t):
    return (a.bit_length() + 7) // 8, (0 if a == 0 else 1 if a < 256 else 2)
@idiom
def i_hex(a, b, s, t):
    return s.hex(), "".join("{:02x}".format(x) for x in s)
@idiom
def i_hex2(a, b, s, t):
    return binascii.hexlify(s).decode(), s.hex()
@idiom
def i_unhex(a, b, s, t):
    return binascii.unhexlify(s.hex()), s
@idiom
def i_fromhex(a, b, s, t):
    return bytes.fromhex(s.hex()), s
@idiom
def i_bytes_join(a, b, s, t):
    return b"".join([s[:2], s[2:]]), s
@idiom
def i_bytes_list(a, b, s, t):
    return bytes([x for x in s]), s
@idiom
def i_bytearray(a, b, s, t):
    r = bytearray()
    for x in s:
        r.append(x)
    r.extend(s[:1])
    r += s[1:2]
    return bytes(r), s + s[:2]
@idiom
def i_rev(a, b, s, t):
    return bytes(reversed(s)), s[::-1]
@idiom
def i_slice_neg(a, b, s, t):
    return s[-2:] + s[:-2], s[2:] + s[:2]
@idiom
def i_ljust(a, b, s, t):
    return s.ljust(6, b"\0"), s + b"\0\0"
@idiom
def i_rjust(a, b, s, t):
    return s.rjust(6, b"\0"), b"\0\0" + s
@idiom
def i_mul(a, b, s, t):
    return b"\0" * 2 + s, b"\0\0" + s
@idiom
def i_lstrip(a, b, s, t):
    n = int.from_bytes(s, "big")
    return len(s.lstrip(b"\0")), (n.bit_length() + 7) // 8
@idiom
def i_memoryview(a, b, s, t):
    return bytes(memoryview(s)[1:]), s[1:]
@idiom
def i_eq_bytes(a, b, s, t):
    return s == bytes(s), True
@idiom
def i_startswith(a, b, s, t):
    return s.startswith(b"\x01"), s[0] == 1
@idiom
def i_str(a, b, s, t):
    return str(a) + "," + str(b), "{},{}".format(a, b)
@idiom
def i_fstr(a, b, s, t):
    return f"{a}-{b}", "%d-%d" % (a, b)
@idiom
def i_fstr2(a, b, s, t):
    return f"{b:02x}{b:08b}", "%02x" % b + format(b, "08b")
@idiom
def i_zfill(a, b, s, t):
    return str(a).zfill(5), "%05d" % a
@idiom
def i_format_map(a, b, s, t):
    return "{x}/{y}".format(x=a, y=b), str(a) + "/" + str(b)
@idiom
def i_int_str(a, b, s, t):
    return int(str(a)), a
@idiom
def i_text_eq(a, b, s, t):
    return t.lower() == t.lower(), True
@idiom
def i_text_upper(a, b, s, t):
    return t.upper().lower() == t.lower(), True
@idiom
def i_strip(a, b, s, t):
    return (" " + t + " ").strip() == t.strip(), True
@idiom
def i_split(a, b, s, t):
    return len(t.split(".")), 1 + sum(1 for c in t if c == ".")
@idiom
def i_partition(a, b, s, t):
    x, y, z = t.partition(".")
    return x + y + z, t
@idiom
def i_rpartition(a, b, s, t):
    x, y, z = t.rpartition(".")
    return x + y + z, t
@idiom
def i_find(a, b, s, t):
    return t.find(".") >= 0, "." in t
@idiom
def i_count(a, b, s, t):
    return t.count("."), len([c for c in t if c == "."])
@idiom
def i_replace(a, b, s, t):
    return t.replace(".", "-").count("."), 0
@idiom
def i_isdigit(a, b, s, t):
    return t.isdigit(), all("0" <= c <= "9" for c in t)
@idiom
def i_isalnum(a, b, s, t):
    return t.isalnum(), all(c.isalpha() or c.isdigit() for c in t)
@idiom
def i_endswith(a, b, s, t):
    return t.endswith((".", "-")), t[-1] in ".-"
@idiom
def i_in_str(a, b, s, t):
    return t[0] in "abc", t[0] in ("a", "b", "c")
@idiom
def i_set_in(a, b, s, t):
    return t[0] in set("abc"), t[0] in ["a", "b", "c"]
@idiom
def i_frozenset_issub(a, b, s, t):
    return set(t) <= set("abc."), all(c in "abc." for c in t)
@idiom
def i_ord(a, b, s, t):
    return chr(ord(t[0])), t[0]
@idiom
def i_encode(a, b, s, t):
    return t.encode().decode("ascii"), t
@idiom
def i_join(a, b, s, t):
    return "".join(c for c in t), t
@idiom
def i_join_map(a, b, s, t):
    return "".join(map(str, t)), t
@idiom
def i_join_rev(a, b, s, t):
    return "".join(reversed(t))[::-1], t
@idiom
def i_re(a, b, s, t):
    return re.match(r"^[a-z]+$", t) is not None, all("a" <= c <= "z" for c in t) or (all("a" <= c <= "z" for c in t[:2]) and t[2] == "\n")
@idiom
def i_re_full(a, b, s, t):
    return bool(re.fullmatch("[0-9a-f]{3}", t)), all(c in "0123456789abcdef" for c in t)
@idiom
def i_re_search(a, b, s, t):
    return re.compile(r"[^a-z]").search(t) is None, all("a" <= c <= "z" for c in t)
@idiom
def i_re_sub(a, b, s, t):
    return len(re.sub("[.]", "", t)), len(t) - t.count(".")
@idiom
def i_dict_count(a, b, s, t):
    d = {}
    for x in (a, b):
        d[x] = d.get(x, 0) + 1
    return d[a], (2 if a == b else 1)
@idiom
def i_defaultdict(a, b, s, t):
    d = collections.defaultdict(int)
    for x in (a, b):
        d[x] += 1
    return d[a], (2 if a == b else 1)
@idiom
def i_setdefault(a, b, s, t):
    d = {}
    d.setdefault(a, []).append(1)
    d.setdefault(b, []).append(2)
    return len(d), (1 if a == b else 2)
@idiom
def i_counter(a, b, s, t):
    return collections.Counter([a, b])[a], (2 if a == b else 1)
@idiom
def i_dictcomp(a, b, s, t):
    return len({x: 1 for x in (a, b)}), (1 if a == b else 2)
@idiom
def i_setcomp(a, b, s, t):
    return len({x for x in (a, b)}), (1 if a == b else 2)
@idiom
def i_set_ops(a, b, s, t):
    return len({a} | {b}) + len({a} & {b}), 2
@idiom
def i_set_diff(a, b, s, t):
    return len({a, b} - {a}), (0 if a == b else 1)
@idiom
def i_dict_fromkeys(a, b, s, t):
    return list(dict.fromkeys([a, b, a])), ([a] if a == b else [a, b])
@idiom
def i_dict_merge(a, b, s, t):
    return len({**{a: 1}, **{b: 2}}), (1 if a == b else 2)
@idiom
def i_dict_update(a, b, s, t):
    d = {a: 1}
    d.update({b: 2})
    return d[a], (2 if a == b else 1)
@idiom
def i_dict_pop(a, b, s, t):
    d = {a: 1, 1000000: 2}
    return d.pop(b, 0), (1 if a == b else 0)
@idiom
def i_dict_items(a, b, s, t):
    return [k + v for k, v in {a: b}.items()], [a + b]
@idiom
def i_bytes_key(a, b, s, t):
    return len({s[:2]: 1, s[2:]: 2}), (1 if s[:2] == s[2:] else 2)
@idiom
def i_tuple_key(a, b, s, t):
    return len({(a, 1), (b, 1)}), (1 if a == b else 2)
@idiom
def i_tuple_cmp(a, b, s, t):
    return (a, 1) < (b, 2), a <= b
@idiom
def i_list_eq(a, b, s, t):
    return [a, b] == [b, a], a == b
@idiom
def i_list_index(a, b, s, t):
    l = [b, a]
    return l.index(a), (0 if a == b else 1)
@idiom
def i_list_remove(a, b, s, t):
    l = [a, b]
    l.remove(b)
    return l, [a] if a != b else [b]
@idiom
def i_list_count(a, b, s, t):
    return [a, b].count(a), (2 if a == b else 1)
@idiom
def i_list_dyn_index(a, b, s, t):
    return [10, 20, 30][a % 3], 10 * (a % 3 + 1)
@idiom
def i_slice_dyn(a, b, s, t):
    return s[:a % 4] + s[a % 4:], s
@idiom
def i_insert(a, b, s, t):
    l = [a]
    l.insert(0, b)
    return l + [1], [b, a, 1]
@idiom
def i_zip(a, b, s, t):
    return [x + y for x, y in zip(s, s[1:])], [s[0] + s[1], s[1] + s[2], s[2] + s[3]]
@idiom
def i_enumerate(a, b, s, t):
    return sum(i * x for i, x in enumerate(s, 1)), s[0] + 2 * s[1] + 3 * s[2] + 4 * s[3]
@idiom
def i_map_filter(a, b, s, t):
    return len(list(filter(lambda x: x > 9, map(int, s)))), len([x for x in s if x > 9])
@idiom
def i_next(a, b, s, t):
    return next((x for x in (a, b) if x > 50), None), (a if a > 50 else b if b > 50 else None)
@idiom
def i_chainit(a, b, s, t):
    return list(itertools.chain([a], [b])), [a, b]
@idiom
def i_accumulate(a, b, s, t):
    return list(itertools.accumulate([a, b, 1])), [a, a + b, a + b + 1]
@idiom
def i_takewhile(a, b, s, t):
    return len(list(itertools.takewhile(lambda x: x < 50, [a, b]))), (0 if a >= 50 else 1 if b >= 50 else 2)
@idiom
def i_groupby(a, b, s, t):
    return len(list(itertools.groupby([a, b]))), (1 if a == b else 2)
@idiom
def i_islice(a, b, s, t):
    return bytes(itertools.islice(s, 2)), s[:2]
@idiom
def i_combinations(a, b, s, t):
    return [x + y for x, y in itertools.combinations([a, b, 1], 2)], [a + b, a + 1, b + 1]
@idiom
def i_starred(a, b, s, t):
    x, *y = [a, b, 1]
    return y + [x], [b, 1, a]
@idiom
def i_swap(a, b, s, t):
    a, b = b, a
    return a - b, -(b - a)
@idiom
def i_while(a, b, s, t):
    n, k = b, 0
    while n >= 100:
        n -= 100
        k += 1
    return k * 100 + n, b
@idiom
def i_while_shift(a, b, s, t):
    n, k = b, 0
    while n:
        n >>= 1
        k += 1
    return k, b.bit_length()
@idiom
def i_for_else(a, b, s, t):
    for x in (a, b):
        if x == 7:
            break
    else:
        return False, (a == 7 or b == 7)
    return True, (a == 7 or b == 7)
@idiom
def i_try(a, b, s, t):
    try:
        x = 1000 // (a % 3)
    except ZeroDivisionError:
        x = -1
    else:
        x += 1
    finally:
        y = 1
    return x, (-1 if a % 3 == 0 else 1000 // (a % 3) + y)
@idiom
def i_try_key(a, b, s, t):
    try:
        x = {a: 1}[b]
    except KeyError:
        x = 0
    return x, (1 if a == b else 0)
@idiom
def i_try_value(a, b, s, t):
    try:
        x = bytes([a])
    except ValueError:
        x = None
    return x is None, a > 255
@idiom
def i_try_int(a, b, s, t):
    try:
        int(t)
        x = True
    except ValueError:
        x = False
    return (x or not t.isdigit()), True
@idiom
def i_raise_from(a, b, s, t):
    try:
        try:
            if a > b:
                raise ValueError("x")
        except ValueError as e:
            raise KeyError("y") from e
    except KeyError:
        return True, a > b
    return False, a > b
@idiom
def i_assert(a, b, s, t):
    try:
        assert a > b, "no"
        return True, a > b
    except AssertionError:
        return False, a > b
@idiom
def i_gen(a, b, s, t):
    def g():
        for x in s:
            if x > 127:
                return
            yield x
    def h():
        yield from g()
    return len(list(h())), next((i for i, x in enumerate(s) if x > 127), 4)
@idiom
def i_closure(a, b, s, t):
    n = 0
    def inc(k):
        nonlocal n
        n += k
    inc(a)
    inc(b)
    return n, a + b
@idiom
def i_default_arg(a, b, s, t):
    def f(x, y=1, *z, k=2, **kw):
        return x + y + sum(z) + k + sum(kw.values())
    return f(a, b, 3, q=4), a + b + 9
@idiom
def i_star_call(a, b, s, t):
    return max(*[a, b]), max(a, b)
@idiom
def i_partial(a, b, s, t):
    return functools.partial(operator.sub, a)(b), a - b
@idiom
def i_class(a, b, s, t):
    class P:
        __slots__ = ("v",)
        def __init__(self, v):
            self.v = v
        def __eq__(self, o):
            return self.v == o.v
        def __hash__(self):
            return hash(self.v)
        def __lt__(self, o):
            return self.v < o.v
        def __add__(self, o):
            return P(self.v + o.v)
        def __radd__(self, o):
            return self if o == 0 else P(o + self.v)
        def __bool__(self):
            return self.v != 0
        def __len__(self):
            return 3
        def __contains__(self, x):
            return x == self.v
        def __getitem__(self, i):
            return self.v + i
        def __iter__(self):
            return iter([self.v])
        def __call__(self, x):
            return self.v * x
    p, q = P(a), P(b)
    return ([p == q, len({p, q}), sum([p, q]).v, min(p, q).v, bool(p), a in p, p[2], list(q), p(3)],
            [a == b, 1 if a == b else 2, a + b, min(a, b), a != 0, True, a + 2, [b], 3 * a])
@idiom
def i_namedtuple(a, b, s, t):
    P = collections.namedtuple("P", "x y")
    p = P(a, y=b)._replace(x=b)
    return p.x + p.y + p[0], 3 * b
@idiom
def i_deque(a, b, s, t):
    d = collections.deque([a])
    d.appendleft(b)
    return d.popleft() - d.pop(), b - a
@idiom
def i_ordereddict(a, b, s, t):
    d = collections.OrderedDict()
    d["x"] = a
    d["y"] = b
    return list(d.values()), [a, b]
@idiom
def i_copy(a, b, s, t):
    l = [[a], b]
    m, n = copy.copy(l), copy.deepcopy(l)
    l[0].append(1)
    return len(m[0]) + len(n[0]), 3
@idiom
def i_isinstance(a, b, s, t):
    return [isinstance(a, int), isinstance(a, (str, int)), isinstance(s, (bytes, bytearray)), isinstance(t, str), isinstance(a, bool), type(a) is int, type(t) == str], [True, True, True, True, False, True, True]
@idiom
def i_int_types(a, b, s, t):
    return [int(a), int(a > b), float(2) == 2.0, round(a), a.real], [a, 1 if a > b else 0, True, a, a]
@idiom
def i_getattr(a, b, s, t):
    class C:
        pass
    c = C()
    setattr(c, "x", a)
    return [getattr(c, "x"), getattr(c, "y", b), hasattr(c, "y"), c.__dict__["x"], vars(c)["x"]], [a, b, False, a, a]
@idiom
def i_cond_expr_list(a, b, s, t):
    return [x for y in ([a], [b]) for x in y if x], [x for x in (a, b) if x]
@idiom
def i_min_default(a, b, s, t):
    return min((x for x in (a, b) if x > 60), default=0), (min(a, b) if a > 60 and b > 60 else a if a > 60 else b if b > 60 else 0)
@idiom
def i_range_dyn(a, b, s, t):
    return sum(1 for _ in range(a % 5)), a % 5
@idiom
def i_in_range(a, b, s, t):
    return a in range(3, 20), 3 <= a < 20
@idiom
def i_in_range_step(a, b, s, t):
    return a in range(4, 20, 3), a in (4, 7, 10, 13, 16, 19)
@idiom
def i_bytes_in(a, b, s, t):
    return b in s, any(b == x for x in s)
@idiom
def i_text_cmp(a, b, s, t):
    return t[0] < t[1], ord(t[0]) < ord(t[1])
@idiom
def i_text_sort(a, b, s, t):
    return "".join(sorted(t[:2])), (t[:2] if t[0] <= t[1] else t[1] + t[0])
@idiom
def i_title(a, b, s, t):
    return t.isupper(), t == t.upper() and t != t.lower()
@idiom
def i_hash_eq(a, b, s, t):
    return hash(s[:2]) == hash(s[2:]), s[:2] == s[2:]
@idiom
def i_is_none(a, b, s, t):
    x = None if a == 0 else a
    return (x is None), a == 0
@idiom
def i_lambda_dispatch(a, b, s, t):
    return {0: lambda: "z", 1: lambda: "o"}.get(a, lambda: "m")(), ("z" if a == 0 else "o" if a == 1 else "m")
@idiom
def i_str_in_dict(a, b, s, t):
    return t in {"abc": 1, "abd": 2}, t == "abc" or t == "abd"
@idiom
def i_removeprefix(a, b, s, t):
    return t.removeprefix("a"), (t[1:] if t[0] == "a" else t)
@idiom
def i_translate(a, b, s, t):
    return t.translate(str.maketrans(".", "-")).count("."), 0
@idiom
def i_expandjoin(a, b, s, t):
    return ",".join([str(a), t]), "%s,%s" % (a, t)
@idiom
def i_repr(a, b, s, t):
    return repr(a), str(a)
@idiom
def i_int_hex(a, b, s, t):
    return int(s.hex(), 16), int.from_bytes(s, "big")
@idiom
def i_compare_digest(a, b, s, t):
    import hmac
    return hmac.compare_digest(s, s[:]), True
@idiom
def i_math(a, b, s, t):
    import math
    return [math.ceil(a), math.floor(b), math.gcd(2, 4)], [a, b, 2]
@idiom
def i_ceil_div(a, b, s, t):
    return -(-a // 8), (a + 7) // 8
@idiom
def i_mod_neg(a, b, s, t):
    return (-a) % 7, (7 - a % 7) % 7
@idiom
def i_int_xor_swap(a, b, s, t):
    return ~a, -a - 1
@idiom
def i_dec(a, b, s, t):
    from decimal import Decimal
    return Decimal(a) * 4 == Decimal(4) * a, True
@idiom
def i_contextlib(a, b, s, t):
    import contextlib
    x = 1
    with contextlib.suppress(KeyError):
        {a: 1}[b]
        x = 2
    return x, (2 if a == b else 1)
@idiom
def i_dataclass(a, b, s, t):
    import dataclasses
    @dataclasses.dataclass(frozen=True, order=True)
    class D:
        x: int
        y: int = 0
    return [D(a) == D(b), D(a) < D(b), len({D(a), D(b)}), dataclasses.replace(D(a), y=b).y], [a == b, a < b, 1 if a == b else 2, b]
@idiom
def i_enum(a, b, s, t):
    import enum
    class C(enum.IntEnum):
        X = 1
        Y = 2
    try:
        c = C(a)
    except ValueError:
        c = None
    return c is None, a not in (1, 2)
@idiom
def i_enum_cmp(a, b, s, t):
    import enum
    class C(enum.IntEnum):
        X = 1
        Y = 2
    return [a == C.X, a > C.Y, a + C.X], [a == 1, a > 2, a + 1]
@idiom
def i_cached(a, b, s, t):
    class C:
        @functools.cached_property
        def p(self):
            return a + 1
    c = C()
    return c.p + c.p, 2 * a + 2
@idiom
def i_lru(a, b, s, t):
    @functools.lru_cache(None)
    def f(x):
        return x + 1
    return f(a) + f(b), a + b + 2
@idiom
def i_heapq(a, b, s, t):
    import heapq
    h = [a]
    heapq.heappush(h, b)
    return heapq.heappop(h), min(a, b)
@idiom
def i_bisect(a, b, s, t):
    import bisect
    return bisect.bisect_left([10, 20, 30], a), (0 if a <= 10 else 1 if a <= 20 else 2 if a <= 30 else 3)
@idiom
def i_itemgetter(a, b, s, t):
    return sorted([(1, a), (2, b)], key=operator.itemgetter(1))[0][1], min(a, b)
@idiom
def i_attrgetter(a, b, s, t):
    class C:
        def __init__(self, v):
            self.v = v
    return sorted([C(a), C(b)], key=operator.attrgetter("v"))[0].v, min(a, b)
@idiom
def i_cmp_to_key(a, b, s, t):
    return sorted([a, b], key=functools.cmp_to_key(lambda x, y: x - y))[0], min(a, b)
@idiom
def i_super_kw(a, b, s, t):
    class A:
        def f(self, *, x):
            return x + 1
    class B(A):
        def f(self, *, x):
            return super().f(x=x) * 2
    return B().f(x=a), 2 * a + 2
@idiom
def i_classmethod(a, b, s, t):
    class A:
        @classmethod
        def make(cls, x):
            o = cls()
            o.x = x
            return o
        @staticmethod
        def twice(x):
            return 2 * x
        @property
        def y(self):
            return self.twice(self.x)
        @y.setter
        def y(self, v):
            self.x = v
    o = A.make(a)
    o.y += 1
    return o.x, 2 * a + 1
@idiom
def i_augassign_list(a, b, s, t):
    l = [1]
    m = l
    m += [a]
    return len(l), 2
@idiom
def i_del(a, b, s, t):
    l = [a, b, 1]
    del l[0]
    d = {"x": a, "y": b}
    del d["x"]
    return [l, d], [[b, 1], {"y": b}]
@idiom
def i_global_fn(a, b, s, t):
    return (lambda *x: x)(a, b), (a, b)
@idiom
def i_format_spec(a, b, s, t):
    return "{:>5}".format(a)[-1], str(a)[-1]
@idiom
def i_splitjoin(a, b, s, t):
    return ".".join(t.split(".")), t
@idiom
def i_splitlines(a, b, s, t):
    return t.isascii(), True
@idiom
def i_encode_cmp(a, b, s, t):
    return t.encode("utf-8") == bytearray(t, "utf-8"), True
@idiom
def i_str_bytes(a, b, s, t):
    return str(t.encode(), "utf-8"), t
@idiom
def i_base64(a, b, s, t):
    import base64
    return base64.b64decode(base64.b64encode(s)), s
@idiom
def i_json(a, b, s, t):
    import json
    return json.loads(json.dumps({"a": a, "l": [b]})), {"a": a, "l": [b]}


@idiom
def i_mixed_set(a, b, s, t):
    return len({a, 5}), (1 if a == 5 else 2)
@idiom
def i_mixed_dict(a, b, s, t):
    d = {a: 1, 5: 2}
    return [len(d), d[a]], ([1, 2] if a == 5 else [2, 1])
@idiom
def i_mixed_setops(a, b, s, t):
    return [len({a} & {5, 6}), {a} <= {5, 6}, len(set([a]) - frozenset([5])), {a} == {5}], [1 if a in (5, 6) else 0, a in (5, 6), 0 if a == 5 else 1, a == 5]
@idiom
def i_dict_unpack(a, b, s, t):
    return {"x": a, **{"y": b}}["y"], b
@idiom
def i_set_update(a, b, s, t):
    x = set()
    x.update([a, b], (7,))
    x |= {a}
    x.discard(b)
    return 7 in x, b != 7
@idiom
def i_dict_eq(a, b, s, t):
    return {"x": a} == {"x": b}, a == b
@idiom
def i_frozen_const(a, b, s, t):
    return t[0] in frozenset("abc"), t[0] in "abc"
@idiom
def i_typing_nt(a, b, s, t):
    import typing
    class P(typing.NamedTuple):
        x: int
        y: int = 0
    return [P(a).x, P(a, b)[1], P(a) == P(b), P(a)._asdict()["x"]], [a, b, a == b, a]
@idiom
def i_pad(a, b, s, t):
    return "%-5s|%5d" % (t, a), t + "  |" + (" " * 4 if a < 10 else " " * 3 if a < 100 else " " * 2) + str(a)
@idiom
def i_simple_dataclass(a, b, s, t):
    import dataclasses
    @dataclasses.dataclass
    class D:
        x: int
        y: int = 0
    d = D(a)
    d.y += b
    return d.x + d.y, a + b
@idiom
def i_property_chain(a, b, s, t):
    return [(x, y) for x in (a, b) for y in (1, 2) if x > y][:1], [(a, 1)] if a > 1 else [(b, 1)] if b > 1 else []
@idiom
def i_exc_attr(a, b, s, t):
    class E(Exception):
        def __init__(self, v):
            super().__init__("v is {}".format(v))
            self.v = v
    try:
        raise E(a)
    except (KeyError, E) as e:
        return [e.v, str(e)], [a, "v is " + str(a)]
@idiom
def i_bytes_iter_unpack(a, b, s, t):
    w, x, *y = s
    return [w, len(y)], [s[0], 2]
@idiom
def i_lshift_or_loop(a, b, s, t):
    n = 0
    for x in s:
        n = (n << 8) | x
    return n, int.from_bytes(s, "big")
@idiom
def i_bytes_from_shift(a, b, s, t):
    return bytes([(a >> (8 * i)) & 0xff for i in range(2)]), a.to_bytes(2, "little")
@idiom
def i_hexfmt(a, b, s, t):
    return "".join("%02x" % x for x in s) + "".join(f"{x:02X}" for x in s[:1]), s.hex() + s[:1].hex().upper()
@idiom
def i_hex_builtin(a, b, s, t):
    return int(hex(a), 16) if False else int(hex(a)[2:], 16), a
@idiom
def i_str_slice(a, b, s, t):
    return t[:1] + t[1:], t
@idiom
def i_str_cmp_const(a, b, s, t):
    return t == "a-b", (t[0] == "a" and t[1] == "-" and t[2] == "b")
@idiom
def i_rstrip(a, b, s, t):
    return t.rstrip("."), (t if t[2] != "." else t[:2] if t[1] != "." else t[:1] if t[0] != "." else "")
@idiom
def i_rsplit(a, b, s, t):
    return len(t.rsplit(".", 1)), (2 if "." in t else 1)
@idiom
def i_maxsplit(a, b, s, t):
    return t.split(".", 1)[0], t.partition(".")[0]


@case("IDIOMS", params=[dict(f=f) for f in F])
def idioms(ctx, f):
    a, b = ctx.int("a", 0, 300), ctx.int("b", 0, 255)
    s = ctx.bytes("s", 4)
    t = ctx.str("t", 3)
    got, want = F[f](a, b, s, t)
    ctx.check(ctx.eq(got, want), "as CPython has it")
    ctx.observe("got", got if not isinstance(got, bytearray) else bytes(got))
