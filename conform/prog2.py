import abc
import base64
import collections
import contextlib
import copy
import enum
import functools
import itertools
import logging
import math
import operator
import re
import string
import sys
import textwrap
import types
import typing
import warnings
from collections import Counter, deque
from dataclasses import astuple, asdict, dataclass, replace
from types import MappingProxyType, SimpleNamespace
from typing import TYPE_CHECKING, Any, Callable, ClassVar, Final, Iterator, Mapping, Sequence, Tuple, Union, cast

if TYPE_CHECKING:
    from nowhere import Nothing

LOG = logging.getLogger(__name__)
ROM: Final = MappingProxyType({"a": 1, "b": 2})


class Err(Exception):
    def __init__(self, *args, message=""):
        super().__init__(message)
        self.message = message


def guarded(f):
    @functools.wraps(f)
    def inner(*a, **k):
        try:
            return f(*a, **k)
        except (ValueError, IndexError) as e:
            raise Err(message="x") from e
    return inner


def guarded_with(*kinds, default=None):
    def deco(f):
        @functools.wraps(f)
        def inner(*a, **k):
            try:
                return f(*a, **k)
            except kinds:
                return default
        return inner
    return deco


@contextlib.contextmanager
def conversion():
    try:
        yield
    except ValueError as e:
        raise Err(message="v") from e


class Ctx:
    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is ValueError:
            raise Err(message="ctx")
        return t is IndexError


class Registry:
    known = {}

    def __init_subclass__(cls, code="", **kw):
        super().__init_subclass__(**kw)
        cls.known[code] = cls
        cls.code = code


class RA(Registry, code="a"):
    pass


class RB(Registry, code="b"):
    pass


class Abstract(abc.ABC):
    @abc.abstractmethod
    def f(self):
        ...

    @property
    @abc.abstractmethod
    def g(self):
        ...

    def both(self):
        return self.f() + self.g


class Concrete(Abstract):
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    def f(self):
        return self.x

    @property
    def g(self):
        return "g"


class MixA:
    def go(self):
        return "A" + super().go()


class MixB:
    def go(self):
        return "B"


class Mixed(MixA, MixB):
    def go(self):
        return "M" + super().go()


class Colour(enum.Enum):
    RED = enum.auto()
    BLUE = enum.auto()

    @property
    def low(self):
        return self.name.lower()

    @classmethod
    def _missing_(cls, value):
        return cls.RED if value == 99 else None

    def __str__(self):
        return "c" + self.name


class Str(str, enum.Enum):
    A = "aa"
    B = "bb"


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class Part(typing.NamedTuple):
    bits: int
    digits: int
    label: str = "x"

    @property
    def both(self):
        return self.bits + self.digits

    def shift(self, n):
        return self._replace(bits=self.bits + n)


@dataclass(frozen=True, order=True)
class Spec:
    width: int
    name: str = ""
    DEFAULT: ClassVar[int] = 4

    def __post_init__(self):
        if self.width < 0:
            raise Err(message="neg")


class Desc:
    def __init__(self, f):
        self.f = f

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return self.f(obj)


class HasDesc:
    @Desc
    def v(self):
        return "v"

    def __getitem__(self, k):
        return k * 2

    def __contains__(self, k):
        return k == 3

    def __iter__(self):
        yield from (1, 2)

    def __call__(self, x):
        return x + 1

    def __bool__(self):
        return False

    def __str__(self):
        return "hd"

    def __repr__(self):
        return "HD()"

    def __add__(self, o):
        return "add"


def t_textwrap(b8):
    return textwrap.wrap(b8, 4)


def t_suppress(d2):
    with contextlib.suppress(ValueError):
        return int("x" + d2)
    return "none"


def t_wraps(m3):
    @guarded
    def f(x):
        return int(x)
    return f(m3)


def t_wraps_with(m3):
    @guarded_with(ValueError, KeyError, default="bad")
    def f(x):
        return int(x)
    return f(m3), f.__name__


def t_contextmanager(m3):
    with conversion():
        return int(m3)


def t_ctx_class(m3):
    with Ctx() as c:
        return int(m3)


def t_ctx_index(d2):
    with Ctx():
        return d2[5]
    return "swallowed"


def t_registry(d1):
    return Registry.known["a" if d1 < "5" else "b"].code


def t_abc(d2):
    return Concrete(d2).both()


def t_abc_error(d2):
    return Abstract()


def t_mro(d1):
    return Mixed().go() + d1, [c.__name__ for c in Mixed.__mro__]


def t_auto(d1):
    return Colour.RED.value, Colour.BLUE.low, Colour(2).name, Colour(99).name, str(Colour.RED), len(Colour)


def t_enum_iter(d1):
    return [c.name for c in Colour], list(Colour.__members__), Colour["RED"] is Colour.RED


def t_str_enum(d1):
    return Str.A == "aa", Str("bb").value, Str.A.upper() + d1, Str.A in (Str.A,)


def t_int_enum(d1):
    return Num.ONE + 1, Num(2) == 2, Num.TWO > Num.ONE, f"{Num.ONE:03b}", int(Num.TWO)


def t_typed_tuple(n):
    p = Part(n, 3)
    b, d, l = p
    return p.both, p.shift(1).bits, p[0], p._fields, p._asdict(), b + d, l


def t_frozen(n):
    s = Spec(n, "q")
    return s.width, Spec.DEFAULT, s == Spec(n, "q"), replace(s, name="z").name, astuple(s), asdict(s)


def t_post_init(n):
    return Spec(n - 10).width


def t_frozen_set(n):
    s = Spec(n)
    try:
        s.width = 3
    except AttributeError:
        return "frozen"


def t_desc(d1):
    return HasDesc().v + d1


def t_dunder(d1):
    h = HasDesc()
    return h[2], 3 in h, list(h), h(1), bool(h), str(h), repr(h), f"{h}", h + 1, not h


def t_cycle(d4):
    return sum(int(c) * w for c, w in zip(reversed(d4), itertools.cycle((3, 1)))) % 10


def t_count(d3):
    return [(i, c) for i, c in zip(itertools.count(1), d3)]


def t_takewhile(d4):
    return "".join(itertools.takewhile(lambda c: c != "0", d4))


def t_dropwhile(d4):
    return "".join(itertools.dropwhile(lambda c: c == "0", d4))


def t_repeat(d2):
    return "".join(itertools.repeat(d2, 2))


def t_pairwise(d3):
    return [a + b for a, b in itertools.pairwise(d3)]


def t_batched(b6):
    return ["".join(x) for x in itertools.batched(b6, 2)]


def t_compress(d3):
    return "".join(itertools.compress(d3, (1, 0, 1)))


def t_zip_strict(d3):
    return list(zip(d3, "ab", strict=True))


def t_deque(d3):
    q = deque(d3)
    a = q.popleft()
    q.append("x")
    return a, "".join(q), len(q)


def t_deque_loop(b6):
    q = deque(b6)
    out = []
    while q:
        out.append(q.popleft() + q.popleft())
    return out


def t_iter_sentinel(b6):
    it = iter(b6)
    take = lambda n: "".join(itertools.islice(it, n))
    return list(iter(lambda: take(2), ""))


def t_nonlocal(d3):
    pos = 0

    def take(n):
        nonlocal pos
        r = d3[pos:pos + n]
        pos += n
        return r
    return take(1), take(2)


def t_reader_class(d4):
    class Reader:
        def __init__(self, s):
            self.s, self.pos = s, 0

        def take(self, n):
            r = self.s[self.pos:self.pos + n]
            self.pos += n
            return r

        @property
        def rest(self):
            return self.s[self.pos:]
    r = Reader(d4)
    return r.take(1), r.take(2), r.rest


def t_finally(m2):
    out = []
    try:
        out.append(int(m2))
    except ValueError:
        out.append("bad")
    else:
        out.append("ok")
    finally:
        out.append("end")
    return out


def t_multi_except(m2):
    try:
        return {"a": 1}[m2] if m2[0] == "0" else int(m2)
    except KeyError as e:
        return "key", str(e.args[0])
    except (ValueError, TypeError):
        return "value"


def t_reraise(m2):
    try:
        return int(m2)
    except ValueError:
        LOG.debug("bad %s", m2)
        raise


def t_err_message(m2):
    try:
        raise Err(message="m" + m2)
    except Err as e:
        return str(e), e.message, repr(e)


def t_merge(d1):
    a, b = {"x": 1, "y": 2}, {"y": 3}
    return {**a, **b}, a | b, {**a, "z": d1}


def t_star_list(d3):
    first, *rest = d3
    *init, last = list(d3)
    return first, rest, init, last, [*d3, "x"], (*d3,)


def t_readonly(d1):
    return ROM["a"], ROM.get("z", d1), "b" in ROM, list(ROM.items())


def t_cast(d2):
    return cast(str, d2) + cast("Any", d2)


def t_ceil(n):
    return math.ceil(n / 16), -(-n // 16), (n + 15) // 16, math.floor(n / 3), int(n / 8)


def t_tuple_index(d1):
    return (3, 5, 7).index(5), [1, 2].count(2), "abc".index("b")


def t_list_index_cell(d1):
    return "0123456789".index(d1), list("0123456789").index(d1)


def t_recursion(b6):
    def f(s):
        return "" if not s else f(s[2:]) + s[:2]
    return f(b6)


def t_for_else(d3):
    for c in d3:
        if c == "0":
            break
    else:
        return "none"
    return "zero"


def t_nested_fmt(n):
    w = 8
    return f"{n:0{w}b}", f"{n:>{w}}", f"{n!r:>5}", "{:0{}d}".format(n, 5), "{0:{fill}>{w}}".format(n, fill="0", w=4)


def t_attrgetter(d2):
    return operator.attrgetter("a")(SimpleNamespace(a=d2)), operator.methodcaller("upper")(d2 + "a"), operator.itemgetter(0, 1)(d2)


def t_mul_map(d4):
    return sum(map(operator.mul, map(int, d4), (3, 1, 3, 1)))


def t_sumprod(d4):
    return -sum(int(c) * (3, 1)[i & 1] for i, c in enumerate(d4)) % 10


def t_bytes_iter(h6):
    return "".join(f"{b:08b}" for b in bytes.fromhex(h6))


def t_bytes_hex(h6):
    b = bytes.fromhex(h6)
    return b.hex().upper(), len(b), b[0], b[1:].hex(), b == bytes.fromhex(h6)


def t_bytes_int(b16):
    n = int(b16, 2)
    return n.to_bytes(2, "big").hex(), int.from_bytes(n.to_bytes(2, "big"), "big")


def t_bytearray(b16):
    out = bytearray()
    for i in range(0, 16, 8):
        out.append(int(b16[i:i + 8], 2))
    return bytes(out).hex()


def t_bytes_list(b16):
    return bytes([int(b16[i:i + 8], 2) for i in range(0, 16, 8)]).hex()


def t_bytes_gen(b16):
    return base64.b64encode(bytes(int(b16[i:i + 8], 2) for i in range(0, 16, 8))).decode()


def t_re_sub_fn(m4):
    return re.sub(r"[/%]", lambda m: f"%{ord(m.group()):02X}", m4)


def t_re_sub_ref(d3):
    return re.sub(r"^(\d)(\d)", r"\2-\1", d3), re.sub(r"(?P<a>\d)", r"<\g<a>>", d3, count=1)


def t_re_escape(d2):
    return re.sub("|".join(map(re.escape, ["%", "."])), "x", d2 + "%.")


def t_re_verbose(d3):
    return bool(re.fullmatch(r"""
        (\d)   # first
        [0-9]{2}
        """, d3, re.VERBOSE))


def t_re_groupdict(d3):
    m = re.match(r"(?P<a>\d)(?P<b>\d+)", d3)
    return m.groupdict(), m["a"], m[2], m.group(1, 2), m.span(), m.end()


def t_re_search_alt(m4):
    return bool(re.search(r"[^0-9]", m4)), re.compile(r"\d+").match(m4) is None


def t_unescape(m2):
    return re.sub(r"%([0-9A-F]{2})", lambda m: chr(int(m.group(1), 16)), "a%2F" + m2 + "%25")


def t_urllib(m3):
    from urllib.parse import quote, unquote
    return unquote(quote(m3, safe=""))


def t_lru_method(d2):
    class A:
        @functools.lru_cache(maxsize=None)
        def f(self, x):
            return x + "!"
    a = A()
    return a.f(d2), a.f("x")


def t_cache_fn(d2):
    @functools.cache
    def f(x, y=1):
        return x * 2
    return f(d2), f(d2)


def t_copy(d2):
    a = [d2]
    b = copy.copy(a)
    b.append(1)
    return len(a), copy.deepcopy(a)


def t_chain_cmp(n):
    return 3 <= n <= 12, 3 < n != 12, n in range(6, 13), n in {1, 2}, n not in (6, 7)


def t_range_ops(n):
    return list(range(10, 0, -3)), len(range(3, 12)), range(6, 13)[0], 5 in range(0, 10, 5)


def t_bool_int(n):
    return (n > 5) + (n > 10), "yes" * (n > 5), [1, 2][n > 5]


def t_or_default(d2):
    return d2 or "x", "" or d2, None or 3, d2 and "y"


def t_dict_methods(d1):
    d = {"a": 1}
    return d.setdefault("b", 2), d.pop("a"), d.pop("z", 0), d, dict(a=1, b=d1), dict([("k", d1)]), dict.fromkeys("ab", 0)


def t_dict_get_cell(d1):
    t = {"0": "zero", "1": "one"}
    return t.get(d1, "other")


def t_dict_items_cell(d1):
    return next((k for k, v in {"a": "1", "b": "2"}.items() if v == d1), "none")


def t_dict_rev(d1):
    return {v: k for k, v in {"a": "1"}.items()}.get(d1)


def t_max_key(d1):
    return max(("a", "bbb", "cc"), key=len), sorted(("b", "a"), reverse=True), min([3, 1], default=0)


def t_any_in(m3):
    return any(c in "/%" for c in m3), not set(m3) - set("0aZ/% ")


def t_isascii(u2):
    return u2.isascii(), u2.isdigit(), u2.isdecimal(), u2.isnumeric(), u2.isalnum()


def t_ascii_digit(u2):
    return u2.isascii() and u2.isdigit()


def t_swap_case(h2):
    return h2.lower(), h2.upper(), h2.swapcase(), h2.casefold()


def t_ljust_fmt(b5):
    return f"{b5:0<8}", f"{b5:>08}", format(b5, "0<8"), b5.ljust(8, "0"), b5 + "0" * (-len(b5) % 8)


def t_rfind(m3):
    return m3.rfind("/"), m3.count("/")


def t_removeprefix(d2):
    return ("urn:" + d2).removeprefix("urn:"), d2.removesuffix("0")


def t_walrus_while(b6):
    out, rest = [], b6
    while chunk := rest[:3]:
        out.append(chunk)
        rest = rest[3:]
    return out


def t_lambda_table(n):
    ops = {"+": lambda a: a + 1, "-": lambda a: a - 1}
    return ops["+"](n), ops["-"](n)


def t_posonly(d2):
    def f(a, /, b, *, c="c"):
        return a + b + c
    return f(d2, b="x"), f(d2, "y", c="z")


def t_default_late(d2):
    fs = [lambda x, i=i: x + str(i) for i in range(2)]
    return [f(d2) for f in fs]


def t_partialmethod(d2):
    f = functools.partial(int, base=2)
    return f("101"), functools.reduce(lambda a, c: a * 10 + int(c), d2, 0)


def t_del(d2):
    x = [1, d2, 3]
    del x[0]
    d = {"a": 1, "b": d2}
    del d["a"]
    return x, d


def t_list_methods(d2):
    x = [d2]
    x.extend("ab")
    x.insert(0, 1)
    x.reverse()
    y = x[::-1]
    x += ["z"]
    return x, y, x.pop(), x.index("b")


def t_set_ops(d1):
    return sorted({"a", "b"} | {"c"}), {"a"} <= {"a", "b"}, d1 in {"1", "2"}, len({1, 1})


def t_any_gen_if(d3):
    return next((i for i, c in enumerate(d3) if c != "0"), len(d3))


def t_strip_index(d4):
    return len(d4) - len(d4.lstrip("0"))


def t_int_str_eq(d3):
    return str(int(d3)) == d3


def t_isinstance(d1):
    return isinstance(d1, (int, str)), issubclass(bool, int), type(d1) is str, callable(len)


def t_warn(d1):
    warnings.warn("x")
    return d1


def t_print(d1):
    return print is not None


def t_exc_group(m2):
    try:
        x = int(m2)
    except ValueError:
        x = None
    if x is None:
        raise Err(message="none")
    return x


def t_assert_msg(n):
    assert n >= 0, "neg"
    return n


def t_num_sep(n):
    return n + 1_000, 0b101 + 0x1F, n ** 2 % 7, n << 3 | 5, n & 0b1111, n ^ 1, ~n


def t_shift_loop(n):
    out = ""
    x = n
    for _ in range(6):
        out = "01"[x & 1] + out
        x >>= 1
    return out


def t_while_div(n):
    s = ""
    x = n
    while x:
        x, r = divmod(x, 2)
        s = str(r) + s
    return s.zfill(6)


def t_int_bin_loop(b5):
    v = 0
    for c in b5:
        v = v << 1 | (c == "1")
    return v


def t_sum_pow(b5):
    return sum(2 ** i for i, c in enumerate(reversed(b5)) if c == "1")


def t_sum_shift(b5):
    return sum(int(c) << i for i, c in enumerate(b5[::-1]))


def t_bits_table(d1):
    return {c: f"{ord(c):07b}" for c in "0123456789"}[d1]


def t_translate_map(m3):
    return m3.translate({ord("/"): "%2F", ord("%"): "%25"}), m3.translate(str.maketrans("a", "b", "Z"))


def t_str_iter_pairs(h4):
    return ["".join(p) for p in zip(h4[::2], h4[1::2])]


def t_zip_iter(h4):
    return [a + b for a, b in zip(*[iter(h4)] * 2)]


def t_type_call(d2):
    kinds = {"s": str, "i": int}
    return kinds["i"](d2), kinds["s"](5)


def t_match_class(n):
    match n:
        case 0:
            return "zero"
        case 1 | 2:
            return "few"
        case int(x) if x > 10:
            return "many"
        case _:
            return "some"


def t_match_str(d1):
    match d1:
        case "0" | "1":
            return "bit"
        case _:
            return "digit"


def t_type_alias(d1):
    T = Union[str, int]
    return d1


def t_generic_class(d1):
    class Box(typing.Generic[typing.TypeVar("T")]):
        def __init__(self, x):
            self.x = x
    return Box(d1).x


def t_classvar_tables(n):
    class P:
        ROWS = tuple((i, 12 - i) for i in range(7))
    return dict(P.ROWS)[3], P.ROWS[0][1], [r for r in P.ROWS if r[0] == 2]


def t_class_decorator(d1):
    reg = {}

    def register(c):
        reg[c.__name__] = c
        return c

    @register
    class Foo:
        v = "v"
    return reg["Foo"].v + d1


def t_getattr_dunder(d1):
    class P:
        def __getattr__(self, k):
            return k + d1
    return P().abc


def t_new(d1):
    class P:
        def __new__(cls, x):
            o = super().__new__(cls)
            o.x = x
            return o
    return P(d1).x


def t_classmethod_chain(d1):
    class P:
        def __init__(self, x):
            self.x = x

        @classmethod
        def of(cls, *xs):
            return [cls(x).x for x in xs]
    return P.of(d1, "b")


def t_exc_subclass(m2):
    class Sub(Err):
        pass
    try:
        raise Sub(message="q")
    except Err as e:
        return type(e).__name__


def t_raise_class(d1):
    if d1 == "5":
        raise Err
    return d1


def t_exc_chain(m2):
    try:
        try:
            return int(m2)
        except ValueError as e:
            raise Err(message="z") from e
    except Err as e:
        return e.__cause__ is not None, e.message


def t_it_a1(d1):
    return Colour.RED.value, Colour.BLUE.value


def t_it_a2(d1):
    return Colour(2).name


def t_it_a3(d1):
    return Colour(99).name


def t_it_s1(b6):
    it = iter(b6)
    a = "".join(itertools.islice(it, 2))
    b = "".join(itertools.islice(it, 2))
    return a, b, "".join(it)


def t_it_s2(b6):
    it = iter(b6)
    take = lambda n: "".join(itertools.islice(it, n))
    return take(2), take(3), take(4), take(1)


def t_it_s3(b6):
    it = iter(b6)
    a = list(itertools.takewhile(lambda c: c == "1", it))
    return a, list(it)


def t_it_i1(m1):
    try:
        raise Err(message=m1)
    except Exception as e:
        return isinstance(e, Exception), isinstance(e, ValueError), issubclass(type(e), Exception), issubclass(Err, (ValueError, Exception))


def t_it_i2(m1):
    return isinstance(b"a", bytes), isinstance([1], (list, tuple)), isinstance(None, type(None)), isinstance({}, dict), callable(t_it_i1)


def t_it_i3(b6):
    it = iter(b6)
    out = []
    for c in it:
        out.append(c + next(it))
    return out


def t_it_i4(b6):
    it = iter(b6)
    head = [next(it) for _ in range(2)]
    rest = list(it)
    return head, rest, list(it)


def t_it_i5(b6):
    it = iter(b6)
    return "1" in it, list(it)


def t_it_i6(b6):
    it = iter(b6)
    a, b, *c = it
    return a, b, c, list(it)


def t_it_i7(b6):
    it = iter(b6)
    return [x + y for x, y in zip(it, it)], any(c == "1" for c in it)


def t_it_i8(b6):
    it = iter(b6)
    return any(c == "1" for c in it), list(it)


def t_it_i9(b6):
    g = (c for c in b6)
    for c in g:
        if c == "1":
            break
    return list(g)


def t_it_i10(b6):
    it = iter(b6)
    return dict(zip("ab", it)), list(it)


def t_it_i11(b6):
    it = iter(b6)
    return list(zip(it, "ab")), list(it)


def t_it_i12(b6):
    it = iter(b6)
    return list(map(lambda k, c: c * k, (1, 2), it)), list(it)


def t_it_i13(b6):
    it = enumerate(b6)
    return next(it), [i for i, c in it if c == "1"]


def t_it_j1(b6):
    it = iter(b6)
    out = []
    for c in it:
        if c == "1":
            out.append(c + next(it, "x"))
        else:
            out.append(c)
    return out


def t_it_j2(b6):
    it = iter(b6)
    for c in it:
        if c == "1":
            break
    else:
        return "none"
    return "".join(it)


def t_it_j3(b6):
    it = iter(b6)
    out = []
    while True:
        chunk = "".join(itertools.islice(it, 4))
        if not chunk:
            return out
        out.append(chunk)


def t_it_j4(d3):
    w = itertools.cycle((3, 1))
    return sum(int(c) * k for c, k in zip(d3, w)), [k for _, k in zip(d3, w)]


def t_it_j5(d3):
    it = map(int, d3)
    first = next(it)
    return first, sum(it)


def t_star_width(d2):
    return "%0*X" % (4, int(d2)), "%*d" % (5, int(d2)), "%-5s|" % d2, "%.3d" % int(d2), "%05.1f" % 2.5


def t_shift(d2):
    return int(d2) << 3, int(d2) << (-len(d2) % 16), "%x" % (int(d2) << 2)


def t_star_both(b6):
    n = -len(b6) % 16
    v = int(b6, 2) << n
    return "%0*X" % ((len(b6) + n) // 4, v)


def t_percent(d2):
    n = int(d2)
    return "%d%%" % n, "%3d|%-4d|%04d" % (n, n, n), "%s.%s" % (d2, n), "%x%X" % (n, n), "%5s|%-5s|" % (d2, d2), "%*d" % (4, n)


def t_percent_bad(d2):
    return "%s" % (d2, d2)


def t_percent_bad2(d2):
    return "%s %s" % d2


def t_percent_map(d2):
    return "%(a)s-%(b)03d" % {"a": d2, "b": 7}


def t_format_width(d2):
    return "{:0{w}X}".format(int(d2), w=6), "{0:>{1}}".format(d2, 5), f"{d2!s:>4}", "{:*^7}".format(d2), "{}{{}}".format(d2)


def t_format_names(d2):
    return "{a}.{b:03d}".format(a=d2, b=int(d2)), "{0}{1}{0}".format(d2, "x"), "{:,}".format(1234567)


def t_round_bits(d2):
    n = int(d2)
    return n.bit_length(), (n + 7) // 8 * 8, n.to_bytes(2, "big").hex(), -(-n // 4), n ^ 5, n | 64, n & 15
