"""Small programs the analyser is compared with the interpreter on.

The name of each parameter says what it ranges over (see selftest.py).
"""
import base64
import binascii
import functools
import itertools
import math
import operator
import re
import string
from collections import OrderedDict, defaultdict, namedtuple
from dataclasses import dataclass, field
from enum import Enum, IntEnum
from functools import lru_cache, partial, reduce
from typing import Dict, List, NamedTuple, Optional

ESC = {"/": "%2F", '"': "%22", "%": "%25", "&": "%26"}
UNESC = {v: k for k, v in ESC.items()}
TABLE = {chr(i): format(i, "07b") for i in range(32, 127)}
BACK = {v: k for k, v in TABLE.items()}
WEIGHTS = (3, 1, 3, 1)


class Err(Exception):
    pass


class Kind(Enum):
    A = "alpha"
    B = "beta"


class Level(IntEnum):
    LOW = 1
    HIGH = 7


class Code(Enum):
    SHORT = (4, "s")
    LONG = (8, "l")

    def __init__(self, width, letter):
        self.width = width
        self.letter = letter


class Pair(NamedTuple):
    left: str
    right: str = "?"

    @property
    def joined(self):
        return self.left + "." + self.right


Point = namedtuple("Point", "x y")


@dataclass
class Row:
    name: str
    size: int = 3
    extra: List[str] = field(default_factory=list)

    def total(self):
        return self.name * self.size


@dataclass(frozen=True)
class Cell:
    a: int
    b: int


class Base:
    def __init__(self, text):
        self._text = text

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, value):
        self._text = value.upper()

    @staticmethod
    def twice(x):
        return x + x

    @classmethod
    def make(cls, x):
        return cls(x)

    def __len__(self):
        return len(self._text)

    def __eq__(self, other):
        return isinstance(other, Base) and self._text == other._text

    def __lt__(self, other):
        return len(self) < len(other)

    def describe(self):
        return "base " + self._text


class Child(Base):
    def describe(self):
        return "child " + super().describe()

    @functools.cached_property
    def size(self):
        return len(self._text)


# -- texts ---------------------------------------------------------------------
def t_concat(d3):
    return "a" + d3 + "b"


def t_join_comp(d3):
    return "-".join(c for c in d3)


def t_join_map(d3):
    return "".join(map(str, [int(c) + 1 for c in d3]))


def t_slice(d4):
    return d4[1:] + d4[:1] + d4[-1] + d4[::-1] + d4[::2]


def t_slice_neg(d4):
    return d4[:-1], d4[-2:], d4[1:-1], d4[5:], d4[-9:2]


def t_index(d3):
    return d3[0] + d3[-1]


def t_index_error(d3):
    return d3[3]


def t_fstring(d3):
    return f"{d3}:{int(d3)}:{int(d3):05d}:{d3:>5}:{len(d3)}"


def t_format(d3):
    return "{}-{:04d}-{x}".format(d3, int(d3), x=d3[0])


def t_percent(d3):
    return "%s-%04d-%5s" % (d3, int(d3), d3)


def t_zfill(d3):
    return d3.zfill(6), str(int(d3)).zfill(5)


def t_just(d3):
    return d3.rjust(5, "0"), d3.ljust(5, "x"), d3.center(7)


def t_bin_zfill(d3):
    return format(int(d3), "b").zfill(12)


def t_bin_fmt(d3):
    return f"{int(d3):012b}", "{:012b}".format(int(d3)), format(int(d3), "012b")


def t_bin_slice(d3):
    return bin(int(d3))[2:].zfill(12)


def t_bin_rjust(d3):
    return bin(int(d3))[2:].rjust(12, "0")


def t_hex(d3):
    return f"{int(d3):03X}", hex(int(d3))[2:], "%03x" % int(d3)


def t_strip(m3):
    return m3.strip(), m3.lstrip(), m3.rstrip("0")


def t_lstrip0(d4):
    return d4.lstrip("0")


def t_rstrip0(b6):
    return b6.rstrip("0")


def t_split(m3):
    return m3.split("/")


def t_split1(m3):
    return (m3 + "." + m3).split(".", 1)


def t_rsplit(d3):
    a, b = (d3 + "." + d3).rsplit(".", 1)
    return a + b


def t_partition(m3):
    return m3.partition("/")


def t_rpartition(m3):
    return m3.rpartition("0")


def t_rpartition_two(m3):
    return (m3 + "ab" + m3).rpartition("ab"), (m3 + m3).rpartition("0/")


def t_find_from(m3):
    text = m3 + "-" + m3
    return text.find("0", 2), text.find("/0", 1), text.rfind("0", 3), text.find("0", 1, 3)


def t_index_from(m3):
    return (m3 + "0" + m3).index("0", 2)


def t_replace(m3):
    return m3.replace("/", "%2F")


def t_replace_chain(m3):
    return m3.replace("%", "%25").replace("/", "%2F")


def t_translate(m3):
    return m3.translate(str.maketrans(ESC))


def t_find(m3):
    return m3.find("/"), m3.rfind("0"), m3.count("a")


def t_index_method(m3):
    try:
        return m3.index("/")
    except ValueError:
        return -5


def t_case(m3):
    return m3.upper(), m3.lower(), m3.swapcase(), m3.title(), m3.casefold()


def t_pred(m3):
    return m3.isdigit(), m3.isalpha(), m3.isalnum(), m3.isspace(), m3.isupper()


def t_pred_dec(u2):
    return u2.isdigit(), u2.isdecimal(), u2.isnumeric(), u2.isascii()


def t_prefix(m3):
    return m3.startswith("0"), m3.endswith(("a", "Z")), m3.startswith(("/", "%"))


def t_remove(m3):
    return m3.removeprefix("0"), m3.removesuffix("a/")


def t_in(m3):
    return "/" in m3, "a0" in m3, m3[0] in "0a", m3 in ("000", "aaa")


def t_eq(m3):
    return m3 == "0a/", m3 != m3[::-1]


def t_eq_rev(b4):
    return b4 == b4[::-1]


def t_less(d3):
    return d3 < "500", d3 >= "123"


def t_mult(d3):
    return d3 * 2, 3 * d3[0]


def t_mult_int(n):
    return "x" * n + str(n)


def t_ord(m3):
    return [ord(c) for c in m3]


def t_chr(d3):
    return "".join(chr(65 + int(c)) for c in d3)


def t_expand(d3):
    return "{0}{1}{0}".format(*d3)


def t_list_text(m3):
    chars = list(m3)
    chars.reverse()
    return "".join(chars)


def t_sorted(d3):
    return "".join(sorted("cab")) + d3


def t_enumerate(d3):
    return [(i, c) for i, c in enumerate(d3, 1)]


def t_zip(d3):
    return [a + b for a, b in zip(d3, d3[1:])]


def t_zip_longest(d3):
    return ["".join(p) for p in itertools.zip_longest(d3[::2], d3[1::2], fillvalue="-")]


def t_chunks(b8):
    return [b8[i:i + 4] for i in range(0, len(b8), 4)]


def t_chunks_int(b8):
    return "".join("%X" % int(b8[i:i + 4], 2) for i in range(0, len(b8), 4))


def t_chunks_while(b8):
    out = []
    while b8:
        out.append(b8[:3])
        b8 = b8[3:]
    return out


def t_chunks_iter(b8):
    it = iter(b8)
    return ["".join(p) for p in zip(*[it] * 4)]


def t_hexdigits(h3):
    return "".join(f"{int(c, 16):04b}" for c in h3)


def t_hexdigits_zfill(h3):
    return "".join(bin(int(c, 16))[2:].zfill(4) for c in h3)


def t_hex_to_bin(h3):
    return bin(int(h3, 16))[2:].zfill(12)


def t_hex_upper(h3):
    return h3.upper(), format(int(h3, 16), "03X")


def t_bits_to_hex(b8):
    return f"{int(b8, 2):02X}", hex(int(b8, 2))[2:].upper().zfill(2)


def t_to_bytes(b8):
    return int(b8, 2).to_bytes(1, "big").hex()


def t_from_bytes(h4):
    return int.from_bytes(bytes.fromhex(h4), "big")


def t_unhexlify(h4):
    return binascii.hexlify(binascii.unhexlify(h4)).decode()


def t_b64(h6):
    return base64.b64encode(bytes.fromhex(h6)).decode("utf-8")


def t_b64_round(h6):
    return base64.b64decode(base64.b64encode(bytes.fromhex(h6))).hex()


# -- sets -------------------------------------------------------------------------
def t_set_le(m3):
    return set(m3) <= {"0", "a"}


def t_set_sub(m3):
    return bool(set(m3) - set("0a"))


def t_set_issubset(m3):
    return set(m3).issubset("0a/"), set("0").issubset(m3)


def t_set_issuperset(m3):
    return {"0", "a"}.issuperset(m3)


def t_set_disjoint(m3):
    return set(m3).isdisjoint("/%")


def t_set_len(b4):
    return len(set(b4))


def t_set_eq(b4):
    return set(b4) == {"0", "1"}


def t_set_and(m3):
    return bool(set(m3) & {"/"})


def t_set_comp(m3):
    return {c for c in m3} <= set("0aZ")


def t_set_in(m3):
    s = set(m3)
    return "0" in s


def t_frozen(m3):
    return m3[0] in frozenset("0a")


def t_all(m3):
    return all(c in "0a" for c in m3)


def t_any(m3):
    return any(c == "/" for c in m3)


def t_any_not(m3):
    if any(c not in string.digits for c in m3):
        raise Err
    return "ok"


def t_filter(m3):
    return "".join(filter(str.isdigit, m3))


def t_filter_lambda(m3):
    return list(filter(lambda c: c != "/", m3))


def t_next(m3):
    return next((i for i, c in enumerate(m3) if c == "/"), -1)


def t_next_stop(m3):
    try:
        return next(i for i, c in enumerate(m3) if c == "/")
    except StopIteration:
        return None


# -- numbers ----------------------------------------------------------------------
def t_int(d4):
    return int(d4), int(d4[1:]) + 1, str(int(d4))


def t_int_bad(m3):
    return int(m3)


def t_int_try(m3):
    try:
        return int(m3)
    except ValueError:
        return None


def t_int_base(b6):
    return int(b6, 2), int(b6, base=2) * 2 + 1


def t_int_hex(h3):
    return int(h3, 16) >> 4, int(h3, 16) & 0xF, int(h3, 16) % 16


def t_int_hex_bad(m3):
    return int(m3, 16)


def t_divmod(d4):
    return divmod(int(d4), 10), int(d4) // 7, int(d4) % 7


def t_neg_mod(d3):
    return -int(d3) % 10, (10 - int(d3) % 10) % 10


def t_shift(b6):
    n = int(b6, 2)
    return n << 3 | 5, n >> 2, n & 7, n ^ 1


def t_pow(n):
    return n * 2 ** 5, n < 2 ** 5, pow(2, 6) - n


def t_cmp(n):
    return 3 <= n < 20, n in range(5, 10), n == 7, not n


def t_minmax(n):
    return min(n, 10), max(n, 10), abs(n - 10)


def t_sum(d4):
    return sum(int(c) for c in d4)


def t_weights(d4):
    return sum(int(c) * w for c, w in zip(d4, WEIGHTS)) % 10


def t_check(d4):
    s = 3 * sum(map(int, d4[::2])) + sum(map(int, d4[1::2]))
    return str((10 - s % 10) % 10)


def t_check_ceil(d3):
    s = sum(int(x) * (3 if i % 2 == 0 else 1) for i, x in enumerate(d3))
    return math.ceil(s / 10) * 10 - s


def t_check_reduce(d3):
    return reduce(lambda a, c: a + int(c), d3, 0)


def t_check_loop(d4):
    total = 0
    for i in range(len(d4)):
        if i % 2:
            total += int(d4[i])
        else:
            total += 3 * int(d4[i])
    return -total % 10


def t_bit_length(b6):
    return int(b6, 2).bit_length()


def t_horner(b6):
    n = 0
    for c in b6:
        n = n * 2 + (c == "1")
    return n


def t_float(n):
    return n / 2 > 3, math.floor(n / 2), math.ceil(n / 7)


# -- control ----------------------------------------------------------------------
def t_if(d3):
    if d3[0] == "0":
        return "zero"
    elif int(d3) > 500:
        return "big" + d3
    return d3


def t_ternary(d3):
    return "z" if d3.startswith("0") else d3[0] * 2


def t_while(n):
    k = 0
    while n > 3:
        n -= 3
        k += 1
    return n, k


def t_break(m3):
    out = ""
    for c in m3:
        if c == "/":
            break
        if c == "%":
            continue
        out += c
    else:
        return "all " + out
    return "cut " + out


def t_escape_loop(m3):
    out = []
    for c in m3:
        out.append(ESC.get(c, c))
    return "".join(out)


def t_escape_if(m3):
    out = ""
    for c in m3:
        out += ESC[c] if c in ESC else c
    return out


def t_escape_try(m3):
    out = ""
    for c in m3:
        try:
            out += ESC[c]
        except KeyError:
            out += c
    return out


def t_escape_re(m3):
    return re.sub(r'["%&/]', lambda m: ESC[m.group()], m3)


def t_escape_round(m3):
    return re.sub("%[0-9A-F]{2}", lambda m: UNESC.get(m.group(0), m.group(0)),
                  "".join(ESC.get(c, c) for c in m3))


def t_chars7(m3):
    return "".join(TABLE[c] for c in m3)


def t_chars7_back(m3):
    b = "".join(TABLE[c] for c in m3) + "0000000"
    out = ""
    for i in range(0, len(b), 7):
        p = b[i:i + 7]
        if p == "0000000":
            break
        out += BACK[p]
    return out


def t_chars7_find(m3):
    b = "".join(format(ord(c), "07b") for c in m3)
    parts = re.findall(".{7}", b)
    return "".join(chr(int(p, 2)) for p in parts)


def t_match_stmt(m3):
    match m3[0]:
        case "0":
            return "zero"
        case "a" | "Z":
            return "letter"
        case _:
            return "other"


def t_match_seq(d3):
    match list(d3):
        case ["0", *rest]:
            return rest
        case [a, b, c]:
            return c + b + a


def t_walrus(m3):
    if (k := m3.find("/")) >= 0:
        return k
    return m3


def t_try_else(m3):
    try:
        n = int(m3)
    except ValueError as e:
        raise Err("bad") from e
    else:
        return n
    finally:
        m3 = ""


def t_raise_from(m3):
    if not m3.isdigit():
        raise Err(f"bad {m3}")
    return m3


def t_nested(m3):
    def inner(c):
        return "<" + c + ">"

    return "".join(map(inner, m3))


def t_closure(d3):
    total = 0

    def add(k):
        nonlocal total
        total += k

    for c in d3:
        add(int(c))
    return total


def t_generator(m3):
    def gen():
        for c in m3:
            if c != "/":
                yield c
        yield "."

    return "".join(gen())


def t_generator_from(m3):
    def gen(x):
        yield "["
        yield from x
        yield "]"

    return list(gen(m3))


def t_star(d4):
    head, *mid, last = d4
    return head, "".join(mid), last


def t_kwargs(d3):
    def f(a, b="x", *rest, k=1, **kw):
        return a + b + "".join(rest) + str(k) + "".join(sorted(kw))

    return f(*d3) + f(d3, k=3, z=1)


def t_partial(d3):
    return partial(int, base=10)(d3) + 1


def t_operator(d3):
    return reduce(operator.add, map(int, d3))


def t_cache(d3):
    @lru_cache(maxsize=None)
    def f(x):
        return x + "!"

    return f(d3) + f(d3)


def t_accumulate(d3):
    return list(itertools.accumulate(int(c) for c in d3))


def t_chain(d3):
    return "".join(itertools.chain(d3, "x", d3[:1]))


def t_product(d3):
    return len(list(itertools.product("ab", repeat=2))), d3


def t_groupby_free(m3):
    return "".join(itertools.takewhile(lambda c: c != "/", m3))


def t_islice(m3):
    return "".join(itertools.islice(m3, 1, None))


def t_starmap(d3):
    return list(itertools.starmap(lambda a, b: int(a) + b, zip(d3, (1, 2, 3))))


# -- containers -------------------------------------------------------------------
def t_dict(d3):
    d = {"a": d3, "b": d3[0]}
    d["c"] = d.pop("a") + d.get("q", "-")
    return [(k, v) for k, v in d.items()]


def t_dict_comp(d3):
    return {i: c for i, c in enumerate(d3)}[1]


def t_dict_zip(d3):
    return dict(zip("abc", d3))["b"]


def t_dict_cases(m3):
    return {"0": "zero", "a": "letter"}.get(m3[0], "none")


def t_dict_dispatch(m3):
    return {"0": str.upper, "a": str.lower}.get(m3[0], lambda s: s[::-1])(m3)


def t_dict_update(d3):
    d = dict(a=1)
    d.update(b=d3)
    return {**d, "c": 2}["b"], "a" in d, len(d), list(d), d == {"a": 1, "b": d3}


def t_defaultdict(d3):
    d = defaultdict(list)
    d["x"].append(d3)
    return d["x"], len(d["y"])


def t_ordered(d3):
    d = OrderedDict([("a", d3)])
    return list(d.values())


def t_list_ops(d3):
    l = [d3]
    l.append("x")
    l.extend(["y", d3])
    l.insert(0, "z")
    l.remove("x")
    l[1] = "w"
    return l.pop(), l, l.index("y"), len(l), l * 2, l + ["q"], "y" in l


def t_tuple_unpack(d3):
    (a, b), c = (d3[0], d3[1]), d3[2]
    a, b = b, a
    return a + b + c


def t_list_sort(d3):
    l = ["b" + d3, "a" + d3]
    l.sort(key=lambda s: s[0])
    return l, sorted([3, 1, 2], reverse=True), max([2, 5, 3]), list(reversed([1, 2]))


def t_slice_assign(d3):
    l = [1, 2, 3, 4]
    l[1:3] = [9]
    del l[0]
    return l, d3


# -- classes ----------------------------------------------------------------------
def t_class(d3):
    b = Base(d3)
    c = Child.make(d3 + "x")
    return b.text, c.describe(), len(c), Base.twice(d3), b == Base(d3), b == c, b < c


def t_setter(m3):
    b = Base("")
    b.text = m3
    return b._text


def t_cached_property(d3):
    c = Child(d3)
    return c.size + c.size


def t_getattr(d3):
    c = Child(d3)
    return getattr(c, "text"), getattr(c, "nope", 3), hasattr(c, "size"), isinstance(c, Base)


def t_missing_attr(d3):
    return Base(d3).nope


def t_enum(m3):
    k = Kind("alpha") if m3[0] == "0" else Kind.B
    return k.name, k.value, k is Kind.A, k == Kind.B, [x.name for x in Kind]


def t_enum_lookup(m3):
    try:
        return Kind(m3).name
    except ValueError:
        return "none"


def t_intenum(n):
    return n > Level.HIGH, Level.LOW + n, f"{Level.HIGH:03b}", Level(7).name, int(Level.LOW)


def t_enum_init(d3):
    return Code.SHORT.width, Code["LONG"].letter, Code.LONG.value, d3


def t_namedtuple(d3):
    p = Pair(d3)
    q = p._replace(right=d3[0])
    a, b = q
    return p.joined, q.right, a + b, p == (d3, "?"), len(p), Point(x=d3, y=1).x, p[0]


def t_dataclass(d3):
    r = Row(d3, 2)
    r.extra.append("e")
    s = Row(d3)
    return r.total(), s.size, s.extra, r == s, Row(d3) == s, Cell(1, 2) == Cell(1, 2)


def t_type(d3):
    c = Child(d3)
    return type(c) is Child, type(c).__name__, c.__class__ is Base, type(c) == type(Base(d3))


# -- patterns ---------------------------------------------------------------------
def t_re_full(m3):
    return re.fullmatch("[0a]+/?", m3) is not None


def t_re_match(m3):
    return bool(re.match("0a?", m3)), bool(re.search("a$", m3)), bool(re.match("^0", m3))


def t_re_groups(m3):
    m = re.match(r"(0+)(a*)(?P<rest>.*)", m3)
    if not m:
        return None
    return m.group(1), m.group(2), m["rest"], m.groups(), m.end(1)


def t_re_named(d4):
    m = re.fullmatch(r"(?P<a>\d{2})(?P<b>\d+)", d4)
    return m.groupdict()["b"] + m.group("a")


def t_re_split(m3):
    return re.split("[/%]", m3)


def t_re_findall(m3):
    return re.findall("0|a/", m3)


def t_re_finditer(m3):
    return [(m.group(), m.start()) for m in re.finditer("[0a]", m3)]


def t_re_compiled(m3):
    p = re.compile("[0-9]+$")
    return p.match(m3) is None, p.sub("#", m3)


def t_re_chunks(b8):
    return re.findall("....", b8), re.findall(".{1,3}", b8)


def t_re_ignorecase(m3):
    return re.fullmatch("[A-Z0]+", m3, re.I) is not None


def t_re_digit_unicode(u2):
    return re.fullmatch(r"\d\d", u2) is not None, re.fullmatch("[0-9]+", u2) is not None


def t_re_newline(w2):
    return re.match("^[a0]+$", w2) is not None, re.fullmatch("[a0]+", w2) is not None


def t_strip_ws(w2):
    return w2.strip(), w2.split()


def t_int_ws(w2):
    try:
        return int(w2)
    except ValueError:
        return None


# -- the analysis must see these fail ----------------------------------------------
def t_type_error(d3):
    return d3 + int(d3)


def t_key_error(m3):
    return ESC[m3[0]]


def t_zero_div(n):
    return 10 // (n - 3)


def t_unpack_error(m3):
    a, b = m3.split("/")
    return a + b


def t_assert(n):
    assert n < 9
    return n


def t_none_attr(m3):
    return re.match("0", m3).group()


def t_b64_url(h6):
    return base64.urlsafe_b64encode(bytes.fromhex(h6)).decode("utf-8")


def t_b64_url_round(h6):
    return base64.urlsafe_b64decode(base64.urlsafe_b64encode(bytes.fromhex(h6))).hex()


def t_b64_alt(h6):
    return base64.b64encode(bytes.fromhex(h6), b"-_").decode("utf-8")


def t_b64_first_url(h6):
    return base64.urlsafe_b64encode(bytes.fromhex(h6)).decode("utf-8")[1] in "-_"


def t_in_literal(d3):
    return str(int(d3))[0] in "12"


def t_in_literal_two(d3):
    return d3[:2] in "0123"


def t_b64_lines(h6):
    return base64.encodebytes(bytes.fromhex(h6 * 30)).decode("utf-8").strip()


def t_b2a(h6):
    return binascii.b2a_base64(bytes.fromhex(h6)).decode("ascii")


def t_b2a_plain(h6):
    return binascii.b2a_base64(bytes.fromhex(h6), newline=False).decode("ascii")


def t_centre(d3):
    return d3.center(6), d3.center(8, "-"), str(int(d3)).center(6, "x"), f"{d3:^6}"


def t_wide_zfill(d3):
    return format(int(d3), "b").zfill(12), bin(int(d3))[2:].rjust(11, "0"), str(int(d3)).zfill(4)


def t_wide_zfill_two(d3, d2):
    t = format(int(d3) * 100 + int(d2), "b").zfill(17)
    return t, len(t), t[:4]


def t_pad_some(d2):
    t = str(int(d2))
    return t.rjust(3, "0"), t.ljust(3, "0"), t.rjust(1, "0")


def t_nibbles(d3, d2):
    h = f"{int(d3) * 4096 + int(d2) * 16 + 5:06X}"
    b = "".join(f"{int(c, 16):04b}" for c in h)
    return int(b[:12], 2), int(b[12:20], 2), b[20:], int(b[2:13], 2)


def t_nibbles_cross(d3, d2):
    h = f"{int(d3) * 2**9 + int(d2):05x}"
    b = "".join([f"{int(c, 16):04b}" for c in h])
    return int(b[:11], 2), f"{int(b[:11], 2):03}", int(b[11:], 2), int(b[7:15], 2)
