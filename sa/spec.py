"""What the GS1 EPC Tag Data Standard asks for, as data and term builders.

Nothing here is read from the repository.  An identity is described by a
*shape*: for every component a string of character class codes, one per
character, for example ``{"cp": "dddddd", "item": "ddddddd", "serial": "gg"}``.
``make`` turns a shape into abstract cells: one variable per character, so one
shape stands for every identity with those lengths.
"""

import random

from .dom import (
    Lin,
    Num,
    St,
    Var,
    as_lin,
    assume_range,
    lin_add,
    lin_mod,
    lin_mul,
    mk_str,
    mk_tab,
)
from .strs import digits_value

DIGITS = "0123456789"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER = UPPER.lower()
GS_ESC = {'"': "%22", "%": "%25", "&": "%26", "/": "%2F", "<": "%3C", ">": "%3E", "?": "%3F"}
GS = "!\"%&'()*+,-./0123456789:;<=>?" + UPPER + "_" + LOWER
CPI_ESC = {"#": "%23", "/": "%2F"}
CPI_CHARS = "#-/" + DIGITS + UPPER
ADI_CHARS = "-/" + DIGITS + UPPER
CAGE = DIGITS + "ABCDEFGHJKLMNPQRSTUVWXYZ"
OWNER = "ABCDEFGHJKLMNPQRSTUVWXYZ"

CLASSES = {
    "d": DIGITS,  # any digit
    "D": DIGITS[1:],  # digit that can start a number
    "0": "0",
    "g": GS,  # GS1 AI encodable character set 82
    "k": GS,  # spelled as an escape, upper case
    "l": GS,  # spelled as an escape, lower case
    "x": "".join(c for c in GS if c not in DIGITS),
    "p": CPI_CHARS,
    "q": "".join(c for c in CPI_CHARS if c not in DIGITS),
    "a": ADI_CHARS,
    "#": "#",
    "c": CAGE,
    "b": OWNER,
    "u": "JUZ",
}
ESCAPES = {"k": {c: f"%{ord(c):02X}" for c in GS}, "l": {c: f"%{ord(c):02x}" for c in GS},
           "g": GS_ESC, "x": GS_ESC, "p": CPI_ESC, "q": CPI_ESC, "a": CPI_ESC, "#": CPI_ESC}


class Id:
    """One abstract identity."""

    def __init__(self, spec, shape):
        self.spec = spec
        self.shape = shape
        self.parts = {}  # component -> URI form
        self.plain = {}  # component -> unescaped form
        self.st = St()
        self.vars = []

    def n(self, part):
        return len(self.shape[part])

    def text(self, *names):
        return mk_str([s for n in names for s in self.plain[n]])

    def lin(self, part):
        v = digits_value(self.st, self.plain[part], DIGITS)
        return as_lin(v if v is not None else 0)


PIN = {}  # narrowed partition: cell name -> character


class Thin(dict):
    """A narrowed partition drawn at random: a few cells stay free, the others get one character."""

    def __init__(self, seed):
        self.seed = seed
        self.free = 0

    def choose(self, name, chars):
        if name in self or len(chars) < 2:
            return
        r = random.Random(f"{self.seed} {name}")
        if self.free < 6 and r.random() < 0.2:
            self.free += 1
        else:
            self[name] = r.choice(chars)


def thin(name, chars):
    if isinstance(PIN, Thin):
        PIN.choose(name, chars)


def cell(name, cls, escape=None):
    chars = CLASSES.get(cls, cls)
    thin(name, chars)
    if name in PIN and PIN[name] in chars:
        chars = PIN[name]
    esc = ESCAPES.get(cls, {}) if escape is None else escape
    if len(chars) == 1:
        return None, esc.get(chars, chars), chars
    v = Var(name, list(chars))
    return (
        v,
        mk_tab(v, tuple(esc.get(c, c) for c in chars)),
        mk_tab(v, tuple(chars)),
    )


def make(scheme, shape, limits=()):
    """Abstract identity of a shape; limits are (component, low, high)."""
    sp = SCHEMES[scheme]
    i = Id(sp, shape)
    for name in sp.parts:
        uri, plain = [], []
        for k, code in enumerate(shape[name]):
            v, a, b = cell(f"{name}{k}", code)
            if v is not None:
                i.vars.append(v)
            uri.append(a)
            plain.append(b)
        i.parts[name] = uri
        i.plain[name] = plain
    for name, lo, hi in limits:
        st = assume_range(i.st, i.lin(name), lo, hi)
        if st is None:
            raise ValueError(f"empty family {scheme} {shape} {limits}")
        i.st = st
    i.body = mk_str(join([i.parts[n] for n in sp.parts], "."))
    i.uri = mk_str([sp.prefix, *segs(i.body)])
    return i


def segs(x):
    return [x] if isinstance(x, str) else list(x.segs)


def join(parts, sep):
    out = []
    for k, p in enumerate(parts):
        if k:
            out.append(sep)
        out.extend(p)
    return out


def check_digit(st, cells):
    """GS1 mod-10 digit over the given digits, weight 3 on the last one."""
    total = Lin(0)
    for k, c in enumerate(reversed(cells)):
        d = digits_value(st, [c], DIGITS)
        total = lin_add(total, lin_mul(as_lin(d), 3 if k % 2 == 0 else 1))
    r = lin_mod(st, lin_mul(total, -1), 10)
    r = as_lin(r)
    if not r.t and not r.a:
        return str(r.c)
    return Num(r, 10, 1)


def flat(cells):
    out = []
    for c in cells:
        if isinstance(c, str):
            out.extend(c)
        else:
            out.append(c)
    return out


# -- keys and element strings ----------------------------------------------


def _lead(i, a, b):
    """first character of b, then a, then the rest of b"""
    x, y = flat(i.plain[b]), flat(i.plain[a])
    return x[:1] + y + x[1:]


def _gtin(i):
    d = _lead(i, "cp", "item")
    return d + [check_digit(i.st, d)]


def _checked(*names):
    def f(i):
        d = flat([c for n in names for c in i.plain[n]])
        return d + [check_digit(i.st, d)]

    return f


def _sscc(i):
    d = _lead(i, "cp", "serial")
    return d + [check_digit(i.st, d)]


def _keyserial(ref):
    def f(i):
        d = flat(i.plain["cp"] + i.plain[ref])
        return d + [check_digit(i.st, d)] + i.plain["serial"]

    return f


def _plainjoin(*names):
    return lambda i: [c for n in names for c in i.plain[n]]


class Spec:
    def __init__(self, name, parts, prefix=None, key=None, element=None, codings=(), filters=None,
                 filter_bits=3):
        self.name = name
        self.parts = parts
        self.prefix = prefix or f"urn:epc:id:{name.lower()}:"
        self.key = key
        self.element = element
        self.codings = {c.name: c for c in codings}
        self.filters = filters
        self.filter_bits = filter_bits


class Coding:
    """One binary coding scheme."""

    def __init__(self, name, header, bits, size=None):
        self.name = name
        self.label = name.lower().replace("_", "-")
        self.header = header
        self.bits = bits  # identity -> list of segments following the filter
        self.size = size  # None: variable length


M_BITS = {12: 40, 11: 37, 10: 34, 9: 30, 8: 27, 7: 24, 6: 20}
N_13 = {12: 4, 11: 7, 10: 10, 9: 14, 8: 17, 7: 20, 6: 24}
N_17 = {12: 18, 11: 21, 10: 24, 9: 28, 8: 31, 7: 34, 6: 38}
N_12 = {12: 1, 11: 4, 10: 7, 9: 11, 8: 14, 7: 17, 6: 21}
N_GRAI = {12: 4, 11: 7, 10: 10, 9: 14, 8: 17, 7: 20, 6: 24}
N_GIAI96 = {12: 42, 11: 45, 10: 48, 9: 52, 8: 55, 7: 58, 6: 62}
N_GIAI202 = {12: 148, 11: 151, 10: 154, 9: 158, 8: 161, 7: 164, 6: 168}
N_CPI96 = {12: 11, 11: 14, 10: 17, 9: 21, 8: 24, 7: 27, 6: 31}
K_13 = {L: 13 - L for L in M_BITS}
K_17 = {L: 17 - L for L in M_BITS}
K_12 = {L: 12 - L for L in M_BITS}
K_GIAI96 = {L: 25 - L for L in M_BITS}
K_GIAI202 = {L: 30 - L for L in M_BITS}
K_CPI96 = {L: 15 - L for L in M_BITS}
K_CPIVAR = {L: 30 - L for L in M_BITS}


def num(lin, width):
    lin = as_lin(lin)
    if not lin.t and not lin.a:
        return format(lin.c, "b").rjust(width, "0") if width else ""
    return Num(lin, 2, width)


def int_bits(i, part, width):
    if not i.plain[part]:
        return "0" * width
    return num(i.lin(part), width)


def part_bits(i, ref, table):
    """partition value, company prefix, reference"""
    L = i.n("cp")
    return [format(12 - L, "03b"), int_bits(i, "cp", M_BITS[L]), int_bits(i, ref, table[L])]


def map_cells(cells, fn):
    from .dom import UNDEF, Tab

    out = []
    for c in cells:
        if isinstance(c, str):
            out.extend(fn(x) for x in c)
        elif isinstance(c, Tab):
            out.append(mk_tab(c.var, tuple(UNDEF if y is UNDEF else fn(y) for y in c.img)))
        else:
            raise ValueError("not a character cell")
    return out


def seven(i, part, width):
    n = i.n(part)
    return map_cells(i.plain[part], lambda c: format(ord(c), "07b")) + ["0" * (width - 7 * n)]


def six_char(c):
    return format(ord(c) & 63, "06b")


def six(i, part):
    return map_cells(i.plain[part], six_char) + ["000000"]


def _ser(ref, table, width, text=False):
    def f(i):
        tail = seven(i, "serial", width) if text else [int_bits(i, "serial", width)]
        return part_bits(i, ref, table) + tail

    return f


def _itip(width, text=False):
    def f(i):
        tail = seven(i, "serial", width) if text else [int_bits(i, "serial", width)]
        return (
            part_bits(i, "item", N_13)
            + [int_bits(i, "piece", 7), int_bits(i, "total", 7)]
            + tail
        )

    return f


def _plain96(ref):
    return lambda i: part_bits(i, ref, N_17) + ["0" * 24]


def _giai202(i):
    L = i.n("cp")
    return [format(12 - L, "03b"), int_bits(i, "cp", M_BITS[L])] + seven(i, "asset", N_GIAI202[L])


def _cpivar(i):
    L = i.n("cp")
    return [format(12 - L, "03b"), int_bits(i, "cp", M_BITS[L])] + six(i, "ref") + [
        int_bits(i, "serial", 40)
    ]


def _sgcn(i):
    n = i.n("serial")
    return part_bits(i, "coupon", N_12) + [num(lin_add(as_lin(10**n), i.lin("serial")), 41)]


def _gid(i):
    return [int_bits(i, "manager", 28), int_bits(i, "klass", 24), int_bits(i, "serial", 36)]


def _usdod(i):
    cage = [" "] * (6 - i.n("cage")) + flat(i.plain["cage"])
    return map_cells(cage, lambda c: format(ord(c), "08b")) + [int_bits(i, "serial", 36)]


def _adi(i):
    cage = [" "] * (6 - i.n("cage")) + flat(i.plain["cage"])
    return map_cells(cage, six_char) + six(i, "part") + six(i, "serial")


def _reserved(**named):
    n = named.pop("n", 8)
    out = {}
    taken = {v: k for k, v in named.items()}
    for v in range(n):
        out[taken.get(v, f"RESERVED_{v}")] = v
    return out


F_PLAIN = _reserved(ALL_OTHERS=0)
F_SGTIN = _reserved(ALL_OTHERS=0, POS_ITEM=1, FULL_CASE=2, INNER_PACK=4, UNIT_LOAD=6, COMPONENT=7)
F_SSCC = _reserved(ALL_OTHERS=0, FULL_CASE=2, UNIT_LOAD=6)
F_GIAI = _reserved(ALL_OTHERS=0, RAIL_VEHICLE=1)
F_GDTI = _reserved(ALL_OTHERS=0, TRAVEL_DOCUMENT=1)
F_USDOD = _reserved(n=16, PALLET=0, CASE=1, UNIT_PACK=2)
F_ADI = _reserved(
    n=64, ALL_OTHERS=0, ITEM_OTHER=1, CARTON=2, PALLET=6, SEAT_CUSHIONS=8, SEAT_COVERS=9,
    SEAT_BELTS=10, GALLEY=11, UNIT_LOAD_DEVICES=12, AIRCRAFT_SECURITY_ITEMS=13, LIFE_VESTS=14,
    OXYGEN_GENERATOR=15, ENGINE_COMPONENTS=16, AVIONICS=17, EXPERIMENTAL_EQUIPMENT=18,
    OTHER_EMERGENCY_EQUIPMENT=19, OTHER_ROTABLES=20, OTHER_REPAIRABLE=21,
    OTHER_CABIN_INTERIOR=22, OTHER_REPAIR=23, PASSENGER_SEATS=24, IFE_SYSTEMS=25,
    LOCATION_IDENTIFIER=56, DOCUMENTATION=57, TOOLS=58, GROUND_SUPPORT_EQUIPMENT=59,
    OTHER_NON_FLYABLE_EQUIPMENT=60,
)


def _elem(*items):
    """items alternate literal text and functions of the identity"""

    def f(i):
        out = []
        for it in items:
            out.extend([it] if isinstance(it, str) else it(i))
        return out

    return f


_S = [
    Spec("SGTIN", ["cp", "item", "serial"], key=_gtin,
         element=_elem("(01)", _gtin, "(21)", _plainjoin("serial")),
         codings=[Coding("SGTIN_96", "00110000", _ser("item", N_13, 38), 96),
                  Coding("SGTIN_198", "00110110", _ser("item", N_13, 140, True), 198)],
         filters=F_SGTIN),
    Spec("LGTIN", ["cp", "item", "lot"], prefix="urn:epc:class:lgtin:", key=_gtin,
         element=_elem("(01)", _gtin, "(10)", _plainjoin("lot"))),
    Spec("UPUI", ["cp", "item", "tpx"],
         element=_elem("(01)", _gtin, "(235)", _plainjoin("tpx"))),
    Spec("ITIP", ["cp", "item", "piece", "total", "serial"],
         element=_elem("(8006)", _gtin, _plainjoin("piece", "total"), "(21)", _plainjoin("serial")),
         codings=[Coding("ITIP_110", "01000000", _itip(38), 110),
                  Coding("ITIP_212", "01000001", _itip(140, True), 212)],
         filters=F_PLAIN),
    Spec("SSCC", ["cp", "serial"], key=_sscc, element=_elem("(00)", _sscc),
         codings=[Coding("SSCC_96", "00110001", _plain96("serial"), 96)], filters=F_SSCC),
    Spec("GSRN", ["cp", "service"], key=_checked("cp", "service"),
         element=_elem("(8018)", _checked("cp", "service")),
         codings=[Coding("GSRN_96", "00101101", _plain96("service"), 96)], filters=F_PLAIN),
    Spec("GSRNP", ["cp", "service"], key=_checked("cp", "service"),
         element=_elem("(8017)", _checked("cp", "service")),
         codings=[Coding("GSRNP_96", "00101110", _plain96("service"), 96)], filters=F_PLAIN),
    Spec("GSIN", ["cp", "shipper"], key=_checked("cp", "shipper"),
         element=_elem("(402)", _checked("cp", "shipper"))),
    Spec("PGLN", ["cp", "party"], key=_checked("cp", "party"),
         element=_elem("(417)", _checked("cp", "party"))),
    Spec("SGLN", ["cp", "loc", "serial"], key=_checked("cp", "loc"),
         element=_elem("(414)", _checked("cp", "loc"), "(254)", _plainjoin("serial")),
         codings=[Coding("SGLN_96", "00110010", _ser("loc", N_12, 41), 96),
                  Coding("SGLN_195", "00111001", _ser("loc", N_12, 140, True), 195)],
         filters=F_PLAIN),
    Spec("GRAI", ["cp", "asset", "serial"], key=_keyserial("asset"),
         element=_elem("(8003)0", _keyserial("asset")),
         codings=[Coding("GRAI_96", "00110011", _ser("asset", N_GRAI, 38), 96),
                  Coding("GRAI_170", "00110111", _ser("asset", N_GRAI, 112, True), 170)],
         filters=F_PLAIN),
    Spec("GDTI", ["cp", "doc", "serial"], key=_keyserial("doc"),
         element=_elem("(253)", _keyserial("doc")),
         codings=[Coding("GDTI_96", "00101100", _ser("doc", N_12, 41), 96),
                  Coding("GDTI_174", "00111110", _ser("doc", N_12, 119, True), 174)],
         filters=F_GDTI),
    Spec("SGCN", ["cp", "coupon", "serial"], key=_keyserial("coupon"),
         element=_elem("(255)", _keyserial("coupon")),
         codings=[Coding("SGCN_96", "00111111", _sgcn, 96)], filters=F_PLAIN),
    Spec("GIAI", ["cp", "asset"], key=_plainjoin("cp", "asset"),
         element=_elem("(8004)", _plainjoin("cp", "asset")),
         codings=[Coding("GIAI_96", "00110100", lambda i: part_bits(i, "asset", N_GIAI96), 96),
                  Coding("GIAI_202", "00111000", _giai202, 202)],
         filters=F_GIAI),
    Spec("GINC", ["cp", "ref"], key=_plainjoin("cp", "ref"),
         element=_elem("(401)", _plainjoin("cp", "ref"))),
    Spec("CPI", ["cp", "ref", "serial"],
         element=_elem("(8010)", _plainjoin("cp", "ref"), "(8011)", _plainjoin("serial")),
         codings=[Coding("CPI_96", "00111100",
                         lambda i: part_bits(i, "ref", N_CPI96) + [int_bits(i, "serial", 31)], 96),
                  Coding("CPI_VAR", "00111101", _cpivar)],
         filters=F_PLAIN),
    Spec("GID", ["manager", "klass", "serial"],
         codings=[Coding("GID_96", "00110101", _gid, 96)], filter_bits=0),
    Spec("USDOD", ["cage", "serial"], codings=[Coding("USDOD_96", "00101111", _usdod, 96)],
         filters=F_USDOD, filter_bits=4),
    Spec("ADI", ["cage", "part", "serial"], codings=[Coding("ADI_VAR", "00111011", _adi)],
         filters=F_ADI, filter_bits=6),
    Spec("BIC", ["code"]),
    Spec("IMOVN", ["number"]),
]
SCHEMES = {s.name: s for s in _S}
TAGGED = [s.name for s in _S if s.codings]
KEYED = [s.name for s in _S if s.key]
ELEMENTS = [s.name for s in _S if s.element]

# -- shapes -----------------------------------------------------------------

PREFIXES = range(6, 13)
REF_TOTAL = {
    "SGTIN": ("item", 13), "LGTIN": ("item", 13), "UPUI": ("item", 13), "ITIP": ("item", 13),
    "SSCC": ("serial", 17), "GSRN": ("service", 17), "GSRNP": ("service", 17),
    "GSIN": ("shipper", 16), "PGLN": ("party", 12), "SGLN": ("loc", 12), "GRAI": ("asset", 12),
    "GDTI": ("doc", 12), "SGCN": ("coupon", 12),
}
TEXT = {  # component holding free text, class, least and most characters
    "SGTIN": ("serial", "g", 20), "LGTIN": ("lot", "g", 20), "UPUI": ("tpx", "g", 28),
    "ITIP": ("serial", "g", 20), "SGLN": ("serial", "g", 20), "GRAI": ("serial", "g", 16),
    "GDTI": ("serial", "g", 17), "SGCN": ("serial", "d", 12),
}
JOINT = {"GIAI": ("asset", "g", 30), "GINC": ("ref", "g", 30), "CPI": ("ref", "p", 30)}
NUMERIC_BITS = {  # widest integer the short coding can hold
    "SGTIN_96": 38, "SGLN_96": 41, "GRAI_96": 38, "GDTI_96": 41, "ITIP_110": 38,
}


def number(n):
    """Shape of an n digit decimal number without leading zeros."""
    return "d" if n == 1 else "D" + "d" * (n - 1)


def base_shape(scheme, L):
    part, total = REF_TOTAL[scheme]
    sh = {"cp": "d" * L, part: "d" * (total - L)}
    if scheme == "ITIP":
        sh["piece"] = "dd"
        sh["total"] = "dd"
    return sh


def spread(n, few):
    """Lengths 1..n, or a few of them including both ends."""
    if not few or n <= 4:
        return list(range(1, n + 1))
    return sorted({1, 2, (n + 1) // 2, n})


def cross(prefixes, lengths, thorough, pivot):
    """Pairs: everything when thorough, else a star around the pivots."""
    if thorough:
        return [(p, n) for p in prefixes for n in lengths(p, False)]
    out = []
    for p in prefixes:
        for n in lengths(p, p != pivot):
            out.append((p, n))
    return out


def digits_of(bits):
    return len(str(2**bits - 1))


def number_shapes(bits, few=False):
    """(shape, limit) pairs covering exactly the numbers below 2**bits."""
    top = digits_of(bits)
    out = []
    for n in spread(top, few):
        out.append((number(n), 2**bits - 1 if n == top else None))
    return out


def valid(scheme, thorough=False):
    """(shape, limits) pairs covering the valid identities of a scheme."""
    out = []
    if scheme in TEXT:
        part, code, most = TEXT[scheme]
        for L, n in cross(PREFIXES, lambda p, few: spread(most, few), thorough, 7):
            sh = base_shape(scheme, L)
            sh[part] = code * n
            out.append((sh, ()))
    elif scheme in REF_TOTAL:
        for L in PREFIXES:
            out.append((base_shape(scheme, L), ()))
    elif scheme in ("GIAI", "GINC"):
        part, code, most = JOINT[scheme]
        for L, n in cross(PREFIXES, lambda p, few: spread(most - p, few), thorough, 7):
            out.append(({"cp": "d" * L, part: code * n}, ()))
    elif scheme == "CPI":
        for L, n in cross(PREFIXES, lambda p, few: spread(30 - p, few), thorough, 7):
            for m in spread(12, not thorough) if n < 3 or thorough else (1, 12):
                out.append(({"cp": "d" * L, "ref": "p" * n, "serial": number(m)}, ()))
    elif scheme == "GID":
        for a, la in number_shapes(28):
            for b, lb in number_shapes(24):
                for c, lc in number_shapes(36):
                    if not thorough and sum(x in (1, m) for x, m in (
                            (len(a), 9), (len(b), 8), (len(c), 11))) < 2:
                        continue
                    lim = [(p, None, m) for p, m in
                           (("manager", la), ("klass", lb), ("serial", lc)) if m is not None]
                    out.append(({"manager": a, "klass": b, "serial": c}, tuple(lim)))
    elif scheme == "USDOD":
        for n in (5, 6):
            for c, lc in number_shapes(36):
                out.append(({"cage": "c" * n, "serial": c},
                            (("serial", None, lc),) if lc is not None else ()))
    elif scheme == "ADI":
        for n in (5, 6):
            for p in range(33):
                for m in range(1, 31):
                    if not thorough and not (
                        (m in (1, 2, 30) and n == 6 and p in (0, 1, 2, 8, 16, 31, 32))
                        or (p in (0, 1, 32) and m in (1, 7, 15, 29, 30) and n == 5)
                    ):
                        continue
                    if thorough and not (p in (0, 1, 2, 16, 31, 32) or m in (1, 2, 15, 29, 30)):
                        continue
                    out.append(({"cage": "c" * n, "part": "a" * p, "serial": "a" * m}, ()))
                    if m > 1:
                        out.append((
                            {"cage": "c" * n, "part": "a" * p, "serial": "#" + "a" * (m - 1)}, ()))
    elif scheme == "BIC":
        out.append(({"code": "bbbu" + "d" * 7}, ()))
    elif scheme == "IMOVN":
        out.append(({"number": "d" * 7}, ()))
    else:
        raise KeyError(scheme)
    return out


def encodable(scheme, coding, thorough=False):
    """(shape, limits) pairs covering the identities a coding can hold."""
    if coding in NUMERIC_BITS:
        part = "serial"
        w = NUMERIC_BITS[coding]
        out = []
        for L in PREFIXES:
            for sh1, lim in number_shapes(w, few=not thorough and L != 7):
                sh = base_shape(scheme, L)
                sh[part] = sh1
                out.append((sh, ((part, None, lim),) if lim is not None else ()))
        return out
    if coding == "GIAI_96":
        out = []
        for L in PREFIXES:
            k, w = K_GIAI96[L], N_GIAI96[L]
            for n in spread(k, not thorough and L != 7):
                lim = 2**w - 1
                sh = {"cp": "d" * L, "asset": number(n)}
                out.append((sh, (("asset", None, lim),) if 10**n - 1 > lim else ()))
        return out
    if coding == "GIAI_202":
        return [(s, l) for s, l in valid("GIAI", thorough)]
    if coding == "CPI_96":
        out = []
        for L in PREFIXES:
            k, w = K_CPI96[L], N_CPI96[L]
            for n in spread(k, not thorough and L != 7):
                lim = (("ref", None, 2**w - 1),) if 10**n - 1 > 2**w - 1 else ()
                for sh1, l2 in number_shapes(31, few=not thorough):
                    if not thorough and L != 7 and len(sh1) not in (1, 10):
                        continue
                    out.append((
                        {"cp": "d" * L, "ref": number(n), "serial": sh1},
                        lim + ((("serial", None, l2),) if l2 is not None else ()),
                    ))
        return out
    return valid(scheme, thorough)


def unencodable(scheme, coding, thorough=False):
    """(shape, limits, why): valid identities that a coding cannot hold."""
    out = []
    prefixes = PREFIXES if thorough else (6, 7, 12)
    if not thorough and coding in ("GIAI_96", "CPI_96"):
        part, width, digits = (("asset", N_GIAI96, K_GIAI96) if coding == "GIAI_96" else
                               ("ref", N_CPI96, K_CPI96))
        for L in PREFIXES:
            if L in prefixes:
                continue
            top = digits_of(width[L])
            for n in sorted({top, top + 1, digits[L] + 1}):
                if n > 30 - L or n < digits[L] or (n == top and n <= digits[L]
                                                   and 10**n <= 2**width[L]):
                    continue
                sh = {"cp": "d" * L, part: number(n)}
                if part == "ref":
                    sh["serial"] = number(3)
                lim = ((part, 2**width[L], None),) if n == top and n <= digits[L] else ()
                out.append((sh, lim, "value beyond the field"))
    if coding in NUMERIC_BITS:
        w = NUMERIC_BITS[coding]
        _, _, most = TEXT[scheme]
        for L in prefixes:
            for s, lim, why in _not_number(w, most, "g", "x", few=not (thorough or L == 7)):
                sh = base_shape(scheme, L)
                sh["serial"] = s
                out.append((sh, (("serial", lim, None),) if lim else (), why))
    elif coding == "GIAI_96":
        for L in prefixes:
            for s, lim, why in _not_number(N_GIAI96[L], 30 - L, "g", "x", K_GIAI96[L],
                                           few=not (thorough or L == 7)):
                out.append(({"cp": "d" * L, "asset": s}, (("asset", lim, None),) if lim else (),
                            why))
    elif coding == "CPI_96":
        for L in prefixes:
            for s, lim, why in _not_number(N_CPI96[L], 30 - L, "p", "q", K_CPI96[L],
                                           few=not (thorough or L == 7)):
                out.append(({"cp": "d" * L, "ref": s, "serial": number(3)},
                            (("ref", lim, None),) if lim else (), why))
            for n in (10, 11, 12):
                out.append(({"cp": "d" * L, "ref": number(2), "serial": number(n)},
                            (("serial", 2**31, None),) if n == 10 else (),
                            "serial beyond 31 bits"))
    return out


def _not_number(width, most, any_, non, digits=None, few=False):
    top = digits_of(width)
    for n in range(1, most + 1):
        if few and n not in (1, 2, 5, top, top + 1, most):
            continue
        for p in range(n):
            if few and p not in (0, n // 2, n - 1):
                continue
            yield "d" * p + non + any_ * (n - p - 1), None, "not a number"
        if n > 1:
            yield "0" + "d" * (n - 1), None, "leading zero"
        if digits is not None and n > digits:
            yield number(n), None, "too many digits"
        elif n == top and 10**n > 2**width:
            yield number(n), 2**width, "value too large"
        elif n > top:
            yield number(n), None, "value too large"
