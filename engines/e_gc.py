"""The heap machine: C01 (collections are transparent), C02 (space), C03 (weak pointers), C04 (C resources),
C12 (out of memory), C13 (stack), C25 (callbacks)."""
import base64, hashlib, math, re
from core import *
from simlib import *

MOD = 1000003
NREGS = 12
FUEL = 150
COMMON_ASSUME = ["collections happen where the runtime can collect: small allocations, the interpreter's polls and explicit requests; allocation in the major heap never collects"]


def make(b, prop):
    return {"C01": Transparent, "C02": Space, "C03": WeakPtr, "C04": Foreign, "C12": NoMem, "C13": Stack, "C25": Callbacks}[prop](b, prop)


class N:
    """a block of the model's heap"""
    __slots__ = ("k", "a", "extra", "fulls")

    def __init__(self, k, *a):
        self.k, self.a, self.fulls = k, list(a), 0

    def kids(self):
        k, a = self.k, self.a
        if k in "PMFL":
            return [x for x in a if isinstance(x, N)]
        if k in "VA":
            return a[0]
        if k == "T":
            return [a[0], a[1], a[3]]
        if k == "X":
            return [x for x in a[1:] if isinstance(x, N)]
        if k == "Z":
            return [a[2]] if a[2] is not None else [a[0]]
        return []


def I(n):
    return N("I", n)


UNIT = N("U")


def istr(n):
    return (b"-%d" % -n) if n < 0 else b"%d" % n


def mlint(n):
    return (b"~%d" % -n) if n < 0 else b"%d" % n


def force(z):
    if z.a[2] is None:
        z.a[2] = N("P", z.a[0], I(z.a[1] * 3))
    return z.a[2]


def lst(n):          # elements of an L node
    return n.a


class Fp:
    def __init__(self, fuel=FUEL):
        self.fuel, self.h = fuel, 7

    def mix(self, n):
        self.h = (self.h * 131 + n + 1) % MOD

    def mixs(self, s):
        n = len(s)
        self.mix(n)
        if n:
            for k in range(24):
                self.mix(s[k * n // 24])

    def seq(self, l):
        for x in l:
            if self.fuel <= 0:
                self.mix(98)
                return
            self.go(x)

    def go(self, o):
        mix = self.mix
        if self.fuel <= 0:
            return mix(99)
        self.fuel -= 1
        k, a = o.k, o.a
        if k == "U":
            mix(1)
        elif k == "I":
            mix(2); mix(a[0] % 10007)
        elif k == "S":
            mix(3); self.mixs(a[0])
        elif k == "R":
            mix(4); mix(a[0] % 10007)
        elif k == "P":
            mix(5); self.go(a[0]); self.go(a[1])
        elif k == "T":
            mix(6); self.go(a[0]); self.go(a[1]); mix(a[2] % 10007); self.go(a[3]); self.mixs(a[4])
        elif k == "L":
            mix(7); mix(len(a)); self.seq(a)
        elif k == "V":
            mix(8); mix(len(a[0])); self.seq(a[0])
        elif k == "A":
            mix(9); mix(len(a[0])); self.seq(a[0])
        elif k == "M":
            mix(10); self.go(a[0])
        elif k == "F":
            mix(11); self.go(a[0]); self.go(a[1])
        elif k == "X":
            if a[0] == "Carry":
                mix(12); self.go(a[1])
            elif a[0] == "Pair":
                mix(13); mix(a[2]); self.go(a[1])
            else:
                mix(14); self.mixs(a[1])
        elif k == "W":
            b = a[0]
            mix(16); mix(len(b))
            for i in range(0, len(b), 1 + len(b) // 16):
                mix(b[i])
        elif k == "C":
            b = a[0]
            mix(17); mix(len(b))
            for i in range(0, len(b), 1 + len(b) // 16):
                mix(b[i])
        elif k == "Z":
            mix(18); self.go(force(o))
        elif k == "B":
            mix(19); mix(a[0] % 99991)


def finger(o):
    f = Fp()
    f.go(o)
    return b"%d" % f.h


def str_(o):
    k = o.k
    if k in "SC":
        return bytes(o.a[0])
    if k == "I":
        return istr(o.a[0])
    if k == "B":
        return mlint(o.a[0])
    return b"?"


def int_(o):
    k = o.k
    if k == "I":
        return o.a[0]
    if k == "S":
        return len(o.a[0])
    if k == "L":
        return len(o.a)
    if k == "A":
        return len(o.a[0])
    return 5


def big(o):
    return o.a[0] if o.k in "BI" else 3


def tree(d, o):
    if d == 0:
        return ("i", 0)
    k, a = o.k, o.a
    t = lambda x: tree(d - 1, x)
    up = lambda l: tuple([t(x) for x in l[:4]])
    if k == "U":
        return ("n", 1, ())
    if k == "I":
        return ("i", a[0])
    if k == "S":
        return ("s", bytes(a[0]))
    if k == "R":
        return ("r", a[0] / 8.0)
    if k == "P":
        return ("n", 2, (t(a[0]), t(a[1])))
    if k == "T":
        return ("n", 3, (t(a[0]), t(a[1]), ("i", a[2]), t(a[3]), ("s", a[4])))
    if k == "L":
        return ("n", 4, (("i", len(a)),) + up(a))
    if k == "V":
        return ("n", 5, (("i", len(a[0])),) + up(a[0]))
    if k == "A":
        return ("n", 6, (("i", len(a[0])),) + up(a[0]))
    if k == "M":
        return ("n", 7, (t(a[0]),))
    if k == "F":
        return ("n", 8, (t(a[0]), t(a[1])))
    if k == "X":
        if a[0] == "Carry":
            return ("n", 9, (t(a[1]),))
        if a[0] == "Pair":
            return ("n", 10, (("i", a[2]), t(a[1])))
        return ("n", 11, ())
    if k == "W":
        return ("n", 12, (("i", len(a[0])),))
    if k == "C":
        return ("n", 13, (("s", bytes(a[0])),))
    if k == "Z":
        return ("n", 14, (t(force(o)),))
    return ("n", 15, (("s", mlint(a[0])),))


class Hash:
    """hash.c, hash_param 50 500"""
    M = 1 << 64

    def __init__(self):
        self.acc, self.limit, self.count = 0, 500, 50

    def small(self, n):
        self.acc = (self.acc * 19 + n) % self.M

    def val(self, kind, v):
        self.limit -= 1
        if self.count < 0 or self.limit < 0:
            return
        if kind == "int":
            self.count -= 1
            self.acc = (self.acc * 65599 + v) % self.M
        elif kind == "atom":
            self.count -= 1
            self.small(v)
        elif kind == "string":
            self.count -= 1
            for c in v[:128]:
                self.small(c)
            i = 1
            while i + 127 < len(v):
                self.small(v[127 + i])
                i *= 2
        elif kind == "double":
            self.count -= 1
            import struct
            for c in struct.pack("<d", v):
                self.small(c)
        else:
            tag, fields = v
            self.count -= 1
            self.small(tag)
            for f in reversed(fields):
                self.val(*f)

    def et(self, t):
        if t[0] == "i":
            return ("block", (0, [("int", t[1])]))
        if t[0] == "s":
            return ("block", (3, [("string", t[1])]))
        if t[0] == "r":
            return ("block", (2, [("double", t[1])]))
        l = ("atom", 0)
        for x in reversed(t[2]):
            l = ("block", (1, [self.et(x), l]))
        return ("block", (1, [("int", t[1]), l]))


def polyhash(t):
    h = Hash()
    h.val(*h.et(t))
    return h.acc & 0x3FFFFFFF


def cdiv(a, b):
    q = abs(a) // abs(b)
    q = -q if (a < 0) != (b < 0) else q
    return q, a - q * b


PATS = ["([a-c]+)([0-9]*)", "a(b|c)d", "x", "^a+$", "(", "[0-9][0-9]", "(a)|(b)", "b?c"]


def rl(o):
    return o.a[0] / 8.0 if o.k == "R" else float(o.a[0]) if o.k == "I" else 0.5


def ml_exp(t):
    if b"e" in t:
        m, x = t.split(b"e")
        x = x.replace(b"+", b"")
        neg = x.startswith(b"-")
        x = x.lstrip(b"-")
        if x.startswith(b"0"):
            x = x[1:]
        t = m + b"E" + (b"~" if neg else b"") + x
    return t.replace(b"-", b"~")


def makestring(x):
    out = bytearray(b'"')
    for c in x:
        i = b'"\\\a\b\t\n\v\f\r'.find(bytes([c]))
        if i >= 0:
            out += b"\\" + b'"\\abtnvfr'[i:i + 1]
        elif c <= 31:
            out += b"\\^" + bytes([c + 64])
        elif 32 <= c <= 126 or 128 <= c <= 254:
            out.append(c)
        else:
            out += b"\\%03d" % c
    return bytes(out + b'"')


class OOM(Exception):
    pass


class Model:
    def __init__(self):
        self.reset()
        self.named, self.held = {}, {}
        self.ever = set()

    def reset(self):
        self.r = [UNIT] * NREGS
        self.t, self.m = {}, {}
        self.rx = getattr(self, "rx", [None] * 4)
        self.w = [None] * 4
        self.wide = None
        self.f = getattr(self, "f", [None] * 20)

    def roots(self):
        out = list(self.r) + list(self.t.values()) + list(self.m.values())
        for k, v in self.named.items():
            if v is not None:
                out += [x for x in v if isinstance(x, N)]
        return out

    def reachable(self):
        seen = set()
        st = self.roots()
        while st:
            n = st.pop()
            if id(n) in seen:
                continue
            seen.add(id(n))
            st += n.kids()
        return seen

    def nodes(self):
        seen = {}
        st = self.roots()
        while st:
            n = st.pop()
            if id(n) not in seen:
                seen[id(n)] = n
                st += n.kids()
        return seen.values()

    def weak(self, w):
        a = self.w[w % 4]
        return a

    def alive_ok(self, n):
        """n was reported gone"""
        return n is None or (n.k != "U" and id(n) not in self.reachable())

    def killed(self, n):
        for a in self.w:
            if a:
                for i in range(len(a)):
                    if a[i] is n:
                        a[i] = None

    # returns an expected result (bytes), or a checker: function(result) -> error message or None
    def run(self, w):
        op = w[0]
        return getattr(self, "o_" + op)(*w[1:])

    def g(self, s):
        return self.r[int(s) % NREGS]

    def p(self, s, o):
        self.r[int(s) % NREGS] = o
        return b""

    def o_int(self, a, n): return self.p(a, I(int(n)))
    def o_str(self, a, s, n): return self.p(a, N("S", data(int(s), int(n))))
    def o_real(self, a, n): return self.p(a, N("R", int(n)))
    def o_pair(self, a, b, c): return self.p(a, N("P", self.g(b), self.g(c)))
    def o_five(self, a, b, c, d, n): return self.p(a, N("T", self.g(b), self.g(c), int(n), self.g(d), istr(int(n))))

    def o_list(self, a, n, b, c):
        x, y = self.g(b), self.g(c)
        return self.p(a, N("L", *[(x, y, I(i), N("S", istr(i)))[i % 4] for i in range(int(n))]))

    def o_vec(self, a, n, b):
        x = self.g(b)
        return self.p(a, N("V", [x if i % 3 == 0 else I(i) for i in range(int(n))]))

    def o_arr(self, a, n, b): return self.p(a, N("A", [self.g(b)] * int(n)))
    def o_ref(self, a, b): return self.p(a, N("M", self.g(b)))
    def o_clo(self, a, b, c): return self.p(a, N("F", self.g(b), self.g(c)))
    def o_lazy(self, a, b, n): return self.p(a, N("Z", self.g(b), int(n), None))

    def o_exn(self, a, b, n):
        n = int(n)
        x = self.g(b)
        return self.p(a, N("X", "Carry", x) if n == 0 else N("X", "Fail", str_(x)) if n == 1 else N("X", "Pair", x, n))

    def o_bytes(self, a, n, k): return self.p(a, N("W", bytearray([(i * 7 + int(k)) % 256 for i in range(int(n))])))
    def o_chars(self, a, n, k): return self.p(a, N("C", bytearray([(i * 7 + int(k)) % 256 for i in range(int(n))])))
    def o_copy(self, a, b): return self.p(a, self.g(b))
    def o_drop(self, a): return self.p(a, UNIT)

    def first(self, o):
        k, a = o.k, o.a
        if k in "PTMF":
            return a[0]
        if k == "L":
            return a[0] if a else UNIT
        if k in "VA":
            return a[0][0] if a[0] else UNIT
        if k == "X":
            return a[1] if a[0] != "Fail" else UNIT
        if k == "Z":
            return force(o)
        return UNIT

    def o_first(self, a, b): return self.p(a, self.first(self.g(b)))

    def nth(self, o, i):
        k, a = o.k, o.a
        if k == "P":
            return a[i % 2]
        if k == "T":
            return [a[0], a[1], I(a[2]), a[3], N("S", a[4])][i % 5]
        if k == "L":
            return a[i % len(a)] if a else UNIT
        if k in "VA":
            return a[0][i % len(a[0])] if a[0] else UNIT
        if k == "F":
            return self.apply(o, i % 3)
        return self.first(o)

    def apply(self, f, i):
        return f.a[0] if i == 0 else f.a[1] if i == 1 else N("P", f.a[0], I(i))

    def o_nth(self, a, b, i): return self.p(a, self.nth(self.g(b), int(i)))

    def o_upd(self, a, i, b):
        o, x, i = self.g(a), self.g(b), int(i)
        if o.k == "A":
            if o.a[0]:
                o.a[0][i % len(o.a[0])] = x
        elif o.k == "M":
            o.a[0] = x
        elif o.k in "WC":
            if o.a[0]:
                o.a[0][i % len(o.a[0])] = int_(x) % 256
        return b""

    def o_fill(self, a, b):
        o = self.g(a)
        if o.k == "A":
            l = o.a[0]
            for i in range(len(l)):
                l[i] = N("P", I(i), self.g(b))
        return b""

    def o_blit(self, a, b, i):
        o, x, i = self.g(a), self.g(b), int(i)
        if o.k == x.k and o.k in "AC":
            n, m = len(o.a[0]), len(x.a[0])
            if n:
                p = i % n
                l = min(m, n - p)
                o.a[0][p:p + l] = x.a[0][:l]
        return b""

    def o_app(self, a, b, i):
        f = self.g(b)
        if f.k == "F":
            self.p(a, self.apply(f, int(i)))
        return b""

    def o_map(self, a, b):
        o = self.g(b)
        if o.k == "L":
            self.p(a, N("L", *[N("P", x, I(1)) for x in o.a]))
        elif o.k == "V":
            self.p(a, N("V", [N("P", x, I(2)) for x in o.a[0]]))
        elif o.k == "A":
            self.p(a, N("A", [N("P", x, I(3)) for x in o.a[0]]))
        elif o.k == "S":
            self.p(a, N("S", bytes([(c + 1) % 256 for c in o.a[0]])))
        return b""

    def o_append(self, a, b, c):
        x, y = self.g(b), self.g(c)
        if x.k == "L" and y.k == "L":
            return self.p(a, N("L", *(x.a if len(x.a) + len(y.a) > 3000 else x.a + y.a)))
        if x.k == "V" and y.k == "V":
            return self.p(a, N("V", x.a[0] if len(x.a[0]) + len(y.a[0]) > 3000 else x.a[0] + y.a[0]))
        return self.p(a, N("S", (str_(x) + str_(y))[:40000]))

    def o_rev(self, a, b):
        o = self.g(b)
        if o.k == "L":
            self.p(a, N("L", *o.a[::-1]))
        elif o.k == "S":
            self.p(a, N("S", o.a[0][::-1]))
        return b""

    def o_sub(self, a, b, i, n):
        o = self.g(b)
        if o.k == "S":
            m = len(o.a[0])
            p = int(i) % m if m else 0
            self.p(a, N("S", o.a[0][p:p + min(int(n), m - p)]))
        return b""

    def deepcopy(self, d, o):
        if d == 0 or self.copied >= 400:
            return o
        self.copied += 1
        k, a = o.k, o.a
        c = lambda x: self.deepcopy(d - 1, x)
        if k == "P":
            return N("P", c(a[0]), c(a[1]))
        if k == "T":
            return N("T", c(a[0]), c(a[1]), a[2], c(a[3]), a[4])
        if k == "L":
            return N("L", *[c(x) for x in a])
        if k in "VA":
            return N(k, [c(x) for x in a[0]])
        if k in "SR":
            return N(k, a[0])
        return o

    def o_deepcopy(self, a, b):
        self.copied = 0
        return self.p(a, self.deepcopy(3, self.g(b)))

    def o_finger(self, a): return finger(self.g(a))
    def o_eq(self, a, b): return b"true" if tree(4, self.g(a)) == tree(4, self.g(b)) else b"false"
    def o_hash(self, a): return b"%d" % polyhash(tree(4, self.g(a)))

    def o_scmp(self, a, b):
        x, y = str_(self.g(a)), str_(self.g(b))
        return b"l" if x < y else b"e" if x == y else b"g"

    def o_phys(self, a, b):
        x, y = self.g(a), self.g(b)
        if x.k == y.k == "M":
            return b"true" if x.a is y.a else b"false"
        if x.k == y.k == "A":
            return b"true" if x.a[0] is y.a[0] else b"false"
        return b"-"

    def o_tput(self, a, k):
        self.t[k] = self.g(a)
        return b""

    def o_tget(self, a, k):
        if k in self.t:
            self.p(a, self.t[k])
            return b"+"
        return b"none"

    def o_tdel(self, k): return b"+" if self.t.pop(k, None) else b"none"

    def o_mput(self, a, k):
        self.m[int(k)] = self.g(a)
        return b""

    def o_bulk(self, k, n, b):
        x = self.g(b)
        self.m[int(k)] = N("L", *[N("P", x, I(i)) for i in range(int(n))])
        return b""

    def o_mdel(self, k): return b"+" if self.m.pop(int(k), None) else b"none"

    def o_mget(self, a, k):
        if int(k) in self.m:
            self.p(a, self.m[int(k)])
            return b"+"
        return b"none"

    def o_mlist(self): return b"%d" % len(self.m)
    def o_churn(self, n): return b""
    o_churnc = o_churn
    def o_minor(self): return b""
    o_major = o_minor
    def o_gcset(self, *a): return b""

    def o_full(self):
        if any(self.w):
            live = self.reachable()
            for a in self.w:
                for n in a or []:
                    if n is not None:
                        if id(n) in live or n.k == "U":
                            n.fulls = 0
                        else:
                            n.fulls += 1
        return b""

    def o_deep(self, n): return b"%d" % (int(n) * (int(n) + 1) // 2 % MOD)
    def o_deeph(self, n): return b"100"
    def o_deeps(self, n): return b"%d" % int(n)
    def o_over(self, a): return b"Out_of_memory"

    def o_viac(self, a, n, b):
        x = self.g(b)
        for i in range(1, int(n) + 1):
            x = N("P", I(i), x)
        return self.p(a, x)

    def o_viax(self, a, n, b):
        x = self.g(b)
        for i in range(3, int(n) + 1, 3):
            x = N("P", I(i), x)
        self.p(a, x)
        return b"raised"

    def o_viad(self, n, k): return b"%d" % ((int(n) + 1) * (int(k) * (int(k) + 1) // 2) % MOD)
    def o_cc2(self, a, b, c): return self.p(a, N("P", self.g(c), self.g(b)))
    def o_cc3(self, a, b, c, d): return self.p(a, N("L", self.g(d), self.g(c), self.g(b), I(1)))

    def o_cc1f(self, a, n):
        self.p(a, N("P", I(int(n)), self.g(a)))
        return b"raised"

    def o_cmapn(self, a, n, b):
        x = self.g(b)
        return self.p(a, N("L", *[N("P", x, I(i)) if i % 2 == 0 else N("S", istr(i)) for i in reversed(range(int(n)))]))

    def reg(self, k, v):
        if self.named.get(k) is not None:
            return b"!Fail Callback.register: %s already registered" % k.encode()
        self.named[k] = v
        return b""

    def o_reg(self, k, a): return self.reg(k, (self.g(a),))
    o_creg = o_reg
    def o_regf(self, k, a): return self.reg(k, ("L", self.g(a)))
    def o_cregf(self, k, a): return self.reg(k, ("R", self.g(a)))

    def o_unreg(self, k):
        if k not in self.named:
            return b"!Fail Callback.unregister: %s never registered" % k.encode()
        self.named[k] = None
        return b""

    def o_isreg(self, k): return b"true" if self.named.get(k) is not None else b"false"

    def o_getn(self, a, k):
        if self.named.get(k) is None:
            return b"none"
        self.p(a, self.named[k][0])
        return b"+"

    def fapply(self, v, y):
        return N("P", v[1], y) if v[0] == "L" else N("P", y, v[1])

    def o_calln(self, a, k, b):
        if self.named.get(k) is None:
            return b"none"
        self.p(a, self.fapply(self.named[k], self.g(b)))
        return b"+"

    def o_hold(self, i, k):
        self.held[int(i)] = k if self.named.get(k) is not None else None
        return b"true" if self.held[int(i)] else b"false"

    def o_callh(self, a, i, b):
        k = self.held.get(int(i))
        if k is None:
            return b"not held"
        v = self.named[k]
        if v is None:
            return b"callbackptr: ML value has been unregistered"
        self.p(a, self.fapply(v, self.g(b)))
        return b"+"

    # ---- weak
    def o_wnew(self, w, n):
        self.w[int(w) % 4] = [None] * int(n)
        return b""

    def o_wmore(self, n): return b""

    def o_fset(self, i, a):
        x = self.g(a)
        if x.k != "B":
            return b"-"
        self.f[int(i) % 20] = x
        return b"+"

    def o_fget(self, i):
        i = int(i) % 20

        def see(r):
            n = self.f[i]
            if r == b"dead":
                if n is not None and id(n) in self.reachable():
                    return "reported gone although the object is reachable"
                self.f[i] = None
            elif n is None or r != mlint(n.a[0]):
                return "the element reads as %r" % r[:60]
        return see

    def o_wide(self, k, n):
        k, n = int(k), int(n)
        d = sum(1 for i in range(n) if k > 0 and i % (n // (k + 1) + 1) == 0)
        self.wide = n - d + d * n
        return b""

    def o_wsum(self): return b"none" if self.wide is None else b"%d" % self.wide

    def o_wdrop(self):
        self.wide = None
        return b""

    def o_args(self): return b"%d+" % self.nargs

    def slot(self, w, i):
        a = self.w[int(w) % 4]
        return None if a is None else (a, int(i) % len(a))

    def o_wset(self, w, i, a):
        s = self.slot(w, i)
        if s is None:
            return b"!Fail noweak"
        s[0][s[1]] = self.g(a)
        self.g(a).fulls = 0
        return b""

    def seen(self, s, r, dead, good, take=None):
        n = s[0][s[1]]
        if r == dead:
            if not self.alive_ok(n):
                return "reported gone although the object is reachable"
            if n is not None:
                self.killed(n)
            return None
        if n is None:
            return "an element that was gone or never set reads as %r" % r[:40]
        if n.k != "U" and n.fulls >= 2 and id(n) not in self.reachable():
            return "still there after %d full collections since it became unreachable" % n.fulls
        if not good(n):
            return "the element reads as %r instead of the object that was stored" % r[:40]
        if take is not None:
            self.p(take, n)
        n.fulls = 0
        return None

    def o_wget(self, w, i):
        s = self.slot(w, i)
        if s is None:
            return b"!Fail noweak"
        return lambda r: self.seen(s, r, b"dead", lambda n: r == finger(n))

    def o_wtake(self, a, w, i):
        s = self.slot(w, i)
        if s is None:
            return b"!Fail noweak"
        return lambda r: self.seen(s, r, b"dead", lambda n: r == finger(n), a)

    def o_wdead(self, w, i):
        s = self.slot(w, i)
        if s is None:
            return b"!Fail noweak"

        def chk(r):
            n = s[0][s[1]]
            f = n.fulls if n is not None else 0
            e = self.seen(s, r, b"true", lambda n: r == b"false")
            if n is not None and not e:
                n.fulls = f
            return e
        return chk

    def o_wall(self, w):
        a = self.w[int(w) % 4]
        if a is None:
            return b"!Fail noweak"

        def chk(r):
            f, _, m = r.partition(b" ")
            if f != b"0":
                return "going through the array in different ways gives different elements (%r)" % f[:20]
            if len(m) != len(a):
                return "the array has %d elements" % len(m)
            for i in range(len(a)):
                e = self.seen((a, i), b"dead" if m[i] == 45 else b"+", b"dead", lambda n: True)
                if e:
                    return "element %d: %s" % (i, e)
        return chk

    def o_wsame(self, w, i, a):
        s = self.slot(w, i)
        if s is None:
            return b"!Fail noweak"
        y = self.g(a)

        def good(n):
            if n.k == y.k == "M":
                return r0[0] == (b"true" if n.a is y.a else b"false")
            if n.k == y.k == "A":
                return r0[0] == (b"true" if n.a[0] is y.a[0] else b"false")
            return r0[0] == b"-"
        r0 = [None]

        def chk(r):
            r0[0] = r
            return self.seen(s, r, b"dead", good)
        return chk

    # ---- big integers
    def o_big(self, a, s): return self.p(a, N("B", int(s.replace("~", "-"))))
    def o_badd(self, a, b, c): return self.p(a, N("B", big(self.g(b)) + big(self.g(c))))
    def o_bsub(self, a, b, c): return self.p(a, N("B", big(self.g(b)) - big(self.g(c))))

    def o_bmul(self, a, b, c):
        x, y = big(self.g(b)), big(self.g(c))
        return self.p(a, N("B", x if len(str(x)) + len(str(y)) > 600 else x * y))

    def o_bdiv(self, a, b, c):
        x, y = big(self.g(b)), big(self.g(c))
        if y == 0:
            return b"Div"
        return self.p(a, N("B", x // y))

    def o_bquot(self, a, b, c):
        x, y = big(self.g(b)), big(self.g(c))
        if y == 0:
            return b"!Div"
        q, r = cdiv(x, y)
        return self.p(a, N("P", N("B", q), N("B", r)))

    def o_bcmp(self, a, b):
        x, y = big(self.g(a)), big(self.g(b))
        return b"l" if x < y else b"e" if x == y else b"g"

    def o_bneg(self, a, b): return self.p(a, N("B", -big(self.g(b))))
    def o_bpow(self, a, n): return self.p(a, N("B", (int_(self.g(a)) % 1000) ** int(n)))
    def o_bstr(self, a): return mlint(big(self.g(a)))

    def o_fac(self, a, n):
        r = 1
        for i in range(1, int(n) + 1):
            r *= i
        return self.p(a, N("B", r))

    # ---- library functions written in C
    def o_fmt(self, a, n): return (b"%.*f" % (int(n), rl(self.g(a)))).replace(b"-", b"~")

    def o_sci(self, a, n): return ml_exp(b"%.*e" % (int(n), rl(self.g(a))))

    def o_rstr(self, a):
        t = ml_exp(b"%.12g" % rl(self.g(a)))
        return t if b"." in t or b"E" in t else t + b".0"

    def o_rscan(self, a, x):
        self.p(a, N("R", float(x.replace("~", "-")) * 8))
        return b"+"

    def o_mks(self, a): return self.p(a, N("S", makestring(str_(self.g(a)))))
    def o_md5(self, a): return base64.b64encode(hashlib.md5(str_(self.g(a))).digest())[:22]

    def o_msg(self, a):
        x = self.g(a)
        if x.k != "X":
            return b""
        if x.a[0] != "Fail":
            return x.a[0].encode()
        return (b"Fail: " + x.a[1].split(b"\0")[0])[:255]

    def o_pack(self, a, n):
        import struct
        self.p(a, N("R", int(n)))
        return b"".join(b"%X," % c for c in struct.pack(">d", int(n) / 8.0))

    def o_math(self, k, a):
        x, k = abs(rl(self.g(a))), int(k) % 4
        return b"%.6f" % (math.sqrt(x), math.atan(x), math.log(x + 1.0), (x / (x + 1.0)) ** 2.0)[k]

    def o_rcomp(self, i, p):
        if PATS[int(p) % len(PATS)] == "(":
            return b"bad"
        self.rx[int(i) % 4] = PATS[int(p) % len(PATS)]
        return b"+"

    def o_rdrop(self, i):
        self.rx[int(i) % 4] = None
        return b""

    def showm(self, pat, s):
        m = re.search(pat, s)
        if m is None:
            return b"none"
        return "".join((m.group(j) or "") + "," for j in range(pat.count("(") + 1)).encode()

    def o_rexec(self, i, s): return b"norx" if self.rx[int(i) % 4] is None else self.showm(self.rx[int(i) % 4], s)

    def o_rbool(self, i, s):
        r = self.rx[int(i) % 4]
        return b"norx" if r is None else b"true" if re.search(r, s) else b"false"

    def o_rtok(self, i, s):
        r = self.rx[int(i) % 4]
        if r is None:
            return b"norx"
        out, p = [], 0
        for m in re.finditer(r, s) if r[0] != "^" else []:     # ^ and $ match nothing here
            out.append(s[p:m.start()])
            p = m.end()
        return "".join(x + "," for x in out + [s[p:]]).encode()

    def o_rmatch(self, p, s):
        p = PATS[int(p) % len(PATS)]
        return b"bad" if p == "(" else self.showm(p, s)
    o_rone = o_rmatch

    def o_spin(self, *a): return b"0"
    o_iospin = o_regspin = o_rxspin = o_rxbad = o_spin
    def o_msgspin(self, n): return b"%d" % (31 * int(n))
    def o_unslot(self): return b""

    def o_sum(self): return b"".join(finger(x) + b"," for x in self.r)

    def o_reset(self):
        self.reset()
        return b""

    def o_ctl(self, *a): return lambda r: None


class Heap(Engine):
    name = "gc"
    groups_quick = 500
    real = ["runtime system (memory.c, minor_gc.c, major_gc.c, freelist.c, alloc.c, roots.c, stacks.c, interp.c, mosml.c, str.c, compare.c, hash.c, callback.c)",
            "library units as compiled by the tree's own compiler", "dynlibs/intinf with libgmp"]
    stub = ["the operating system's memory: placement and refusal are the simulator's choice"]
    assumptions = COMMON_ASSUME
    minorsizes = [1, 1, 1, 8192, 32768, None]          # in words; the runtime raises 1 to its minimum
    tolerate_oom = False
    verify_every = [1, 1, 7]

    def prepare(self):
        self.b.compile_driver("heap", [VERIF + "/drv/Sim.sml", VERIF + "/drv/GcDrv.sml"])
        return ["LOAD /bin/heap %s/heap 755" % self.b.drv]

    # ---- operations
    def basic(self, rng):
        R = lambda: rng.randrange(NREGS)
        sz = lambda: rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 30, 100, 255, 256, 257, 300, 1000, 3000])
        small = lambda: rng.choice([0, 1, 2, 3, 4, 5, 8, 20, 60])
        txt = lambda: "".join(rng.choice("aabbccddx0129") for _ in range(rng.choice([1, 2, 5, 20, 60])))
        t = {
            "int": lambda: (R(), rng.choice([0, 1, -1, 1000, -77777, 2 ** 40])), "str": lambda: (R(), rng.randrange(10 ** 6), sz()), "real": lambda: (R(), rng.randrange(-10 ** 6, 10 ** 6)),
            "pair": lambda: (R(), R(), R()), "five": lambda: (R(), R(), R(), R(), rng.randrange(1000)), "list": lambda: (R(), small(), R(), R()),
            "vec": lambda: (R(), sz(), R()), "arr": lambda: (R(), sz(), R()), "ref": lambda: (R(), R()), "clo": lambda: (R(), R(), R()),
            "lazy": lambda: (R(), R(), rng.randrange(100)), "exn": lambda: (R(), R(), rng.randrange(4)), "bytes": lambda: (R(), sz(), rng.randrange(256)),
            "chars": lambda: (R(), sz(), rng.randrange(256)), "copy": lambda: (R(), R()), "drop": lambda: (R(),), "first": lambda: (R(), R()), "nth": lambda: (R(), R(), rng.randrange(300)),
            "upd": lambda: (R(), rng.randrange(300), R()), "fill": lambda: (R(), R()), "blit": lambda: (R(), R(), rng.randrange(300)), "app": lambda: (R(), R(), rng.randrange(4)),
            "map": lambda: (R(), R()), "append": lambda: (R(), R(), R()), "rev": lambda: (R(), R()), "sub": lambda: (R(), R(), rng.randrange(300), rng.randrange(300)),
            "deepcopy": lambda: (R(), R()), "finger": lambda: (R(),), "eq": lambda: (R(), R()), "hash": lambda: (R(),), "scmp": lambda: (R(), R()), "phys": lambda: (R(), R()),
            "tput": lambda: (R(), "k%d" % rng.randrange(30)), "tget": lambda: (R(), "k%d" % rng.randrange(30)), "tdel": lambda: ("k%d" % rng.randrange(30),),
            "bulk": lambda: (rng.randrange(40), rng.choice([30, 300, 1500]), R()), "mdel": lambda: (rng.randrange(40),),
            "mput": lambda: (R(), rng.randrange(40)), "mget": lambda: (R(), rng.randrange(40)), "mlist": lambda: (),
            "churn": lambda: (rng.choice([10, 100, 1000, 3000]),), "churnc": lambda: (rng.choice([10, 100, 1000]),), "minor": lambda: (), "major": lambda: (), "full": lambda: (),
            "gcset": lambda: (rng.choice([2000, 15000, 32000, 65536]), rng.choice([512, 1024, 2000, 4096, 16384]), rng.choice([1, 10, 18, 40, 80, 100, 200])),
            "deep": lambda: (rng.choice([10, 1000, 4000, 20000]),), "deeph": lambda: (rng.choice([50, 60, 1000, 2000, 9000]),), "deeps": lambda: (rng.choice([10, 1000, 5000, 30000]),),
            "over": lambda: (R(),),
            "viac": lambda: (R(), rng.choice([1, 2, 5, 30]), R()), "viax": lambda: (R(), rng.choice([1, 2, 3, 7, 30]), R()), "viad": lambda: (rng.choice([1, 3, 10]), rng.choice([10, 500, 3000])),
            "cc2": lambda: (R(), R(), R()), "cc3": lambda: (R(), R(), R(), R()), "cc1f": lambda: (R(), rng.randrange(100)), "cmapn": lambda: (R(), rng.choice([0, 1, 2, 10, 50]), R()),
            "reg": lambda: ("o%d" % rng.randrange(4), R()), "regf": lambda: ("f%d" % rng.randrange(4), R()), "creg": lambda: ("o%d" % rng.randrange(4), R()), "cregf": lambda: ("f%d" % rng.randrange(4), R()),
            "unreg": lambda: (rng.choice("of") + "%d" % rng.randrange(4),), "isreg": lambda: (rng.choice("of") + "%d" % rng.randrange(4),), "getn": lambda: (R(), "o%d" % rng.randrange(4)),
            "calln": lambda: (R(), "f%d" % rng.randrange(4), R()), "hold": lambda: (rng.randrange(3), "f%d" % rng.randrange(4)), "callh": lambda: (R(), rng.randrange(3), R()),
            "wmore": lambda: (rng.choice([3, 8, 15, 40]),), "fset": lambda: (rng.randrange(20), R()), "fget": lambda: (rng.randrange(20),),
            "wide": lambda: (rng.choice([0, 1, 1, 2, 3]), rng.choice([3000, 9500, 10000, 18000, 20000])), "wsum": lambda: (), "wdrop": lambda: (),
            "wall": lambda: (rng.randrange(4),), "wnew": lambda: (rng.randrange(4), rng.choice([1, 2, 5, 20, 300])), "wset": lambda: (rng.randrange(4), rng.randrange(300), R()), "wget": lambda: (rng.randrange(4), rng.randrange(300)),
            "wtake": lambda: (R(), rng.randrange(4), rng.randrange(300)), "wdead": lambda: (rng.randrange(4), rng.randrange(300)), "wsame": lambda: (rng.randrange(4), rng.randrange(300), R()),
            "big": lambda: (R(), rng.choice(["", "~"]) + str(rng.randrange(1, 10 ** rng.choice([1, 5, 19, 20, 60])))), "badd": lambda: (R(), R(), R()), "bsub": lambda: (R(), R(), R()),
            "bmul": lambda: (R(), R(), R()), "bdiv": lambda: (R(), R(), R()), "bquot": lambda: (R(), R(), R()), "bcmp": lambda: (R(), R()), "bneg": lambda: (R(), R()),
            "bpow": lambda: (R(), rng.randrange(0, 30)), "bstr": lambda: (R(),), "fac": lambda: (R(), rng.choice([1, 5, 20, 40, 80])), "fmt": lambda: (R(), rng.randrange(12)), "sci": lambda: (R(), rng.randrange(12)), "rstr": lambda: (R(),), "rscan": lambda: (R(), rng.choice(["1.5", "~2.25", "0.125", "1000.0", "12345.625"])),
            "mks": lambda: (R(),), "md5": lambda: (R(),), "msg": lambda: (R(),), "pack": lambda: (R(), rng.randrange(-10 ** 6, 10 ** 6)), "math": lambda: (rng.randrange(4), R()),
            "rcomp": lambda: (rng.randrange(4), rng.randrange(8)), "rdrop": lambda: (rng.randrange(4),), "rexec": lambda: (rng.randrange(4), txt()), "rbool": lambda: (rng.randrange(4), txt()),
            "rtok": lambda: (rng.randrange(4), txt()), "rmatch": lambda: (rng.randrange(8), txt()), "rone": lambda: (rng.randrange(8), txt()),
            "sum": lambda: (), "reset": lambda: (),
        }
        return t

    build = ["int", "str", "real", "pair", "five", "list", "vec", "arr", "ref", "clo", "lazy", "exn", "bytes", "chars", "copy", "drop"]
    work = ["first", "nth", "upd", "upd", "fill", "blit", "app", "map", "append", "rev", "sub", "deepcopy", "tput", "tget", "tdel", "mput", "mget", "mlist", "bulk", "mdel", "eq", "hash", "scmp", "phys"]
    collect = ["churn", "churnc", "minor", "major", "full"]
    conv = ["cc2", "cc3", "cc1f", "cmapn", "viac", "viax"]
    stack = ["deep", "deeph", "deeps", "viad"]
    weak = ["wall", "wset", "wset", "wget", "wtake", "wdead", "wsame", "wnew", "wmore", "fset", "fget"]
    bigs = ["big", "big", "badd", "bsub", "bmul", "bdiv", "bquot", "bcmp", "bneg", "bpow", "bstr", "fac"]
    names = ["reg", "regf", "creg", "cregf", "unreg", "isreg", "getn", "calln", "hold", "callh"]

    lib = ["fmt", "sci", "rstr", "rscan", "mks", "md5", "msg", "pack", "math"]
    regex = ["rcomp", "rcomp", "rdrop", "rexec", "rexec", "rbool", "rtok", "rmatch", "rone"]

    def mix(self, rng):
        """list of (group, weight)"""
        return [(self.build, 8), (self.work, 8), (self.collect, 2), (self.conv, 1), (self.stack, 0.5), (self.weak, 1), (self.bigs, 1), (self.names, 1), (self.lib, 1.5), (self.regex, 1)]

    def length(self, rng):
        return rng.choice([5, 15, 40, 80])

    def ops(self, rng):
        t = self.basic(rng)
        mix = [(g, w * rng.choice([0, 1, 1, 3])) for g, w in self.mix(rng)]
        mix[0] = (mix[0][0], max(mix[0][1], 2))
        groups = []
        for g, w in mix:                 # swarm: each run leaves out part of each group
            g2 = [x for x in g if rng.random() < 0.7] or g[:1]
            groups.append((g2, w))
        out = []
        n = self.length(rng)
        if any(g is not None and w and g[0][0] == "w" for g, w in groups):
            for i in range(4):
                out.append("wnew %d %d" % (i, rng.choice([1, 2, 5, 20])))
        for i in range(n):
            g = rng.choices([x[0] for x in groups], [x[1] for x in groups])[0]
            o = rng.choice(g)
            if o in ("hold", "callh", "unreg") and rng.random() < .4:
                # C keeps the pointer while the name is given up and used again
                k, h, R = "f%d" % rng.randrange(4), rng.randrange(6), lambda: rng.randrange(NREGS)
                out += [rng.choice(["regf %s %d", "cregf %s %d"]) % (k, R()), "hold %d %s" % (h, k)] + ["callh %d %d %d" % (R(), h, R())] * rng.randrange(2) + ["unreg " + k] \
                    + ["callh %d %d %d" % (R(), h, R())] * rng.randrange(2) + ["full"] * rng.randrange(2) + [rng.choice(["regf %s %d", "cregf %s %d"]) % (k, R()), "callh %d %d %d" % (R(), h, R()), "calln %d %s %d" % (R(), k, R())]
                continue
            out.append(" ".join(str(x) for x in (o,) + tuple(t[o]())))
            if rng.random() < 0.12:
                out.append("sum")
            if rng.random() < 0.1:
                out.append("finger %d" % rng.randrange(NREGS))
        out.append("sum")
        return out

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.ops["d"] = ["%d %s" % (j + 1, o) for j, o in enumerate(self.ops(rng))]
        c.opts["verify"] = 1
        c.opts["verify_every"] = rng.choice(self.verify_every)
        m = rng.choice(self.minorsizes)
        p = []
        if m:
            p.append("s=%d" % m)
        if rng.random() < 0.6:
            p.append("i=%d" % rng.choice([1, 1, 4096, 8192, 32768]))
        if rng.random() < 0.5:
            p.append("o=%d" % rng.choice([1, 5, 18, 50, 90]))
        if p:
            c.env["CAMLRUNPARAM"] = ",".join(p)
        c.opts["arm"] = 1
        c.script = ["run name=d -- /bin/camlrunm /bin/heap"]
        c.meta["kind"] = "s=%s" % m
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        x = rng.random()
        if x < 0.75:
            c.cls["gc"] = [1, 0, 1 << 40, 1 << 40]          # the rate follows from the length of the run
        if x > 0.4:
            c.cls["slice"] = [rng.choice([10000, 100000, 400000, 900000]), 0, 1 << 40, 1 << 40]
        if rng.random() < 0.6:
            c.cls["place"] = [rng.choice([300000, 1000000]), 0, 1 << 40, 1 << 40]
        if k % 3 == 2:
            pid = r0.pid("d")
            c.D += pick_targets(rng, {pid: r0.counts.get(pid, {})}, ["gc"], rng.randrange(1, 12))
            c.cls.pop("gc", None)
        return c

    def judge(self, case, r):
        ops = case.ops["d"]
        log = r.log("d")
        m = Model()
        m.nargs = case.meta.get("nargs", 0)
        st = r.status("d")
        for j, o in enumerate(ops):
            w = o.split()
            if j >= len(log):
                return self.ended(case, r, j, st)
            got = log[j]
            if self.tolerate_oom and got == b"!Out_of_memory":
                e = self.oom(m, w[1:], j, o)
                if e:
                    return [e]
                continue
            try:
                want = m.run(w[1:])
            except Exception as ex:
                return [("simfail", "model: %s on %s" % (ex, o))]
            if callable(want):
                e = want(got)
                if e:
                    return ["op %s: %s" % (o, e)]
            elif want != got:
                return ["op %s: %r instead of %r" % (o, got[:80], want[:80])]
            e = self.after(case, m, w[1:], got)
            if e:
                return [e]
        if len(log) != len(ops) + 1 or st != 0:
            return self.ended(case, r, len(ops), st)
        return []

    def after(self, case, m, w, got):
        return None

    def oom(self, m, w, j, o):
        return None

    def ended(self, case, r, j, st):
        return ["the program ended with status %s before operation %d (%r)" % (st, j, r.files.get("/out/d.err", b"")[:100])]


class Transparent(Heap):
    wides = ["wide", "wsum", "wsum", "wsum", "wdrop"]

    def mix(self, rng):
        return Heap.mix(self, rng) + [(self.wides, rng.choice([0, 0, 0, 1.5]))]

    def gen(self, rng, i):
        c = Heap.gen(self, rng, i)
        if rng.random() < .03:          # more arguments than the table of young pointers was made for
            m = rng.choice([8192, 16384, 32768])
            n = rng.choice([m // 8 + 100, m // 8 + 300, m // 8 + 1300, m // 8 + 3000, 8000])
            c.env["CAMLRUNPARAM"] = "s=%d" % m
            c.meta["nargs"] = n
            c.script = [c.script[0] + "".join(" a%d" % k for k in range(n))]
            c.ops["d"] = ["0 args"] + c.ops["d"] + ["9999 args"]
        return c


class WeakPtr(Heap):
    def mix(self, rng):
        return [(self.build, 5), (self.work, 2), (self.collect, 4), (self.weak, 10), (["fset", "fget", "big", "fac", "drop", "bneg"], rng.choice([0, 0, 6])), (["drop", "drop", "ref", "arr"], 4), (["bulk", "bulk", "bulk", "mdel", "pair", "ref"], rng.choice([0, 0, 4, 8]))]


    def ops(self, rng):
        x = rng.random()
        if x < 0.45:
            return Heap.ops(self, rng)
        if x < 0.65:
            # much live data, so that marking takes long; values only weak pointers lead to are taken up again while it goes on
            R, W = lambda: rng.randrange(NREGS), lambda: "%d %d" % (rng.randrange(4), rng.randrange(10))
            out = ["wnew %d 10" % i for i in range(4)] + ["str 0 7 5", "real 1 77"] + ["bulk %d %d 0" % (i, rng.choice([300, 1500])) for i in range(rng.choice([2, 6, 12]))]
            for i in range(rng.choice([30, 60, 100])):
                y = rng.random()
                if y < .35:
                    a = R()
                    out += [rng.choice(["ref %d %d" % (a, R()), "pair %d %d %d" % (a, R(), R()), "int %d %d" % (a, i), "str %d %d 5" % (a, i), "real %d %d" % (a, i)]), "wset %s %d" % (W(), a), "drop %d" % a]
                elif y < .7:
                    out += ["wtake %d %s" % (R(), W()) for _ in range(rng.choice([1, 3]))]
                elif y < .95:
                    out.append("churn %d" % rng.choice([10, 30, 100, 300]))
                else:
                    out.append(rng.choice(["minor", "sum", "bulk %d 300 0" % rng.randrange(12), "full"]))
            return out + ["sum", "full", "sum"]
        # a growing heap with weak pointers to what has just been allocated
        out = ["wnew %d %d" % (i, rng.choice([1, 5, 20])) for i in range(4)]
        for i in range(rng.choice([10, 40, 80])):
            a = rng.randrange(NREGS)
            out.append(rng.choice(["ref %d %d", "pair %d %d %d", "arr %d 3 %d", "ref %d %d"]).replace("%d", "{}").format(a, rng.randrange(NREGS), 0))
            out.append("wset %d %d %d" % (rng.randrange(4), rng.randrange(20), a))
            if rng.random() < .8:
                out.append("bulk %d %d %d" % (i, rng.choice([30, 100, 300, 1000]), a))
            if rng.random() < .2:
                out.append("mdel %d" % rng.randrange(i + 1))
            if rng.random() < .3:
                out.append("drop %d" % rng.randrange(NREGS))
            out.append(rng.choice(["wget %d %d", "wdead %d %d"]) % (rng.randrange(4), rng.randrange(20)))
        return out + ["sum"]


class Callbacks(Heap):
    def mix(self, rng):
        return [(self.build, 5), (self.work, 2), (self.collect, 3), (self.conv, 8), (self.names, 10), (self.stack, 1)]


class Stack(Heap):
    minorsizes = [8192, 32768, 65536, None, None]
    verify_every = [20, 100]

    def mix(self, rng):
        return [(self.build, 4), (self.work, 2), (self.collect, 1), (self.stack, 8), (["over"], 0.5), (self.conv, 3)]

    def length(self, rng):
        return rng.choice([3, 6, 12])


class Foreign(Heap):
    real = Heap.real + ["dynlibs/mregex with its regex-0.12"]

    def mix(self, rng):
        return [(self.build, 2), (self.work, 3), (self.collect, 3), (self.bigs, 12), (self.regex, 5), (["drop"], 3)]

    done = ["reset"] + ["rdrop %d" % i for i in range(4)] + ["unslot", "full", "full", "ctl !lib"]

    def ops(self, rng):
        x = rng.random()
        if x < 0.2:                     # long loops that keep few values
            out = ["ctl !lib"]
            for i in range(rng.choice([1, 2, 4])):
                out.append(rng.choice(["rxspin %d", "spin 5 %d 20 1", "spin 5 %d 500 2", "rxbad %d"]) % rng.choice([500, 3000, 12000]))
                out.append("ctl !lib")
            return out + self.done
        out = ["ctl !lib"]
        for o in Heap.ops(self, rng):
            out.append(o)
            if o == "full" or rng.random() < 0.05:
                out += ["full", "ctl !lib"]
        return out + self.done

    def after(self, case, m, w, got):
        if w[0] != "ctl":
            m.last = w[0]
            return None
        n, k = map(int, got.split())
        if not hasattr(m, "base"):
            m.base = (n, k)
            return None
        if m.last == "full":            # everything unreachable has been released
            live = m.nodes()
            top = m.base[1] + 2 * sum(1 for x in live if x.k == "B") + 4 * sum(1 for x in m.rx if x)
            if k > top:
                return "after a full collection C memory holds %d blocks (%d bytes); at most %d belong to reachable values" % (k, n, top)
            if not m.rx.count(None) < 4 and not any(x.k == "B" for x in live) and (n, k) != m.base:
                return "with nothing left alive C memory holds %d bytes in %d blocks instead of %d in %d" % (n, k, m.base[0], m.base[1])
        elif k > 200000 or n > 200 * 1024 * 1024:
            return "a program that keeps few values holds %d bytes of C memory in %d blocks" % (n, k)
        return None


class Space(Heap):
    """C02.  Bounds: with the space overhead at most 80 the heap never needs more than
    FACTOR times the reachable data plus the slack of two minor heaps and three increments."""
    minorsizes = [1, 8192, 32768]
    verify_every = [50]
    groups_quick = 300

    def ops(self, rng):
        x = rng.random()
        if x < 0.5:
            out = Heap.ops(self, rng)[:rng.choice([0, 0, 10, 30])]
            kind = rng.choice(list(range(12)) + [99] * 4)
            k = rng.choice([5, 50, 500, 2000])
            n = rng.choice([1000, 3000, 8000])
            for i in range(rng.choice([6, 8, 12])):
                out += ["spin %d %d %d %d" % (kind, n, k, rng.randrange(1000)), "ctl !heap", "ctl mem"]
                if rng.random() < 0.1:
                    out += [rng.choice(["minor", "major", "full"])]
            return out + ["unslot", "full", "ctl !heap"]
        if x < 0.65:                    # a heap full of small blocks must serve large ones afterwards
            out = ["spin %d 20000 20000 3" % rng.choice([0, 4, 8]), "ctl !heap", "unslot", "full", "ctl !heap"]
            out += ["spin %d 600 30 4" % rng.choice([2, 9, 11]), "ctl !heap frag"]
            return out
        if x < 0.8:
            o = rng.choice(["iospin 60", "regspin 3000", "rxspin 400", "rxbad 400", "msgspin 400", "deep 20000", "deeph 9000", "deeps 30000", "viac 1 200 2", "viad 10 3000", "cmapn 1 500 2", "fac 1 300", "wnew 1 3000", "tput 1 k"])
            out = []
            for i in range(rng.choice([8, 12])):
                out += [o] * 3 + ["ctl !heap", "ctl mem"]
            return out
        out = []
        for o in Heap.ops(self, rng):
            out.append(o)
            if o == "full" or rng.random() < 0.05:
                out += ["full", "ctl !heap"]
        return out

    def gen(self, rng, i):
        c = Heap.gen(self, rng, i)
        if "o=90" in c.env.get("CAMLRUNPARAM", ""):
            c.env["CAMLRUNPARAM"] = c.env["CAMLRUNPARAM"].replace("o=90", "o=18")
        return c

    def judge(self, case, r):
        e = Heap.judge(self, case, r)
        if e:
            return e
        ops = [o.split()[1:] for o in case.ops["d"]]
        log = r.log("d")
        par = dict(x.split("=") for x in case.env.get("CAMLRUNPARAM", "").split(",") if x)
        ov = int(par.get("o", 18))
        word = 8
        minor = max(int(par.get("s", 32768)), 4096) * word
        incr = max(int(par.get("i", 32768)), 4096) * word
        factor = FACTOR[0] if ov <= 50 else FACTOR[1]
        heaps, mems, reach, prev = [], [], 0, None
        for o, l in zip(ops, log):
            if o[:2] == ["ctl", "!heap"]:
                b, free, live, rch, chunks, phase = map(int, l.split())
                reach = max(reach, rch * word)
                if prev == ["full"]:
                    if live - rch > 400:
                        return ["after a full collection %d words are live but only %d reachable" % (live, rch)]
                if o[2:] == ["frag"] and heaps[-1][1] * word > 1000000:
                    if b > heaps[-1][0] + FRAG * heaps[-1][1] * word + 3 * incr:
                        return ["with %d of %d bytes free the heap grew to %d bytes for a few blocks" % (heaps[-1][1] * word, heaps[-1][0], b)]
                heaps.append((b, free, live))
                top = 3 * incr + factor * (reach + 2 * minor + (50000 if ops[0][0] == "spin" else 500000))
                if b > top and "gcset" not in [x[0] for x in ops]:
                    return ["the heap has %d bytes although at most %d were ever reachable (bound %d, overhead %d)" % (b, reach, top, ov)]
            elif o[:2] == ["ctl", "mem"]:
                mems.append(int(l.split()[0]))
            if o[0] != "ctl":
                prev = o
        if len(mems) >= 6 and "gcset" not in [x[0] for x in ops]:
            early, late = max(mems[:len(mems) // 2]), max(mems[len(mems) // 2:])
            self.seen_growth = max(getattr(self, "seen_growth", 0), (late - early) / (incr + minor + 0.5 * early))
            if late > 1.7 * early + 3 * incr + 2 * minor + 100000 and ov <= 80:
                return ["memory in use went from %d to %d bytes while the program repeated the same work" % (early, late)]
        return []


FACTOR = (6, 12)
FRAG = 0.2


class NoMem(Heap):
    """C12: any request for memory may be refused."""
    tolerate_oom = True
    groups_quick = 400
    real = Foreign.real
    # operations that change the machine in several steps are left out: a refusal in the middle shows
    skip = {"fill", "tput", "tdel", "wtake", "over", "reset", "wnew", "fset", "fget", "wmore", "wdrop"}

    def mix(self, rng):
        return [(self.build, 8), (self.work + ["bulk", "bulk"], 8), (self.collect, 3), (self.conv, 1.5), (self.stack, 1), (self.weak, 1), (self.bigs, 2), (self.lib, 2), (self.regex, 2), (["gcset"], 0.3)]

    def ops(self, rng):
        out = [o for o in Heap.ops(self, rng) if o.split()[0] not in self.skip]
        if rng.random() < 0.3:
            at = rng.randrange(len(out))
            out[at:at] = ["ctl memlimit %d" % rng.choice([10 ** 6, 2 * 10 ** 6, 4 * 10 ** 6])] + ["bulk %d %d 1" % (i, rng.choice([1500, 3000])) for i in range(rng.choice([5, 30]))]
        return out + ["ctl faults off", "ctl memlimit 2000000000", "full", "sum"] + [o for o in Heap.ops(self, rng)[:20] if o.split()[0] not in self.skip] + ["sum"]

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        pid = r0.pid("d")
        if k % 3 == 0:
            c.cls["malloc"] = [rng.choice([20000, 200000, 1000000]), 0, 1 << 40, rng.choice([1, 3, 1 << 40])]
            c.cls["lmalloc"] = [rng.choice([3000, 30000]), 0, 1 << 40, 1 << 40]
        else:
            c.D += pick_targets(rng, {pid: r0.counts.get(pid, {})}, [rng.choice(["malloc", "lmalloc"])], rng.randrange(1, 4))
        if rng.random() < 0.5:
            c.cls["gc"] = [1, 0, 1 << 40, 1 << 40]
        if rng.random() < 0.3:
            c.cls["slice"] = [rng.choice([10000, 400000]), 0, 1 << 40, 1 << 40]
        return c

    def oom(self, m, w, j, o):
        return None

    def judge(self, case, r):
        log = r.log("d")
        ops = [o.split()[1:] for o in case.ops["d"]]
        if len(log) < len(ops):
            err = r.files.get("/out/d.err", b"")
            if r.status("d") == 512 and any(x in err for x in FATAL):
                return self.prefix(case, r, len(log))
            if log and log[-1] == b"!Out_of_memory in the main loop":
                return self.prefix(case, r, len(log) - 1)
        elif ["ctl", "faults", "off"] in ops:
            k = ops.index(["ctl", "faults", "off"])
            if any(l == b"!Out_of_memory" for l in log[k + 2:]):
                return ["Out_of_memory although the system has memory again"]
        return Heap.judge(self, case, r)

    def prefix(self, case, r, n):
        c = case.clone()
        c.ops["d"] = c.ops["d"][:n]
        e = Heap.judge(self, c, r)
        return [x for x in e if not (isinstance(x, str) and x.startswith("the program ended"))]


FATAL = (b"out of memory", b"page table", b"not enough memory", b"cannot grow weak_arrays", b"alloc_shr: expand heap failed", b"ref_table overflow", b"Out_of_memory", b"No memory", b"No room")
