"""Families of compilation units whose linked program shows an inconsistency.

Unit k depends on some earlier units.  The interface of a unit has a variant
(which constructors its datatype has, which fields its record has: this decides
constructor tags and field positions in code using it) and an implementation
number, which does not change the interface."""

NAMES = ["Aa", "Bb", "Cc", "Dd", "Ee"]
EXTRA = ["Aaa", "Mmm", "Zzz", "Qqq", "B0", "Pa"]
FIELDS = ["a1", "b1", "c1", "z1", "m1"]


class Src:
    def __init__(self, iface, impl, syntax_error=False):
        self.iface, self.impl, self.err = iface, impl, syntax_error

    def key(self):
        return [self.iface, self.impl, self.err]


def iface_parts(v):
    ex = [e for j, e in enumerate(EXTRA) if v >> j & 1]
    fl = [e for j, e in enumerate(FIELDS) if v >> (j % 3) & 1 and j < 4]
    return ex, fl


def decls(v, impl):
    ex, fl = iface_parts(v)
    cons = ["P0", "P1 of int", "Q0", "Q1 of string"] + [e if j % 2 else e + " of int" for j, e in enumerate(ex)]
    if v & 32:
        cons.reverse()
    fields = ["k = %d" % 7, "s = \"str\""] + ["%s = %d" % (x, j) for j, x in enumerate(fl)]
    t = "datatype t = %s\n" % " | ".join(cons)
    t += "exception X of int\n"
    t += "val all = [ P0 , P1 5 , Q0 , Q1 \"q\" ]\n"
    t += "fun name P0 = \"P0\" | name (P1 5) = \"P1\" | name Q0 = \"Q0\" | name (Q1 \"q\") = \"Q1\" | name _ = \"?\"\n"
    t += "val r = { %s }\n" % " , ".join(fields)
    t += "val impl = %d\n" % impl
    if v & 1:
        t += "val first = 1\nfun extra x = x + %d\n" % impl
    t += "val last = \"last\"\n"
    return t


def sig(v):
    ex, fl = iface_parts(v)
    cons = ["P0", "P1 of int", "Q0", "Q1 of string"] + [e if j % 2 else e + " of int" for j, e in enumerate(ex)]
    if v & 32:
        cons.reverse()
    t = "datatype t = %s\nexception X of int\n" % " | ".join(cons)
    t += "val all : t list\nval name : t -> string\n"
    t += "val r : { k : int , s : string %s }\n" % "".join(" , %s : int" % x for x in fl)
    t += "val impl : int\n"
    if v & 1:
        t += "val first : int\nval extra : int -> int\n"
    t += "val last : string\n"
    return t


def source(k, deps, names, s, named=False):
    """text of unit k; it prints one line when it runs"""
    t = "\n(* %s *)\n" % names[k]
    for d in deps:
        U = names[d]
        t += ("fun show%d %s.P0 = \"P0\" | show%d (%s.P1 5) = \"P1\" | show%d %s.Q0 = \"Q0\" | show%d (%s.Q1 \"q\") = \"Q1\" | show%d _ = \"?\"\n" % (d, U, d, U, d, U, d, U, d))
        t += "fun ck%d [] = 0 | ck%d (x :: xs) = (if show%d x = %s.name x then 0 else 1) + ck%d xs\n" % (d, d, d, U, d)
        t += "val n%d = ck%d %s.all + (if #s %s.r = \"str\" andalso #k %s.r = 7 andalso %s.last = \"last\" then 0 else 100)\n" % (d, d, U, U, U, U)
        t += "  + ((raise %s.X 3) handle %s.X 3 => 0 | _ => 1000) + (if %s.name (%s.P1 5) = \"P1\" andalso %s.name %s.Q0 = \"Q0\" then 0 else 10)\n" % (U, U, U, U, U, U)
    t += decls(s.iface, s.impl)
    t += "val _ = print (\"unit %s %d" % (names[k], s.impl)
    for d in deps:
        t += " %s:\" ^ Int.toString %s.impl ^ \" \" ^ Int.toString n%d ^ \"" % (names[d], names[d], d)
    t += ";\\n\")\n"
    if 0 < s.err < 5:
        t += {1: "val x : int = \"s\"\n", 2: "val x = (1, \n", 3: "val x = Nosuchunit.y\n", 4: "val x = \"\\q\"\n"}[s.err]
    if named:
        t = "structure %s = struct\n%send\n" % (names[k], t)
    return t


def order(deps, main):
    """units in the order in which they run"""
    out = []

    def go(k):
        for d in deps[k]:
            go(d)
        if k not in out:
            out.append(k)
    go(main)
    return out
