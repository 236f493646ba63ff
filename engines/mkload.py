"""generates a program with n constants of each kind, and what it must log"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"))
from simlib import data, fp


def strlit(b):
    return '"' + "".join("\\%03d" % c if c < 32 or c > 126 or c in (34, 92) else chr(c) for c in b) + '"'


def program(n):
    out = ["open Sim nonfix o", 'val () = log "begin"', 'val () = log (ctl "fds")', 'val () = log (ctl "!verify")',
           "val () = List.app log (CommandLine.arguments ())", 'val () = log (fp "x")']
    want = [b"begin", b"3", b"ok", None, fp(b"x")]
    k = 0
    while k < n:
        m = min(100, n - k)
        strs = [data(k + j, (k + j) % 37) for j in range(m)]
        out.append("val l%d = [%s]" % (k, ", ".join(strlit(s) for s in strs)))
        ints = [((k + j) * 7919 ** (j % 4)) % (1 << 30) for j in range(m)]
        out.append("val i%d = #[%s]" % (k, ", ".join("(%d, %d.5)" % (x, x % 1000) for x in ints)))
        out.append('fun f%d () = (log (fp (String.concat l%d)); log (Int.toString (Vector.foldl (fn ((a, r), s) => (a + s + floor (r * 2.0)) mod 1000003) 0 i%d)))' % (k, k, k))
        out.append("val () = f%d ()" % k)
        f = fp(b"".join(strs))
        want.append(f)
        s = 0
        for x in ints:
            s = (x + s + (x % 1000) * 2 + 1) % 1000003
        want.append(b"%d" % s)
        k += m
    out.append('val () = print "printed\\n"')
    out.append('val () = log "end"')
    want.append(b"end")
    return "\n".join(out) + "\n", want
