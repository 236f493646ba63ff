"""random SML source texts"""
import re


def strlit(rng, n, plain=False):
    out = []
    while len(out) < n:
        x = rng.random()
        if plain or x < .7:
            out.append(rng.choice("abcXYZ 0189_(*)[]{};,.:!$#&|~^%"))
        elif x < .8:
            out.append(rng.choice(["\\n", "\\t", "\\\\", '\\"', "\\a", "\\r", "\\^A", "\\^Z", "\\^["]))
        elif x < .95:
            out.append("\\%03d" % rng.randrange(256))
        else:
            out.append("\\ \n\t \\")
    return '"' + "".join(out) + '"'


def comment(rng, n, depth=2):
    s = "(*"
    while len(s) < n:
        x = rng.random()
        if x < .1 and depth:
            s += comment(rng, rng.choice([2, 5, 40]), depth - 1)
        elif x < .15:
            s += rng.choice(['"', "'", "\\", "\n", "**", "( *", "* )", '"a string"', "#\"c\""])
        else:
            s += rng.choice("abc xyz 012 ()*".replace("*", "").replace("(", "").replace(")", ""))
    return s + " *)"


def ident(rng, n):
    return rng.choice("abcxyz") + "".join(rng.choice("abcdefgXYZ0123456789_'") for _ in range(n))


def fragment(rng, k, names, structs=True):
    """declarations that compile, printing something; names: identifiers k, of ints"""
    v = "v%d" % k if rng.random() < .8 else "v%d_" % k + ident(rng, rng.choice([3, 30, 200]))
    old = rng.choice(names) if names else "7"
    n = rng.choice([0, 1, 5, 42, 255, 256, 65535, 65536, 1073741823, 4611686018427387903])
    f = rng.randrange(26)
    while f in (11, 12) and not structs:
        f = rng.randrange(26)
    if f == 0:
        t = "val %s = %d + ( %s mod 1000 )" % (v, n % 1000, old)
    elif f == 1:
        t = "fun %s_f x = if x > 0 then x mod 7 + %s_f ( x - 2 ) else ~ %d val %s = %s_f ( %s mod 50 )" % (v, v, n % 100, v, v, old)
    elif f == 2:
        c = ["K%d_%d" % (k, j) for j in range(rng.choice([1, 2, 3, 10, 40]))]
        t = "datatype d%d = %s val d%d_l = [ %s ] fun d%d_f x = case x of %s val %s = foldl ( fn ( x , s ) => d%d_f x + s ) 0 d%d_l" % (
            k, " | ".join(x + (" of int" if j % 2 else "") for j, x in enumerate(c)), k, " , ".join(x + (" %d" % j if j % 2 else "") for j, x in enumerate(c)), k,
            " | ".join("%s%s => %d" % (x, " y" if j % 2 else "", j * 3) for j, x in enumerate(c)), v, k, k)
    elif f == 3:
        s = strlit(rng, rng.choice([0, 1, 10, 100, 100, 1000, 3000]))
        t = "val %s_s = %s val %s = size %s_s val _ = print %s_s" % (v, s, v, v, v)
    elif f == 4:
        t = "val %s = let val a = %d and b = { x = %s , y = \"q\" } in #x b + a mod 3 end" % (v, n % 77, old)
    elif f == 5:
        t = "exception E%d of int val %s = ( if %s >= 0 then raise E%d %d else 1 ) handle E%d x => x + 1 | Overflow => 2" % (k, v, old, k, n % 999, k)
    elif f == 6:
        t = "local fun g ( x , y :: l ) = x + y + g ( x , l ) | g ( x , [ ] ) = x in val %s = g ( 1 , [ %s ] ) end" % (v, " , ".join(str(rng.randrange(1000)) for _ in range(rng.choice([0, 1, 10, 200]))))
    elif f == 7:
        t = "val %s = ord #\"%s\" + ord #\"\\n\" + ord #\"\\065\"" % (v, rng.choice("aZ0 +"))
    elif f == 8:
        t = "val %s = Word.toInt ( Word.andb ( 0wx%X , 0w%d ) )" % (v, rng.randrange(1 << 20), rng.randrange(1 << 20))
    elif f == 9:
        t = "val %s_r = %d.%d%s * 1.25E~2 val _ = print ( Real.toString %s_r ) val %s = floor ( ~ 0.5 + 3.0 )" % (v, rng.randrange(100), rng.randrange(1000), rng.choice(["", "e2", "E~1", "e~3"]), v, v)
    elif f == 10:
        t = "infix %d +++%d fun x +++%d y = x * 2 + y val %s = 3 +++%d 4 +++%d ( %s mod 9 )" % (rng.randrange(10), k, k, v, k, k, old)
        t = t.replace("+++%d" % k, "+" * (2 + k % 3) + "|" * (1 + k // 3))
    elif f == 11:
        t = "structure S%d = struct val x = %s type t = int * string val y : t = ( x mod 5 , \"s\" ) end val %s = # 1 S%d.y" % (k, old, v, k)
    elif f == 12:
        t = "structure T%d :> sig type t val mk : int -> t val un : t -> int end = struct type t = int fun mk x = x + 1 fun un x = x end val %s = T%d.un ( T%d.mk %s mod 10 )" % (k, v, k, k, "3") if False else \
            "structure T%d :> sig type t val mk : int -> t val un : t -> int end = struct type t = int fun mk x = x + 1 fun un x = x end val %s = T%d.un ( T%d.mk %d )" % (k, v, k, k, n % 100)
    elif f == 13:
        t = "val %s_a = Array.tabulate ( %d , fn i => i * i ) val _ = Array.update ( %s_a , 0 , %d ) val %s = Array.foldl op + 0 %s_a" % (v, rng.choice([1, 5, 100]), v, n % 50, v, v)
    elif f == 14:
        t = "val %s_r = ref %d val _ = while ! %s_r > 0 do %s_r := ! %s_r div 2 val %s = ! %s_r" % (v, n % 5000, v, v, v, v, v)
    elif f == 15:
        t = "fun %s_m 0 y = y | %s_m x ( y as z ) = %s_m ( x - 1 ) ( z + y ) val %s = %s_m 3 %d" % (v, v, v, v, v, n % 99)
    elif f == 16:
        t = "val ( %s , _ , [ %s_c , _ ] ) = ( %d , ( ) , [ 1 , 2 ] ) val %s_t = case ( %s , %s_c ) of ( 0 , _ ) => \"z\" | ( 255 , x ) => \"b\" | _ => \"o\" val _ = print %s_t" % (v, v, n, v, v, v, v)
    elif f == 17:
        t = "val %s = ( fn { a , b = ( c , _ ) , ... } : { a : int , b : int * bool , z : unit } => a + c ) { z = ( ) , a = %d , b = ( 2 , true ) }" % (v, n % 1000)
    elif f == 18:
        t = "abstype ab%d = A%d of int with fun mk%d x = A%d x fun un%d ( A%d x ) = x end val %s = un%d ( mk%d %d )" % (k, k, k, k, k, k, v, k, k, n)
    elif f == 19:
        t = "val %s = case \"%s\" of \"a\" => 1 | \"bb\" => 2 | %s => 3 | _ => 4" % (v, rng.choice(["a", "bb", "c"]), strlit(rng, rng.choice([3, 50, 2000]), True))
    elif f == 20:
        t = "val rec %s_g = fn 0 => 1 | x => x * %s_g ( x - 1 ) val %s = %s_g %d andalso_free" % (v, v, v, v, n % 12)
        t = t.replace(" andalso_free", "")
    elif f == 21:
        t = "val %s = if %s > 1 andalso not ( %s = 3 ) orelse false then 0x%x else ~ 0x1F" % (v, old, old, rng.randrange(1 << 28))
    elif f == 22:
        t = "type 'a p%d = 'a * 'a val %s_p : int p%d = ( %d , 2 ) val %s = op + %s_p" % (k, v, k, n % 1000, v, v)
    elif f == 23:
        t = "val %s = length [ %s ]" % (v, " , ".join("( \"%s\" , %d , 0.5 )" % (ident(rng, 3), rng.randrange(99)) for _ in range(rng.choice([1, 30, 300]))))
    elif f == 24:
        t = "val %s = size ( String.concat [ %s ] )" % (v, " , ".join(strlit(rng, rng.choice([0, 3, 30])) for _ in range(rng.choice([1, 5, 40]))))
    else:
        t = "datatype 'a tr%d = Lf | Br of 'a tr%d * 'a * 'a tr%d fun mk%d_ 0 = Lf | mk%d_ n = Br ( mk%d_ ( n - 1 ) , n , Lf ) fun su%d Lf = 0 | su%d ( Br ( a , x , b ) ) = su%d a + x + su%d b val %s = su%d ( mk%d_ %d )" % (
            k, k, k, k, k, k, k, k, k, k, v, k, k, n % 20)
    names.append(v)
    return t + " val _ = print ( Int.toString %s ^ \"\\n\" )" % v


ERRORS = ["val e = 1 + \"a\"", "val e = unbound_name", "val e = ", "fun f ( x = 1", "val s = \"unterminated", "val x = 1 (* unterminated", "val c = #\"ab\"", "structure X : sig val y : int end = struct end",
          "val e = 99999999999999999999", "val s = \"\\999\"", "datatype t = A of int val A y = A \"s\"", "case 1 of 2 => 3 end", "val e = let in end end", "raise 5", "val \x01 = 2", "val x : nosuch = 3", "open Nosuch", "fun f 1 = 2 | g 2 = 3", "val s = \"\\q\""]
WARNS = ["fun w%d 1 = 2", "fun w%d x = case x of 1 => 2 | 1 => 3", "fun w%d x = x | w%d _ = 3", "val ( w%d , 3 ) = ( 1 , 3 )"]

TOK = re.compile(r'"(?:[^"\\]|\\\s+\\|\\.)*"|[^\s"]+|\s+', re.S)


def program(rng, n, bad=False, structs=True):
    names, parts = [], []
    for k in range(n):
        parts.append(fragment(rng, k, names, structs))
    if rng.random() < .3 or bad:
        for _ in range(rng.choice([1, 3])):
            w = rng.choice(WARNS)
            parts.insert(rng.randrange(len(parts) + 1), w.replace("%d", str(1000 + rng.randrange(9))))
    if bad:
        parts.insert(rng.randrange(len(parts) + 1), rng.choice(ERRORS))
    return "\n".join(parts) + "\n"


def tokens(text):
    """tokens as separated by white space outside strings"""
    out, cur = [], ""
    for m in TOK.finditer(text):
        t = m.group(0)
        if t.isspace():
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += t
    if cur:
        out.append(cur)
    return out


def pad(rng, text, amount):
    """the same tokens with different white space and comments between them; amount: bytes added in all"""
    toks = tokens(text)
    gaps = [" "] * len(toks)
    left = amount
    while left > 0:
        k = rng.choice([1, 2, 5, 20, 100, 500, 1000, 3000])
        k = min(k, left)
        j = rng.randrange(len(toks))
        x = rng.random()
        if x < .5:
            gaps[j] += rng.choice([" ", "\n", "\t"]) * k
        elif x < .6:
            gaps[j] += "\n" * 1 + " " * (k - 1)
        elif k > 4:
            gaps[j] += comment(rng, k - 3) + " "
        else:
            gaps[j] += " " * k
        left -= k
    out = []
    for g, t in zip(gaps, toks):
        out.append(g)
        out.append(t)
    return "".join(out) + rng.choice(["", "\n", " ", "(* end *)"])
