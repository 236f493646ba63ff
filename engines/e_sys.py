"""C24: file system operations.  C23: clocks."""
import errno as E, datetime
import re
from core import *
from simlib import *


def make(b, prop):
    return (FS if prop == "C24" else Clock)(b, prop)


class Node:
    def __init__(self, t, mode=0o644, data=b""):
        self.t, self.mode, self.data, self.ents, self.parent, self.nlink, self.mtime, self.uid = t, mode, data, {}, None, 1, None, 1000

    def may(self, b):
        m = self.mode >> 6 if self.uid == 1000 else self.mode
        return m & b == b


class Err(Exception):
    pass


class Tree:
    """a file system as POSIX describes it"""

    def __init__(self):
        self.root = Node("d", 0o755)
        self.root.parent = self.root
        self.cwd = self.root

    def put(self, path, n):
        d = self.root
        c = [x for x in path.split("/") if x]
        for x in c[:-1]:
            d = d.ents[x]
        d.ents[c[-1]] = n
        if n.t == "d":
            n.parent = d
        return n

    def walk(self, path, follow, depth=0, base=None):
        """(node or None, errno, parent, last)"""
        if path == "":
            return None, E.ENOENT, None, None
        if len(path) >= 4096:
            return None, E.ENAMETOOLONG, None, None
        if depth > 8:
            return None, E.ELOOP, None, None
        d = self.root if path[0] == "/" else (base or self.cwd)
        trail = len(path) > 1 and path[-1] == "/"
        comp = [x for x in path.split("/") if x]
        par, last = d, "."
        for k, x in enumerate(comp):
            fin = k + 1 == len(comp)
            if d.t != "d":
                return None, E.ENOTDIR, None, None
            if not d.may(1):
                return None, E.EACCES, None, None
            if len(x) > 255:
                return None, E.ENAMETOOLONG, None, None
            n = d if x == "." else d.parent if x == ".." else d.ents.get(x)
            par, last = d, x
            if n is None:
                return None, E.ENOENT, (par if fin else None), last
            if n.t == "l" and (not fin or follow or trail):
                m, e, pp, ll = self.walk(n.data.decode("latin-1"), True, depth + 1, d)
                if m is None:
                    return None, e, (pp if fin else None), ll
                n = m
                if fin:
                    par, last = pp, ll
            if fin and trail and n.t != "d":
                return None, E.ENOTDIR, None, None
            d = n
        return d, 0, par, last

    def get(self, path, follow=True):
        n, e, p, l = self.walk(path, follow)
        if n is None:
            raise Err(e)
        return n

    def pathof(self, d):
        r = ""
        while d is not self.root:
            nm = [k for k, v in d.parent.ents.items() if v is d]
            r = "/" + (nm[0] if nm else "?") + r
            d = d.parent
        return r or "/"

    def dead(self, d):
        while d is not self.root:
            if d.nlink == 0:
                return True
            d = d.parent
        return False


PATHS = ["a", "b", "d", "d/e", "d/e/f", "d/x", "l", "l/x", "lf", "ll", "dang", "loop", "loop/x", "a/x", "nope", "nope/x", ".", "..", "d/", "a/", "d/.", "d/..", "d//x", "./d/../a", "/w/d/e", "/w/a", "/", "%", "q", "q/r", "ro", "ro/x", "no", "no/x", "new1", "new2", "d/new3", "d/e/../x", "l/", "lf/", "fifo", "sp%20ace", "n" * 300, "z" * 250, "w%e9ird", "..x", "d/...", ".h", "d/..x/../x", "wo", "xo", "wx", "rx", "rx/x"]
DEEP = "D" * 200 + "/" + "E" * 180


LIST = ["d", ".", "/w", "many", "d/e", "q", "l", "nope", "a", "ro"]


class FS(Engine):
    name = "fs"
    groups_quick = 5000
    real = ["runtime system (sys.c, mosml.c, unix.c, fail.c)", "FileSys, Path, OS, Nonstdio"]
    stub = ["kernel: one file system in memory with POSIX semantics and injected errors"]
    assumptions = ["errors are injected at the system call and leave the file system unchanged, as POSIX requires; another process may change the tree between operations"]

    def prepare(self):
        self.b.compile_driver("sys", [VERIF + "/drv/Sim.sml", VERIF + "/drv/SysDrv.sml"])
        return ["LOAD /bin/sys %s/sys 755" % self.b.drv]

    def setup(self):
        s = ["mkdir /w", "write /w/a aaaa", "write /w/b", "mkdir /w/d", "mkdir /w/d/e", "write /w/d/e/f %s" % esc(data(3, 100)), "write /w/d/x xx", "symlink d /w/l", "symlink a /w/lf", "symlink l /w/ll",
             "symlink nowhere /w/dang", "symlink loop /w/loop", "mkdir /w/q", "mkdir /w/ro 555", "write /w/ro/x r 444", "mkdir /w/no 000", "fifo /w/fifo", "write /w/sp%20ace s 755", "symlink /w/d/e/f /w/abs", "write /w/w%e9ird w", "write /w/..x h", "mkdir /w/d/...", "write /w/.h h",
              "write /w/wo w 222", "write /w/xo x 111", "write /w/wx wx 333", "mkdir /w/rx 555", "write /w/rx/x x 555", "mkdir /w/" + "D" * 200, "mkdir /w/" + DEEP, "write /w/" + DEEP + "/x deep"]
        return s

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        P = lambda: rng.choice(PATHS if rng.random() < .8 else PATHS[:12])
        ops = []
        names = ["access", "getDir", "isDir", "mkDir", "chDir", "fullPath", "realPath", "isLink", "readLink", "fileId", "rmDir", "modTime", "fileSize", "remove", "rename", "setTime", "tmpName", "openDir", "readDir", "rest", "rewind", "closeDir", "list", "mlist", "mkfile", "exists"]
        pool = names if rng.random() < .4 else rng.sample(names, 8) + ["mkDir", "mkfile", "list"]
        base = rng.choice([0, 0, 1])
        for j in range(rng.choice([5, 15, 40])):
            o = rng.choice(pool)
            if o in ("readDir", "rest", "rewind", "closeDir") and rng.random() < 0.2:
                ops.append("openDir %d %s" % (rng.randrange(4), rng.choice(["d", ".", "d/e", "q", "many"])))
            a = {"access": lambda: "%s %s" % (P(), rng.choice(["-", "r", "w", "x", "rw", "rx", "wx", "rwx"])), "getDir": lambda: "", "tmpName": lambda: "", "fileId": lambda: P() + " " + P(), "rename": lambda: P() + " " + P(),
                 "setTime": lambda: P() + " " + rng.choice(["now", "1000000000000000", "1500000", "86400000000", "-86400000000", "4000000000000000"]), "openDir": lambda: "%d %s" % (rng.randrange(4), rng.choice(["d", ".", "d/e", "q", "l", "a", "nope", "no", "/w", "many", "many"])),
                 "readDir": lambda: "%d" % rng.randrange(4), "rest": lambda: "%d" % rng.randrange(4), "rewind": lambda: "%d" % rng.randrange(4), "closeDir": lambda: "%d" % rng.randrange(4), "mkfile": lambda: P() + " %d" % rng.choice([0, 1, 100, 5000]), "chDir": lambda: rng.choice([DEEP, "d", "..", ".", "/w", "/w", "d/e", "l", "a", "nope", "q"]),
                 "list": lambda: rng.choice(LIST), "mlist": lambda: rng.choice(LIST)}.get(o, P)()
            ops.append((o + " " + a).strip())
            if o == "setTime" and rng.random() < .6:
                ops.append("modTime " + a.split()[0])
            if o == "chDir" and rng.random() < .3:
                ops.append("getDir")
            if rng.random() < .08:
                ops.append("ctl advance %d" % rng.choice([10 ** 9, 10 ** 12]))
        ops = [o for o in ops if not o.startswith(("mkfile fifo", "exists fifo", "rename fifo"))]
        ops += ["chDir /w", "list .", "list d", "ctl fds", "getDir"]
        c.ops["d"] = ["%d %s" % (j + 1, o) for j, o in enumerate(ops)]
        many = rng.choice([0, 3, 40])
        c.meta["many"] = many
        c.script = self.setup() + ["mkdir /w/many"] + ["write /w/many/%s%d %d" % (rng.choice("ff.") * rng.randrange(1, 4), k, k) for k in range(many)]
        c.opts["arm"] = 1
        c.script += ["run name=d cwd=/w -- /bin/camlrunm /bin/sys"]
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        B = 1 << 40
        if rng.random() < .6:
            c.cls["shuf"] = [1000000, 0, B, B]
        if k % 2:
            c.cls["err_meta"] = [rng.choice([20000, 150000]), 0, B, B]
        else:
            c.D += pick_targets(rng, {r0.pid("d"): r0.counts.get(r0.pid("d"), {})}, ["err_meta", rng.choice(["err_meta", "err_r", "err_open", "eintr", "syssig"])], rng.randrange(1, 4))
        if rng.random() < .3:
            c.cls["gc"] = [rng.choice([300, 3000, 20000]), 0, B, B]
        if rng.random() < .15:
            c.opts["maxfd"] = rng.choice([4, 5, 6, 7])
        return c

    def initial(self, case):
        t = Tree()
        for s in case.script:
            w = s.split()
            p = unesc(w[1]).decode("latin-1") if len(w) > 1 else ""
            if w[0] == "mkdir":
                t.put(p, Node("d", int(w[2], 8) if len(w) > 2 else 0o755))
            elif w[0] == "write":
                t.put(p, Node("f", int(w[3], 8) if len(w) > 3 else 0o644, unesc(w[2]) if len(w) > 2 else b""))
            elif w[0] == "symlink":
                t.put(unesc(w[2]).decode("latin-1"), Node("l", 0o777, unesc(w[1])))
            elif w[0] == "fifo":
                t.put(p, Node("p", 0o666))
        for x in ("/tmp", "/bin", "/dev", "/home", "/out"):
            t.put(x, Node("d", 0o777))
        t.cwd = t.root.ents["w"]
        return t

    def judge(self, case, r):
        ops = [o.split()[1:] for o in case.ops["d"]]
        log = r.log("d")
        st = r.status("d")
        self.t = self.initial(case)
        self.dirs = [None] * 4
        self.orphans = 0
        self.now = []
        free = {k: r.cls.get(k, (0, 0))[1] for k in ("err_meta", "err_r", "err_open", "syssig")}
        emfile = case.opts.get("maxfd")
        base_fds = None
        for j, w in enumerate(ops):
            if j >= len(log):
                if free["syssig"] > 0 and st == 512:
                    return []
                return ["the program ended with status %s before operation %s (%r)" % (st, " ".join(w), r.files.get("/out/d.err", b"")[:100])]
            got = log[j].decode("latin-1")
            if w[0] == "ctl":
                if w[1] == "fds":
                    want = 3 + sum(1 for d in self.dirs if d and d["open"])
                    lost = sum(1 for d in self.dirs if d and d["open"] and d.get("dup"))
                    have = len(got.split(",")) if "," in got else int(got)
                    if have != want + self.orphans:
                        return ["%d descriptors are open, expected %d" % (have, want + self.orphans)]
                continue
            if got.startswith("!"):
                if got == "!Interrupt" and free["syssig"] > 0:
                    return []
                inj = {"!SysErr %d" % e for e in (E.EIO, E.EACCES, E.ENOMEM, E.EMFILE, E.ENFILE, E.EINTR)}
                want = self.expect(w, got, trial=True)
                if w[0] == "mkfile" and got == "!SysErr -":
                    got = want if want[0] == "!" else "!SysErr 24"        # (basic streams do not report the reason)
                if got == "!SysErr 5" and free["err_r"] > 0 and w[0] in ("readDir", "rest", "list", "mlist"):
                    free["err_r"] -= 1
                    if w[0] == "rest" and self.dirs[int(w[1])]:
                        self.dirs[int(w[1])]["lost"] = True
                    continue
                if want == got:
                    self.expect(w, got)
                    continue
                if got == "!SysErr %d" % E.EMFILE and emfile and w[0] in ("openDir", "list", "mlist", "mkfile", "exists"):
                    if w[0] == "openDir":
                        self.drop(int(w[1]))
                    continue
                if got in inj and (free["err_meta"] > 0 or free["err_open"] > 0 and w[0] in ("mkfile", "exists")) and w[0] not in ("readDir", "rest", "rewind", "closeDir"):
                    free["err_open" if w[0] in ("mkfile", "exists") and free["err_open"] > 0 else "err_meta"] -= 1
                    if w[0] == "openDir":
                        self.drop(int(w[1]))
                    continue
                return ["op %d %s: %r instead of %r" % (j + 1, " ".join(w), got, want)]
            if w[0] == "access" and free["err_meta"] > 0 and got == "false" or w[0] == "exists" and got == "false" and free["err_meta"] > 0 and (free["err_open"] > 0 or emfile):
                continue
            want = self.expect(w, got)
            if want != got:
                return ["op %d %s: %r instead of %r" % (j + 1, " ".join(w), got[:100], want[:100])]
        if len(log) != len(ops) + 1 or st != 0:
            return ["the program ended with status %s (%r)" % (st, r.files.get("/out/d.err", b"")[:100])]
        return []

    orphans = 0

    def drop(self, i):
        if self.dirs[i] and self.dirs[i]["open"]:
            self.orphans += 1
        self.dirs[i] = None

    def expect(self, w, got, trial=False):
        try:
            return getattr(self, "x_" + w[0])(w[1:], got, trial)
        except Err as e:
            return "!SysErr %d" % e.args[0]

    U = staticmethod(lambda s: unesc(s).decode("latin-1"))

    def x_access(self, w, got, trial):
        n = self.t.walk(self.U(w[0]), True)[0]
        bits = (4 if "r" in w[1] else 0) | (2 if "w" in w[1] else 0) | (1 if "x" in w[1] else 0)
        return "true" if n is not None and n.may(bits) else "false"

    def x_exists(self, w, got, trial):
        n = self.t.walk(self.U(w[0]), True)[0]          # (it opens the file)
        return "true" if n is not None and n.may(4) else "false"

    def x_getDir(self, w, got, trial):
        if self.t.dead(self.t.cwd):
            raise Err(E.ENOENT)
        return self.t.pathof(self.t.cwd)

    def x_isDir(self, w, got, trial):
        return "true" if self.t.get(self.U(w[0])).t == "d" else "false"

    def x_mkDir(self, w, got, trial):
        p = self.U(w[0])
        while len(p) > 1 and p[-1] == "/":
            p = p[:-1]
        n, e, par, last = self.t.walk(p, False)
        if n is not None:
            raise Err(E.EEXIST)
        if e != E.ENOENT or par is None:
            raise Err(e)
        if not par.may(3):
            raise Err(E.EACCES)
        if not trial:
            n = Node("d", 0o755)
            n.parent = par
            par.ents[last] = n
            par.mtime = None
        return "+"

    def x_chDir(self, w, got, trial):
        n = self.t.get(self.U(w[0]))
        if n.t != "d":
            raise Err(E.ENOTDIR)
        if not n.may(1):
            raise Err(E.EACCES)
        if not trial:
            self.t.cwd = n
        return "+"

    def full(self, p):
        n, e, par, last = self.t.walk(p, True)
        if n is None:
            raise Err(e)
        if n.t == "d":
            return self.t.pathof(n)
        s = self.t.pathof(par)
        return (s if s != "/" else "") + "/" + last

    def x_fullPath(self, w, got, trial):
        return self.full(self.U(w[0]))

    def x_realPath(self, w, got, trial):
        p = self.U(w[0])
        f = self.full(p)
        if p[0] == "/":
            return f
        if self.t.dead(self.t.cwd):
            raise Err(E.ENOENT)
        a, b = [x for x in f.split("/") if x], [x for x in self.t.pathof(self.t.cwd).split("/") if x]
        k = 0
        while k < min(len(a), len(b)) and a[k] == b[k]:
            k += 1
        x = "/".join([".."] * (len(b) - k) + a[k:]) or "."
        return got if not b and got == "../" + x else x      # (in the root directory: its parent is itself)

    def x_isLink(self, w, got, trial):
        return "true" if self.t.get(self.U(w[0]), False).t == "l" else "false"

    def x_readLink(self, w, got, trial):
        n = self.t.get(self.U(w[0]), False)
        if n.t != "l":
            raise Err(E.EINVAL)
        return n.data.decode("latin-1")

    def x_fileId(self, w, got, trial):
        a = self.t.get(self.U(w[0]))
        return "same" if a is self.t.get(self.U(w[1])) else "other"

    def x_rmDir(self, w, got, trial):
        n, e, par, last = self.t.walk(self.U(w[0]), False)
        if n is None:
            raise Err(e)
        if n.t != "d":
            raise Err(E.ENOTDIR)
        if last == ".":
            raise Err(E.EBUSY if n is self.t.root else E.EINVAL)
        if last == "..":
            raise Err(E.ENOTEMPTY)
        if n.ents:
            raise Err(E.ENOTEMPTY)
        if not par.may(3):
            raise Err(E.EACCES)
        if not trial:
            del par.ents[last]
            par.mtime = None
            n.nlink = 0
        return "+"

    def x_modTime(self, w, got, trial):
        n = self.t.get(self.U(w[0]))
        if n.mtime is None:
            return got if got.replace("-", "").isdigit() else "a time"
        return "%d" % n.mtime

    def x_setTime(self, w, got, trial):
        n = self.t.get(self.U(w[0]))
        if not trial:
            n.mtime = None if w[1] == "now" else int(int(w[1]) / 10 ** 6) * 10 ** 6
        return "+"

    def x_fileSize(self, w, got, trial):
        n = self.t.get(self.U(w[0]))
        return "4096" if n.t == "d" else "%d" % len(n.data)

    def x_remove(self, w, got, trial):
        n, e, par, last = self.t.walk(self.U(w[0]), False)
        if n is None:
            raise Err(e)
        if n.t == "d":
            raise Err(E.EISDIR)
        if not par.may(3):
            raise Err(E.EACCES)
        if not trial:
            del par.ents[last]
            par.mtime = None
        return "+"

    def x_rename(self, w, got, trial):
        i, e, pa, la = self.t.walk(self.U(w[0]), False)
        if i is None:
            raise Err(e)
        q = self.U(w[1])
        if i.t == "d":
            while len(q) > 1 and q[-1] == "/":
                q = q[:-1]
        j, e, pb, lb = self.t.walk(q, False)
        if j is None and (e != E.ENOENT or pb is None):
            raise Err(e)
        if not pa.may(3) or not pb.may(3):
            raise Err(E.EACCES)
        if la in (".", "..") or lb in (".", ".."):
            raise Err(E.EBUSY)
        if i is j:
            return "+"
        if i.t == "d":
            d = pb
            while True:
                if d is i:
                    raise Err(E.EINVAL)
                if d is self.t.root:
                    break
                d = d.parent
        if j is not None:
            if j.t == "d" and i.t != "d":
                raise Err(E.EISDIR)
            if j.t != "d" and i.t == "d":
                raise Err(E.ENOTDIR)
            if j.t == "d" and j.ents:
                raise Err(E.ENOTEMPTY)
        if not trial:
            if j is not None:
                del pb.ents[lb]
                j.nlink = 0 if j.t == "d" else j.nlink
            del pa.ents[la]
            pa.mtime = pb.mtime = None
            pb.ents[lb] = i
            if i.t == "d":
                i.parent = pb
        return "+"

    def x_tmpName(self, w, got, trial):
        return "fresh"

    def x_openDir(self, w, got, trial):
        if not trial:
            self.drop(int(w[0]))
        n = self.t.get(self.U(w[1]))
        if n.t != "d":
            raise Err(E.ENOTDIR)
        if not n.may(4):
            raise Err(E.EACCES)
        if not trial:
            self.dirs[int(w[0])] = {"n": n, "open": True, "snap": dict(n.ents), "seen": []}
        return "+"

    def dirop(self, w):
        d = self.dirs[int(w[0])]
        return d

    def see(self, d, names, end):
        """the names listed in one go; end: the listing was complete"""
        now = d["n"].ents
        if d.get("lost"):
            return None
        for x in names:
            if x in d["seen"]:
                return "%r again" % x
            if x not in now and x not in d["snap"]:
                return "not %r" % x
            d["seen"].append(x)
        if end:
            for x, n in d["snap"].items():
                if now.get(x) is n and x not in d["seen"] and not d.get("reset", {}).get(x):
                    return "also %r" % x
        return None

    def x_readDir(self, w, got, trial):
        d = self.dirop(w)
        if d is None:
            return "!Fail nodir"
        if not d["open"]:
            return "!SysErr -"
        if trial:
            return "an entry"
        if got == "end":
            e = self.see(d, [], True)
            return e or got
        if got[0] != "=":
            return "an entry"
        e = self.see(d, [got[1:]], False)
        return e or got

    def x_rest(self, w, got, trial):
        d = self.dirop(w)
        if d is None:
            return "!Fail nodir"
        if not d["open"]:
            return "!SysErr -"
        if trial:
            return "entries"
        return self.see(d, [x for x in got.split(",") if x], True) or got

    def x_rewind(self, w, got, trial):
        d = self.dirop(w)
        if d is None:
            return "!Fail nodir"
        if not d["open"]:
            return "!SysErr -"
        if not trial:
            d["seen"], d["snap"] = [], dict(d["n"].ents)
        return "+"

    def x_closeDir(self, w, got, trial):
        d = self.dirop(w)
        if d is None:
            return "!Fail nodir"
        if not trial:
            d["open"] = False
        return "+"

    def x_list(self, w, got, trial):
        n = self.t.get(self.U(w[0]))
        if n.t != "d":
            raise Err(E.ENOTDIR)
        if not n.may(4):
            raise Err(E.EACCES)
        return "".join(x + "," for x in sorted(n.ents))

    x_mlist = x_list

    def x_mkfile(self, w, got, trial):
        p = self.U(w[0])
        n, e, par, last = self.t.walk(p, True)
        if n is None:
            if e != E.ENOENT or par is None:
                raise Err(e)
            if p[-1:] == "/":
                raise Err(E.EISDIR)
            if not par.may(3):
                raise Err(E.EACCES)
            if trial:
                return "+"
            n = par.ents[last] = Node("f", 0o644)
            par.mtime = None
        elif n.t == "d":
            raise Err(E.EISDIR)
        elif not n.may(2):
            raise Err(E.EACCES)
        if not trial:
            n.data = data(7, int(w[1]))
            n.mtime = None
        return "+"


def civil(sec):
    """the UTC calendar, any year"""
    d, rem = divmod(sec, 86400)
    d -= 10957                                   # 2000-01-01
    era, k = divmod(d, 146097)
    x = datetime.date(2000, 1, 1) + datetime.timedelta(days=k)
    return (x.year + 400 * era, x.month, x.day, rem // 3600, rem // 60 % 60, rem % 60, x.timetuple().tm_yday - 1, x.isoweekday() % 7)


DAYS, MONTHS = "Sun Mon Tue Wed Thu Fri Sat".split(), "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
neg = lambda n: "%d" % n


def sml(s):
    return int(s.replace("~", "-"))


class Clock(Engine):
    name = "clock"
    groups_quick = 4000
    real = ["runtime system (mosml.c, runtime.c, signals.c, memory management)", "Time, Timer, Date, Process"]
    stub = ["kernel: wall clock, CPU clocks, sleeping, signals; the C library's calendar functions are the host's, in the time zone UTC"]
    assumptions = ["time zone UTC", "times before 1970 are converted to dates at whole seconds only, and times are within 2^53 microseconds of 1970 (the precision of Time.time)"]

    def prepare(self):
        return FS.prepare(self)

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        ops = []
        K = lambda: rng.randrange(4)

        def secs():
            x = rng.random()
            if x < .3:
                return rng.randrange(0, 4 * 10 ** 9)
            if x < .5:
                y = rng.choice([1970, 1972, 1999, 2000, 2004, 2037, 2038, 2100, 1900, 1904, 1970, rng.randrange(1686, 2254)])
                return int((datetime.datetime(y, rng.choice([1, 2, 3, 12]), 1) - datetime.datetime(1970, 1, 1)).total_seconds()) + rng.choice([0, -1, 1, 86399, 86400 * 58])
            if x < .7:
                return rng.choice([0, 1, 59, 60, 3599, 3600, 86399, 86400, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 951782400])
            return rng.randrange(-9 * 10 ** 9, 9 * 10 ** 9)

        def micros():
            s = secs()
            return "%d" % (s * 10 ** 6 + (rng.choice([0, 1, 500000, 999999, rng.randrange(10 ** 6)]) if 0 <= s < 4 * 10 ** 9 else 0))
        started = set()
        timed = ["timed"] * 3 if rng.random() < .2 else []
        for j in range(rng.choice([6, 20, 40])):
            o = rng.choice(["now", "now", "cpu", "ccpu", "ctimes", "cgc", "real", "creal", "tcpu", "treal", "sleep", "univ", "local", "trip", "tripl", "fmt", "asc", "offset", "work", "gcwork"] + timed + [ "adv", "adv", "jump", "univs"])
            if o == "now" or o in ("tcpu", "treal", "offset"):
                ops.append(o)
            elif o in ("cpu", "real"):
                k = K()
                started.add((o, k))
                ops.append("%s %d" % (o, k))
            elif o in ("ccpu", "ctimes", "cgc", "creal"):
                k = K()
                s = "real" if o == "creal" else "cpu"
                if (s, k) not in started:
                    started.add((s, k))
                    ops.append("%s %d" % (s, k))
                ops.append("%s %d" % (o, k))
            elif o == "sleep":
                ops += ["ctl now", "sleep %d" % rng.choice([0, -1, -5000000, 1, 999, 1000, 999999, 1000000, 1000001, 2500000, 60000000, 3600000000, rng.randrange(10 ** 7), 4294967295 * 1000]), "ctl now"]
            elif o in ("univ", "local", "trip", "tripl", "fmt", "asc"):
                ops.append("%s %s" % (o, micros()))
            elif o == "univs":
                ops.append("%s %d" % (rng.choice(["univs", "locals"]), rng.choice([9 * 10 ** 16, -9 * 10 ** 16, 10 ** 17, secs()])))
            elif o == "work":
                ops.append("work %d" % rng.choice([1, 30]))
            elif o == "timed":
                ops.append("timed %d %d" % (rng.choice([0, 1, 20]), rng.random() < .5))
            elif o == "gcwork":
                ops.append("gcwork %d" % rng.choice([3, 30]))
            elif o == "adv":
                ops.append("ctl advance %d %d" % (rng.choice([0, 1, 999, 10 ** 3, 10 ** 6, 10 ** 9, 10 ** 9 - 1, 10 ** 13]), rng.choice([0, 1000, 10 ** 6, 999999 * 1000, 10 ** 9, 3 * 10 ** 9 + 7000, 10 ** 13])))
            else:
                ops.append(rng.choice(["ctl clock %d" % rng.choice([10 ** 9, -10 ** 9, 3600 * 10 ** 9, -3600 * 10 ** 9, 999, -10 ** 15]), "ctl setwall %d" % (rng.choice([0, 1, 999999999, 10 ** 9 * (2 ** 31), 10 ** 9 * (2 ** 31) - 1, 10 ** 9 * (2 ** 32), rng.randrange(7 * 10 ** 18), -10 ** 9, -1500000000]))]))
        if rng.random() < .2:
            ops = ["ctl now", "sleep %d" % rng.choice([2000000, 2999999, 3500000, 1900000, 500000000]), "ctl now", "now"]
            c.meta["kill"] = k = rng.choice([10 ** 9, 1500000000, 2 * 10 ** 9 + 10 ** 8, 10 ** 8])
            c.script = ["spawn name=d -- /bin/camlrunm /bin/sys", "sleep %d" % k, "kill d 2", "waitall"]
        else:
            c.script = ["run name=d -- /bin/camlrunm /bin/sys"]
        c.ops["d"] = ["%d %s" % (j + 1, o) for j, o in enumerate(ops)]
        c.opts["arm"] = 1
        c.opts["logtime"] = 1
        c.opts["wall"] = rng.choice([0, 1700000000, 2 ** 31 - 1, rng.randrange(4 * 10 ** 9)])
        c.opts["wallns"] = rng.choice([0, 999990000, rng.randrange(10 ** 9)])
        c.opts["sysshare"] = rng.choice([25, 25, 0, 50, 75, 99])
        c.opts["cpubase"] = rng.choice([0, 10 ** 9 - 3000, rng.randrange(10 ** 13)])
        c.env["CAMLRUNPARAM"] = "s=%d" % rng.choice([256, 1024, 32768])
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        B = 1 << 40
        for cl in ("clock", "tick", "gc", "slice"):
            if rng.random() < .5:
                c.cls[cl] = [rng.choice([300, 5000, 100000]), 0, B, B]
        if rng.random() < .15:
            c.D += pick_targets(rng, {r0.pid("d"): r0.counts.get(r0.pid("d"), {})}, ["syssig"], 1)
        return c

    def judge(self, case, r):
        ops = [o.split()[1:] for o in case.ops["d"]]
        pid = r.pid("d")
        st = r.status("d")
        # events of each operation
        per, cur, log = [], [], []
        for e in r.events:
            if e[0] == "L" and e[1] == pid:
                per.append(cur)
                cur = []
                log.append(e[2].decode("latin-1"))
            elif e[0] in ("TOD", "RU") and int(e[1]) == pid:
                cur.append((e[0],) + tuple(int(x) for x in e[2:]))
        sig = r.cls.get("syssig", (0, 0))[1] or case.meta.get("kill")
        us = lambda s, u: s * 10 ** 6 + u
        timers, now_prev = {}, None
        tods = [us(*e[1:]) for e in (per[0] if per else []) if e[0] == "TOD"]
        reports = r.files.get("/out/d.out", b"").decode("latin-1").splitlines()
        gcsum = 0                  # gc time spent so far, or None
        for j, w in enumerate(ops):
            if j >= len(log):
                if sig and st == 512:
                    return []
                return ["the program ended with status %s before operation %s (%r)" % (st, " ".join(w), r.files.get("/out/d.err", b"")[:100])]
            got = log[j]
            bad = lambda want: ["op %d %s: %r instead of %s" % (j + 1, " ".join(w), got, want)]
            tod = [us(*e[1:]) for e in per[j] if e[0] == "TOD"]
            ru = [(us(e[1], e[2]), us(e[3], e[4])) for e in per[j] if e[0] == "RU"]
            timer = w[0] in ("cpu", "ccpu", "ctimes", "cgc", "tcpu")
            # candidates for the reading: (usr, sys, gc so far)
            cand = []
            if timer:
                if len(ru) % 2:
                    for i in range(0, len(ru), 2):
                        g = sum(ru[k + 1][0] - ru[k][0] for k in range(0, i, 2))
                        cand.append(ru[i] + (gcsum + g if gcsum is not None else None,))
                else:
                    cand = [x + (None,) for x in ru]
            if len(ru) % 2 == (1 if timer else 0):
                if timer:
                    # the total does not depend on where the reading was, up to its own position
                    tot = None
                    for i in range(0, len(ru), 2):
                        t = sum(ru[k + 1][0] - ru[k][0] for k in range(0, i, 2)) + sum(ru[k + 1][0] - ru[k][0] for k in range(i + 1, len(ru), 2))
                        tot = t if tot is None else tot if tot == t else "?"
                    if tot == "?":
                        gcsum = None
                    elif gcsum is not None:
                        gcsum += tot or 0
                elif gcsum is not None:
                    gcsum += sum(ru[k + 1][0] - ru[k][0] for k in range(0, len(ru), 2))
            else:
                gcsum = None
            if w[0] == "timed":
                gcsum = None           # which of the readings were the collector's is not known
            if got == "!Interrupt":
                if not sig:
                    return bad("no interrupt")
                now_prev = None if w[0] == "ctl" else now_prev
                if w[0] in ("cpu", "real"):
                    timers.pop((w[0], w[1]), None)
                continue
            if w[0] == "timed":
                want = "!Fail mine" if w[2] == "1" else "42"
                if got != want:
                    return bad(want)
                m = re.fullmatch(r"User: (~?[0-9]+\.[0-9]{3})  System: (~?[0-9]+\.[0-9]{3})  GC: (~?[0-9]+\.[0-9]{3})  Real: (~?[0-9]+\.[0-9]{3})", reports[0]) if reports else None
                if sig:              # an interrupt in the report makes it a second one
                    continue
                if not m:
                    return ["op %d timed: the report %r" % (j + 1, reports[:1])]
                reports.pop(0)
                v = [round(float(x.replace("~", "-")) * 1000) for x in m.groups()]
                near = lambda x, us: abs(x - us / 1000) <= 1
                if not any(near(v[3], b - a) for i, a in enumerate(tod) for b in tod[i + 1:]) \
                        or not any(near(v[0], b[0] - a[0]) and near(v[1], b[1] - a[1]) for i, a in enumerate(ru) for b in ru[i + 1:]) or not -1 <= v[2] <= v[0] + 1:
                    return ["op %d timed: the report %r does not agree with the clocks (%r, %r)" % (j + 1, m.group(0), [x - tod[0] for x in tod], [(x[0] - ru[0][0], x[1] - ru[0][1]) for x in ru])]
                continue
            if got.startswith("!") and not (w[0] in ("univ", "local", "univs", "locals", "trip", "tripl", "fmt", "asc") and got in ("!Date", "!Date.Date")):
                return bad("a result")
            o = w[0]
            if o == "now":
                a, b = got.split()
                if sml(a) not in tod:
                    return bad("a time the clock showed: %r" % tod)
                t = sml(a)
                if sml(b) != (abs(t) // 10 ** 6) * (1 if t >= 0 else -1):
                    return bad("the seconds of %d" % t)
            elif o == "cpu":
                timers[("cpu", w[1])] = cand
            elif o == "real":
                timers[("real", w[1])] = tod
            elif o in ("ccpu", "ctimes", "cgc"):
                start = timers.get(("cpu", w[1]))
                if start is None:
                    continue
                v = [sml(x) for x in got.split()]
                ok = False
                for a in start:
                    for b in cand:
                        u, s = b[0] - a[0], b[1] - a[1]
                        g = b[2] - a[2] if a[2] is not None and b[2] is not None else None
                        if o == "ccpu":
                            ok |= v == [u, s]
                        elif o == "ctimes":
                            ok |= len(v) == 4 and v[0] + v[2] == u and v[1] == s and v[3] == 0 and (v[2] == g if g is not None else 0 <= v[2] <= u)
                        else:
                            ok |= v[0] == g if g is not None else 0 <= v[0] <= u
                if not ok:
                    return bad("the difference of %r and %r" % (start[:4], cand[:4]))
            elif o == "creal":
                start = timers.get(("real", w[1]))
                if start is not None and not any(sml(got) == b - a for a in start for b in tod):
                    return bad("the difference of %r and %r" % (start, tod))
            elif o == "treal":
                if j and tods and sml(got) not in [b - tods[0] for b in tod]:
                    return bad("the time since start")
            elif o == "tcpu":
                v = [sml(x) for x in got.split()]
                if min(v) < 0 or v[0] > max([x[0] for x in cand], default=0):
                    return bad("CPU time")
            elif o == "sleep":
                pass
            elif o in ("univ", "local", "trip", "tripl", "fmt", "asc", "univs", "locals"):
                t = int(w[1]) * (1 if o.endswith("s") else 10 ** 0)
                s = t if o.endswith("s") else int(abs(t) // 10 ** 6) * (1 if t >= 0 else -1)
                d = civil(s)
                if abs(d[0] - 1900) >= 2 ** 31:
                    want = "!Date"
                elif o in ("univ", "local", "univs", "locals"):
                    want = "/".join(neg(x) for x in d)
                elif d[0] < 1900 or o in ("trip", "tripl") and s < 0:
                    want = "!Date"
                elif o in ("trip", "tripl"):
                    want = "%d" % (s * 10 ** 6)
                elif o == "fmt":
                    want = "%d-%02d-%02d %02d:%02d:%02d %03d" % (d[:6] + (d[6] + 1,))
                else:
                    want = "%s %s %2d %02d:%02d:%02d %d" % (DAYS[d[7]], MONTHS[d[1] - 1], d[2], d[3], d[4], d[5], d[0])
                    want = want[:24]
                if got.replace("Date.Date", "Date") != want:
                    return bad(repr(want))
            elif o == "offset":
                if got != "0":
                    return bad("0")
            elif o == "ctl" and w[1] == "now":
                t = int(got)
                if j and ops[j - 1][0] == "sleep" and j > 1 and ops[j - 2] == ["ctl", "now"] and now_prev is not None:
                    asked = int(ops[j - 1][1]) * 1000
                    dt = t - now_prev
                    intr = log[j - 1] == "!Interrupt"
                    if dt < asked and not intr:
                        return ["sleep %s returned after %d us" % (ops[j - 1][1], dt // 1000)]
                    if not r.cls.get("clock", (0, 0))[1] and not r.cls.get("tick", (0, 0))[1]:
                        if dt > max(asked, 0) + 10 ** 8:
                            return ["sleep %s returned after %d us" % (ops[j - 1][1], dt // 1000)]
                        if case.meta.get("kill") and intr and dt > case.meta["kill"] + 10 ** 8:
                            return ["an interrupt at %d us ended the sleep after %d us" % (case.meta["kill"] // 1000, dt // 1000)]
                        if case.meta.get("kill") and not intr and asked > 3 * 10 ** 9:
                            return ["an interrupt did not end the sleep"]
                now_prev = t
        if len(log) != len(ops) + 1 or st != 0:
            if sig and st == 512:
                return []
            return ["the program ended with status %s (%r)" % (st, r.files.get("/out/d.err", b"")[:100])]
        return []
