import sys; sys.path.insert(0,'/verif/tools')
from plantlib import plant
only = sys.argv[1:]
_plant = plant
def plant(id, *a, **k):
    if not only or id in only: _plant(id, *a, **k)
HEAD='''#!/bin/bash
# uses the installed system of /repo/_build/inst and a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
I=/repo/_build/inst
export PATH=$I/bin:$PATH LD_LIBRARY_PATH=$I/lib/mosml:$I/lib
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
'''
R='src/runtime/'; L='src/mosmllib/'
plant('weak-dying','C03','weak_sub is applied between the end of marking and the clearing of the weak pointers',
 'a weak pointer to an object that is about to be freed can still be read in the weak phase of a collection, and dangles afterwards',
 [(R+'mosml.c','''  return v == (value)NULL
         || (gc_phase == Phase_weak 
	     && Is_block(v) && Is_in_heap(v) && Is_white_val(v));''','''  return v == (value)NULL;''')],
HEAD+'''cat > t.sml <<'X'
val w = Weak.array 4000 : int list Weak.array
val keep = ref ([] : int list list)
fun mk i = [i, i + 1, i + 2]
fun fill i = if i < 4000 then (Weak.update (w, i, mk i); fill (i+1)) else ()
fun garbage 0 = [] | garbage n = n :: garbage (n-1)
val bad = ref 0
fun look i = if i < 4000 then
   ((case Weak.sub (w, i) of x => keep := x :: !keep) handle Fail _ => Weak.update (w, i, mk i);
    ignore (garbage 40); look (i+97)) else ()
fun check () = List.app (fn [a, b, c] => if b = a + 1 andalso c = a + 2 then () else bad := !bad + 1 | _ => bad := !bad + 1) (!keep)
fun go 0 = () | go n = (look (n mod 97); if n mod 50 = 0 then (check (); keep := []) else (); go (n-1))
val () = fill 0
val () = go 20000
val () = check ()
val () = if !bad = 0 then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 100 env CAMLRUNPARAM=s=4096 ./t)" = ok ]
''')
plant('accept-stale','C15','a minor collection happens when the result of Socket.accept is allocated',
 'the address is not protected while the socket of an accepted connection is allocated',
 [('src/dynlibs/msocket/msocket.c','''    res = alloc_tuple(2);
    modify(&Field(res, 0), roots[1]);
    modify(&Field(res, 1), roots[0]);
    Pop_roots();
  }
  return res;
}

/* ML type: sock_ -> addr -> unit */
EXTERNML value msocket_bind''','''    addrv = roots[0];
    res = alloc_tuple(2);
    modify(&Field(res, 0), roots[1]);
    modify(&Field(res, 1), addrv);
    Pop_roots();
  }
  return res;
}

/* ML type: sock_ -> addr -> unit */
EXTERNML value msocket_bind'''),('src/dynlibs/msocket/msocket.c','''  union saddr addr;
  value res;

  socklen_t len = sizeof(addr);
  memset(&addr, 0, sizeof(addr));
  enter_blocking_section();
  ret = accept''','''  union saddr addr;
  value res, addrv;

  socklen_t len = sizeof(addr);
  memset(&addr, 0, sizeof(addr));
  enter_blocking_section();
  ret = accept''')],
HEAD+'''cat > t.sml <<'X'
val srv = Socket.inetStream () : (Socket.pf_inet, Socket.passive Socket.stream) Socket.sock
fun bindit p = (Socket.bind (srv, Socket.inetAddr "127.0.0.1" p); p) handle e => if p > 60000 then raise e else bindit (p + 7)
val port = bindit 23017
val () = Socket.listen (srv, 5)
val bad = ref 0
fun go 0 = ()
  | go n = let val c = Socket.inetStream () : (Socket.pf_inet, Socket.active Socket.stream) Socket.sock
               val () = Socket.connect (c, Socket.inetAddr "127.0.0.1" port)
               val (s, a) = Socket.accept srv
               val x = List.tabulate (n mod 50, fn i => Int.toString i)
           in (if Socket.getinetaddr a = "127.0.0.1" then () else bad := !bad + 1) handle _ => bad := !bad + 1;
              Socket.close s; Socket.close c; ignore x; go (n-1) end
val () = go 4000
val () = if !bad = 0 then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 100 env CAMLRUNPARAM=s=256 ./t)" = ok ]
''')
plant('signal-stays-masked','C09','an interrupt arrives while the program is blocked, and later another one',
 'the handler leaves a blocking operation by a jump with the signal still masked, so the next interrupt is never delivered',
 [(R+'sys.c','  sigact.sa_flags    = SA_NOMASK;','  sigact.sa_flags    = 0;')],
HEAD+'''cat > t.sml <<'X'
prim_val catch_interrupt : bool -> unit = 1 "sys_catch_break"
val () = catch_interrupt true
val () = TextIO.output (TextIO.stdErr, "ready\\n")
fun get () = (ignore (TextIO.inputLine TextIO.stdIn); "eof") handle Interrupt => "int"
val a = get () val () = TextIO.output (TextIO.stdErr, "one\\n")
val b = get ()
val () = if a = "int" andalso b = "int" then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
mkfifo in
exec 9<>in
cat > run.py <<'X'
import subprocess,signal,time,sys
signal.signal(signal.SIGINT, signal.default_int_handler)
p=subprocess.Popen(["./t"],stdin=open("in"),stdout=subprocess.PIPE,stderr=subprocess.PIPE)
p.stderr.readline(); time.sleep(.5)
p.send_signal(2); p.stderr.readline(); time.sleep(.5)
p.send_signal(2)
try: o=p.communicate(timeout=10)[0]
except subprocess.TimeoutExpired: p.kill(); sys.exit(1)
sys.exit(0 if o==b"ok\\n" and p.returncode==0 else 1)
X
python3 run.py
''')
plant('compact-string256','C11','a string of exactly 256 characters is stored in the compact format',
 'its length is written in one byte and read back as 0',
 [(R+'externcp.c','} else if (len < 0x100) {\n          output_number(chan, CODE_STRING8','} else if (len <= 0x100) {\n          output_number(chan, CODE_STRING8')],
HEAD+'''cat > t.sml <<'X'
prim_type ochan_
prim_val out_compact : ochan_ -> 'a -> unit = 2 "extern_compact_val"
prim_val magic : 'a -> 'b = 1 "identity"
fun mk n = CharVector.tabulate (n, fn i => Char.chr (i mod 251))
fun try n =
    let val os = BasicIO.open_out_bin "f"
        val () = out_compact (#oc (!(magic os : {closed : bool, oc : ochan_} ref))) (n, mk n, [mk n])
        val () = BasicIO.close_out os
        val is = BasicIO.open_in_bin "f"
        val v = Nonstdio.input_value is : int * string * string list
    in BasicIO.close_in is; v = (n, mk n, [mk n]) end handle _ => false
val () = if List.all try [0, 1, 31, 32, 33, 100, 255, 256, 257, 1000, 70000] then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 20 ./t)" = ok ]
''')
plant('dl-stale-symbol','C28','a library is closed and a function bound from it before is called',
 'the function handle does not notice that its library was closed, and code that is no longer there is called',
 [(L+'Dynlib.sml','    else { symhdl = dlsym_ hdl sym, closed = closed }','    else { symhdl = dlsym_ hdl sym, closed = ref (!closed) }')],
HEAD+'''cat > c.c <<'X'
long cfi(long v) { return v + 2; }
X
gcc -shared -fPIC -o libc1.so c.c || exit 2
cat > t.sml <<X
val h = Dynlib.dlopen {lib = "$T/libc1.so", flag = Dynlib.RTLD_NOW, global = false}
val f : int -> int = Dynlib.app1 (Dynlib.dlsym h "cfi")
val g = Dynlib.dlsym h "cfi"
val a = f 5
val () = Dynlib.dlclose h
val b = (ignore (Dynlib.app1 g 1 : int); false) handle Dynlib.Closed => true
val () = if a = 6 andalso b then print "ok\\\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 20 ./t)" = ok ]
''')
plant('readdir-dotdot','C24','a directory contains an entry whose name begins with two dots',
 'readDir skips entries whose name begins with ".."',
 [(L+'FileSys.mlp','entry <> Path.parentArc andalso','not (String.isPrefix Path.parentArc entry) andalso')],
HEAD+'''mkdir d; touch d/..x d/.y d/z d/...
cat > t.sml <<'X'
val l = Listsort.sort String.compare (Mosml.listDir "d")
val () = if l = ["...", "..x", ".y", "z"] then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 20 ./t)" = ok ]
''')
plant('reregistered-pointer','C25','C code keeps the pointer to a registered value while the value is unregistered and another is registered under the name',
 'registering a value under an unregistered name makes a new cell, and the pointer that C code holds keeps seeing no value',
 [(L+'Callback.sml','			   ref NONE     => r := SOME (magic v)','			   ref NONE     => ignore (insert mltable (nam, alloc_mlvalptr_ (SOME (magic v))))')],
HEAD+'''cat > lib.c <<'X'
#include <mlvalues.h>
#include <callback.h>
static valueptr vp;
value hold(value nam) { vp = get_valueptr(String_val(nam)); return Atom(0); }
value use(value x) { value v = get_value(vp); return Val_long(v == (value)NULL ? -1 : Long_val(v)); }
X
gcc -shared -fPIC -I$I/include/mosml -o libx.so lib.c || exit 2
cat > t.sml <<'X'
open Dynlib
val h = dlopen {lib = "./libx.so", flag = RTLD_LAZY, global = false}
val hold : string -> unit = app1 (dlsym h "hold")
val use : unit -> int = app1 (dlsym h "use")
val () = Callback.register "a" 7
val () = hold "a"
val x = use ()
val () = Callback.unregister "a"
val y = use ()
val () = Callback.register "a" 9
val z = use ()
val () = if x = 7 andalso y = ~1 andalso z = 9 then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 20 ./t)" = ok ]
''')
plant('child-status-7bit','C14','a child exits with a status above 127',
 'reap gives only the low seven bits of the exit status',
 [('src/dynlibs/munix/munix.c','    return Val_long(WEXITSTATUS(status));','    return Val_long(WEXITSTATUS(status) & 127);')],
HEAD+'''cat > t.sml <<'X'
prim_val st : 'a -> int = 1 "identity"
fun run n = st (Unix.reap (Unix.execute ("/bin/sh", ["-c", "exit " ^ Int.toString n]) : (TextIO.instream, TextIO.outstream) Unix.proc))
val () = if List.map run [0, 1, 127, 200, 255] = [0, 1, 127, 200, 255] then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 20 ./t)" = ok ]
''')
plant('empty-environment','C14','a child is started in an empty environment',
 'executeInEnv with an empty environment lets the child inherit the environment of the program',
 [(L+'Unix.sml','	val envvec = Option.map Vector.fromList envOpt','	val envvec = case envOpt of SOME [] => NONE | _ => Option.map Vector.fromList envOpt')],
HEAD+'''cat > t.sml <<'X'
fun run e =
  let val p = Unix.executeInEnv ("/bin/sh", ["-c", "echo $XMARK"], e) : (TextIO.instream, TextIO.outstream) Unix.proc
      val s = TextIO.inputAll (Unix.textInstreamOf p)
  in ignore (Unix.reap p); s end
val () = if run [] = "\\n" andalso run ["XMARK=b"] = "b\\n" then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(XMARK=parent timeout 20 ./t)" = ok ]
''')
plant('rename-removes-first','C24','a rename fails although the new name exists',
 'the file under the new name is removed before renaming, and is gone when the renaming fails',
 [(L+'FileSys.mlp','	(rename_ old new) \n	handle SysErr _','	(remove_ new handle SysErr _ => (); rename_ old new) \n	handle SysErr _')],
HEAD+'''cat > t.sml <<'X'
fun put f s = let val os = TextIO.openOut f in TextIO.output (os, s); TextIO.closeOut os end
fun get f = let val is = TextIO.openIn f in TextIO.inputAll is before TextIO.closeIn is end
val () = put "a" "one"
val () = put "b" "two"
val () = FileSys.rename {old = "a", new = "b"}
val x = get "b"
val e = (FileSys.rename {old = "nosuch", new = "b"}; false) handle OS.SysErr _ => true
val y = get "b" handle Io _ => ""
val () = if x = "one" andalso e andalso y = "one" then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 20 ./t)" = ok ]
''')
plant('haskey-closed','C18','hasKey is applied to a table whose session is over',
 'hasKey answers false instead of raising Closed',
 [(L+'Polygdbm.sml','fun hasKey db k = Gdbm.hasKey db (string_val_ k)','fun hasKey db k = (Gdbm.find db (string_val_ k); true) handle _ => false')],
HEAD+'''cat > t.sml <<'X'
load "Polygdbm";
val t = Polygdbm.withtable ("tab", Gdbm.NEWDB) (fn t => (Polygdbm.insert t (1, [2, 3]); t : (int, int list) Polygdbm.table));
val a = (ignore (Polygdbm.hasKey t 1); "answered") handle Gdbm.Closed => "closed";
val b = Polygdbm.withtable ("tab", Gdbm.READER) (fn t => Polygdbm.hasKey (t : (int, int list) Polygdbm.table) 1 andalso not (Polygdbm.hasKey t 2));
val () = print (if a = "closed" andalso b then "RESULT " ^ "good\\n" else "RESULT " ^ "bad\\n");
X
timeout 20 mosml < t.sml | grep -q "RESULT good"
''')
plant('impure-rescan','C01','the mark stack overflows while the heap is being scanned for gray objects that an earlier overflow dropped',
 'an overflow of the mark stack during such a scan is not remembered, and objects below the scanning position keep unmarked children',
 [(R+'major_gc.c','    gray_vals_cur = gray_vals + gray_vals_size / 2;\n    heap_is_pure = 0;','    gray_vals_cur = gray_vals + gray_vals_size / 2;\n    if (markhp == NULL) heap_is_pure = 0;')],
HEAD+'''cat > t.sml <<'X'
datatype rose = E | D of rose ref Array.array | G of int
fun wide (k, n) =
    Array.tabulate (n, fn i => ref (if k > 0 andalso i mod (n div (k + 1) + 1) = 0 then D (wide (0, n)) else if i mod 8 = 3 then G i else E))
fun ok a = let fun f i = i >= Array.length a orelse ((case !(Array.sub (a, i)) of E => true | G j => i = j | D b => ok b) andalso f (i+1)) in f 0 end
val keep = ref ([] : int ref list)
fun garbage 0 acc = acc | garbage n acc = garbage (n-1) (ref n :: acc)
fun churn 0 = () | churn n = (keep := garbage 2000 []; churn (n-1))
fun try n =
    let val a = wide (1, n)
        fun go 0 = true | go k = (churn 30; ok a andalso go (k-1))
        val r = go 8
    in print (Int.toString n ^ (if r then " " else "BAD ")); keep := []; r end
val SOME n = Int.fromString (hd (CommandLine.arguments ()))
val () = if try n then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
for n in 9000 17000 18000 20000; do
  timeout 50 env CAMLRUNPARAM=s=4096,i=1 ./t $n >/dev/null 2>&1 || exit 1
done
exit 0
''')
plant('sleep-millis','C23','a sleep of less than a millisecond, or with a fraction of one',
 'the part of a sleep below a millisecond is dropped: it ends before the requested time',
 [(R+'mosml.c','''  unsigned long usec = (long)(time - 1000000.0 * sec);''','''  unsigned long usec = (long)(time - 1000000.0 * sec) / 1000 * 1000;''')],
HEAD+'''cat > t.sml <<'X'
val t0 = Time.now ()
fun go 0 = () | go n = (Process.sleep (Time.fromMicroseconds 900); go (n-1))
val () = go 400
val () = if Time.>= (Time.- (Time.now (), t0), Time.fromMilliseconds 355) then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 60 ./t)" = ok ]
''')
plant('getdir-256','C24','the path of the working directory is longer than 255 bytes',
 'FileSys.getDir fails in a deep directory',
 [(R+'mosml.c',''' res = getcwd(directory, MAXPATHLEN);''',''' res = getcwd(directory, 256);''')],
HEAD+'''cat > t.sml <<'X'
val a = CharVector.tabulate (150, fn _ => #"a")
val b = CharVector.tabulate (170, fn _ => #"b")
val top = FileSys.getDir ()
val () = (FileSys.mkDir a; FileSys.chDir a; FileSys.mkDir b; FileSys.chDir b)
val () = if FileSys.getDir () = top ^ "/" ^ a ^ "/" ^ b then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 20 ./t)" = ok ]
''')
plant('roots-stay','C25','an exception leaves a callback and the frames of C functions that have registered local roots, and a collection follows',
 'the roots of C frames that an exception has left stay registered: the next collection reads dead stack memory',
 [(R+'interp.c','''    c_roots_head = initial_c_roots_head;
''','')],
HEAD+'''cat > l.c <<'X'
#include <string.h>
#include "mlvalues.h"
#include "memory.h"
#include "callback.h"
value capp(value f, value x) { value v; Push_roots(r, 2); r[0] = f; r[1] = x; v = callback(r[0], r[1]); Pop_roots(); return v; }
value scrub(value u) { volatile char b[100000]; int i; for (i = 0; i < sizeof b; i++) b[i] = 0x58; return Val_unit; }
X
gcc -shared -fPIC -w -I$I/include/mosml -o l.so l.c || exit 2
cat > t.sml <<'X'
open Dynlib
val l = dlopen {lib = "./l.so", flag = RTLD_LAZY, global = false}
val capp : (int -> int) -> int -> int = app2 (dlsym l "capp")
val scrub : unit -> unit = app1 (dlsym l "scrub")
exception E of int
fun f 0 = raise E 7 | f n = 1 + capp f (n-1)
fun upto 0 = [] | upto n = n :: upto (n-1)
fun go 0 = 0
  | go n = ((f (n mod 5); 0) handle E k => (scrub (); length (upto 20000) - 20000 + k)) + go (n-1)
val () = if go 50 = 350 then print "ok\\n" else Process.exit Process.failure
X
mosmlc -toplevel -o t t.sml || exit 2
[ "$(timeout 60 ./t)" = ok ]
''')
