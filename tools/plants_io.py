import sys; sys.path.insert(0,'/verif/tools')
from plantlib import plant
HEAD='''#!/bin/bash
# uses the installed system of /repo/_build/inst and a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
I=/repo/_build/inst
export PATH=$I/bin:$PATH LD_LIBRARY_PATH=$I/lib/mosml:$I/lib
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
'''
plant('tail-lseek','C08','in_stream_length is called while part of the buffer is unread and the rest of the file is read afterwards',
 'channel_size leaves the descriptor at the end of the file, so everything beyond the buffer is lost',
 [('src/runtime/io.c','''  if (end == -1) sys_error(NULL);
  if (lseek(channel->fd, channel->offset, 0) != channel->offset) 
    sys_error(NULL);''','''  if (end == -1) sys_error(NULL);
  if (channel->curr >= channel->max &&
      lseek(channel->fd, channel->offset, 0) != channel->offset) 
    sys_error(NULL);''')],
HEAD+'''cat > t.sml <<'X'
val is = Nonstdio.open_in_bin "data"
val _ = BasicIO.input (is, 100)
val n = Nonstdio.in_stream_length is
fun go k = case size (BasicIO.input (is, 1000)) of 0 => k | m => go (k+m)
val m = go 100
val () = if n = 10000 andalso m = n then print "ok\\n" else (print (Int.toString m ^ " of " ^ Int.toString n ^ "\\n"); Process.exit Process.failure)
X
head -c 10000 /dev/zero > data
mosmlc -structure Nonstdio.ui -o t t.sml >/dev/null 2>&1 || mosmlc -o t t.sml || exit 2
./t
''')
plant('nonblock-stays','C07','inputNoBlock finds nothing to read, and the stream is then read with a blocking operation before anything arrives',
 'the descriptor stays in non-blocking mode after an inputNoBlock that returned NONE, so the next blocking read fails',
 [('src/runtime/io.c',"""    nonblocking_mode(fd, 0);			/* unset non-blocking */
    if (retcode == -1 && errno != EAGAIN)
      sys_error(NULL);
""","""    if (retcode == -1 && errno == EAGAIN)
      return -1;
    nonblocking_mode(fd, 0);			/* unset non-blocking */
    if (retcode == -1)
      sys_error(NULL);
""")],
HEAD+"""cat > t.sml <<'X'
val NONE = TextIO.inputNoBlock TextIO.stdIn
val s = TextIO.inputAll TextIO.stdIn
val () = (print (Int.toString (size s)); print "\\n"; if size s = 5 then () else Process.exit Process.failure)
X
mosmlc -o t t.sml || exit 2
(sleep 0.7; printf world) | ./t
""")
plant('putch-overflow','C06','single characters are written after the flush of a full buffer failed',
 'the character is stored before the room for it is made, so once a flush of the full buffer has failed every further character is written beyond the buffer',
 [('src/runtime/io.h',"""  { if ((channel)->curr >= (channel)->end) flush(channel);                    \\
    *((channel)->curr)++ = (ch);                                              \\
    if ((channel)->curr > (channel)->max) (channel)->max = (channel)->curr; }""","""  { *((channel)->curr)++ = (ch);                                              \\
    if ((channel)->curr > (channel)->max) (channel)->max = (channel)->curr;   \\
    if ((channel)->curr >= (channel)->end) flush(channel); }""")],
HEAD+"""cat > t.sml <<'X'
val os = TextIO.openOut "/dev/full"
val extra = List.tabulate (40, fn i => TextIO.openOut ("/dev/null"))
fun put 0 = () | put n = (TextIO.output1 (os, #"x") handle _ => (); put (n-1))
val () = put 200000
val () = List.app (fn e => (TextIO.output (e, "hello"); TextIO.closeOut e)) extra
val () = print "ok\\n"
X
mosmlc -o t t.sml || exit 2
MALLOC_CHECK_=3 timeout 20 ./t
""")
