From ea08dbe878dd4caca5f0831272b0aec50fc886e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:42 +0000
Subject: [PATCH 01/47] Add simulator hooks to the runtime, off unless
 MOSML_SIM is defined

---
 src/runtime/freelist.c |  2 ++
 src/runtime/interp.c   |  4 ++++
 src/runtime/memory.h   |  3 ++-
 src/runtime/minor_gc.c |  1 +
 src/runtime/signals.c  |  4 ++++
 src/runtime/simhook.h  | 39 +++++++++++++++++++++++++++++++++++++++
 6 files changed, 52 insertions(+), 1 deletion(-)
 create mode 100644 src/runtime/simhook.h

diff --git a/src/runtime/freelist.c b/src/runtime/freelist.c
index 11e1fc0..41d02f1 100644
--- a/src/runtime/freelist.c
+++ b/src/runtime/freelist.c
@@ -6,6 +6,7 @@
 #include "major_gc.h"
 #include "misc.h"
 #include "mlvalues.h"
+#include "simhook.h"
 
 /* The free-list is kept sorted by increasing addresses.
    This makes the merging of adjacent free blocks possible.
@@ -149,6 +150,7 @@ char *fl_merge_block (bp)
     }
   }
 #endif
+  Sim_block_freed (bp);
   prev = fl_merge;
   cur = Next (prev);
     /* The sweep code makes sure that this is the right place to insert
diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index 5c61ffb..68e79e0 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -593,6 +593,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
         env = sp[1];
         extra_args = Long_val(sp[2]);
 	sp += 3;
+	Sim_poll ();
 	if (something_to_do) goto process_signal; 
       }
       Next;
@@ -743,6 +744,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
         if (--poll_count == 0) { poll_count = 500; poll_break(); }
       }
 #endif
+      Sim_poll ();
       if (something_to_do) goto process_signal;
       Next;
 
@@ -1098,6 +1100,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
 
     process_signal:
       something_to_do = 0;
+      Sim_race (4);
       if (force_minor_flag){
 	force_minor_flag = 0;
 	Setup_for_gc;
@@ -1107,6 +1110,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
       /* If a signal arrives between the following two instructions,
          it will be lost. */
       { int signal_number = signal_is_pending;
+        Sim_race (5);
         signal_is_pending = 0;
         if (signal_number) {
           /* Push a return frame to the current code location */
diff --git a/src/runtime/memory.h b/src/runtime/memory.h
index 97945e4..dae648a 100644
--- a/src/runtime/memory.h
+++ b/src/runtime/memory.h
@@ -10,6 +10,7 @@
 #include "minor_gc.h"
 #include "misc.h"
 #include "mlvalues.h"
+#include "simhook.h"
 
 EXTERN value *c_roots_head;
 
@@ -26,7 +27,7 @@ EXTERN char * stat_resize (char *, asize_t);     /* Size in bytes. */
 #define Alloc_small(result, wosize, tag) {				      \
   char *_res_ = young_ptr;						      \
   young_ptr += Bhsize_wosize (wosize);					      \
-  if (young_ptr > young_end){						      \
+  if (young_ptr > young_end || Sim_gc_point ()){			      \
     Setup_for_gc;							      \
     minor_collection ();						      \
     Restore_after_gc;							      \
diff --git a/src/runtime/minor_gc.c b/src/runtime/minor_gc.c
index 6b96154..d8dfe79 100644
--- a/src/runtime/minor_gc.c
+++ b/src/runtime/minor_gc.c
@@ -148,6 +148,7 @@ void minor_collection(void)
 
   end_gc_time();
 
+  Sim_minor_done ();
 }
 
 void realloc_ref_table (void)
diff --git a/src/runtime/signals.c b/src/runtime/signals.c
index 8c9cd1e..3c27183 100644
--- a/src/runtime/signals.c
+++ b/src/runtime/signals.c
@@ -6,6 +6,7 @@
 #include "fail.h"
 #include "instruct.h"
 #include "interp.h"
+#include "simhook.h"
 
 Volatile int signal_is_pending = 0;
 int in_blocking_section = 0;
@@ -32,11 +33,14 @@ void execute_signal(void)
 
 void enter_blocking_section(void)
 {
+  Sim_race (1);
   in_blocking_section = 1;
+  Sim_race (2);
   if (signal_is_pending) execute_signal();
 }
 
 void leave_blocking_section(void)
 {
   in_blocking_section = 0;
+  Sim_race (3);
 }
diff --git a/src/runtime/simhook.h b/src/runtime/simhook.h
new file mode 100644
index 0000000..0922f23
--- /dev/null
+++ b/src/runtime/simhook.h
@@ -0,0 +1,39 @@
+/* Hooks for running the runtime system inside a deterministic simulator.
+
+   They do nothing unless MOSML_SIM is defined when the runtime is compiled;
+   the functions and counters are then provided by the simulator. */
+
+#ifndef _simhook_
+#define _simhook_
+
+#ifdef MOSML_SIM
+
+extern long sim_gc_countdown, sim_poll_countdown;
+extern int sim_gc_now (void);
+extern void sim_poll_now (void);
+extern void sim_race (int where);
+extern void sim_minor_done (void);
+extern void sim_block_freed (char *bp);
+
+/* True when the simulator wants a minor collection at this allocation. */
+#define Sim_gc_point()	(--sim_gc_countdown < 0 && sim_gc_now ())
+/* The interpreter is about to look at [something_to_do]. */
+#define Sim_poll()	{ if (--sim_poll_countdown < 0) sim_poll_now (); }
+/* A place where the arrival of a signal needs care. */
+#define Sim_race(where)	sim_race (where)
+/* A minor collection and its slice of the major one have been done. */
+#define Sim_minor_done()	sim_minor_done ()
+/* The block at [bp] is about to be returned to the free list. */
+#define Sim_block_freed(bp)	sim_block_freed (bp)
+
+#else
+
+#define Sim_gc_point()	0
+#define Sim_poll()
+#define Sim_race(where)
+#define Sim_minor_done()
+#define Sim_block_freed(bp)
+
+#endif
+
+#endif /* _simhook_ */
-- 
2.43.0


From 5a1f8cc6e3242a04e667f32b78dbcc6312edc2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 02/47] fix: io.c: partial writes followed by an error, or a
 seek backwards, repeated or lost output

---
 src/runtime/io.c | 73 ++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 40 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index f14e531..9deb322 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -78,34 +78,38 @@ value channel_size(struct channel * channel)      /* ML */
 
 /* Output */
 
-static void really_write(int fd, char * p, int n)
+/* Write at most n > 0 bytes and return the number of bytes written; raise 
+   SysErr if none could be written. */
+
+static int write_some(int fd, char * p, int n)
 {
   int retcode;
-  while (n > 0) {
 #ifdef HAS_UI
-    retcode = ui_write(fd, p, n);
+  retcode = ui_write(fd, p, n);
 #else
 #ifdef EINTR
-    do { retcode = write(fd, p, n); } while (retcode == -1 && errno == EINTR);
+  do { retcode = write(fd, p, n); } while (retcode == -1 && errno == EINTR);
 #else
-    retcode = write(fd, p, n);
+  retcode = write(fd, p, n);
 #endif
 #endif
-    if (retcode == -1) sys_error(NULL);
-    p += retcode;
-    n -= retcode;
-  }
+  if (retcode == -1) sys_error(NULL);
+  return retcode;
 }   
 
+/* The channel is kept up to date after each partial write, so that a
+   failure halfway does not cause a later flush to write bytes again. */
+
 value flush(struct channel * channel)            /* ML */
 {
-  int n;
+  int n, done;
   n = channel->max - channel->buff;
-  if (n > 0) {
-    really_write(channel->fd, channel->buff, n);
-    channel->offset += n;
-    channel->curr = channel->buff;
-    channel->max  = channel->buff;
+  while (n > 0) {
+    done = write_some(channel->fd, channel->buff, n);
+    channel->offset += done;
+    n -= done;
+    if (n > 0) bcopy(channel->buff + done, channel->buff, n);
+    channel->curr = channel->max = channel->buff + n;
   }
   return Atom(0);
 }
@@ -140,29 +144,21 @@ void putblock(struct channel * channel, char * p, unsigned n)
 {
   unsigned m;
 
-  m = channel->end - channel->curr;
-  if (channel->curr == channel->buff && n >= m) {
-    really_write(channel->fd, p, n);
-    channel->offset += n;
-  } else if (n <= m) {
-    bcopy(p, channel->curr, n);
-    channel->curr += n;
-    if (channel->curr > channel->max) channel->max = channel->curr;
-  } else {
-    bcopy(p, channel->curr, m);
-    p += m;
-    n -= m;
-    m = channel->end - channel->buff;
-    really_write(channel->fd, channel->buff, m);
-    channel->offset += m;
-    if (n <= m) {
-      bcopy(p, channel->buff, n);
-      channel->curr = channel->max = channel->buff + n;
+  while (n > 0) {
+    m = channel->end - channel->curr;
+    if (channel->curr == channel->buff && n >= m) {
+      m = write_some(channel->fd, p, n);
+      channel->offset += m;
+    } else if (m == 0) {
+      flush(channel);
     } else {
-      really_write(channel->fd, p, n);
-      channel->offset += n;
-      channel->curr = channel->max = channel->buff;
+      if (m > n) m = n;
+      bcopy(p, channel->curr, m);
+      channel->curr += m;
+      channel->max = channel->curr;
     }
+    p += m;
+    n -= m;
   }
 }
 
@@ -179,10 +175,7 @@ value seek_out(struct channel * channel, value pos)    /* ML */
   long dest;
 
   dest = Long_val(pos);
-  if (dest >= channel->offset &&
-      dest <= channel->offset + channel->max - channel->buff) {
-    channel->curr = channel->buff + dest - channel->offset;
-  } else {
+  if (dest != channel->offset + channel->curr - channel->buff) {
     flush(channel);
     if (lseek(channel->fd, dest, 0) != dest) sys_error(NULL);
     channel->offset = dest;
-- 
2.43.0


From 6cacdb39ee97405068de5d4932f2b58db987a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 03/47] fix: closing a standard input stream freed the channel
 other streams still use

---
 src/runtime/io.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 9deb322..1bc400f 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -43,9 +43,11 @@ struct channel * open_descr(int fd)
 {
   struct channel * channel;
 
-  if( (unsigned)fd < 3 && std_channel[fd] != NULL )
-    return std_channel[fd];
-  channel = (struct channel *) stat_alloc(sizeof(struct channel));
+  if( (unsigned)fd < 3 && std_channel[fd] != NULL ) {
+    channel = std_channel[fd];
+    if (channel->fd != -1) return channel;
+  } else
+    channel = (struct channel *) stat_alloc(sizeof(struct channel));
   channel->fd = fd;
   channel->offset = 0;
   channel->curr = channel->max = channel->buff;
@@ -450,8 +452,15 @@ value pos_in(struct channel * channel)           /* ML */
 
 value close_in(struct channel * channel)     /* ML */
 {
-  close(channel->fd);
-  stat_free((char *) channel);
+  int fd = channel->fd;
+
+  if ((unsigned) fd < 3) {
+    /* The struct is shared by all streams on this standard descriptor */
+    channel->fd = -1;
+    channel->curr = channel->max = channel->buff;
+  } else
+    stat_free((char *) channel);
+  if (fd != -1) close(fd);
   return Atom(0);
 }
 
-- 
2.43.0


From c5b68572e629e78e46124ca92336c64e29f14ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:21 +0000
Subject: [PATCH 04/47] fix: an interrupt during inputNoBlock left the
 descriptor in non-blocking mode

---
 src/runtime/io.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 1bc400f..e9fb8fa 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -231,23 +231,17 @@ void nonblocking_mode(int fd, int nonblocking) {
     failwith("nonblocking_mode");
 }
 
-/* Risk: If an interrupt occurs after non-blocking mode has been set,
-   and before it has been reset (unlikely, just because the read is
-   non-blocking), then the next read on the same fd will be
-   non-blocking, whether or not that was the intention.  This may
-   cause SysError "Resource temporarily unavailable" to be raised,
-   when one would have expected the read to block.  Unlikely to be a
-   problem in practice, since reads on an fd are likely to be all
-   blocking or all non-blocking.  sestoft 2000-03-15 */
-
 static int really_read(int fd, char * p, unsigned n, int nonblocking)
 {
   int retcode;
 
+  /* A non-blocking read does not block, so let signals wait until the
+     blocking mode has been restored */
+
   if (nonblocking)
     nonblocking_mode(fd, nonblocking);	   /* set non-blocking */
-
-  enter_blocking_section();
+  else
+    enter_blocking_section();
 #ifdef HAS_UI
   retcode = ui_read(fd, p, n);
 #else
-- 
2.43.0


From 8b7316f16f15d2a71a0d09ebad27d48a1db55c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:29 +0000
Subject: [PATCH 05/47] fix: closing standard output or error did not flush it

---
 src/runtime/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index e9fb8fa..2d19a85 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -192,9 +192,9 @@ value pos_out(struct channel * channel)          /* ML */
 
 value close_out(struct channel * channel)     /* ML */
 {
+  flush(channel);
   if ((unsigned)(channel->fd) >= 3) 
     {
-      flush(channel);
       close(channel->fd);
       stat_free((char *) channel);
     }
-- 
2.43.0


From 72304bfcd96ea946dd1ab07f2f07b9f9461af0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:13 +0000
Subject: [PATCH 06/47] fix: termination looped or did not happen when standard
 output could not be flushed

---
 src/runtime/io.c  | 29 +++++++++++++++++++++--------
 src/runtime/io.h  |  2 +-
 src/runtime/sys.c |  6 ++++--
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 2d19a85..f4e2542 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -80,8 +80,8 @@ value channel_size(struct channel * channel)      /* ML */
 
 /* Output */
 
-/* Write at most n > 0 bytes and return the number of bytes written; raise 
-   SysErr if none could be written. */
+/* Write at most n > 0 bytes and return the number of bytes written, or -1
+   if none could be written. */
 
 static int write_some(int fd, char * p, int n)
 {
@@ -95,31 +95,42 @@ static int write_some(int fd, char * p, int n)
   retcode = write(fd, p, n);
 #endif
 #endif
-  if (retcode == -1) sys_error(NULL);
   return retcode;
 }   
 
 /* The channel is kept up to date after each partial write, so that a
    failure halfway does not cause a later flush to write bytes again. */
 
-value flush(struct channel * channel)            /* ML */
+static int try_flush(struct channel * channel)
 {
   int n, done;
   n = channel->max - channel->buff;
   while (n > 0) {
     done = write_some(channel->fd, channel->buff, n);
+    if (done == -1) return -1;
     channel->offset += done;
     n -= done;
     if (n > 0) bcopy(channel->buff + done, channel->buff, n);
     channel->curr = channel->max = channel->buff + n;
   }
+  return 0;
+}
+
+value flush(struct channel * channel)            /* ML */
+{
+  if (try_flush(channel) == -1) sys_error(NULL);
   return Atom(0);
 }
 
-void flush_stdouterr(void)
+/* Used when terminating, so it must not raise an exception.
+   Returns -1 if some output could not be written. */
+
+int flush_stdouterr(void)
 {
-  if (std_channel[1]) flush(std_channel[1]);
-  if (std_channel[2]) flush(std_channel[2]);
+  int res = 0;
+  if (std_channel[1] && try_flush(std_channel[1]) == -1) res = -1;
+  if (std_channel[2] && try_flush(std_channel[2]) == -1) res = -1;
+  return res;
 }
 
 value output_char(struct channel * channel, value ch)  /* ML */
@@ -149,7 +160,9 @@ void putblock(struct channel * channel, char * p, unsigned n)
   while (n > 0) {
     m = channel->end - channel->curr;
     if (channel->curr == channel->buff && n >= m) {
-      m = write_some(channel->fd, p, n);
+      int done = write_some(channel->fd, p, n);
+      if (done == -1) sys_error(NULL);
+      m = done;
       channel->offset += m;
     } else if (m == 0) {
       flush(channel);
diff --git a/src/runtime/io.h b/src/runtime/io.h
index 50de8e9..393be8d 100644
--- a/src/runtime/io.h
+++ b/src/runtime/io.h
@@ -46,7 +46,7 @@ int getblock (struct channel *, char *, unsigned, int);
 int really_getblock (struct channel *, char *, unsigned long);
 value close_in (struct channel *);
 void close_stdouterr(void);
-void flush_stdouterr(void);
+int flush_stdouterr(void);
 value pos_out(struct channel * channel);
 value seek_out(struct channel * channel, value pos);
 #endif /* _io_ */
diff --git a/src/runtime/sys.c b/src/runtime/sys.c
index 363ecc6..d5b0ac5 100644
--- a/src/runtime/sys.c
+++ b/src/runtime/sys.c
@@ -87,8 +87,10 @@ void sys_error(char * arg)
 
 void sys_exit(value retcode)          /* ML */
 {
-  flush_stdouterr();
-  exit(Int_val(retcode));
+  int status = Int_val(retcode);
+  /* Output that was lost must not go unnoticed */
+  if (flush_stdouterr() == -1 && status == 0) status = 2;
+  exit(status);
 }
 
 #ifndef O_BINARY
-- 
2.43.0


From 4600790595c0de757c48a3d2ef1e3572162cb49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:13 +0000
Subject: [PATCH 07/47] fix: an exit action that raised or called exit
 prevented or repeated the exit

---
 src/mosmllib/BasicIO.sml | 3 +--
 src/mosmllib/Process.mlp | 8 ++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mosmllib/BasicIO.sml b/src/mosmllib/BasicIO.sml
index 23e004d..394ecf1 100644
--- a/src/mosmllib/BasicIO.sml
+++ b/src/mosmllib/BasicIO.sml
@@ -240,8 +240,7 @@ fun open_append s =
 
 prim_val sys_exit : int -> 'a = 1 "sys_exit";
 
-fun exit n =
-  (flush_out std_out; flush_out std_err; sys_exit n)
+fun exit n = sys_exit n		(* flushes std_out and std_err *)
 ;
 
 fun print s = (outputc std_out s; flush_out std_out);
diff --git a/src/mosmllib/Process.mlp b/src/mosmllib/Process.mlp
index 466a780..05f5fd9 100644
--- a/src/mosmllib/Process.mlp
+++ b/src/mosmllib/Process.mlp
@@ -28,9 +28,13 @@ local
 in 
     fun atExit newtask =
 	exittasks := newtask :: !exittasks;
+    (* An action is removed before it is run, so it is run only once even
+       if it calls exit; an action that fails does not prevent the exit. *)
     fun exit status =
-	(List.app (fn f => f ()) (!exittasks);
-	terminate status);
+	case !exittasks of
+	    []        => terminate status
+	  | f :: rest => (exittasks := rest; f () handle _ => ();
+			  exit status);
 end
 
 
-- 
2.43.0


From ddf43a1bacf7a3c9fcd43ae555dcfb6a2995bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:32 +0000
Subject: [PATCH 08/47] fix: never lose a signal or raise Interrupt twice for
 it

---
 src/runtime/interp.c  | 5 ++---
 src/runtime/signals.c | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index 68e79e0..a41e539 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1107,12 +1107,11 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
 	minor_collection ();
 	Restore_after_gc;
       }
-      /* If a signal arrives between the following two instructions,
-         it will be lost. */
       { int signal_number = signal_is_pending;
         Sim_race (5);
-        signal_is_pending = 0;
+        /* Do not clear it otherwise: a signal that has just arrived would be lost */
         if (signal_number) {
+          signal_is_pending = 0;
           /* Push a return frame to the current code location */
           sp -= 4;
           sp[0] = Val_int(signal_number);
diff --git a/src/runtime/signals.c b/src/runtime/signals.c
index 3c27183..ca628bf 100644
--- a/src/runtime/signals.c
+++ b/src/runtime/signals.c
@@ -36,7 +36,10 @@ void enter_blocking_section(void)
   Sim_race (1);
   in_blocking_section = 1;
   Sim_race (2);
-  if (signal_is_pending) execute_signal();
+  if (signal_is_pending) {
+    signal_is_pending = 0;
+    execute_signal();
+  }
 }
 
 void leave_blocking_section(void)
-- 
2.43.0


From 6bc1e96c5a892d8d5137cff24eb55e4a3b13f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:32 +0000
Subject: [PATCH 09/47] fix: Polyhash and Dynarray swallowed Interrupt and
 Out_of_memory, losing entries

---
 src/mosmllib/Dynarray.sml | 2 +-
 src/mosmllib/Polyhash.sml | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mosmllib/Dynarray.sml b/src/mosmllib/Dynarray.sml
index 3b0bd6f..94708ee 100644
--- a/src/mosmllib/Dynarray.sml
+++ b/src/mosmllib/Dynarray.sml
@@ -13,7 +13,7 @@ fun array (sz, dflt) = BLOCK(ref (Array.array (sz,dflt)),dflt)
 
 fun subArray (BLOCK(arr,dflt),lo,hi) = let
       val arrval = !arr
-      fun copy i = (Array.sub(arrval,i+lo)) handle _ => dflt
+      fun copy i = (Array.sub(arrval,i+lo)) handle Subscript => dflt
       in
         BLOCK(ref(Array.tabulate(hi-lo,copy)),dflt)
       end
diff --git a/src/mosmllib/Polyhash.sml b/src/mosmllib/Polyhash.sml
index 97de2bf..8a10b23 100644
--- a/src/mosmllib/Polyhash.sml
+++ b/src/mosmllib/Polyhash.sml
@@ -59,7 +59,7 @@ end;
 			end
 		  fun bucket n = (copy (Array.sub(arr, n)); bucket (n+1))
 		  in
-		    (bucket 0) handle _ => ();
+		    (bucket 0) handle Subscript => ();
 		    table := newArr
 		  end
 		else ()
@@ -264,7 +264,7 @@ end;
 		Array.update (newArr, i, Array.sub(arr, i));
 		mapTbl (i+1))
 	  in
-	    (mapTbl 0) handle _ => ();
+	    (mapTbl 0) handle Subscript => ();
 	    HT{hashVal=hashVal, 
 	       sameKey=sameKey,
 	       table = ref newArr, 
-- 
2.43.0


From 9fc7001a7d93c1e099be923290ae745323087412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:32 +0000
Subject: [PATCH 10/47] fix: Process.getEnv turned Out_of_memory and Interrupt
 into NONE

---
 src/mosmllib/Process.mlp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Process.mlp b/src/mosmllib/Process.mlp
index 05f5fd9..421b38a 100644
--- a/src/mosmllib/Process.mlp
+++ b/src/mosmllib/Process.mlp
@@ -15,7 +15,7 @@ prim_val system : string -> status = 1 "sml_system";
 local
     prim_val getenv_ : string -> string = 1 "sys_getenv";
 in
-    fun getEnv s = (SOME (getenv_ s)) handle _ => NONE
+    fun getEnv s = (SOME (getenv_ s)) handle Invalid_argument _ => NONE
     prim_val sleep  : Time.time -> unit = 1 "sml_sleep";
 end
 
-- 
2.43.0


From 8ba8556d96ee590c84e7e0ac4df28a83dd33b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:43 +0000
Subject: [PATCH 11/47] fix: after an Interrupt raised during input, the next
 signal ran a callback in the middle of the interpreter

---
 src/runtime/signals.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/signals.c b/src/runtime/signals.c
index ca628bf..495e7bb 100644
--- a/src/runtime/signals.c
+++ b/src/runtime/signals.c
@@ -21,10 +21,14 @@ void execute_signal(void)
 {
   if (in_blocking_section) {
     value clos;
+    /* The handler may raise an exception, which leaves the blocking section;
+       and it runs ML code, which must not be interrupted by another callback */
+    in_blocking_section = 0;
     clos = alloc(Closure_wosize, Closure_tag);
     Code_val(clos) = signal_handler;
     Env_val(clos) = Atom(0);
     callback(clos, Val_int(signal_number));
+    in_blocking_section = 1;
   } else {
     signal_is_pending = 1;
     something_to_do = 1;
-- 
2.43.0


From 19faddcfdea05b55e0c6822603682eb612eb2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:44 +0000
Subject: [PATCH 12/47] fix: objects allocated while weak pointers await
 clearing could be reported dead

When the heap was extended below its start between the mark phase and the
weak phase, blocks allocated in the new chunk were white and weak pointers
to them were cleared although the objects were alive.
---
 src/runtime/major_gc.c | 5 +++++
 src/runtime/memory.c   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/major_gc.c b/src/runtime/major_gc.c
index b189588..0cc7871 100644
--- a/src/runtime/major_gc.c
+++ b/src/runtime/major_gc.c
@@ -589,6 +589,11 @@ static void weak_phase()
 	}
     }
   weak_arrays_cur = weak_arrays;
+  /* The heap may have been extended at its start since marking ended. */
+  fl_init_merge ();
+  chunk = heap_start;
+  gc_sweep_hp = chunk;
+  limit = chunk + (((heap_chunk_head *) chunk) [-1]).size;
   gc_phase = Phase_sweep;
 }
 
diff --git a/src/runtime/memory.c b/src/runtime/memory.c
index 6249bc8..9cfc8c6 100644
--- a/src/runtime/memory.c
+++ b/src/runtime/memory.c
@@ -142,7 +142,7 @@ EXTERN value alloc_shr (mlsize_t wosize, tag_t tag)
 
   Assert (Is_in_heap (Val_hp (hp)));
 
-  if (gc_phase == Phase_mark || (addr)hp >= (addr)gc_sweep_hp){
+  if (gc_phase != Phase_sweep || (addr)hp >= (addr)gc_sweep_hp){
     Hd_hp (hp) = Make_header (wosize, tag, Black);
   }else{
     Hd_hp (hp) = Make_header (wosize, tag, White);
-- 
2.43.0


From f4acc61c0d5f05f7dcd78e03be7509ef6f0d0383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:48 +0000
Subject: [PATCH 13/47] fix: Regex matches with thousands of groups overran the
 minor heap and used a moved substring

---
 src/dynlibs/mregex/mregex.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynlibs/mregex/mregex.c b/src/dynlibs/mregex/mregex.c
index d5484cb..7dba315 100644
--- a/src/dynlibs/mregex/mregex.c
+++ b/src/dynlibs/mregex/mregex.c
@@ -141,6 +141,7 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
     /* Find actual number of named substrings */
     value res;
     int strlen = len_susval(susval);
+    long start = start_susval(susval); /* susval is not a GC root below */
     int last = 0;
     int i = 0;
     // printf("pmatch[%d].rm_so = %d\n", i, pmatch[i].rm_so);
@@ -168,9 +169,10 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
       Push_roots(r, 2);
       r[0] = base_susval(susval); 
       /* Allocate and initialize vector in ML heap */
-      r[1] = alloc_tuple(nmatch); 
+      r[1] = nmatch <= Max_young_wosize 
+	? alloc_tuple(nmatch) : alloc_shr(nmatch, 0);
       for (i=0; i<nmatch; i++) 
-	modify(&Field(r[1], i), Atom(0));
+	Field(r[1], i) = Atom(0);
       /* Fill in substrings in vector */
       for (i=0; i<nmatch; i++) {
 	/* Allocate a value of type substring = string * int * int */
@@ -180,7 +182,7 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
 	if (pmatch[i].rm_so != -1) { /* Substring took part in the match */
 	  /* Component 1: the substring start byte offset  */
 	  modify(&Field(substr, 1), 
-		 Val_long(start_susval(susval) + pmatch[i].rm_so));
+		 Val_long(start + pmatch[i].rm_so));
 	  /* Component 2: the substring length in bytes    */
 	  modify(&Field(substr, 2), 
 		 Val_long(pmatch[i].rm_eo - pmatch[i].rm_so));
-- 
2.43.0


From 347dcac6ea9bd7fab68e7ac38fb4e544dc76e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:27 +0000
Subject: [PATCH 14/47] fix: Regex leaked memory for every pattern it refused
 and dereferenced NULL when out of memory

---
 src/dynlibs/mregex/mregex.c           | 70 +++++++++++++++++++++------
 src/dynlibs/mregex/regex-0.12/regex.c | 58 +++++++++++-----------
 2 files changed, 87 insertions(+), 41 deletions(-)

diff --git a/src/dynlibs/mregex/mregex.c b/src/dynlibs/mregex/mregex.c
index 7dba315..dfaa0d4 100644
--- a/src/dynlibs/mregex/mregex.c
+++ b/src/dynlibs/mregex/mregex.c
@@ -15,7 +15,8 @@
 #include <alloc.h>		/* For copy_string, alloc_string, ...      */
 #include <memory.h>		/* For Modify, Push_roots, Pop_roots       */
 #include <str.h>		/* For string_length                       */
-#include <fail.h>		/* For failwith                            */
+#include <fail.h>		/* For raiseprimitive1                     */
+#include <globals.h>		/* For SYS__EXN_FAIL                       */
 
 /* Special version of regexec, defined at the end of this file */
 
@@ -66,11 +67,11 @@ void regex_finalize(value regexval) {
 /* Allocate a regex value */
 /* Finalized objects are abstract, so can store nmatch as C int */
 
-value regex_alloc(regex_t* preg, int nmatch) { 
+value regex_alloc(regex_t* preg, int nmatch, regmatch_t* pmatch) { 
   value res = alloc_final(4, &regex_finalize, 1, 10000);
   Field(res, 1) = (value)preg;
   Field(res, 2) = (value)nmatch;
-  Field(res, 3) = (value)(malloc(nmatch * sizeof(regmatch_t)));
+  Field(res, 3) = (value)pmatch;
   return res;
 }
 
@@ -80,11 +81,29 @@ char* regerrorstring(int errcode, regex_t* preg) {
   /* Get the error message size: */
   int n = regerror(errcode, preg, NULL, 0);
   char* errmsg = (char*)(malloc(n));
+  if (errmsg == NULL)
+    return NULL;
   /* Get the error message itself: */
   regerror(errcode, preg, errmsg, n);
   return errmsg;
 }
 
+/* Release what a failed compilation allocated and raise the exception */
+
+static void regcomp_failed(int errcode, regex_t* preg, int onheap) {
+  char* errmsg = errcode == REG_ESPACE ? NULL : regerrorstring(errcode, preg);
+  regfree(preg);
+  if (onheap)
+    free(preg);
+  if (errmsg == NULL)
+    raise_out_of_memory();
+  else {
+    value msg = copy_string(errmsg);
+    free(errmsg);
+    raiseprimitive1(SYS__EXN_FAIL, msg);
+  }
+}
+
 /* Find the maximal number of named substrings in the match, plus 1 */
 
 int maxnmatch(value patval) {
@@ -115,16 +134,23 @@ EXTERNML value mregex_getflags(value dummy) {
 /* ML type: string -> word -> regex */
 
 EXTERNML value mregex_regcomp(value patval, value cflagsval) {
+  int nmatch = maxnmatch(patval);
   regex_t* preg = (regex_t*)(malloc(sizeof(regex_t)));
+  regmatch_t* pmatch = (regmatch_t*)(malloc(nmatch * sizeof(regmatch_t)));
   char* pat = String_val(patval);
   int cflags = Long_val(cflagsval);
-  int comperror = regcomp(preg, pat, cflags);
-  if (comperror != 0) {
-    char* errmsg = regerrorstring(comperror, preg);
+  int comperror;
+  if (preg == NULL || pmatch == NULL) {
     free(preg);
-    failwith(errmsg);		/* Should free errmsg too, but never mind */
+    free(pmatch);
+    raise_out_of_memory();
+  }
+  comperror = regcomp(preg, pat, cflags);
+  if (comperror != 0) {
+    free(pmatch);
+    regcomp_failed(comperror, preg, 1);
   } else 
-    return regex_alloc(preg, maxnmatch(patval));
+    return regex_alloc(preg, nmatch, pmatch);
   /* Unreachable */
   return NONE;
 }
@@ -202,7 +228,9 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
       Pop_roots();
     }
     return res;
-  } else /* matcherror == REG_NOMATCH */
+  } else if (matcherror == REG_ESPACE)
+    return (value)NULL;		/* Out of memory, the caller must raise */
+  else /* matcherror == REG_NOMATCH */
     return NONE;
 }
 
@@ -223,7 +251,10 @@ EXTERNML value mregex_regexec_sus(value regex, value eflagsval,
   int nmatch = nmatch_val(regex);
   regmatch_t* pmatch = pmatch_val(regex);
   int eflags = Long_val(eflagsval);
-  return regmatch_sus(preg, nmatch, pmatch, eflags, susval);
+  value res = regmatch_sus(preg, nmatch, pmatch, eflags, susval);
+  if (res == (value)NULL)
+    raise_out_of_memory();
+  return res;
 }
 
 /* ML type: regex -> word -> substring -> bool */
@@ -246,14 +277,21 @@ EXTERNML value mregex_regmatch_sus(value patval, value cflagsval,
   int cflags = Long_val(cflagsval);
   int comperror = regcomp(&patbuf, pat, cflags);
   if (comperror != 0) 
-    failwith(regerrorstring(comperror, &patbuf));
+    regcomp_failed(comperror, &patbuf, 0);
   else {
     int nmatch = maxnmatch(patval);
     regmatch_t* pmatch = (regmatch_t*)(malloc(nmatch * sizeof(regmatch_t)));
     int eflags = Long_val(eflagsval);
-    value res = regmatch_sus(&patbuf, nmatch, pmatch, eflags, susval);
+    value res;
+    if (pmatch == NULL) {
+      regfree(&patbuf);
+      raise_out_of_memory();
+    }
+    res = regmatch_sus(&patbuf, nmatch, pmatch, eflags, susval);
     free(pmatch);
     regfree(&patbuf);
+    if (res == (value)NULL)
+      raise_out_of_memory();
     return res;
   }
   /* Unreachable: */
@@ -271,7 +309,7 @@ EXTERNML value mregex_regmatch_bool(value patval, value cflagsval,
   int cflags = Long_val(cflagsval);
   int comperror = regcomp(&patbuf, pat, cflags);
   if (comperror != 0) 
-    failwith(regerrorstring(comperror, &patbuf));
+    regcomp_failed(comperror, &patbuf, 0);
   else {
     int eflags = Long_val(eflagsval);
     value res = regmatch_bool(&patbuf, eflags, susval);
@@ -333,7 +371,11 @@ mosml_regexec (preg, string, len /* NEW */, nmatch, pmatch, eflags)
       regs.start = TALLOC (nmatch, regoff_t);
       regs.end = TALLOC (nmatch, regoff_t);
       if (regs.start == NULL || regs.end == NULL)
-        return (int) REG_NOMATCH;
+        {
+          free (regs.start);
+          free (regs.end);
+          return (int) REG_ESPACE;
+        }
     }
 
   /* Perform the searching operation.  */
diff --git a/src/dynlibs/mregex/regex-0.12/regex.c b/src/dynlibs/mregex/regex-0.12/regex.c
index 8169880..406109c 100644
--- a/src/dynlibs/mregex/regex-0.12/regex.c
+++ b/src/dynlibs/mregex/regex-0.12/regex.c
@@ -845,12 +845,16 @@ static boolean at_begline_loc_p (), at_endline_loc_p ();
 static boolean group_in_compile_stack ();
 static reg_errcode_t compile_range ();
 
+/* Leave regex_compile with an error code, releasing the compile stack.  */
+#define FREE_STACK_RETURN(value)					\
+  do { free (compile_stack.stack); return (value); } while (0)
+
 /* Fetch the next character in the uncompiled pattern---translating it 
    if necessary.  Also cast from a signed character in the constant
    string passed to us by the user to an unsigned char that we can use
    as an array index (in, e.g., `translate').  */
 #define PATFETCH(c)							\
-  do {if (p == pend) return REG_EEND;					\
+  do {if (p == pend) FREE_STACK_RETURN (REG_EEND);			\
     c = (unsigned char) *p++;						\
     if (translate) c = translate[c]; 					\
   } while (0)
@@ -858,7 +862,7 @@ static reg_errcode_t compile_range ();
 /* Fetch the next character in the uncompiled pattern, with no
    translation.  */
 #define PATFETCH_RAW(c)							\
-  do {if (p == pend) return REG_EEND;					\
+  do {if (p == pend) FREE_STACK_RETURN (REG_EEND);			\
     c = (unsigned char) *p++; 						\
   } while (0)
 
@@ -942,13 +946,13 @@ static reg_errcode_t compile_range ();
   do { 									\
     unsigned char *old_buffer = bufp->buffer;				\
     if (bufp->allocated == MAX_BUF_SIZE) 				\
-      return REG_ESIZE;							\
+      FREE_STACK_RETURN (REG_ESIZE);					\
     bufp->allocated <<= 1;						\
     if (bufp->allocated > MAX_BUF_SIZE)					\
       bufp->allocated = MAX_BUF_SIZE; 					\
     bufp->buffer = (unsigned char *) realloc (bufp->buffer, bufp->allocated);\
     if (bufp->buffer == NULL)						\
-      return REG_ESPACE;						\
+      FREE_STACK_RETURN (REG_ESPACE);					\
     /* If the buffer moved, move all the pointers into it.  */		\
     if (old_buffer != bufp->buffer)					\
       {									\
@@ -1164,7 +1168,7 @@ regex_compile (pattern, size, syntax, bufp)
         { /* Caller did not allocate a buffer.  Do it for them.  */
           bufp->buffer = TALLOC (INIT_BUF_SIZE, unsigned char);
         }
-      if (!bufp->buffer) return REG_ESPACE;
+      if (!bufp->buffer) FREE_STACK_RETURN (REG_ESPACE);
 
       bufp->allocated = INIT_BUF_SIZE;
     }
@@ -1219,7 +1223,7 @@ regex_compile (pattern, size, syntax, bufp)
           if (!laststart)
             {
               if (syntax & RE_CONTEXT_INVALID_OPS)
-                return REG_BADRPT;
+                FREE_STACK_RETURN (REG_BADRPT);
               else if (!(syntax & RE_CONTEXT_INDEP_OPS))
                 goto normal_char;
             }
@@ -1252,7 +1256,7 @@ regex_compile (pattern, size, syntax, bufp)
 
                 else if (syntax & RE_BK_PLUS_QM  &&  c == '\\')
                   {
-                    if (p == pend) return REG_EESCAPE;
+                    if (p == pend) FREE_STACK_RETURN (REG_EESCAPE);
 
                     PATFETCH (c1);
                     if (!(c1 == '+' || c1 == '?'))
@@ -1351,7 +1355,7 @@ regex_compile (pattern, size, syntax, bufp)
           {
             boolean had_char_class = false;
 
-            if (p == pend) return REG_EBRACK;
+            if (p == pend) FREE_STACK_RETURN (REG_EBRACK);
 
             /* Ensure that we have enough space to push a charset: the
                opcode, the length count, and the bitset; 34 bytes in all.  */
@@ -1382,14 +1386,14 @@ regex_compile (pattern, size, syntax, bufp)
             /* Read in characters and ranges, setting map bits.  */
             for (;;)
               {
-                if (p == pend) return REG_EBRACK;
+                if (p == pend) FREE_STACK_RETURN (REG_EBRACK);
 
                 PATFETCH (c);
 
                 /* \ might escape characters inside [...] and [^...].  */
                 if ((syntax & RE_BACKSLASH_ESCAPE_IN_LISTS) && c == '\\')
                   {
-                    if (p == pend) return REG_EESCAPE;
+                    if (p == pend) FREE_STACK_RETURN (REG_EESCAPE);
 
                     PATFETCH (c1);
                     SET_LIST_BIT (c1);
@@ -1405,7 +1409,7 @@ regex_compile (pattern, size, syntax, bufp)
                 /* Look ahead to see if it's a range when the last thing
                    was a character class.  */
                 if (had_char_class && c == '-' && *p != ']')
-                  return REG_ERANGE;
+                  FREE_STACK_RETURN (REG_ERANGE);
 
                 /* Look ahead to see if it's a range when the last thing
                    was a character: if this is a hyphen not at the
@@ -1418,7 +1422,7 @@ regex_compile (pattern, size, syntax, bufp)
                   {
                     reg_errcode_t ret
                       = compile_range (&p, pend, translate, syntax, b);
-                    if (ret != REG_NOERROR) return ret;
+                    if (ret != REG_NOERROR) FREE_STACK_RETURN (ret);
                   }
 
                 else if (p[0] == '-' && p[1] != ']')
@@ -1429,7 +1433,7 @@ regex_compile (pattern, size, syntax, bufp)
                     PATFETCH (c1);
                     
                     ret = compile_range (&p, pend, translate, syntax, b);
-                    if (ret != REG_NOERROR) return ret;
+                    if (ret != REG_NOERROR) FREE_STACK_RETURN (ret);
                   }
 
                 /* See if we're at the beginning of a possible character
@@ -1443,7 +1447,7 @@ regex_compile (pattern, size, syntax, bufp)
                     c1 = 0;
 
                     /* If pattern is `[[:'.  */
-                    if (p == pend) return REG_EBRACK;
+                    if (p == pend) FREE_STACK_RETURN (REG_EBRACK);
 
                     for (;;)
                       {
@@ -1474,13 +1478,13 @@ regex_compile (pattern, size, syntax, bufp)
                         boolean is_upper = STREQ (str, "upper");
                         boolean is_xdigit = STREQ (str, "xdigit");
                         
-                        if (!IS_CHAR_CLASS (str)) return REG_ECTYPE;
+                        if (!IS_CHAR_CLASS (str)) FREE_STACK_RETURN (REG_ECTYPE);
 
                         /* Throw away the ] at the end of the character
                            class.  */
                         PATFETCH (c);					
 
-                        if (p == pend) return REG_EBRACK;
+                        if (p == pend) FREE_STACK_RETURN (REG_EBRACK);
 
                         for (ch = 0; ch < 1 << BYTEWIDTH; ch++)
                           {
@@ -1562,7 +1566,7 @@ regex_compile (pattern, size, syntax, bufp)
 
 
         case '\\':
-          if (p == pend) return REG_EESCAPE;
+          if (p == pend) FREE_STACK_RETURN (REG_EESCAPE);
 
           /* Do not translate the character after the \, so that we can
              distinguish, e.g., \B from \b, even if we normally would
@@ -1583,7 +1587,7 @@ regex_compile (pattern, size, syntax, bufp)
                 { 
                   RETALLOC (compile_stack.stack, compile_stack.size << 1,
                             compile_stack_elt_t);
-                  if (compile_stack.stack == NULL) return REG_ESPACE;
+                  if (compile_stack.stack == NULL) FREE_STACK_RETURN (REG_ESPACE);
 
                   compile_stack.size <<= 1;
                 }
@@ -1627,7 +1631,7 @@ regex_compile (pattern, size, syntax, bufp)
                 if (syntax & RE_UNMATCHED_RIGHT_PAREN_ORD)
                   goto normal_backslash;
                 else
-                  return REG_ERPAREN;
+                  FREE_STACK_RETURN (REG_ERPAREN);
 
             handle_close:
               if (fixup_alt_jump)
@@ -1647,7 +1651,7 @@ regex_compile (pattern, size, syntax, bufp)
                 if (syntax & RE_UNMATCHED_RIGHT_PAREN_ORD)
                   goto normal_char;
                 else
-                  return REG_ERPAREN;
+                  FREE_STACK_RETURN (REG_ERPAREN);
 
               /* Since we just checked for an empty stack above, this
                  ``can't happen''.  */
@@ -1754,7 +1758,7 @@ regex_compile (pattern, size, syntax, bufp)
                     if (syntax & RE_NO_BK_BRACES)
                       goto unfetch_interval;
                     else
-                      return REG_EBRACE;
+                      FREE_STACK_RETURN (REG_EBRACE);
                   }
 
                 GET_UNSIGNED_NUMBER (lower_bound);
@@ -1774,12 +1778,12 @@ regex_compile (pattern, size, syntax, bufp)
                     if (syntax & RE_NO_BK_BRACES)
                       goto unfetch_interval;
                     else 
-                      return REG_BADBR;
+                      FREE_STACK_RETURN (REG_BADBR);
                   }
 
                 if (!(syntax & RE_NO_BK_BRACES)) 
                   {
-                    if (c != '\\') return REG_EBRACE;
+                    if (c != '\\') FREE_STACK_RETURN (REG_EBRACE);
 
                     PATFETCH (c);
                   }
@@ -1789,7 +1793,7 @@ regex_compile (pattern, size, syntax, bufp)
                     if (syntax & RE_NO_BK_BRACES)
                       goto unfetch_interval;
                     else 
-                      return REG_BADBR;
+                      FREE_STACK_RETURN (REG_BADBR);
                   }
 
                 /* We just parsed a valid interval.  */
@@ -1798,7 +1802,7 @@ regex_compile (pattern, size, syntax, bufp)
                 if (!laststart)
                   {
                     if (syntax & RE_CONTEXT_INVALID_OPS)
-                      return REG_BADRPT;
+                      FREE_STACK_RETURN (REG_BADRPT);
                     else if (syntax & RE_CONTEXT_INDEP_OPS)
                       laststart = b;
                     else
@@ -1965,7 +1969,7 @@ regex_compile (pattern, size, syntax, bufp)
               c1 = c - '0';
 
               if (c1 > regnum)
-                return REG_ESUBREG;
+                FREE_STACK_RETURN (REG_ESUBREG);
 
               /* Can't back reference to a subexpression if inside of it.  */
               if (group_in_compile_stack (compile_stack, c1))
@@ -2037,7 +2041,7 @@ regex_compile (pattern, size, syntax, bufp)
     STORE_JUMP (jump_past_alt, fixup_alt_jump, b);
 
   if (!COMPILE_STACK_EMPTY) 
-    return REG_EPAREN;
+    FREE_STACK_RETURN (REG_EPAREN);
 
   free (compile_stack.stack);
 
-- 
2.43.0


From 1835f153118f10b673c672e5d7371bbab52e547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:08 +0000
Subject: [PATCH 15/47] fix: a space overhead of 100 or more stopped the major
 collector, so the heap grew without bound

---
 src/runtime/gc_ctrl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/gc_ctrl.c b/src/runtime/gc_ctrl.c
index 52bcd9c..9d3db36 100644
--- a/src/runtime/gc_ctrl.c
+++ b/src/runtime/gc_ctrl.c
@@ -119,6 +119,7 @@ value gc_get (value v) /* ML */
 static int norm_pfree (int p)
 {
   if (p < 1) return p = 1;
+  if (p > 99) return p = 99;	/* at 100 the collector would never mark */
   return p;
 }
 
-- 
2.43.0


From f343d902c0e5d5a6878799c01818adb3e196b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:43 +0000
Subject: [PATCH 16/47] fix: running out of memory during a minor collection
 recursed until the C stack overflowed

---
 src/runtime/memory.c   | 5 ++++-
 src/runtime/minor_gc.c | 6 ++++++
 src/runtime/minor_gc.h | 1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/runtime/memory.c b/src/runtime/memory.c
index 9cfc8c6..acc18e1 100644
--- a/src/runtime/memory.c
+++ b/src/runtime/memory.c
@@ -134,7 +134,10 @@ EXTERN value alloc_shr (mlsize_t wosize, tag_t tag)
   hp = fl_allocate (wosize);
   if (hp == NULL){
     new_block = expand_heap (wosize);
-    if (new_block == NULL) raise_out_of_memory ();
+    if (new_block == NULL){
+      if (in_minor_collection) fatal_error ("Fatal error: out of memory.\n");
+      raise_out_of_memory ();
+    }
     fl_add_block (new_block);
     hp = fl_allocate (wosize);
     if (hp == NULL) fatal_error ("alloc_shr: expand heap failed\n");
diff --git a/src/runtime/minor_gc.c b/src/runtime/minor_gc.c
index d8dfe79..a4dcf81 100644
--- a/src/runtime/minor_gc.c
+++ b/src/runtime/minor_gc.c
@@ -116,6 +116,10 @@ static void oldify (value *p, value v)
   }
 }
 
+/* True while live blocks are being copied.  An exception cannot be raised
+   then: allocating it would start another minor collection. */
+int in_minor_collection = 0;
+
 void minor_collection(void)
 {
   value **r;
@@ -128,6 +132,7 @@ void minor_collection(void)
   }
   old_external_raise = external_raise;
   external_raise = &raise_buf;
+  in_minor_collection = 1;
 
   beg_gc_time();
 
@@ -140,6 +145,7 @@ void minor_collection(void)
   ref_table_limit = ref_table_threshold;
   gc_message (">", 0);
 
+  in_minor_collection = 0;
   external_raise = old_external_raise;
 
   stat_promoted_words += allocated_words - prev_alloc_words;
diff --git a/src/runtime/minor_gc.h b/src/runtime/minor_gc.h
index 0d75265..6048e86 100644
--- a/src/runtime/minor_gc.h
+++ b/src/runtime/minor_gc.h
@@ -12,6 +12,7 @@ extern asize_t minor_heap_size;
   ((addr)(val) > (addr)young_start && (addr)(val) < (addr)young_end)
 
 extern void set_minor_heap_size (asize_t);
+extern int in_minor_collection;
 extern void minor_collection (void);
 extern void realloc_ref_table (void);
 
-- 
2.43.0


From 62400818ab0bcada2d1675beb767974a28b83c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:10 +0000
Subject: [PATCH 17/47] fix: running out of memory in IntInf left a big integer
 whose finalizer freed memory it did not own

---
 src/dynlibs/intinf/intinf.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dynlibs/intinf/intinf.c b/src/dynlibs/intinf/intinf.c
index 55807a3..6b6eec6 100644
--- a/src/dynlibs/intinf/intinf.c
+++ b/src/dynlibs/intinf/intinf.c
@@ -179,8 +179,10 @@ value largeint_make(value null)
 
 value largeint_make_si(value src)			
 { 
-  value li = largeint_alloc();
-  mpz_init_set_si(Large_val(li), Long_val(src));
+  /* Two steps, because mpz_init allocates nothing and so cannot raise;
+     the finalizer must never see an uninitialized MP_INT. */
+  value li = largeint_make(Val_unit);
+  mpz_set_si(Large_val(li), Long_val(src));
   return li;
 }
 
@@ -225,6 +227,11 @@ value largeint_sub(value dest, value li1, value li2)
 
 value largeint_mul(value dest, value li1, value li2)
 { 
+  /* Make room first: should mpz_mul run out of memory while replacing the
+     limbs of dest, it would leave a pointer to memory already released. */
+  mpz_realloc2(Large_val(dest), 
+	       (mpz_size(Large_val(li1)) + mpz_size(Large_val(li2)) + 1)
+	       * GMP_NUMB_BITS);
   mpz_mul(Large_val(dest), Large_val(li1), Large_val(li2)); 
   return Val_unit;
 }
@@ -318,6 +325,8 @@ value largeint_get_str(value src, value base)
   long len = 3 + mpz_sizeinbase(Large_val(src), Long_val(base));
   char *buffer = (char*)(malloc(len));
   value res;
+  if (buffer == NULL)
+    raise_out_of_memory();
   mpz_get_str(buffer, Long_val(base), Large_val(src));  
   res = copy_string(buffer);
   free(buffer);
-- 
2.43.0


From 28f0bc3b018c2de4a38ccee105136ec79b07e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:45 +0000
Subject: [PATCH 18/47] fix: several results of malloc were used unchecked

---
 src/runtime/expand.c |  5 +++--
 src/runtime/interp.c |  2 +-
 src/runtime/main.c   |  2 +-
 src/runtime/md5sum.c | 10 ++++------
 src/runtime/meta.c   |  2 +-
 src/runtime/mosml.c  |  2 +-
 6 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/runtime/expand.c b/src/runtime/expand.c
index d8cf4d3..26e5471 100644
--- a/src/runtime/expand.c
+++ b/src/runtime/expand.c
@@ -6,6 +6,7 @@
 
 #include "fail.h"
 #include "instruct.h"
+#include "memory.h"
 #include "misc.h"
 #include "unalignd.h"
 #include "interp.h"
@@ -358,9 +359,9 @@ realcode_t expandcode(bytecode_t byteprog, int code_size, void * jumptable[])
 {
 #ifdef THREADED
   bytecode_t pc = byteprog;
-  int *realaddress = (int*)(malloc(code_size * sizeof(int)));
+  int *realaddress = (int*)(stat_alloc(code_size * sizeof(int)));
   int realsize = buildrealmap(byteprog, code_size, realaddress);
-  realcode_t realprog = (realcode_t)malloc(realsize * sizeof(void*));
+  realcode_t realprog = (realcode_t)stat_alloc(realsize * sizeof(void*));
   int codeptr = 0;
 
   while (pc - byteprog < code_size) {
diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index a41e539..4c523e9 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1174,7 +1174,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
 	int i;
         *--sp = accu;
         Setup_for_c_call;
-	args = (value*)malloc(n * sizeof(value));
+	args = (value*)stat_alloc(n * sizeof(value));
 	for (i = 0; i < n; i++) 
 	  args[i] = sp[n-i];
         accu = (cprim[u16pc])(args, n);
diff --git a/src/runtime/main.c b/src/runtime/main.c
index c8cd1bb..c1a38e6 100644
--- a/src/runtime/main.c
+++ b/src/runtime/main.c
@@ -257,7 +257,7 @@ int main(int argc, char * argv[])
     if (Field(exn_bucket, 0) == Field(global_data, SYS__EXN_MEMORY))
       fatal_error ("Fatal error: out of memory.\n");
     else {
-      char* buf = (char*)malloc(201);
+      char buf[201];
       char* exnmsg = exnmessage_aux(exn_bucket);
 #if defined(__CYGWIN__) || defined(hpux)
       sprintf(buf, "Uncaught exception:\n%s\n", exnmsg);
diff --git a/src/runtime/md5sum.c b/src/runtime/md5sum.c
index f0cbe32..75d1e8a 100644
--- a/src/runtime/md5sum.c
+++ b/src/runtime/md5sum.c
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include "mlvalues.h"
 #include "alloc.h"
+#include "memory.h"
 #include "str.h"
 #include "md5sum.h"
 
@@ -164,7 +165,7 @@ MD5state* md5(byte*, my_uint, byte*, MD5state*);
 
 EXTERN value md5sum(value str)     /* ML */
 {
-	byte *buf;
+	byte buf[256*64];
 	byte digest[16], pr64[25];
 	int n, len, start;
 	MD5state *s;
@@ -172,7 +173,6 @@ EXTERN value md5sum(value str)     /* ML */
 	s = nil;
 	len = string_length(str);
 	start = 0;
-	buf = calloc(256,64);
 	for(;;){
 	  if (len - start < 128*64)
 	    n = len - start;
@@ -187,7 +187,6 @@ EXTERN value md5sum(value str)     /* ML */
 	md5(buf, n, digest, s);
 	enc64(pr64,digest,sizeof(digest));
 	pr64[22] = '\0';  /* chop trailing == */
-	free(buf);
 	return copy_string((char *)pr64);
 }
 
@@ -205,9 +204,8 @@ md5(byte *p, my_uint len, byte *digest, MD5state *s)
 	my_uint x[16];
 
 	if(s == nil){
-		s = calloc(sizeof(*s),1);
-		if(s == nil)
-			return nil;
+		s = (MD5state*) stat_alloc(sizeof(*s));
+		memset(s, 0, sizeof(*s));
 
 		/* seed the state, these constants would look nicer big-endian */
 		s->state[0] = 0x67452301;
diff --git a/src/runtime/meta.c b/src/runtime/meta.c
index 57b0805..33adb97 100644
--- a/src/runtime/meta.c
+++ b/src/runtime/meta.c
@@ -39,7 +39,7 @@ value start_interp(value may_free, value prog, value offset, value vlen) /* ML *
 #else
   {
     // Copy bytecode to memory outside the ML heap
-    bytecode_t actualprog = (bytecode_t)malloc(len);
+    bytecode_t actualprog = (bytecode_t)stat_alloc(len);
     bcopy(bprog, actualprog, len);
     res = interprete(/* mode=byte exec */ 1, actualprog, len, NULL);
     if (Bool_val(may_free)) 
diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index a84c682..ea26e8a 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1540,7 +1540,7 @@ value sml_exnname(value exn)	/* ML */
 char* exnmessage_aux(value exn)
 {
 #define BUFSIZE 256
-  char* buf = (char*)malloc(BUFSIZE+1);
+  char* buf = (char*)stat_alloc(BUFSIZE+1);
   /* An exn val is a pair (strref, argval) : string ref * 'a */
   value strref = Field(exn, 0);
   value strval = Field(strref, 0);
-- 
2.43.0


From 844d00779389d17e8e11371551915ebb4c82c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:39 +0000
Subject: [PATCH 19/47] fix: integers stored as whole values read back equal

extern_val writes a value that is a bare integer as one 32-bit word and
intern_val did not sign-extend it: negative integers came back positive,
and on 64-bit machines integers beyond 31 bits lost their upper half.
---
 src/runtime/extern.c | 13 +++++++++++++
 src/runtime/intern.c |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/runtime/extern.c b/src/runtime/extern.c
index 4970291..d8c6a70 100644
--- a/src/runtime/extern.c
+++ b/src/runtime/extern.c
@@ -141,6 +141,19 @@ value extern_val(chan, v)       /* ML */
   extern_table_used = 0;
   res = emit_all(v);
   stat_free((char *) extern_table);
+#ifdef SIXTYFOUR
+  if (extern_pos == 0 && Is_long(v) && v != (value)(int32) v) {
+    /* An integer that does not fit in the 32-bit word below:
+       the compact format has a representation for it. */
+    int i;
+    putword(chan, Compact_magic_number);
+    for (i = 0; i < 3; i++) putword(chan, 0);
+    putch(chan, CODE_INT64);
+    for (i = 56; i >= 0; i -= 8) putch(chan, Long_val(v) >> i);
+    stat_free((char *) extern_block);
+    return Val_unit;
+  }
+#endif
   putword(chan, Extern_magic_number);
   putword(chan, extern_pos);
   if (extern_pos == 0)
diff --git a/src/runtime/intern.c b/src/runtime/intern.c
index af7f408..aa5d4a9 100644
--- a/src/runtime/intern.c
+++ b/src/runtime/intern.c
@@ -444,7 +444,7 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
 
   whsize = getword(chan);
   if (whsize == 0) {
-    res = (value) getword(chan);
+    res = (value) (int32) getword(chan);        /* sign extension */
     if (Is_long(res))
       return res;
     else
-- 
2.43.0


From d64842bfa7147bcbbb61a780dbc9190167f00029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:39 +0000
Subject: [PATCH 20/47] fix: a read error inside input_value does not damage
 the heap

The stored image was read over the header of the block allocated for it,
and the header was restored only at end of file, not when reading raised
(an I/O error or an interrupt), leaving a heap chunk that cannot be walked.
---
 src/runtime/intern.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/runtime/intern.c b/src/runtime/intern.c
index aa5d4a9..fb2b629 100644
--- a/src/runtime/intern.c
+++ b/src/runtime/intern.c
@@ -481,10 +481,12 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
     hd = Hd_val (res);
     color = Color_hd (hd);
     Assert (color == White || color == Black);
-    if (really_getblock(chan, Hp_val(res), bhsize) == 0) {
-      Hd_val (res) = hd;                      /* Avoid confusing the GC. */
+    /* The block's own header stays in place until everything has been read:
+       reading may raise an exception. */
+    if (really_getblock(chan, (char *) &hd, sizeof(header_t)) == 0
+        || really_getblock(chan, (char *) res, bhsize - sizeof(header_t)) == 0)
       failwith ("intern : truncated object");
-    }
+    Hd_val (res) = hd;
     if (magic == Wrong_endian_64_magic_number)
       rev_pointers((value*)(Hp_val (res)), whsize);
     adjust_pointers((value*)(Hp_val (res)), whsize, color);
@@ -536,10 +538,12 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
     hd = Hd_val (res);
     color = Color_hd (hd);
     Assert (color == White || color == Black);
-    if (really_getblock(chan, Hp_val(res), bhsize) == 0) {
-      Hd_val (res) = hd;                      /* Avoid confusing the GC. */
+    /* The block's own header stays in place until everything has been read:
+       reading may raise an exception. */
+    if (really_getblock(chan, (char *) &hd, sizeof(header_t)) == 0
+        || really_getblock(chan, (char *) res, bhsize - sizeof(header_t)) == 0)
       failwith ("intern : truncated object");
-    }
+    Hd_val (res) = hd;
     if (magic == Wrong_endian_32_magic_number)
       rev_pointers((value*)(Hp_val (res)), whsize);
     adjust_pointers((value*)(Hp_val (res)), whsize, color);
-- 
2.43.0


From 3d3504910d2173595a67d0544ca85d7b47688f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:20 +0000
Subject: [PATCH 21/47] fix: a failing output_value frees its tables

When the value cannot be stored, memory runs out or the channel fails, the
exception left extern_table and extern_block allocated for good.
---
 src/runtime/extern.c   | 29 ++++++++++++++++++++++++-----
 src/runtime/externcp.c | 14 +++++++++++++-
 src/runtime/intext.h   |  1 +
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/runtime/extern.c b/src/runtime/extern.c
index d8c6a70..0a85941 100644
--- a/src/runtime/extern.c
+++ b/src/runtime/extern.c
@@ -46,6 +46,14 @@ void resize_extern_table()
 byteoffset_t * extern_block;
 asize_t extern_size, extern_pos;
 
+void free_extern_tables()
+{
+  if (extern_table != NULL) stat_free((char *) extern_table);
+  if (extern_block != NULL) stat_free((char *) extern_block);
+  extern_table = NULL;
+  extern_block = NULL;
+}
+
 static void resize_result()
 {
   extern_size = 2 * extern_size;
@@ -131,7 +139,18 @@ value extern_val(chan, v)       /* ML */
      value v;
 {
   byteoffset_t res;
+  struct longjmp_buffer raise_buf;
+  struct longjmp_buffer * saved_raise = external_raise;
 
+  extern_table = NULL;
+  extern_block = NULL;
+  if (setjmp(raise_buf.buf)) {
+    /* Not storable, no memory, or the channel failed */
+    external_raise = saved_raise;
+    free_extern_tables();
+    mlraise(exn_bucket);
+  }
+  external_raise = &raise_buf;
   extern_size = INITIAL_EXTERN_SIZE;
   extern_block =
     (byteoffset_t *) stat_alloc(extern_size * sizeof(unsigned long));
@@ -140,7 +159,6 @@ value extern_val(chan, v)       /* ML */
   alloc_extern_table();
   extern_table_used = 0;
   res = emit_all(v);
-  stat_free((char *) extern_table);
 #ifdef SIXTYFOUR
   if (extern_pos == 0 && Is_long(v) && v != (value)(int32) v) {
     /* An integer that does not fit in the 32-bit word below:
@@ -150,16 +168,17 @@ value extern_val(chan, v)       /* ML */
     for (i = 0; i < 3; i++) putword(chan, 0);
     putch(chan, CODE_INT64);
     for (i = 56; i >= 0; i -= 8) putch(chan, Long_val(v) >> i);
-    stat_free((char *) extern_block);
-    return Val_unit;
-  }
+  } else
 #endif
+  {
   putword(chan, Extern_magic_number);
   putword(chan, extern_pos);
   if (extern_pos == 0)
     putword(chan, res);
   else
     putblock(chan, (char *) extern_block, extern_pos * sizeof(unsigned long));
-  stat_free((char *) extern_block);
+  }
+  external_raise = saved_raise;
+  free_extern_tables();
   return Val_unit;
 }
diff --git a/src/runtime/externcp.c b/src/runtime/externcp.c
index 7514d38..7426378 100644
--- a/src/runtime/externcp.c
+++ b/src/runtime/externcp.c
@@ -131,6 +131,17 @@ static void emit_compact(struct channel * chan, value v)
 value extern_compact_val(struct channel * chan, value v) /* ML */
 {
   value start_loc, final_loc;
+  struct longjmp_buffer raise_buf;
+  struct longjmp_buffer * saved_raise = external_raise;
+
+  extern_table = NULL;
+  extern_block = NULL;
+  if (setjmp(raise_buf.buf)) {
+    external_raise = saved_raise;
+    free_extern_tables();
+    mlraise(exn_bucket);
+  }
+  external_raise = &raise_buf;
   putword(chan, Compact_magic_number);
   start_loc = pos_out(chan);
   putword(chan, 0);
@@ -156,6 +167,7 @@ value extern_compact_val(struct channel * chan, value v) /* ML */
   putword(chan, size_32);
   putword(chan, size_64);
   seek_out(chan, final_loc);
-  stat_free((char *) extern_table);
+  external_raise = saved_raise;
+  free_extern_tables();
   return Val_unit;
 }
diff --git a/src/runtime/intext.h b/src/runtime/intext.h
index 9fb24e8..7456326 100644
--- a/src/runtime/intext.h
+++ b/src/runtime/intext.h
@@ -81,6 +81,7 @@ extern asize_t extern_size, extern_pos;
 
 void alloc_extern_table (void);
 void resize_extern_table (void);
+void free_extern_tables (void);
 
 /* The entry points */
 
-- 
2.43.0


From 77f400017367f5ce2fe2314968964bac7c2c2ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:20 +0000
Subject: [PATCH 22/47] fix: input_value on a damaged or failing compact file
 leaves the heap intact

A read that raised left the block half filled with headers of its own (the
heap could no longer be walked) and leaked the object table; a string cut
short was accepted; objects beyond the announced sizes were written past
the block.
---
 src/runtime/interncp.c | 52 ++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/runtime/interncp.c b/src/runtime/interncp.c
index 2a0904b..cce45f1 100644
--- a/src/runtime/interncp.c
+++ b/src/runtime/interncp.c
@@ -15,6 +15,17 @@ static value * intern_obj_table;
 static unsigned int intern_color;
 static header_t intern_header;
 static value intern_block;
+static header_t * intern_limit;       /* end of the block being filled */
+static asize_t num_objects;           /* size of intern_obj_table */
+
+/* Objects that do not fit where the file's header says they do */
+
+static void check_room(mlsize_t size)
+{
+  if (intern_ptr == NULL || obj_counter >= num_objects
+      || size >= (mlsize_t) (intern_limit - intern_ptr))
+    failwith("input_value: bad object");
+}
 
 static long input_bytes(struct channel * chan, int nbytes, int sign_extend)
 {
@@ -48,6 +59,7 @@ static void read_compact(struct channel * chan, value * dest)
       if (size == 0) {
         v = Atom(tag);
       } else {
+        check_room(size);
         v = Val_hp(intern_ptr);
         *dest = v;
         intern_obj_table[obj_counter++] = v;
@@ -68,6 +80,7 @@ static void read_compact(struct channel * chan, value * dest)
       len = (code & 0x1F);
     read_string:
       size = (len + sizeof(value)) / sizeof(value);
+      check_room(size);
       v = Val_hp(intern_ptr);
       intern_obj_table[obj_counter++] = v;
       *intern_ptr = Make_header(size, String_tag, intern_color);
@@ -75,7 +88,8 @@ static void read_compact(struct channel * chan, value * dest)
       Field(v, size - 1) = 0;
       ofs_ind = Bsize_wsize(size) - 1;
       Byte(v, ofs_ind) = ofs_ind - len;
-      really_getblock(chan, String_val(v), len);
+      if (really_getblock(chan, String_val(v), len) == 0)
+        failwith("input_value: truncated object");
     } else {
       switch(code) {
       case CODE_INT8:
@@ -92,15 +106,14 @@ static void read_compact(struct channel * chan, value * dest)
         v = Val_long(input_bytes(chan, 8, 1));
         break;
 #else
-        stat_free((char *) intern_obj_table);
-        Hd_val(intern_block) = intern_header; /* Don't confuse the GC */
         failwith("input_value: integer too large");
         break;
 #endif
       case CODE_SHARED8:
         ofs = input_bytes(chan, 1, 0);
       read_shared:
-        Assert(ofs > 0 && ofs <= obj_counter); 
+        if (ofs == 0 || ofs > obj_counter)
+          failwith("input_value: bad object");
         v = intern_obj_table[obj_counter - ofs];
         break;
       case CODE_SHARED16:
@@ -121,16 +134,15 @@ static void read_compact(struct channel * chan, value * dest)
         len = input_bytes(chan, 4, 0);
         goto read_string;
       case CODE_DOUBLE:
-        if (sizeof(double) != 8) {
-          stat_free((char *) intern_obj_table);
-          Hd_val(intern_block) = intern_header; /* Don't confuse the GC */
+        if (sizeof(double) != 8)
           invalid_argument("input_value: non-standard floats");
-        }
+        check_room(Double_wosize);
         v = Val_hp(intern_ptr);
         intern_obj_table[obj_counter++] = v;
         *intern_ptr = Make_header(Double_wosize, Double_tag, intern_color);
         intern_ptr += 1 + Double_wosize;
-        really_getblock(chan, (char *) v, 8);
+        if (really_getblock(chan, (char *) v, 8) == 0)
+          failwith("input_value: truncated object");
 #ifndef MOSML_BIG_ENDIAN
         Reverse_double(v);
 #endif
@@ -143,8 +155,10 @@ static void read_compact(struct channel * chan, value * dest)
 
 value intern_compact_val(struct channel * chan)
 {
-  mlsize_t num_objects, size_32, size_64, whsize;
+  mlsize_t size_32, size_64, whsize;
   value res;
+  struct longjmp_buffer raise_buf;
+  struct longjmp_buffer * saved_raise = external_raise;
 
   num_objects = getword(chan);
   size_32 = getword(chan);
@@ -154,19 +168,33 @@ value intern_compact_val(struct channel * chan)
 #else
   whsize = size_32;
 #endif
+  obj_counter = 0;
+  intern_ptr = NULL;
   if (whsize == 0) {
     read_compact(chan, &res);
   } else {
     if (Wosize_whsize(whsize) > Max_wosize)
       failwith("intern: structure too big");
+    intern_obj_table = (value *) stat_alloc(num_objects * sizeof(value));
+    intern_block = 0;
+    if (setjmp(raise_buf.buf)) {
+      external_raise = saved_raise;
+      stat_free((char *) intern_obj_table);
+      if (intern_block != 0)
+        Hd_val(intern_block) = intern_header; /* Don't confuse the GC */
+      mlraise(exn_bucket);
+    }
+    external_raise = &raise_buf;
     intern_block = alloc_shr(Wosize_whsize(whsize), String_tag);
     intern_header = Hd_val(intern_block);
     intern_color = Color_hd(intern_header);
     Assert (intern_color == White || intern_color == Black);
     intern_ptr = (header_t *) Hp_val(intern_block);
-    obj_counter = 0;
-    intern_obj_table = (value *) stat_alloc(num_objects * sizeof(value));
+    intern_limit = intern_ptr + whsize;
     read_compact(chan, &res);
+    if (intern_ptr != intern_limit)
+      failwith("input_value: bad object");
+    external_raise = saved_raise;
     stat_free((char *) intern_obj_table);
   }
   return res;
-- 
2.43.0


From 774e2ad31128dd4d971859eb745f9b5374279824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:20 +0000
Subject: [PATCH 23/47] fix: values stored in Polygdbm tables survive on 64-bit
 machines

string_mlval wrote the block size as a 64-bit word and then the block four
bytes into it; for immediate values it wrote past the end of the string.
---
 src/runtime/mosml.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index ea26e8a..033f4f1 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1359,15 +1359,15 @@ value string_mlval(value val)	/* ML */
      not used from now on. */
   if (extern_pos == 0)
     {
-      s = alloc_string(8);
+      s = alloc_string(2 * sizeof(asize_t));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
       ((asize_t *)s)[1] = (asize_t)res;    
     }
   else
     {
-      s = alloc_string(4 + extern_pos * sizeof(unsigned long));
+      s = alloc_string(sizeof(asize_t) + extern_pos * sizeof(unsigned long));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
-      bcopy((char *) extern_block, &Byte(s, 4), 
+      bcopy((char *) extern_block, &Byte(s, sizeof(asize_t)), 
 	    extern_pos * sizeof(unsigned long));
     }
   stat_free((char *) extern_block);
@@ -1384,6 +1384,8 @@ value mlval_string(value s)	/* ML */
   color_t color;
   header_t hd;
 
+  if (string_length(s) < 2 * sizeof(mlsize_t))
+    failwith ("mlval_string: truncated object");
   whsize = ((mlsize_t *)s)[0];
 
   if (whsize == 0) {
@@ -1398,15 +1400,13 @@ value mlval_string(value s)	/* ML */
   
   if (wosize > Max_wosize)
     failwith("mlval_string: structure too big");
+  if (bhsize + sizeof(mlsize_t) > string_length(s))
+    failwith ("mlval_string: truncated object");
   res = alloc_shr(wosize, String_tag);
   hd = Hd_val (res);
   color = Color_hd (hd);
   Assert (color == White || color == Black);
-  if (bhsize + 4 > string_length(s)) {
-    Hd_val (res) = hd;                      /* Avoid confusing the GC. */
-    failwith ("mlval_string: truncated object");
-  }
-  bcopy(&Byte(s, 4), Hp_val(res), bhsize);
+  bcopy(&Byte(s, sizeof(mlsize_t)), Hp_val(res), bhsize);
   adjust_pointers((value*)(Hp_val (res)), whsize, color);
 
   return res;
-- 
2.43.0


From bcaa5175b1e3f0400393d552dc688e07b4ab1cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 24/47] fix: input_value in the compact format keeps the heap
 well-formed while it reads

An error found while reading allocates the exception's argument before the
exception is raised, which may start a collection; until now the block being
filled could not be walked then.
---
 src/runtime/interncp.c | 50 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/runtime/interncp.c b/src/runtime/interncp.c
index cce45f1..09d060f 100644
--- a/src/runtime/interncp.c
+++ b/src/runtime/interncp.c
@@ -13,18 +13,30 @@ static header_t * intern_ptr;
 static asize_t obj_counter;
 static value * intern_obj_table;
 static unsigned int intern_color;
-static header_t intern_header;
-static value intern_block;
 static header_t * intern_limit;       /* end of the block being filled */
 static asize_t num_objects;           /* size of intern_obj_table */
 
-/* Objects that do not fit where the file's header says they do */
+/* Take an object off the block being filled.  The objects taken and the
+   rest of the block are always well-formed, because reading may raise
+   an exception, which may start a garbage collection. */
 
-static void check_room(mlsize_t size)
+static value take_object(mlsize_t size, tag_t tag)
 {
+  value v;
+  mlsize_t i;
+
   if (intern_ptr == NULL || obj_counter >= num_objects
       || size >= (mlsize_t) (intern_limit - intern_ptr))
     failwith("input_value: bad object");
+  v = Val_hp(intern_ptr);
+  intern_obj_table[obj_counter++] = v;
+  *intern_ptr = Make_header(size, tag, intern_color);
+  for (i = 0; i < size; i++) Field(v, i) = Val_unit;
+  intern_ptr += 1 + size;
+  if (intern_ptr < intern_limit)
+    *intern_ptr = Make_header(intern_limit - intern_ptr - 1, String_tag,
+                              intern_color);
+  return v;
 }
 
 static long input_bytes(struct channel * chan, int nbytes, int sign_extend)
@@ -59,13 +71,9 @@ static void read_compact(struct channel * chan, value * dest)
       if (size == 0) {
         v = Atom(tag);
       } else {
-        check_room(size);
-        v = Val_hp(intern_ptr);
+        v = take_object(size, tag);
         *dest = v;
-        intern_obj_table[obj_counter++] = v;
-        dest = (value *) (intern_ptr + 1);
-        *intern_ptr = Make_header(size, tag, intern_color);
-        intern_ptr += 1 + size;
+        dest = &Field(v, 0);
         for(/*nothing*/; size > 1; size--, dest++)
           read_compact(chan, dest);
         goto tailcall;
@@ -80,11 +88,7 @@ static void read_compact(struct channel * chan, value * dest)
       len = (code & 0x1F);
     read_string:
       size = (len + sizeof(value)) / sizeof(value);
-      check_room(size);
-      v = Val_hp(intern_ptr);
-      intern_obj_table[obj_counter++] = v;
-      *intern_ptr = Make_header(size, String_tag, intern_color);
-      intern_ptr += 1 + size;
+      v = take_object(size, String_tag);
       Field(v, size - 1) = 0;
       ofs_ind = Bsize_wsize(size) - 1;
       Byte(v, ofs_ind) = ofs_ind - len;
@@ -136,11 +140,7 @@ static void read_compact(struct channel * chan, value * dest)
       case CODE_DOUBLE:
         if (sizeof(double) != 8)
           invalid_argument("input_value: non-standard floats");
-        check_room(Double_wosize);
-        v = Val_hp(intern_ptr);
-        intern_obj_table[obj_counter++] = v;
-        *intern_ptr = Make_header(Double_wosize, Double_tag, intern_color);
-        intern_ptr += 1 + Double_wosize;
+        v = take_object(Double_wosize, Double_tag);
         if (really_getblock(chan, (char *) v, 8) == 0)
           failwith("input_value: truncated object");
 #ifndef MOSML_BIG_ENDIAN
@@ -176,20 +176,16 @@ value intern_compact_val(struct channel * chan)
     if (Wosize_whsize(whsize) > Max_wosize)
       failwith("intern: structure too big");
     intern_obj_table = (value *) stat_alloc(num_objects * sizeof(value));
-    intern_block = 0;
     if (setjmp(raise_buf.buf)) {
       external_raise = saved_raise;
       stat_free((char *) intern_obj_table);
-      if (intern_block != 0)
-        Hd_val(intern_block) = intern_header; /* Don't confuse the GC */
       mlraise(exn_bucket);
     }
     external_raise = &raise_buf;
-    intern_block = alloc_shr(Wosize_whsize(whsize), String_tag);
-    intern_header = Hd_val(intern_block);
-    intern_color = Color_hd(intern_header);
+    res = alloc_shr(Wosize_whsize(whsize), String_tag);
+    intern_color = Color_val(res);
     Assert (intern_color == White || intern_color == Black);
-    intern_ptr = (header_t *) Hp_val(intern_block);
+    intern_ptr = (header_t *) Hp_val(res);
     intern_limit = intern_ptr + whsize;
     read_compact(chan, &res);
     if (intern_ptr != intern_limit)
-- 
2.43.0


From f29c9ea2f713849ef15df0787ea3df439176cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 25/47] fix: FileSys.readDir reports a failing directory read
 instead of ending the listing

---
 src/mosmllib/FileSys.mlp | 6 ++++--
 src/runtime/mosml.c      | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mosmllib/FileSys.mlp b/src/mosmllib/FileSys.mlp
index e2719ed..9ffe0c5 100644
--- a/src/mosmllib/FileSys.mlp
+++ b/src/mosmllib/FileSys.mlp
@@ -267,7 +267,8 @@ in
       | readDir (ref (SOME dstr)) = mkOpt (readdir_ dstr);
 #else
       | readDir (arg as ref (SOME dstr)) =
-        let val entry = readdir_ dstr
+        let val entry = (readdir_ dstr)
+                        handle Fail s => raiseSys "readDir" NONE s
         in
             if entry <> Path.parentArc andalso entry <> Path.currentArc then
                 mkOpt entry
@@ -282,5 +283,6 @@ in
 
     fun closeDir (ref NONE) = ()
       | closeDir (r as ref (SOME dstr)) = 
-	(r := NONE; closedir_ dstr);
+	(r := NONE; 
+	 (closedir_ dstr) handle Fail s => raiseSys "closeDir" NONE s);
 end;
diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index 033f4f1..e3bf922 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -896,9 +896,13 @@ value sml_readdir(value v)          /* ML */
 #else
   struct dirent *direntry;
 
+  errno = 0;
   direntry = readdir((DIR *) v);
-  if (direntry == NULL) 
-      return copy_string("");
+  if (direntry == NULL) {
+    if (errno != 0)
+      failwith("readdir");
+    return copy_string("");
+  }
   return copy_string((*direntry).d_name);
 #endif
 }
-- 
2.43.0


From e54ee27058779f5c82261c024c3c61234b56d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:21 +0000
Subject: [PATCH 26/47] fix: a time the calendar cannot represent raises Date
 instead of crashing

---
 src/mosmllib/Date.sml | 6 ++++--
 src/runtime/mosml.c   | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/Date.sml b/src/mosmllib/Date.sml
index dd807a7..66cbf3f 100644
--- a/src/mosmllib/Date.sml
+++ b/src/mosmllib/Date.sml
@@ -203,10 +203,12 @@ local
 in
 
     fun fromTimeLocal t = 
-	tmozToDate (getlocaltime_ (Time.toReal t)) NONE;
+	tmozToDate (getlocaltime_ (Time.toReal t) handle Fail _ => raise Date)
+	           NONE;
 
     fun fromTimeUniv t = 
-	tmozToDate (getunivtime_ (Time.toReal t)) (SOME 0);
+	tmozToDate (getunivtime_ (Time.toReal t) handle Fail _ => raise Date)
+	           (SOME 0);
 
     (* The following implements conversion from a local date to 
        a Time.time.  It IGNORES wday and yday.  *)
diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index e3bf922..71553d6 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1072,6 +1072,8 @@ value sml_localtime (value v) /* ML */
   struct tm *tmr;
   time_t clock = SMLtoSYStime((long) (Double_val(v)));
   tmr = localtime(&clock);
+  if (tmr == NULL)
+    failwith("localtime");
   res = alloc (9, 0);
   Field (res, 0) = Val_long ((*tmr).tm_hour);
   Field (res, 1) = Val_long ((*tmr).tm_isdst);
@@ -1092,6 +1094,8 @@ value sml_gmtime (value v) /* ML */
   struct tm *tmr;
   time_t clock = SMLtoSYStime((long) (Double_val(v)));
   tmr = gmtime(&clock);
+  if (tmr == NULL)
+    failwith("gmtime");
   res = alloc (9, 0);
   Field (res, 0) = Val_long ((*tmr).tm_hour);
   Field (res, 1) = Val_long ((*tmr).tm_isdst);
-- 
2.43.0


From e4c20f0310c8c065a61552747f6108402cb053b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:21 +0000
Subject: [PATCH 27/47] fix: an interrupt ends Process.sleep at once

---
 src/runtime/mosml.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index 71553d6..a907133 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -37,6 +37,7 @@
 #include "interp.h"
 #include "globals.h"
 #include "mosml.h"
+#include "signals.h"
 
 /* SunOS 4 appears not to have mktime: */
 #if defined(sun) && !defined(__svr4__)
@@ -1647,8 +1648,10 @@ value sml_sleep(value vtime)	/* ML */
   unsigned long sec = (long)(time/1000000.0);
   unsigned long usec = (long)(time - 1000000.0 * sec);
   if (time > 0) {
+    enter_blocking_section();
     sleep(sec);
     usleep(usec);
+    leave_blocking_section();
   } 
 #endif       
   return Val_unit;
-- 
2.43.0


From 28d31ceea2d63d4da520bcf3360ec1df32d56d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:21 +0000
Subject: [PATCH 28/47] fix: a collection started while reading the CPU clocks
 is not counted as garbage collection time before it happened

---
 src/runtime/mosml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index a907133..ac0e475 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -676,6 +676,7 @@ value sml_getrealtime (value v) /* ML */
 value sml_getrutime (value v) /* ML */
 {
   value res;
+  struct mosml_timeval gc = gc_time;   /* alloc may start a collection */
 
 #if defined(__MWERKS__)
   res = e_getrusage();
@@ -714,8 +715,8 @@ value sml_getrutime (value v) /* ML */
   Field (res, 5) = Val_long (rusages.ru_utime.tv_usec);
 #endif
 
-  Field (res, 0) = Val_long (gc_time.tv_sec);
-  Field (res, 1) = Val_long (gc_time.tv_usec); 
+  Field (res, 0) = Val_long (gc.tv_sec);
+  Field (res, 1) = Val_long (gc.tv_usec); 
 #endif
 
   return res;
-- 
2.43.0


From cf178007b1e7771a9486ac9c84c822d5456a6371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 29/47] fix: a descriptor for which no channel can be allocated
 is closed, not leaked

---
 src/runtime/io.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index f4e2542..cdd4033 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -1,6 +1,7 @@
 /* Buffered input/output. */
 
 #include <errno.h>
+#include <stdlib.h>
 #include <fcntl.h>
 #include <sys/types.h>
 #include <signal.h>
@@ -46,8 +47,14 @@ struct channel * open_descr(int fd)
   if( (unsigned)fd < 3 && std_channel[fd] != NULL ) {
     channel = std_channel[fd];
     if (channel->fd != -1) return channel;
-  } else
-    channel = (struct channel *) stat_alloc(sizeof(struct channel));
+  } else {
+    channel = (struct channel *) malloc(sizeof(struct channel));
+    if (channel == NULL) {
+      /* Nobody else can close it */
+      if ((unsigned)fd >= 3) close(fd);
+      raise_out_of_memory();
+    }
+  }
   channel->fd = fd;
   channel->offset = 0;
   channel->curr = channel->max = channel->buff;
-- 
2.43.0


From ca0b87dc5ae1e37a94c91327a6d139ed0a7d4d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 30/47] fix: exit codes that are a multiple of 256 also report
 that standard output was lost

---
 src/runtime/sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/sys.c b/src/runtime/sys.c
index d5b0ac5..28a3d6a 100644
--- a/src/runtime/sys.c
+++ b/src/runtime/sys.c
@@ -89,7 +89,7 @@ void sys_exit(value retcode)          /* ML */
 {
   int status = Int_val(retcode);
   /* Output that was lost must not go unnoticed */
-  if (flush_stdouterr() == -1 && status == 0) status = 2;
+  if (flush_stdouterr() == -1 && (status & 0377) == 0) status = 2;
   exit(status);
 }
 
-- 
2.43.0


From 7a308980949cf2d9e500ca3605701aff8bd803e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 31/47] fix: Unix.execute leaks nothing when it fails,
 Unix.reap does not deadlock

Pipes are closed when a later step fails; the parent's ends of the pipes are
not inherited by later children, which kept earlier ones from seeing the end
of their input; reap closes the streams before it waits, as documented.
---
 src/dynlibs/munix/munix.c | 80 ++++++++++++++++++++++++++++++---------
 src/mosmllib/Unix.sml     | 25 +++++++++---
 2 files changed, 82 insertions(+), 23 deletions(-)

diff --git a/src/dynlibs/munix/munix.c b/src/dynlibs/munix/munix.c
index 28fcf32..0ce4bb5 100644
--- a/src/dynlibs/munix/munix.c
+++ b/src/dynlibs/munix/munix.c
@@ -5,6 +5,7 @@
 /* General includes */
 
 #include <errno.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <signal.h>
 #include <sys/types.h>
@@ -81,32 +82,68 @@ char** mkcharptrvec(value strvec) {
   int argc = Wosize_val(strvec);
   char **argv = (char**) malloc((argc + 1) * sizeof(char*));
   if (argv == (char**)NULL)
-    failwith("mkcharptrvec: malloc failed");
+    return argv;
   for (i=0; i<argc; i++)
     argv[i] = String_val(Field(strvec, i));
   argv[argc] = (char*)NULL;
   return argv;
 }
 
+static void closepipe(int p[2]) {
+  close(p[0]);
+  close(p[1]);
+}
+
 /* ML type: string -> string vector -> string vector option 
             -> int * int * int */
 EXTERNML value unix_execute(value cmd, value args, value envopt) {
   int p2c[2];			      /* Pipe from parent to child */
   int c2p[2];			      /* Pipe from child to parent */
   int pid;
-  char **argv = mkcharptrvec(args);
+  int err;
+  char **argv;
+  char **envv = NULL;
+  value res;
 
-  if (pipe(p2c) < 0 || pipe(c2p) < 0)
-    failure();
+  /* What may fail is done before there is a child */
+  Push_roots(r, 3);
+  r[0] = cmd; r[1] = args; r[2] = envopt;
+  res = alloc_tuple(3);
+  cmd = r[0]; args = r[1]; envopt = r[2];
+  Pop_roots();
+
+  argv = mkcharptrvec(args);
+  if (envopt != NONE)
+    envv = mkcharptrvec(Field(envopt, 0));
+  if (argv == NULL || (envopt != NONE && envv == NULL)) {
+    free(argv);
+    free(envv);
+    failwith("mkcharptrvec: malloc failed");
+  }
+  if (pipe(p2c) < 0) {
+    err = errno;
+    goto failed;
+  }
+  if (pipe(c2p) < 0) {
+    err = errno;
+    closepipe(p2c);
+    goto failed;
+  }
+  /* The parent's ends must not be inherited by other children: they would
+     keep this child from seeing the end of its input */
+  fcntl(p2c[1], F_SETFD, FD_CLOEXEC);
+  fcntl(c2p[0], F_SETFD, FD_CLOEXEC);
   pid = fork();
-  if (pid < 0) 
+  if (pid < 0) {
     // In the parent process; fork failed
-    failure();
-  else if (pid > 0) {
+    err = errno;
+    closepipe(p2c);
+    closepipe(c2p);
+    goto failed;
+  } else if (pid > 0) {
     // In the parent process; fork succeeded
-    value res = alloc_tuple(3);
-    // printf("<%d>\n", pid); fflush();
     free(argv);
+    free(envv);
     close(c2p[1]);		      /* Close child's ends of pipes    */
     close(p2c[0]);
     Field(res, 0) = Val_long(pid); 
@@ -119,23 +156,32 @@ EXTERNML value unix_execute(value cmd, value args, value envopt) {
     close(c2p[0]);
     dup2(p2c[0], 0 /* STD_IN  */);    /* Child stdin from the p2c pipe  */
     dup2(c2p[1], 1 /* STD_OUT */);    /* Child stdout to the c2p pipe   */
-    if (envopt == NONE) 
+    if (envv == NULL) 
       execv(String_val(cmd), argv);
-    else {
-      char **envv = mkcharptrvec(Field(envopt, 0));
+    else
       execve(String_val(cmd), argv, envv);
-    }      
     printf("Could not exec %s\n", String_val(cmd));
     exit(1);
     // Never gets here
   }
-    return Val_unit;
-  }
+
+ failed:
+  free(argv);
+  free(envv);
+  errno = err;
+  failure();
+  return Val_unit;
+}
 
 /* ML type: int -> int */
 EXTERNML value unix_waitpid(value pid) {
-  int status;
-  if (waitpid(Long_val(pid), &status, /* options = */ 0) < 0)
+  int status, res;
+  enter_blocking_section();
+  do
+    res = waitpid(Long_val(pid), &status, /* options = */ 0);
+  while (res < 0 && errno == EINTR);
+  leave_blocking_section();
+  if (res < 0)
     failure();
   if (WIFEXITED(status)) 
     return Val_long(WEXITSTATUS(status));
diff --git a/src/mosmllib/Unix.sml b/src/mosmllib/Unix.sml
index 144b317..956526d 100644
--- a/src/mosmllib/Unix.sml
+++ b/src/mosmllib/Unix.sml
@@ -17,6 +17,7 @@ type signal = Signal.signal
 (* Caml Light "channels" *)
 
 prim_type in_channel and out_channel;
+prim_val sys_close : int -> unit = 1 "sys_close";
 prim_val open_descriptor_in  : int -> in_channel  = 1 "open_descriptor";
 prim_val open_descriptor_out : int -> out_channel = 1 "open_descriptor";
 
@@ -66,6 +67,8 @@ fun kill ({ syspid, ... } : ('a,'b) proc, s : signal) : unit =
     killpid s syspid
     handle Fail s => raise Fail ("Unix.kill: " ^ s)
 
+val waitpid_ : int -> int = app1 "waitpid"
+
 val execute_ : string -> string vector -> string vector option
                -> int * int * int = app3 "execute"
 
@@ -73,8 +76,13 @@ fun executewrap fcn cmd args envOpt : ('a, 'b) proc =
     let val argvec = Vector.fromList (cmd :: args)
 	val envvec = Option.map Vector.fromList envOpt
 	val (syspid, infd, outfd) = execute_ cmd argvec envvec
+	(* No child process is left behind if there is no way to reach it *)
+	fun giveup exn =
+	    (killpid Signal.kill syspid; ignore (waitpid_ syspid); raise exn)
 	val ins  = openInPipe fcn infd
+	           handle exn => (sys_close outfd; giveup exn)
 	val outs = openOutPipe fcn outfd
+	           handle exn => (TextIO.closeIn (Obj.magic ins); giveup exn)
     in
 	{ syspid = syspid, ins = ins, outs = outs } 
     end
@@ -99,14 +107,19 @@ fun binOutstreamOf ({syspid, ins, outs} : ('a, BinIO.outstream) proc)
     : BinIO.outstream = Obj.magic outs
 
 
-val waitpid_ : int -> int = app1 "waitpid"
-
 fun reap ({syspid, ins, outs} : ('a,'b) proc) : OS.Process.status = 
-    let val status_ = waitpid_ syspid : int
+    let (* Both streams are closed before waiting for the child, which may
+	   be waiting for the end of its input; it is waited for even if the
+	   last of its input could not be delivered *)
+	val _ = TextIO.closeIn (Obj.magic ins)
+	val failed = (TextIO.closeOut (Obj.magic outs); NONE)
+	             handle Interrupt => raise Interrupt
+			  | exn => SOME exn
+	val status_ = waitpid_ syspid : int
     in 
-	TextIO.closeIn (Obj.magic ins); 
-	TextIO.closeOut (Obj.magic outs); 
-	Obj.magic status_ 
+	case failed of
+	    NONE     => Obj.magic status_ 
+	  | SOME exn => raise exn
     end
     handle Fail s => raise Fail ("Unix.reap: " ^ s)
 end
-- 
2.43.0


From 8ce8dc2572826b779850ecd01149592ba71ae63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 32/47] fix: Mosml.run removes its temporary files and closes
 its streams in every case

---
 src/mosmllib/Mosml.mlp | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/mosmllib/Mosml.mlp b/src/mosmllib/Mosml.mlp
index 45bc15a..80cd436 100644
--- a/src/mosmllib/Mosml.mlp
+++ b/src/mosmllib/Mosml.mlp
@@ -105,30 +105,41 @@ fun run cmd args inp =
 	fun write filename s = 
 	    let open BinIO
 		val os = openOut filename
-	    in output(os, s); closeOut os end
+	    in 
+		(output(os, s); closeOut os)
+		handle exn => (closeOut os handle _ => (); raise exn) 
+	    end
 	fun read filename = 
 	    let open BinIO
 		val is  = openIn filename
-		val res = inputAll is
+		val res = inputAll is handle exn => (closeIn is; raise exn)
 	    in closeIn is; res end
-	val infile  = FileSys.tmpName ()
-	val _ = write infile (Byte.stringToBytes inp)
-	val outfile = FileSys.tmpName ()
-	val cmdline = 
+	fun remove filename = 
+	    FileSys.remove filename handle SysErr _ => ()
+	fun exec infile outfile =
+	    let val cmdline = 
 	    (* This should work for Bourne sh, POSIX sh, ksh, bash: *)
 	    catenate (cmd :: List.@(args, ["<", infile, "1>", outfile, 
 					   "2>&1"]))
 	    (* This works for bash, csh and tcsh: *)
 	    (* catenate (cmd :: List.@(args, ["<", infile, "&>", outfile])) *)
-	val status = Process.system cmdline
-	val result = if Process.isSuccess status then 
-			 Success (Byte.bytesToString (read outfile))
-		     else 
-			 ((Failure (Byte.bytesToString (read outfile)))
-			  handle Io _ => Failure (cmd ^ ": command failed"))
+		val status = Process.system cmdline
+	    in
+		if Process.isSuccess status then 
+		    Success (Byte.bytesToString (read outfile))
+		else 
+		    ((Failure (Byte.bytesToString (read outfile)))
+		     handle Io _ => Failure (cmd ^ ": command failed"))
+	    end
+	val infile  = FileSys.tmpName ()
+	val outfile = (write infile (Byte.stringToBytes inp); 
+		       FileSys.tmpName ())
+	              handle exn => (remove infile; raise exn)
+	val result  = exec infile outfile
+	              handle exn => (remove infile; remove outfile; raise exn)
     in 
-	(FileSys.remove infile)  handle SysErr _ => ();
-	(FileSys.remove outfile) handle SysErr _ => ();
+	remove infile; 
+	remove outfile;
 	result
     end
 
-- 
2.43.0


From b1a0b09fa12f914a069f9b5e68f1ed0ce53a6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 33/47] fix: Socket.select reports the sockets of each set, and
 addresses are copied exactly

select looked up the results for writing and exceptions in the sockets for
reading, could not be interrupted, and took a negative timeout for none.
Socket names were copied with three bytes too many, and the names of unnamed
senders were read from uninitialised memory.
---
 src/dynlibs/msocket/msocket.c | 26 +++++++++++++++++++-------
 src/mosmllib/Socket.sml       |  9 +++++++--
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index b515aa0..823c5cb 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -85,6 +85,7 @@ union saddr {
   struct sockaddr sockaddr_gen;
 #ifndef WIN32
   struct sockaddr_un sockaddr_unix;
+  char filler[sizeof(struct sockaddr_un) + 1];	/* so names end in \0 */
 #endif
   struct sockaddr_in sockaddr_inet;
 };
@@ -132,7 +133,9 @@ static void make_saddr(union saddr *s, value a) {
   case AF_UNIX:
 #ifndef WIN32
     s->sockaddr_unix.sun_family = AF_UNIX;
-    bcopy(String_val(Data_addrval(a)), s->sockaddr_unix.sun_path, size + 1);
+    size = size - offsetof(struct sockaddr_un, sun_path);
+    if (size > 0)
+      bcopy(String_val(Data_addrval(a)), s->sockaddr_unix.sun_path, size);
 #else
     failwith("AF_UNIX not implemented");
 #endif
@@ -184,6 +187,9 @@ value newsinaddrport(s_addr_t sa, value port) {
 /* ML result type: addr */
 static value from_saddr(union saddr *s, int len) {
   switch(s->sockaddr_gen.sa_family) {
+  case AF_UNSPEC:		/* The sender has no name */
+    len = offsetof(struct sockaddr_un, sun_path);
+    /* Fall through */
   case AF_UNIX: { 
 #ifndef WIN32
     value name = copy_string(s->sockaddr_unix.sun_path);
@@ -446,6 +452,7 @@ EXTERNML value msocket_accept(value sock) {
   value res;
 
   socklen_t len = sizeof(addr);
+  memset(&addr, 0, sizeof(addr));
   enter_blocking_section();
   ret = accept(Sock_val(sock), &addr.sockaddr_gen, &len);
   leave_blocking_section();
@@ -616,6 +623,7 @@ EXTERNML value msocket_recvfrom(value sock, value buff, value offset,
 
   socklen_t len = sizeof(addr);
 
+  memset(&addr, 0, sizeof(addr));
   enter_blocking_section();
   ret = recvfrom(Sock_val(sock), &Byte(buff, Long_val(offset)), 
                  Int_val(size),
@@ -647,6 +655,8 @@ static void vec_to_fdset(value sockv, fd_set *fds) {
 
   FD_ZERO(fds);
   for(i = 0; i < vlen; i++) {
+    if (Sock_val(Field(sockv, i)) >= FD_SETSIZE)
+      failwith("EINVAL");
     FD_SET(Sock_val(Field(sockv, i)), fds);
   } 
 }
@@ -693,7 +703,7 @@ static value fdset_to_list(value sockv, fd_set *fds) {
 /* Warning: allocates in the heap, may cause a GC */
 /* ML return type: sock list * sock list * sock list */
 EXTERNML value msocket_select(value rsocks, value wsocks, value esocks, 
-                     int tsec, int tusec) {
+                     value tsec, value tusec) {
   int ret;
   fd_set rfd, wfd, efd;
   struct timeval timeout, *top;
@@ -703,15 +713,17 @@ EXTERNML value msocket_select(value rsocks, value wsocks, value esocks,
   vec_to_fdset(wsocks, &wfd);
   vec_to_fdset(esocks, &efd);
 
-  if (Int_val(tsec) < 0) {
+  if (Long_val(tsec) < 0) {
     top = NULL;
   }
   else {    
-    timeout.tv_sec = Int_val(tsec);
-    timeout.tv_usec = Int_val(tusec);
+    timeout.tv_sec = Long_val(tsec);
+    timeout.tv_usec = Long_val(tusec);
     top = &timeout;
   }
+  enter_blocking_section();
   ret = select(FD_SETSIZE, &rfd, &wfd, &efd, top);
+  leave_blocking_section();
 
 #ifndef WIN32
   if (ret == -1) 
@@ -723,8 +735,8 @@ EXTERNML value msocket_select(value rsocks, value wsocks, value esocks,
   {
     Push_roots(ls, 6);
     ls[3] = rsocks;
-    ls[4] = rsocks;
-    ls[5] = rsocks;
+    ls[4] = wsocks;
+    ls[5] = esocks;
     ls[0] = fdset_to_list(ls[3], &rfd);
     ls[1] = fdset_to_list(ls[4], &wfd);
     ls[2] = fdset_to_list(ls[5], &efd);
diff --git a/src/mosmllib/Socket.sml b/src/mosmllib/Socket.sml
index 72ffdd0..492c7c5 100644
--- a/src/mosmllib/Socket.sml
+++ b/src/mosmllib/Socket.sml
@@ -91,7 +91,10 @@ struct
 			       Word.fromInt MSG_PEEK,
 			       Word.fromInt MSG_DONTROUTE)
 
-	prim_val vector_ : int -> Word8Vector.vector = 1 "create_string"
+	prim_val create_ : int -> Word8Vector.vector = 1 "create_string"
+	fun vector_ len = 
+	    if len < 0 orelse len > Word8Vector.maxLen then raise Size
+	    else create_ len
 
 	fun extract vec len = 
 	    Word8VectorSlice.vector(Word8VectorSlice.slice(vec, 0, SOME len))
@@ -273,7 +276,9 @@ struct
 		    case timeout of
 			NONE   => (~1,0)
 		      | SOME t => 
-			    let val r    = fromtime t 
+			    (* A negative number of seconds means no timeout *)
+			    let val r    = fromtime t
+				val r    = if r < 0.0 then 0.0 else r
 				val sec  = trunc(r/1000000.0)
 				val usec = trunc(r - 1000000.0 * real sec)
 			    in (sec, usec) end
-- 
2.43.0


From b7aed73293fe6b8f4e53ebe439e22313ad2d8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 34/47] fix: Gdbm raises GdbmError when the database fails

Failures were taken for missing items, the end of the table or a table open
for reading; failures to close were ignored.
---
 src/dynlibs/mgdbm/mgdbm.c | 54 ++++++++++++++++++++++++++++++++++-----
 src/mosmllib/Gdbm.sml     | 54 +++++++++++++++++++++++++++------------
 2 files changed, 84 insertions(+), 24 deletions(-)

diff --git a/src/dynlibs/mgdbm/mgdbm.c b/src/dynlibs/mgdbm/mgdbm.c
index d81f86a..3c0fe83 100644
--- a/src/dynlibs/mgdbm/mgdbm.c
+++ b/src/dynlibs/mgdbm/mgdbm.c
@@ -74,6 +74,16 @@ void mgdbm_fatal(char *msg)
   failwith(buf);
 }
 
+/* When gdbm returns nothing, the reason is either that there is no such
+   item, or that the database has failed.  Raise Fail in the latter
+   case.  The argument of Fail must differ from those used below: */
+
+static void check_error(void)
+{
+  if (gdbm_errno != GDBM_NO_ERROR && gdbm_errno != GDBM_ITEM_NOT_FOUND)
+    failwith((char*)gdbm_strerror(gdbm_errno));
+}
+
 EXTERNML value mgdbm_open(value nam, value flags, value perm) /* ML */
 {
   GDBM_FILE dbf;
@@ -90,33 +100,54 @@ EXTERNML value mgdbm_open(value nam, value flags, value perm) /* ML */
 
 EXTERNML value mgdbm_close(value db)	/* ML */
 {
+#if GDBM_VERSION_MAJOR > 1 || GDBM_VERSION_MINOR >= 17
+  if (gdbm_close(Gdbm_val(db)) != 0)
+    failwith((char*)gdbm_strerror(gdbm_errno));
+#else
   gdbm_close(Gdbm_val(db));
+#endif
   return Val_unit;
 }
 
 EXTERNML value mgdbm_store(value db, value k, value v, value flag) /* ML */
 {
-  return Val_long(gdbm_store(Gdbm_val(db), datum_string(k), 
-			     datum_string(v), Long_val(flag)));
+  int res = gdbm_store(Gdbm_val(db), datum_string(k), 
+		       datum_string(v), Long_val(flag));
+  if (res < 0 && gdbm_errno != GDBM_READER_CANT_STORE)
+    failwith((char*)gdbm_strerror(gdbm_errno));
+  return Val_long(res);
 }
 
 EXTERNML value mgdbm_fetch(value db, value k) /* ML */
 {
   datum val;
+  gdbm_errno = GDBM_NO_ERROR;
   val = gdbm_fetch(Gdbm_val(db), datum_string(k));
-  if (NULL == val.dptr)
+  if (NULL == val.dptr) {
+    check_error();
     failwith("gdbm_fetch");
+  }
   return string_datum(val);
 }
 
 EXTERNML value mgdbm_exists(value db, value k) /* ML */
 {
-  return Val_bool(gdbm_exists(Gdbm_val(db), datum_string(k)));
+  int res;
+  gdbm_errno = GDBM_NO_ERROR;
+  res = gdbm_exists(Gdbm_val(db), datum_string(k));
+  if (!res)
+    check_error();
+  return Val_bool(res);
 }
 
 EXTERNML value mgdbm_delete(value db, value k) /* ML */
 {
-  return Val_bool(gdbm_delete(Gdbm_val(db), datum_string(k)) == 0);
+  int res;
+  gdbm_errno = GDBM_NO_ERROR;
+  res = gdbm_delete(Gdbm_val(db), datum_string(k));
+  if (res != 0)
+    check_error();
+  return Val_bool(res == 0);
 }
 
 EXTERNML value mgdbm_numitems(value db)	/* ML */
@@ -124,32 +155,41 @@ EXTERNML value mgdbm_numitems(value db)	/* ML */
   int count = 0;
   GDBM_FILE dbf = Gdbm_val(db);
   datum key, old;
+  gdbm_errno = GDBM_NO_ERROR;
   key = gdbm_firstkey(dbf);
   while (key.dptr != NULL)
     {
       count++;
       old = key;
+      gdbm_errno = GDBM_NO_ERROR;
       key = gdbm_nextkey(dbf, old);
       free(old.dptr);
     }
+  check_error();
   return Val_long(count);
 }
 
 EXTERNML value mgdbm_firstkey(value db) /* ML */
 {
   datum res;
+  gdbm_errno = GDBM_NO_ERROR;
   res = gdbm_firstkey(Gdbm_val(db));
-  if (NULL == res.dptr)
+  if (NULL == res.dptr) {
+    check_error();
     failwith("gdbm_firstkey");
+  }
   return string_datum(res);
 }
 
 EXTERNML value mgdbm_nextkey(value db, value k) /* ML */
 {
   datum res;
+  gdbm_errno = GDBM_NO_ERROR;
   res = gdbm_nextkey(Gdbm_val(db), datum_string(k));
-  if (NULL == res.dptr)
+  if (NULL == res.dptr) {
+    check_error();
     failwith("gdbm_nextkey");
+  }
   return string_datum(res);
 }
 
diff --git a/src/mosmllib/Gdbm.sml b/src/mosmllib/Gdbm.sml
index 0a3e6ee..1a2a179 100644
--- a/src/mosmllib/Gdbm.sml
+++ b/src/mosmllib/Gdbm.sml
@@ -66,6 +66,10 @@ exception GdbmError of string
 
 fun gdbm_error () = raise GdbmError (gdbm_error_ ()) 
 
+(* The C functions raise Fail with gdbm's message when the database fails *)
+
+fun failure f x = f x handle Fail msg => raise GdbmError msg
+
 local 
     fun openmode om =
 	(if !fastwrite then GDBM_FAST else 0)
@@ -77,12 +81,15 @@ local
     fun opentable (name, mode) = 
 	(gdbm_open_ name (openmode mode) ~1, ref (SOME mode))
 	handle Fail "gdbm_open" => gdbm_error ()
-    fun closedb (db, tmoptref) = (gdbm_close_ db; tmoptref := NONE)
-    fun closedbs dbs = List.app closedb dbs
+    fun closedb (db, tmoptref) = (tmoptref := NONE; failure gdbm_close_ db)
+    fun closedbs []          = ()
+      | closedbs (db :: dbs) = 
+	(closedb db handle exn => (closedbs dbs; raise exn);
+	 closedbs dbs)
 in
     fun withtable namemode transact = 
 	let val db  = opentable namemode
-	    val res = transact db handle exn => (closedb db; raise exn)
+	    val res = transact db handle exn => (closedb db handle GdbmError _ => (); raise exn)
 	in
 	    closedb db; 
 	    res
@@ -94,10 +101,13 @@ in
 	        let val db = opentable namemode
 		in 
 		    (db :: loop rest)
-		    handle exn => (closedb db; raise exn)
+		    handle exn => 
+			(closedb db handle GdbmError _ => (); raise exn)
 		end
 	    val dbs = loop namemodes
-	    val res = transact dbs handle exn => (closedbs dbs; raise exn);
+	    val res = 
+		transact dbs handle exn => 
+		    (closedbs dbs handle GdbmError _ => (); raise exn);
 	in
 	    closedbs dbs; 
 	    res
@@ -106,14 +116,14 @@ end
 
 fun add (db, ref NONE) (k, v) = raise Closed
   | add (db, _) (k, v) = 
-    case gdbm_store_ db k v GDBM_INSERT of
+    case failure (gdbm_store_ db k v) GDBM_INSERT of
 	~1 => raise NotWriter
       |  1 => raise AlreadyThere
       |  _ => ()
 
 fun insert (db, ref NONE) (k, v) = raise Closed
   | insert (db, _) (k, v) =
-    case gdbm_store_ db k v GDBM_REPLACE of
+    case failure (gdbm_store_ db k v) GDBM_REPLACE of
 	~1 => raise NotWriter
       |  _ => ()
 
@@ -121,28 +131,38 @@ fun find (db, ref NONE) k = raise Closed
   | find (db, _) k = 
     gdbm_fetch_ db k
     handle Fail "gdbm_fetch" => raise NotFound
+	 | Fail msg          => raise GdbmError msg
 
 fun peek (db, ref NONE) k = raise Closed
   | peek (db, _)        k = 
     SOME(gdbm_fetch_ db k)
     handle Fail "gdbm_fetch" => NONE
+	 | Fail msg          => raise GdbmError msg
 
 fun hasKey (db, ref NONE) k = raise Closed
-  | hasKey (db, _)        k = gdbm_exists_ db k 
+  | hasKey (db, _)        k = failure (gdbm_exists_ db) k 
 
 fun remove (db, ref NONE)          k = raise Closed
   | remove (db, ref (SOME READER)) k = raise NotWriter
   | remove (db, _) k      =
-    if gdbm_delete_ db k then
+    if failure (gdbm_delete_ db) k then
 	()
     else
 	raise NotFound
 
 (* Internal use only: *)
 
-fun gdbm_firstkey db = SOME(gdbm_firstkey_ db) handle Fail _ => NONE
+fun gdbm_firstkey db = 
+    SOME(gdbm_firstkey_ db) 
+    handle Fail "gdbm_firstkey" => NONE
+	 | Fail msg             => raise GdbmError msg
+
+fun gdbm_nextkey db k = 
+    SOME(gdbm_nextkey_ db k) 
+    handle Fail "gdbm_nextkey" => NONE
+	 | Fail msg            => raise GdbmError msg
 
-fun gdbm_nextkey db k = SOME(gdbm_nextkey_ db k) handle Fail _ => NONE
+fun gdbm_get db k = failure (gdbm_fetch_ db) k
 
 fun listKeys (db, ref NONE) = raise Closed
   | listKeys (db, _) =
@@ -155,21 +175,21 @@ fun listKeys (db, ref NONE) = raise Closed
 (* This can be made more efficient in C, by immediate deallocation of keys: *)
 
 fun numItems (db, ref NONE) = raise Closed
-  | numItems (db, _) = gdbm_numitems_ db
+  | numItems (db, _) = failure gdbm_numitems_ db
 
 fun listItems (db, ref NONE) = raise Closed
   | listItems (db, _) =
     let fun loop NONE       res = res
 	  | loop (SOME key) res = 
 	    let val next = gdbm_nextkey db key
-	    in loop next ((key, gdbm_fetch_ db key) :: res) end
+	    in loop next ((key, gdbm_get db key) :: res) end
     in loop (gdbm_firstkey db) [] end
 
 fun app f (db, ref NONE) = raise Closed
   | app f (db, _) =
     let fun loop NONE       = ()
 	  | loop (SOME key) = 
-	    (f (key, gdbm_fetch_ db key); 
+	    (f (key, gdbm_get db key); 
 	     loop (gdbm_nextkey db key))
     in loop (gdbm_firstkey db) end
 
@@ -177,17 +197,17 @@ fun map f (db, ref NONE) = raise Closed
   | map f (db, _) =
     let fun loop NONE       res = res
 	  | loop (SOME key) res = 
-	    loop (gdbm_nextkey db key) (f (key, gdbm_fetch_ db key) :: res)
+	    loop (gdbm_nextkey db key) (f (key, gdbm_get db key) :: res)
     in loop (gdbm_firstkey db) [] end
 
 fun fold f a (db, ref NONE) = raise Closed
   | fold f a (db, _) = 
     let fun loop NONE       res = res
 	  | loop (SOME key) res = 
-	    loop (gdbm_nextkey db key) (f (key, gdbm_fetch_ db key, res))
+	    loop (gdbm_nextkey db key) (f (key, gdbm_get db key, res))
     in loop (gdbm_firstkey db) a end
 
 fun reorganize (db, ref NONE) = raise Closed
   | reorganize (db, _) = 
-    if gdbm_reorganize_ db then () 
+    if failure gdbm_reorganize_ db then () 
     else gdbm_error ()
-- 
2.43.0


From 1cdd4120db8ff1c6ea5da62ad0b2d1def56315a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 35/47] fix: short and interrupted reads do not make the loader
 refuse a complete program

---
 src/runtime/main.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/runtime/main.c b/src/runtime/main.c
index c1a38e6..e2aaded 100644
--- a/src/runtime/main.c
+++ b/src/runtime/main.c
@@ -1,5 +1,6 @@
 /* Start-up code */
 
+#include <errno.h>
 #include <setjmp.h>
 #include <stdio.h>
 #include <fcntl.h>
@@ -59,12 +60,27 @@ static unsigned long read_size(unsigned char * p)
 #define TRUNCATED_FILE (-2)
 #define BAD_MAGIC_NUM (-3)
 
+/* read may return less than it was asked for, or be interrupted */
+
+static long read_full(int fd, char * buf, long len)
+{
+  long n = 0, got;
+
+  while (n < len) {
+    got = read(fd, buf + n, len - n);
+    if (got == -1 && errno == EINTR) continue;
+    if (got <= 0) break;
+    n += got;
+  }
+  return n;
+}
+
 static int read_trailer(int fd, struct exec_trailer * trail)
 {
   unsigned char buffer[TRAILER_SIZE];
 
   lseek(fd, (long) -TRAILER_SIZE, 2);
-  if (read(fd, (char*)buffer, TRAILER_SIZE) < TRAILER_SIZE) 
+  if (read_full(fd, (char*)buffer, TRAILER_SIZE) < TRAILER_SIZE) 
     return TRUNCATED_FILE;
   trail->code_size = read_size(buffer);
   trail->data_size = read_size(buffer+4);
@@ -88,7 +104,7 @@ int attempt_open(char ** name, struct exec_trailer * trail, int do_open_script)
   fd = open(truename, O_RDONLY | O_BINARY);
   if (fd == -1) return FILE_NOT_FOUND;
   if (!do_open_script){
-    err = read (fd, buf, 2);
+    err = read_full (fd, buf, 2);
     if (err < 2) return TRUNCATED_FILE;
     if (buf [0] == '#' && buf [1] == '!') return BAD_MAGIC_NUM;
   }
@@ -236,7 +252,7 @@ int main(int argc, char * argv[])
 #else
     start_code = (bytecode_t) stat_alloc(code_size);
 #endif
-    if (read(fd, (char *) start_code, code_size) != code_size)
+    if (read_full(fd, (char *) start_code, code_size) != code_size)
       fatal_error("Fatal error: truncated bytecode file.\n");
 
 #if defined(MOSML_BIG_ENDIAN) && !defined(ALIGNMENT)
-- 
2.43.0


From 4c8974752ffbc8679ffc94b65b6b5cff4d264994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 36/47] fix: failing before the global data is loaded is a
 fatal error, not a crash

---
 src/runtime/fail.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/runtime/fail.c b/src/runtime/fail.c
index c037c0d..7986c13 100644
--- a/src/runtime/fail.c
+++ b/src/runtime/fail.c
@@ -36,10 +36,23 @@ EXTERN void mlraise(value v)
   longjmp(external_raise->buf, 1);
 }
 
+/* Before the global data has been loaded, there are no exceptions to raise,
+   and possibly no heap to allocate them in. */
+
+static void check_started(int exnindex) {
+  if (global_data == 0) {
+    if (exnindex == SYS__EXN_MEMORY)
+      fatal_error("Fatal error: out of memory.\n");
+    else
+      fatal_error("Fatal error: cannot read the bytecode file.\n");
+  }
+}
+
 /* Raise a unary pervasive exception with the given argument */
 
 void raiseprimitive1(int exnindex, value arg) {
   value exn;
+  check_started(exnindex);
   Push_roots(r, 1);  
   r[0] = arg;  
   exn = alloc_tuple(2);
@@ -66,6 +79,7 @@ void raiseprimitive0(int exnindex) {
 /*  } */
 
 EXTERN void raise_with_string(int exnindex, char * msg) {
+  check_started(exnindex);
   raiseprimitive1(exnindex, copy_string(msg));
 }
 
-- 
2.43.0


From a64ba08a2c3be4cd5e55f1da0e861d3d0320ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 37/47] fix: a long PATH does not overflow the buffer of
 searchpath

---
 src/runtime/sys.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/runtime/sys.c b/src/runtime/sys.c
index 28a3d6a..3e5a8fc 100644
--- a/src/runtime/sys.c
+++ b/src/runtime/sys.c
@@ -348,17 +348,21 @@ char * searchpath(char * name)
   path = getenv("PATH");
   if (path == 0) return 0;
   while(1) {
-    p = fullname;
-    while (*path != 0 && *path != ':') {
-      *p++ = *path++;
+    q = path;
+    while (*path != 0 && *path != ':') path++;
+    if ((path - q) + strlen(name) + 2 <= sizeof(fullname)) {
+      p = fullname;
+      while (q != path) {
+        *p++ = *q++;
+      }
+      if (p != fullname) *p++ = '/';
+      q = name;
+      while (*q != 0) {
+        *p++ = *q++;
+      }
+      *p = 0;
+      if (access(fullname, 1) == 0) return fullname;
     }
-    if (p != fullname) *p++ = '/';
-    q = name;
-    while (*q != 0) {
-      *p++ = *q++;
-    }
-    *p = 0;
-    if (access(fullname, 1) == 0) return fullname;
     if (*path == 0) return 0;
     path++;
   }
-- 
2.43.0


From 14f312b31fabd97af008e680a51c1a3c1cead88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 38/47] fix: the loader closes the files it refuses

---
 src/runtime/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/main.c b/src/runtime/main.c
index e2aaded..dc59290 100644
--- a/src/runtime/main.c
+++ b/src/runtime/main.c
@@ -105,8 +105,8 @@ int attempt_open(char ** name, struct exec_trailer * trail, int do_open_script)
   if (fd == -1) return FILE_NOT_FOUND;
   if (!do_open_script){
     err = read_full (fd, buf, 2);
-    if (err < 2) return TRUNCATED_FILE;
-    if (buf [0] == '#' && buf [1] == '!') return BAD_MAGIC_NUM;
+    if (err < 2) { close(fd); return TRUNCATED_FILE; }
+    if (buf [0] == '#' && buf [1] == '!') { close(fd); return BAD_MAGIC_NUM; }
   }
   err = read_trailer(fd, trail);
   if (err != 0) { close(fd); return err; }
-- 
2.43.0


From 63ddf957eea9b27a10d103cc905b16d735e231ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 39/47] fix: check the initial allocation of the major
 collector's tables

---
 src/runtime/major_gc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/major_gc.c b/src/runtime/major_gc.c
index 0cc7871..3a0e0f2 100644
--- a/src/runtime/major_gc.c
+++ b/src/runtime/major_gc.c
@@ -768,6 +768,8 @@ void init_major_heap (asize_t heap_size)
   weak_arrays_end = weak_arrays + weak_arrays_size;
   gray_vals_size = 2048;
   gray_vals = (value *) malloc (gray_vals_size * sizeof (value));
+  if (weak_arrays == NULL || gray_vals == NULL)
+    fatal_error ("Fatal error: not enough memory for the initial heap.\n");
   gray_vals_cur = gray_vals;
   gray_vals_end = gray_vals + gray_vals_size;
   heap_is_pure = 1;
-- 
2.43.0


From 43e25c394cff0aa75a5502fd3ecafb21d12c0bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 40/47] fix: an earlier error of the dynamic linker does not
 make dlsym fail

---
 src/runtime/dynlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/dynlib.c b/src/runtime/dynlib.c
index b1fcb38..23a4323 100644
--- a/src/runtime/dynlib.c
+++ b/src/runtime/dynlib.c
@@ -194,6 +194,7 @@ value dynlib_dlsym(value handle, value sym) /* ML */
 
 #else
 
+  dlerror();			/* forget any earlier error */
   symhdl = dlsym((void *) handle, String_val(sym));
   {   
     char *error = dlerror();
-- 
2.43.0


From 4b42b95a799713509ea14a776a5a8d9aada6fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 41/47] fix: C calls of more than five arguments need no memory
 and leak none when they raise

---
 src/runtime/interp.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index 4c523e9..afe9976 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1170,17 +1170,15 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
       Next;
     Instruct(C_CALLN):
       { int n = u8pci;
-        value * args;
+        value args[256];	/* n is a byte */
 	int i;
         *--sp = accu;
         Setup_for_c_call;
-	args = (value*)stat_alloc(n * sizeof(value));
 	for (i = 0; i < n; i++) 
 	  args[i] = sp[n-i];
         accu = (cprim[u16pc])(args, n);
         Restore_after_c_call;
         pc += SHORT;
-	free(args);
         sp += n;
         Next; }
 
-- 
2.43.0


From ff43a1beb11add7919e4b15954953d1deab10216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 42/47] fix: name the damaged file when a compiled unit or
 signature is cut short

The linker's message naming the file was lost when an exception other than
Fail ended it; the compiler reported a truncated signature as an uncaught
Size, and so did load in the interactive system.
---
 src/compiler/Mainl.sml  |  2 ++
 src/compiler/Smltop.sml |  5 ++++-
 src/compiler/Units.sml  | 16 +++++++++-------
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/compiler/Mainl.sml b/src/compiler/Mainl.sml
index fbc074d..80a9ffd 100644
--- a/src/compiler/Mainl.sml
+++ b/src/compiler/Mainl.sml
@@ -136,6 +136,8 @@ fun main() =
        msgEBlock();
        msgFlush();
        BasicIO.exit 2)
+  | x => (* any message was not shown yet *)
+      (msgFlush(); raise x)
 ;
 
 val () = Printexc.f main ();
diff --git a/src/compiler/Smltop.sml b/src/compiler/Smltop.sml
index 5179d21..65339b7 100644
--- a/src/compiler/Smltop.sml
+++ b/src/compiler/Smltop.sml
@@ -36,7 +36,9 @@ fun tryEvalLoad name =
     val open_after_loading = ref false
     val () =
       let
-        val stop = input_binary_int is
+        fun damaged () =
+            raise Fail ("load: compiled body of unit "^uname^" is damaged")
+        val stop = input_binary_int is handle Size => damaged ()
 	(* Debugging HOL too large object problem: *)
 	(* val _ = (print "Stop = "; print (Int.toString stop); print "\n") *)
         val start = pos_in is
@@ -47,6 +49,7 @@ fun tryEvalLoad name =
         (* with its compiled signature and previously loaded units. *)
         val () = seek_in is stop
         val tables = (input_value is : compiled_unit_tables)
+                     handle Size => damaged () | Fail _ => damaged ()
 	(* val _ = (print "Got here 2\n") *)
         val () =
           Hasht.apply (fn uname' => fn stamp' =>
diff --git a/src/compiler/Units.sml b/src/compiler/Units.sml
index 463b5fa..976fcbc 100644
--- a/src/compiler/Units.sml
+++ b/src/compiler/Units.sml
@@ -133,6 +133,13 @@ fun readSig filename =
       val name = normalizedUnitName(Filename.basename filename)
       val filename = find_in_path (filename ^ ".ui")
       val is = open_in_bin filename
+      fun corrupted () =
+        (close_in is;
+         msgIBlock 0;
+         errPrompt "Corrupted compiled signature file: ";
+         msgString filename; msgEOL();
+         msgEBlock();
+         raise Toplevel)
   in
     let
       val sigStamp = input(is, 22)
@@ -154,13 +161,8 @@ fun readSig filename =
       else ();
       cu
     end
-    handle Fail _ =>
-      (close_in is;
-       msgIBlock 0;
-       errPrompt "Corrupted compiled signature file: ";
-       msgString filename; msgEOL();
-       msgEBlock();
-       raise Toplevel)
+    handle Fail _ => corrupted ()
+         | Size   => corrupted ()
   end;
 
 fun readAndMentionSig filename =
-- 
2.43.0


From 1e91747f818d0af3a43d9adb23275bd1589e952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:03 +0000
Subject: [PATCH 43/47] fix: say that a compilation failed or was interrupted
 even while another message is being composed

The block of the unfinished message was still open in the pretty printer,
which therefore never printed the final message.
---
 src/compiler/Mainc.sml | 12 ++++++++----
 src/compiler/Mainl.sml |  9 ++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/compiler/Mainc.sml b/src/compiler/Mainc.sml
index dfefc94..5ed789b 100644
--- a/src/compiler/Mainc.sml
+++ b/src/compiler/Mainc.sml
@@ -169,26 +169,30 @@ handle
       (msgFlush();
        BasicIO.exit 2)
   | Interrupt =>
-      (msgIBlock 0;
+      (msgFlush();
+       msgIBlock 0;
        errPrompt "Interrupted."; msgEOL();
        msgEBlock();
        msgFlush();
        BasicIO.exit 3)
   | Impossible msg =>
-      (msgIBlock 0;
+      (msgFlush();
+       msgIBlock 0;
        errPrompt "Internal error: "; msgString msg; msgEOL();
        msgEBlock();
        msgFlush();
        BasicIO.exit 4)
   | SysErr(msg, _) =>
-      (msgIBlock 0;
+      (msgFlush();
+       msgIBlock 0;
        errPrompt "I/O operation failed: ";
        msgString msg; msgEOL();
        msgEBlock();
        msgFlush();
        BasicIO.exit 2)
   | Fail msg =>
-      (msgIBlock 0;
+      (msgFlush();
+       msgIBlock 0;
        errPrompt "Compilation failed: "; msgEOL();
        errPrompt msg; msgEOL();
        msgEBlock();
diff --git a/src/compiler/Mainl.sml b/src/compiler/Mainl.sml
index 80a9ffd..5aa8f77 100644
--- a/src/compiler/Mainl.sml
+++ b/src/compiler/Mainl.sml
@@ -119,19 +119,22 @@ fun main() =
     Toplevel =>
       (msgFlush(); BasicIO.exit 2)
   | Interrupt =>
-      (msgIBlock 0;
+      (msgFlush();
+       msgIBlock 0;
        errPrompt "Interrupted."; msgEOL();
        msgEBlock();
        msgFlush();
        BasicIO.exit 3)
   | Impossible msg =>
-      (msgIBlock 0;
+      (msgFlush();
+       msgIBlock 0;
        errPrompt "Internal error: "; msgString msg; msgEOL();
        msgEBlock();
        msgFlush();
        BasicIO.exit 4)
   | Fail msg =>
-      (msgIBlock 0;
+      (msgFlush();
+       msgIBlock 0;
        errPrompt msg; msgEOL();
        msgEBlock();
        msgFlush();
-- 
2.43.0


From 7105d5e70c2efd53aaeeebd0124cfa2e97e1dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:58 +0000
Subject: [PATCH 44/47] fix: keep the bytecode alive while a program starts

It was an ML string known only to C; a collection during the reading of the
global data or the setting up of the arguments moved or freed it before it was
expanded.
---
 src/runtime/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/main.c b/src/runtime/main.c
index dc59290..c5a3f32 100644
--- a/src/runtime/main.c
+++ b/src/runtime/main.c
@@ -248,7 +248,9 @@ int main(int argc, char * argv[])
     code_size = trail.code_size;
 
 #if defined(DIRECT_JUMP) && defined(THREADED)
-    start_code = (bytecode_t) alloc_string(code_size);
+    Push_roots(code_root, 1);
+    code_root[0] = alloc_string(code_size);
+    start_code = (bytecode_t) String_val(code_root[0]);
 #else
     start_code = (bytecode_t) stat_alloc(code_size);
 #endif
@@ -266,6 +268,10 @@ int main(int argc, char * argv[])
 
     sys_init(argv + i);
     interprete(/* mode=init */ 0, NULL, 0, NULL); 
+#if defined(DIRECT_JUMP) && defined(THREADED)
+    start_code = (bytecode_t) String_val(code_root[0]);
+    Pop_roots();
+#endif
     interprete(/* mode=byte exec */ 1, start_code, code_size, NULL);
     sys_exit(Val_int(0));
 
-- 
2.43.0


From 79699336b2572831d9b33b4e666d158374875f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 45/47] fix: file_exists does not deny the existence of a file
 that cannot be opened just now

---
 src/mosmllib/Nonstdio.sml | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/Nonstdio.sml b/src/mosmllib/Nonstdio.sml
index f22c47c..c9d1fec 100644
--- a/src/mosmllib/Nonstdio.sml
+++ b/src/mosmllib/Nonstdio.sml
@@ -105,6 +105,10 @@ prim_val sys_open :
            The third argument is the permissions to use if the file
            must be created. The result is a file descriptor opened on the
            file. *)
+prim_val access_ :
+  string -> int -> bool = 2 "sml_access"
+  (* [access_ filename 1] tells whether the file can be read *)
+
 prim_val sys_close :
   int -> unit = 1 "sys_close"
         (* Close a file descriptor. *)
@@ -302,6 +306,10 @@ fun pos_out os =
       pos_out_ oc
   end;
 
+(* A readable file that cannot be opened just now does exist: *)
+
 fun file_exists filename =
-  (sys_close(sys_open filename [O_RDONLY] 0); true)
-     handle SysErr _ => false;
+  let val fd = sys_open filename [O_RDONLY] 0
+  in (sys_close fd handle SysErr _ => ()); true end
+     handle e as SysErr _ =>
+         if access_ filename 1 then raise e else false;
-- 
2.43.0


From fd2498f079f144e492867bad3eb452f78f0cca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:05 +0000
Subject: [PATCH 46/47] fix: an interrupt between phrases or inside the pretty
 printer does not end the interactive system

Interrupts were caught only while a phrase was read and executed, exhausted
memory not at all, and a pretty printer interrupted in the middle of an
operation failed or looped on its next use.
---
 src/compiler/Mainc.sml  |  2 +-
 src/compiler/Mainl.sml  |  2 +-
 src/compiler/Maint.sml  | 22 ++++++++++++++++++----
 src/compiler/Smltop.sml |  7 +++++--
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/compiler/Mainc.sml b/src/compiler/Mainc.sml
index 5ed789b..aa5c9ef 100644
--- a/src/compiler/Mainc.sml
+++ b/src/compiler/Mainc.sml
@@ -169,7 +169,7 @@ handle
       (msgFlush();
        BasicIO.exit 2)
   | Interrupt =>
-      (msgFlush();
+      (msgClear();
        msgIBlock 0;
        errPrompt "Interrupted."; msgEOL();
        msgEBlock();
diff --git a/src/compiler/Mainl.sml b/src/compiler/Mainl.sml
index 5aa8f77..d17b29d 100644
--- a/src/compiler/Mainl.sml
+++ b/src/compiler/Mainl.sml
@@ -119,7 +119,7 @@ fun main() =
     Toplevel =>
       (msgFlush(); BasicIO.exit 2)
   | Interrupt =>
-      (msgFlush();
+      (msgClear();
        msgIBlock 0;
        errPrompt "Interrupted."; msgEOL();
        msgEBlock();
diff --git a/src/compiler/Maint.sml b/src/compiler/Maint.sml
index 90868b1..478850c 100644
--- a/src/compiler/Maint.sml
+++ b/src/compiler/Maint.sml
@@ -35,8 +35,7 @@ fun initial_loop () =
 
 (* Main loop *)
 
-fun main_loop () =
-  while true do
+fun main_phrase () =
     let in
       msgFlush();
       if !Exec_phr.quietdec then () else outputc std_out toplevel_input_prompt;
@@ -44,6 +43,7 @@ fun main_loop () =
       let val isLast = loadToplevelPhrase (!input_lexbuf) in
         if isLast then raise EndOfFile else ()
       end
+    end
       handle
           EndOfFile =>
               (msgIBlock 0; msgEOL(); msgEBlock ();
@@ -51,13 +51,27 @@ fun main_loop () =
         | Toplevel =>
             msgFlush()
         | Interrupt =>
-            (msgIBlock 0;
+            (msgClear();
+             msgIBlock 0;
              msgPrompt "Interrupted.";
              msgEOL(); msgEBlock(); msgFlush())
+        | Out_of_memory =>
+            (msgClear();
+             msgIBlock 0;
+             errPrompt "Out of memory.";
+             msgEOL(); msgEBlock(); msgFlush())
         | x =>
             (msgFlush();
              raise x)
-    end
+;
+
+(* An interrupt may also arrive between phrases, or while main_phrase
+   is reporting the end of one.  It may have hit the pretty printer in
+   the middle of an operation, which then must start afresh. *)
+
+fun main_loop () =
+  while true do
+    ((msgClear(); while true do main_phrase ()) handle Interrupt => ())
 ;
 
 fun anonymous s =
diff --git a/src/compiler/Smltop.sml b/src/compiler/Smltop.sml
index 65339b7..dbec007 100644
--- a/src/compiler/Smltop.sml
+++ b/src/compiler/Smltop.sml
@@ -215,6 +215,8 @@ fun evalUse filename =
            in if isLast then raise EndOfFile else () end)))
     handle
         EndOfFile => closeIn()
+      | Interrupt => (msgClear(); closeIn(); raise Interrupt)
+      | Out_of_memory => (msgClear(); closeIn(); raise Out_of_memory)
       | x => (closeIn(); raise x)
   end
 ;
@@ -244,8 +246,9 @@ fun tryEvalCompile mode context s =
 fun evalCompile mode context s =
   tryEvalCompile mode context s
   handle
-       Interrupt     => raise Fail "compile: interrupted by the user"
-     | Out_of_memory => raise Fail "compile: out of memory"
+       Interrupt     => (msgClear(); 
+			 raise Fail "compile: interrupted by the user")
+     | Out_of_memory => (msgClear(); raise Fail "compile: out of memory")
      | Toplevel      => raise Fail "compile: error(s) in the source program"
      | SysErr _      => raise Fail "compile: file not found"
 ;
-- 
2.43.0


From 82da21434058ab53e9197725c4eb863a518e9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:13 +0000
Subject: [PATCH 47/47] fix: Mosml.listDir closes the directory when reading it
 fails

---
 src/mosmllib/Mosml.mlp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mosmllib/Mosml.mlp b/src/mosmllib/Mosml.mlp
index 80cd436..fa36d1b 100644
--- a/src/mosmllib/Mosml.mlp
+++ b/src/mosmllib/Mosml.mlp
@@ -93,6 +93,7 @@ fun listDir path =
 	fun read NONE     res = res
 	  | read (SOME f) res = read (readDir dir) (f :: res)
 	val files = read (readDir dir) []
+	            handle exn => (closeDir dir handle SysErr _ => (); raise exn)
     in closeDir dir; files end
 
 datatype runresult = 
-- 
2.43.0

