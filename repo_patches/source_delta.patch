From 73a2ad60f6b28ad6bb5c29027ddba9b852f91f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 01/50] fix: reset telnet IAC state for each new connection

A telnet connection cut in the middle of a command sequence left its parser
state behind, so the first bytes of the next connection were swallowed.
---
 src/server-telnet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index fb66864..125726c 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -265,6 +265,7 @@ static int connect_telnet_obj(obj_t *telnet)
             telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
+    telnet->aux.telnet.iac = -1;        /* discard state of prior connection */
     telnet->aux.telnet.state = CONMAN_TELNET_UP;
     tpoll_set(tp_global, telnet->fd, POLLIN);
 
-- 
2.43.0


From dcb9d7bf3fcea6dd0a99ee425da47932c5da564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 02/50] fix: telnet subnegotiation is not ended by a doubled
 IAC

An IAC IAC pair within a subnegotiation terminated it, and the remainder of the
subnegotiation leaked into the console data.
---
 src/server-telnet.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 125726c..360c35b 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -426,10 +426,23 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
             /*
              *  Ignore subnegotiation opts.  Consume bytes until IAC SE.
              *    Remain in the SB state until an IAC is found; then reset
-             *    the state to IAC assuming the next byte will be the SE cmd.
+             *    the state to SE assuming the next byte will be the SE cmd.
              */
             if (*p == IAC)
-                telnet->aux.telnet.iac = *p;
+                telnet->aux.telnet.iac = SE;
+            break;
+        case SE:
+            /*
+             *  An IAC was received within the subnegotiation.  If doubled,
+             *    it is a data byte of the subnegotiation which continues;
+             *    o/w, process it as the start of a regular cmd (eg, SE).
+             */
+            if (*p == IAC)
+                telnet->aux.telnet.iac = SB;
+            else {
+                telnet->aux.telnet.iac = IAC;
+                p--;
+            }
             break;
         default:
             log_err(0, "Reached invalid state %#.2x%.2x for console [%s]",
-- 
2.43.0


From fadbdbea3cdcc96aee01fe42de0ce6d81410e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 03/50] fix: double IAC bytes in data sent to telnet consoles

A 0xFF byte typed by a client was sent as is and hence interpreted by the
terminal server as the start of a telnet command.
---
 src/server-obj.c    |  3 +++
 src/server-telnet.c | 27 +++++++++++++++++++++++++++
 src/server.h        |  2 ++
 3 files changed, 32 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index a7a6cda..a985ae6 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -947,6 +947,9 @@ again:
                 if (is_logfile_obj(reader)) {
                     write_log_data(reader, buf, n);
                 }
+                else if (is_telnet_obj(reader)) {
+                    write_telnet_data(reader, buf, n);
+                }
                 else {
                     write_obj_data(reader, buf, n, 0);
                 }
diff --git a/src/server-telnet.c b/src/server-telnet.c
index 360c35b..a269c85 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -458,6 +458,33 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
 }
 
 
+int write_telnet_data(obj_t *telnet, const void *src, int len)
+{
+/*  Writes the data (src) of length (len) into the (telnet) obj's buffer,
+ *    doubling each IAC byte so the remote does not interpret it as a cmd.
+ *  Returns the number of bytes written into the obj's buffer.
+ */
+    const unsigned char *p = src;
+    unsigned char buf[OBJ_BUF_SIZE - 1];
+    unsigned char *q = buf;
+    int n = 0;
+
+    assert(is_telnet_obj(telnet));
+
+    for (; len > 0; p++, len--) {
+        if ((size_t) (q - buf) > sizeof(buf) - 2) {
+            n += write_obj_data(telnet, buf, q - buf, 0);
+            q = buf;
+        }
+        *q++ = *p;
+        if (*p == IAC)
+            *q++ = IAC;
+    }
+    n += write_obj_data(telnet, buf, q - buf, 0);
+    return(n);
+}
+
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt)
 {
 /*  Sends the given telnet (cmd) and (opt) to the (telnet) console;
diff --git a/src/server.h b/src/server.h
index 44c513c..dfd99de 100644
--- a/src/server.h
+++ b/src/server.h
@@ -503,6 +503,8 @@ int open_telnet_obj(obj_t *telnet);
 
 int process_telnet_escapes(obj_t *telnet, void *src, int len);
 
+int write_telnet_data(obj_t *telnet, const void *src, int len);
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt);
 
 
-- 
2.43.0


From c888b464ce139cba983ab2aaabd61a66527dd8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 04/50] fix: ignore mode changes of a client whose console was
 stolen

The client is no longer linked to a console but stays connected until its
output is drained (eg, while suspended); its request dereferenced NULL.
---
 src/server-esc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index cee005e..4ddaf65 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -234,6 +234,11 @@ static void perform_console_writer_linkage(obj_t *client)
      */
     if (client->aux.client.req->enableBroadcast)
         return;
+    /*
+     *  A client whose console has been stolen is no longer linked.
+     */
+    if (list_is_empty(client->writers))
+        return;
     assert(list_count(client->readers) <= 1);
 
     /*  A R/O or R/W client will have exactly one console writer.
-- 
2.43.0


From 889e105516f165c1ad51743eda45ced8c4527f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 05/50] fix: close the connection of a client in quiet mode
 when it is stolen from

Without a departing message in its buffer nothing triggered the close, so the
connection stayed open without being attached to any console.
---
 src/server-obj.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index a985ae6..9ff9985 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -54,6 +54,7 @@
 extern tpoll_t tp_global;               /* defined in server.c */
 
 
+static void poll_client_eof(obj_t *client);
 static char * sanitize_file_string(char *str);
 static char * find_trailing_int_str(char *str);
 #ifndef NDEBUG
@@ -725,11 +726,13 @@ void unlink_objs(obj_t *src, obj_t *dst)
             && list_is_empty(src->readers) && list_is_empty(src->writers)) {
         assert(is_console_obj(dst));
         src->gotEOF = 1;
+        poll_client_eof(src);
     }
     else if (is_client_obj(dst)
             && list_is_empty(dst->readers) && list_is_empty(dst->writers)) {
         assert(is_console_obj(src));
         dst->gotEOF = 1;
+        poll_client_eof(dst);
     }
 
     DPRINTF((10, "Unlinked [%s] reads from [%s] writes.\n",
@@ -740,6 +743,20 @@ void unlink_objs(obj_t *src, obj_t *dst)
 }
 
 
+static void poll_client_eof(obj_t *client)
+{
+/*  Ensures write_to_obj() gets to close the (client) after its gotEOF flag has
+ *    been set, even if there is no data remaining in its buffer.
+ */
+    assert(is_client_obj(client));
+
+    if ((client->fd >= 0) && !client->aux.client.gotSuspend) {
+        tpoll_set(tp_global, client->fd, POLLOUT);
+    }
+    return;
+}
+
+
 void unlink_obj(obj_t *obj)
 {
 /*  Destroys all links between (obj) and its readers & writers.
-- 
2.43.0


From 2c3b7c2904a83b793af697d5241f63c0e21cad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 06/50] fix: end the session of a client that disconnects while
 suspended

If the suspended client had buffered output, its session (and write access to
the console) remained forever since the buffer could never drain.
---
 src/server-obj.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 9ff9985..4a87cb2 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -937,6 +937,13 @@ again:
         }
         obj->gotEOF = 1;
         tpoll_clear(tp_global, obj->fd, POLLIN);
+        /*
+         *  A client that has closed its connection cannot resume its output.
+         */
+        if (is_client_obj(obj) && obj->aux.client.gotSuspend) {
+            obj->aux.client.gotSuspend = 0;
+            tpoll_set(tp_global, obj->fd, POLLOUT);
+        }
         isEmpty = (obj->bufInPtr == obj->bufOutPtr);
         return(isEmpty ? shutdown_obj(obj) : 0);
     }
-- 
2.43.0


From 154a0414a0b7eb9511c80f8ff78f15b75176a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 07/50] fix: do not lose console log data when timestamps
 overflow the buffer

A single read consisting of many short lines expands to more log data than the
buffer of the logfile object can hold, so the oldest of it was overwritten
before being written to the log.
---
 src/server-obj.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 4a87cb2..627398d 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -1018,6 +1018,16 @@ int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
         len = OBJ_BUF_SIZE - 1;
     }
     x_pthread_mutex_lock(&obj->bufLock);
+    n = OBJ_BUF_SIZE - 1 - num_bytes_buffered(obj);
+    x_pthread_mutex_unlock(&obj->bufLock);
+
+    /*  Flush the console log if there is insufficient space remaining since
+     *    a single read can expand into more log data than the buffer holds.
+     */
+    if (is_logfile_obj(obj) && (len > n)) {
+        (void) write_to_obj(obj);
+    }
+    x_pthread_mutex_lock(&obj->bufLock);
 
     /*  Do nothing if this is an informational message
      *    and the client has requested not to be bothered.
-- 
2.43.0


From e6b7dce7f64544f676ac3be3bf765217f217b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:41 +0000
Subject: [PATCH 08/50] fix: do not lose a signal arriving just before the
 daemon blocks

A SIGTERM, SIGINT or SIGHUP handled between the check of its flag and the call
of poll(), while logs are being reopened, or by a thread other than the main one
was not acted upon until some unrelated I/O or timer event occurred.
---
 src/server.c | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index 6b91370..dd8d656 100644
--- a/src/server.c
+++ b/src/server.c
@@ -60,6 +60,7 @@ static void setup_signals(server_conf_t *conf);
 static void sig_chld_handler(int signum);
 static void sig_hup_handler(int signum);
 static void exit_handler(int signum);
+static void wakeup_mux(void);
 static void coredump_handler(int signum);
 static char ** get_sane_env(void);
 static void display_configuration(server_conf_t *conf);
@@ -77,6 +78,7 @@ static void accept_client(server_conf_t *conf);
  */
 static volatile sig_atomic_t done = 0;
 static volatile sig_atomic_t reconfig = 0;
+static int sig_pipe[2] = { -1, -1 };
 static int coredump = 0;
 static char coredumpdir[PATH_MAX];
 
@@ -352,6 +354,14 @@ static void setup_coredump(server_conf_t *conf)
 
 static void setup_signals(server_conf_t *conf)
 {
+    if (pipe(sig_pipe) < 0) {
+        log_err(errno, "Unable to create signal pipe");
+    }
+    set_fd_nonblocking(sig_pipe[0]);
+    set_fd_closed_on_exec(sig_pipe[0]);
+    set_fd_nonblocking(sig_pipe[1]);
+    set_fd_closed_on_exec(sig_pipe[1]);
+
     posix_signal(SIGCHLD, sig_chld_handler);
     posix_signal(SIGHUP, sig_hup_handler);
     posix_signal(SIGINT, exit_handler);
@@ -382,6 +392,7 @@ static void sig_chld_handler(int signum)
 static void sig_hup_handler(int signum)
 {
     reconfig = signum;
+    wakeup_mux();
     return;
 }
 
@@ -389,6 +400,23 @@ static void sig_hup_handler(int signum)
 static void exit_handler(int signum)
 {
     done = signum;
+    wakeup_mux();
+    return;
+}
+
+
+static void wakeup_mux(void)
+{
+/*  Wakes mux_io() from within a signal handler.
+ *  O/w, a signal being handled just before the mux blocks (or by another
+ *    thread) would not be noticed until some unrelated event occurs.
+ */
+    int errno_bak = errno;
+
+    if (sig_pipe[1] >= 0) {
+        (void) (write(sig_pipe[1], "", 1) + 1);
+    }
+    errno = errno_bak;
     return;
 }
 
@@ -756,6 +784,7 @@ static void mux_io(server_conf_t *conf)
     obj_t *obj;
     int inevent_fd;
     int rvr, rvw;
+    char buf[64];
 
     assert(conf->tp != NULL);
     assert(!list_is_empty(conf->objs));
@@ -764,18 +793,20 @@ static void mux_io(server_conf_t *conf)
     if (inevent_fd >= 0) {
         tpoll_set(conf->tp, inevent_get_fd(), POLLIN);
     }
+    tpoll_set(conf->tp, sig_pipe[0], POLLIN);
+
     i = list_iterator_create(conf->objs);
 
     while (!done) {
 
-        if (reconfig) {
+        if ((n = reconfig)) {
+            reconfig = 0;
             /*
              *  FIXME: A reconfig should pro'ly resurrect "downed" serial objs
              *    and reset reconnect timers of "downed" telnet objs.
              */
-            log_msg(LOG_NOTICE, "Performing reconfig on signal=%d", reconfig);
+            log_msg(LOG_NOTICE, "Performing reconfig on signal=%d", n);
             reopen_logfiles(conf);
-            reconfig = 0;
         }
         while ((n = tpoll(conf->tp, -1)) < 0) {
             if (errno != EINTR) {
@@ -790,6 +821,11 @@ static void mux_io(server_conf_t *conf)
             n--;
             accept_client(conf);
         }
+        if ((n > 0) &&
+                (tpoll_is_set(conf->tp, sig_pipe[0], POLLIN) > 0)) {
+            n--;
+            while (read(sig_pipe[0], buf, sizeof(buf)) > 0) {;}
+        }
         if ((inevent_fd >= 0) &&
                 (n > 0) &&
                 (tpoll_is_set(conf->tp, inevent_fd, POLLIN) > 0)) {
-- 
2.43.0


From 49b6f2c200122a9ef183957e4bb1188ca6652627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:46 +0000
Subject: [PATCH 09/50] fix: admit and link clients in the mux loop instead of
 in their own threads

Client threads checked for busy consoles, linked themselves to consoles, and
displaced other clients while mux_io() was reading from, writing to, and
destroying the same objs.  Concurrent CONNECTs for a console could both be
admitted, input arriving before the client was linked was lost, and a client
being destroyed could be used by the thread stealing its console.  The admission
and linking are now performed by mux_io(), and queries examine a list of the
consoles since these are never destroyed.
---
 src/server-conf.c |   4 +
 src/server-obj.c  |  37 +++++--
 src/server-sock.c | 258 +++++++++++++++++++++++++++++++++-------------
 src/server.c      |   4 +
 src/server.h      |   3 +
 5 files changed, 224 insertions(+), 82 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index d836f8d..6a71220 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -231,6 +231,7 @@ server_conf_t * create_server_conf(void)
     conf->port = -1;
     conf->ld = -1;
     conf->objs = list_create((ListDelF) destroy_obj);
+    conf->consoles = list_create(NULL);
     if (!(conf->tp = tpoll_create(0))) {
         log_err(0, "Unable to create object for multiplexing I/O");
     }
@@ -299,6 +300,9 @@ void destroy_server_conf(server_conf_t *conf)
         }
         conf->ld = -1;
     }
+    if (conf->consoles) {
+        list_destroy(conf->consoles);
+    }
     if (conf->objs) {
         list_destroy(conf->objs);
     }
diff --git a/src/server-obj.c b/src/server-obj.c
index 627398d..a0acc8f 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -102,8 +102,8 @@ obj_t * create_obj(
 
 obj_t * create_client_obj(server_conf_t *conf, req_t *req)
 {
-/*  Creates a new client object and adds it to the master objs list.
- *    Note: the socket is open and set for non-blocking I/O.
+/*  Creates a new client object.
+ *    Note: its I/O is not muxed until start_client_obj() is called.
  *  Returns the new object.
  */
     char name[MAX_LINE];
@@ -115,13 +115,9 @@ obj_t * create_client_obj(server_conf_t *conf, req_t *req)
     assert((req->user != NULL) && (req->user[0] != '\0'));
     assert((req->host != NULL) && (req->host[0] != '\0'));
 
-    set_fd_nonblocking(req->sd);
-    set_fd_closed_on_exec(req->sd);
-    tpoll_set(tp_global, req->sd, POLLIN);
-
     snprintf(name, sizeof(name), "%s@%s:%d", req->user, req->host, req->port);
     name[sizeof(name) - 1] = '\0';
-    client = create_obj(conf, name, req->sd, CONMAN_OBJ_CLIENT);
+    client = create_obj(conf, name, -1, CONMAN_OBJ_CLIENT);
     client->aux.client.req = req;
     time(&client->aux.client.timeLastRead);
     if (client->aux.client.timeLastRead == (time_t) -1)
@@ -129,13 +125,34 @@ obj_t * create_client_obj(server_conf_t *conf, req_t *req)
     client->aux.client.gotEscape = 0;
     client->aux.client.gotSuspend = 0;
 
+    DPRINTF((9, "Opened client: fd=%d user=%s tty=%s host=%s port=%d.\n",
+        req->sd, req->user, req->tty, req->host, req->port));
+    return(client);
+}
+
+
+void start_client_obj(server_conf_t *conf, obj_t *client)
+{
+/*  Starts muxing the I/O of the (client) by adding it to the master objs list.
+ *    Note: the socket is open and set for non-blocking I/O.
+ */
+    assert(conf != NULL);
+    assert(is_client_obj(client));
+    assert(client->fd < 0);
+
+    client->fd = client->aux.client.req->sd;
+    set_fd_nonblocking(client->fd);
+    set_fd_closed_on_exec(client->fd);
+
     /*  Add obj to the master conf->objs list.
      */
     list_append(conf->objs, client);
 
-    DPRINTF((9, "Opened client: fd=%d user=%s tty=%s host=%s port=%d.\n",
-        req->sd, req->user, req->tty, req->host, req->port));
-    return(client);
+    /*  Data may already be buffered for output,
+     *    or the client's console may already have been stolen.
+     */
+    tpoll_set(tp_global, client->fd, POLLIN | POLLOUT);
+    return;
 }
 
 
diff --git a/src/server-sock.c b/src/server-sock.c
index a5a9c6c..b44c343 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -44,6 +44,7 @@
 #include "lex.h"
 #include "log.h"
 #include "server.h"
+#include "tpoll.h"
 #include "util-file.h"
 #include "util-net.h"
 #include "util-str.h"
@@ -66,6 +67,25 @@ int deny_severity = LOG_WARNING;        /* logging level for rejected reqs */
 #endif /* WITH_TCP_WRAPPERS */
 
 
+extern tpoll_t tp_global;               /* defined in server.c */
+
+typedef struct mux_call {
+    callback_f       fnc;               /* function to invoke in mux_io()    */
+    void            *arg;               /* argument passed to function       */
+    int              isDone;            /* true once function has returned   */
+    pthread_mutex_t  lock;              /* lock protecting access to isDone  */
+    pthread_cond_t   cond;              /* signals a change of isDone        */
+} mux_call_t;
+
+typedef struct admission {
+    server_conf_t   *conf;              /* server's configuration            */
+    req_t           *req;               /* client request to be admitted     */
+    obj_t           *client;            /* new client obj, or NULL if busy   */
+    int              numBusy;           /* number of consoles already in use */
+    List             busyMsgs;          /* strings describing their writers  */
+    int              isReady;           /* true if client got its response   */
+} admission_t;
+
 static int resolve_addr(server_conf_t *conf, req_t *req, int sd);
 static int recv_greeting(req_t *req);
 static void parse_greeting(Lex l, req_t *req);
@@ -78,11 +98,16 @@ static int query_consoles_via_regex(
     server_conf_t *conf, req_t *req, List matches);
 static int validate_req(req_t *req);
 static int check_too_many_consoles(req_t *req);
-static int check_busy_consoles(req_t *req);
+static int check_busy_consoles(req_t *req, List msgs);
+static void call_in_mux(callback_f fnc, void *arg);
+static void dispatch_mux_call(mux_call_t *call);
+static int perform_session(req_t *req, server_conf_t *conf);
+static void admit_client(admission_t *adm);
+static void start_client(admission_t *adm);
 static int send_rsp(req_t *req, int errnum, char *errmsg);
 static int perform_query_cmd(req_t *req);
-static int perform_monitor_cmd(req_t *req, server_conf_t *conf);
-static int perform_connect_cmd(req_t *req, server_conf_t *conf);
+static void perform_monitor_cmd(req_t *req, obj_t *client);
+static void perform_connect_cmd(req_t *req, obj_t *client);
 static void check_console_state(obj_t *console, obj_t *client);
 
 
@@ -91,8 +116,8 @@ void process_client(client_arg_t *args)
 /*  The thread responsible for accepting a client connection
  *    and processing the request.
  *  The QUERY cmd is processed entirely by this thread.
- *  The MONITOR and CONNECT cmds are setup and then placed
- *    in the conf->objs list to be handled by mux_io().
+ *  The MONITOR and CONNECT cmds are validated here, and then admitted, linked,
+ *    and handled by mux_io() since these steps affect other clients & consoles.
  */
     int sd;
     server_conf_t *conf;
@@ -132,11 +157,8 @@ void process_client(client_arg_t *args)
 
     switch(req->command) {
     case CONMAN_CMD_CONNECT:
-        if (perform_connect_cmd(req, conf) < 0)
-            goto err;
-        break;
     case CONMAN_CMD_MONITOR:
-        if (perform_monitor_cmd(req, conf) < 0)
+        if (perform_session(req, conf) < 0)
             goto err;
         break;
     case CONMAN_CMD_QUERY:
@@ -480,12 +502,10 @@ static int query_consoles_via_globbing(
     /*  Search objs for console names matching console patterns in the request.
      */
     i = list_iterator_create(req->consoles);
-    j = list_iterator_create(conf->objs);
+    j = list_iterator_create(conf->consoles);
     while ((pat = list_next(i))) {
         list_iterator_reset(j);
         while ((obj = list_next(j))) {
-            if (!is_console_obj(obj))
-                continue;
             if (!fnmatch(pat, obj->name, 0)
               && !list_find_first(matches, (ListFindF) find_obj, obj))
                 list_append(matches, obj);
@@ -544,10 +564,8 @@ static int query_consoles_via_regex(
 
     /*  Search objs for console names matching console patterns in the request.
      */
-    i = list_iterator_create(conf->objs);
+    i = list_iterator_create(conf->consoles);
     while ((obj = list_next(i))) {
-        if (!is_console_obj(obj))
-            continue;
         if (!regexec(&rex, obj->name, 1, &match, 0)
           && (match.rm_so == 0)
           && (match.rm_eo == (int) strlen(obj->name)))
@@ -570,8 +588,6 @@ static int validate_req(req_t *req)
     }
     if (check_too_many_consoles(req) < 0)
         return(-1);
-    if (check_busy_consoles(req) < 0)
-        return(-1);
 
     return(0);
 }
@@ -619,16 +635,17 @@ static int check_too_many_consoles(req_t *req)
 }
 
 
-static int check_busy_consoles(req_t *req)
+static int check_busy_consoles(req_t *req, List msgs)
 {
 /*  Checks to see if a "writable" request affects any consoles
  *    that are currently busy (unless the force or join option is enabled).
- *  Returns 0 if the request is valid, or -1 on error.
+ *  A string describing each writer of a busy console is appended to [msgs].
+ *  Returns the number of busy consoles, or 0 if the request is valid.
  */
-    List busy;
-    ListIterator i;
+    ListIterator i, j;
     obj_t *console;
     obj_t *writer;
+    int numBusy = 0;
     int gotBcast;
     char *tty;
     time_t t;
@@ -643,36 +660,15 @@ static int check_busy_consoles(req_t *req)
     if (req->enableForce || req->enableJoin)
         return(0);
 
-    busy = list_create(NULL);
     i = list_iterator_create(req->consoles);
     while ((console = list_next(i))) {
         assert(is_console_obj(console));
-        if (!list_is_empty(console->writers))
-            list_append(busy, console);
-    }
-    list_iterator_destroy(i);
-
-    if (list_is_empty(busy)) {
-        list_destroy(busy);
-        return(0);
-    }
-
-    if (list_count(busy) == 1) {
-        snprintf(buf, sizeof(buf), "Found console already in use");
-    }
-    else {
-        snprintf(buf, sizeof(buf), "Found %d consoles already in use",
-            list_count(busy));
-    }
-    send_rsp(req, CONMAN_ERR_BUSY_CONSOLES, buf);
-
-    /*  Note: the "busy" list contains object references,
-     *    so they DO NOT get destroyed here when removed from the list.
-     */
-    while ((console = list_pop(busy))) {
+        if (list_is_empty(console->writers))
+            continue;
+        numBusy++;
 
-        i = list_iterator_create(console->writers);
-        while ((writer = list_next(i))) {
+        j = list_iterator_create(console->writers);
+        while ((writer = list_next(j))) {
 
             assert(is_client_obj(writer));
             x_pthread_mutex_lock(&writer->bufLock);
@@ -692,16 +688,58 @@ static int check_busy_consoles(req_t *req)
             buf[sizeof(buf) - 1] = '\0';
             if (delta)
                 free(delta);
-            if (write_n(req->sd, buf, strlen(buf)) < 0) {
-                log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
-                    req->fqdn, req->port, strerror(errno));
-                break;
-            }
+            list_append(msgs, create_string(buf));
         }
-        list_iterator_destroy(i);
+        list_iterator_destroy(j);
     }
-    list_destroy(busy);
-    return(-1);
+    list_iterator_destroy(i);
+    return(numBusy);
+}
+
+
+static void call_in_mux(callback_f fnc, void *arg)
+{
+/*  Invokes fnc(arg) from within mux_io(), and waits for it to return.
+ *  The objs are not to be modified by any other thread.
+ */
+    mux_call_t call;
+
+    call.fnc = fnc;
+    call.arg = arg;
+    call.isDone = 0;
+    x_pthread_mutex_init(&call.lock, NULL);
+    if ((errno = pthread_cond_init(&call.cond, NULL)) != 0)
+        log_err(errno, "pthread_cond_init() failed");
+
+    if (tpoll_timeout_relative(tp_global,
+            (callback_f) dispatch_mux_call, &call, 0) < 0)
+        log_err(0, "Unable to create timer for processing client");
+
+    x_pthread_mutex_lock(&call.lock);
+    while (!call.isDone) {
+        if ((errno = pthread_cond_wait(&call.cond, &call.lock)) != 0)
+            log_err(errno, "pthread_cond_wait() failed");
+    }
+    x_pthread_mutex_unlock(&call.lock);
+
+    (void) pthread_cond_destroy(&call.cond);
+    x_pthread_mutex_destroy(&call.lock);
+    return;
+}
+
+
+static void dispatch_mux_call(mux_call_t *call)
+{
+/*  Timer callback performing the function specified via call_in_mux().
+ */
+    call->fnc(call->arg);
+
+    x_pthread_mutex_lock(&call->lock);
+    call->isDone = 1;
+    if ((errno = pthread_cond_signal(&call->cond)) != 0)
+        log_err(errno, "pthread_cond_signal() failed");
+    x_pthread_mutex_unlock(&call->lock);
+    return;
 }
 
 
@@ -822,23 +860,106 @@ static int perform_query_cmd(req_t *req)
 }
 
 
-static int perform_monitor_cmd(req_t *req, server_conf_t *conf)
+static int perform_session(req_t *req, server_conf_t *conf)
+{
+/*  Performs the CONNECT and MONITOR commands.
+ *  The client is admitted and linked within mux_io() so concurrent requests
+ *    are processed one after another.  It does not become part of the objs
+ *    being muxed until it has been sent the response to its request.
+ *  Returns 0 if the request has been handed over to mux_io() (which then also
+ *    owns the req), or -1 if the request has been refused.
+ */
+    admission_t adm;
+    char buf[MAX_LINE];
+    char *p;
+
+    memset(&adm, 0, sizeof(adm));
+    adm.conf = conf;
+    adm.req = req;
+    adm.busyMsgs = list_create((ListDelF) destroy_string);
+
+    call_in_mux((callback_f) admit_client, &adm);
+
+    if (adm.client != NULL) {
+        list_destroy(adm.busyMsgs);
+        adm.isReady = (send_rsp(req, CONMAN_ERR_NONE, NULL) == 0);
+        call_in_mux((callback_f) start_client, &adm);
+        return(0);
+    }
+    if (adm.numBusy == 1) {
+        snprintf(buf, sizeof(buf), "Found console already in use");
+    }
+    else {
+        snprintf(buf, sizeof(buf), "Found %d consoles already in use",
+            adm.numBusy);
+    }
+    send_rsp(req, CONMAN_ERR_BUSY_CONSOLES, buf);
+
+    while ((p = list_pop(adm.busyMsgs))) {
+        if (write_n(req->sd, p, strlen(p)) < 0) {
+            log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
+                req->fqdn, req->port, strerror(errno));
+            free(p);
+            break;
+        }
+        free(p);
+    }
+    list_destroy(adm.busyMsgs);
+    return(-1);
+}
+
+
+static void admit_client(admission_t *adm)
+{
+/*  Checks whether the client's request can be granted given the current
+ *    writers of the consoles, in which case a client obj is created and linked.
+ *  This routine is invoked within mux_io().
+ */
+    adm->numBusy = check_busy_consoles(adm->req, adm->busyMsgs);
+    if (adm->numBusy > 0) {
+        return;
+    }
+    adm->client = create_client_obj(adm->conf, adm->req);
+
+    if (adm->req->command == CONMAN_CMD_MONITOR) {
+        perform_monitor_cmd(adm->req, adm->client);
+    }
+    else {
+        perform_connect_cmd(adm->req, adm->client);
+    }
+    return;
+}
+
+
+static void start_client(admission_t *adm)
+{
+/*  Starts muxing the I/O of a client that has been sent its response,
+ *    or removes the client if this response could not be sent.
+ *  This routine is invoked within mux_io().
+ */
+    if (adm->isReady) {
+        start_client_obj(adm->conf, adm->client);
+    }
+    else {
+        adm->client->fd = adm->req->sd;
+        unlink_obj(adm->client);
+        destroy_obj(adm->client);
+    }
+    return;
+}
+
+
+static void perform_monitor_cmd(req_t *req, obj_t *client)
 {
 /*  Performs the MONITOR command, placing the client in a
  *    "read-only" session with a single console.
- *  Returns 0 if the command succeeds, or -1 on error.
  */
-    obj_t *client;
     obj_t *console;
 
     assert(req->sd >= 0);
     assert(req->command == CONMAN_CMD_MONITOR);
     assert(list_count(req->consoles) == 1);
 
-    if (send_rsp(req, CONMAN_ERR_NONE, NULL) < 0) {
-        return(-1);
-    }
-    client = create_client_obj(conf, req);
     console = list_peek(req->consoles);
     assert(is_console_obj(console));
     link_objs(console, client);
@@ -847,30 +968,23 @@ static int perform_monitor_cmd(req_t *req, server_conf_t *conf)
     log_msg(LOG_INFO, "Client <%s@%s:%d> connected to [%s] (read-only)",
         req->user, req->fqdn, req->port, console->name);
 
-    return(0);
+    return;
 }
 
 
-static int perform_connect_cmd(req_t *req, server_conf_t *conf)
+static void perform_connect_cmd(req_t *req, obj_t *client)
 {
 /*  Performs the CONNECT command.  If a single console is specified,
  *    the client is placed in a "read-write" session with that console.
  *    Otherwise, the client is placed in a "write-only" broadcast session
  *    affecting multiple consoles.
- *  Returns 0 if the command succeeds, or -1 on error.
  */
-    obj_t *client;
     obj_t *console;
     ListIterator i;
 
     assert(req->sd >= 0);
     assert(req->command == CONMAN_CMD_CONNECT);
 
-    if (send_rsp(req, CONMAN_ERR_NONE, NULL) < 0) {
-        return(-1);
-    }
-    client = create_client_obj(conf, req);
-
     if (list_count(req->consoles) == 1) {
         /*
          *  Unicast connection (R/W).
@@ -900,7 +1014,7 @@ static int perform_connect_cmd(req_t *req, server_conf_t *conf)
             "Client <%s@%s:%d> connected to %d consoles (broadcast)",
             req->user, req->fqdn, req->port, list_count(req->consoles));
     }
-    return(0);
+    return;
 }
 
 
diff --git a/src/server.c b/src/server.c
index dd8d656..ce6712e 100644
--- a/src/server.c
+++ b/src/server.c
@@ -758,6 +758,9 @@ static void open_objs(server_conf_t *conf)
  *    specified when create_obj() initializes the obj members.
  *  This function is called once, performs a full traversal of the obj list,
  *    and allows resetCmdRef to be set before entering mux_io().
+ *  References to the console objs are kept in a list of their own since they
+ *    remain valid for as long as the daemon runs, unlike those of client objs
+ *    which can be destroyed while another thread examines the objs list.
  */
     ListIterator i;
     obj_t *obj;
@@ -766,6 +769,7 @@ static void open_objs(server_conf_t *conf)
     while ((obj = list_next(i))) {
         if (is_console_obj(obj)) {
             obj->resetCmdRef = conf->resetCmd;
+            list_append(conf->consoles, obj);
         }
         reopen_obj(obj);
     }
diff --git a/src/server.h b/src/server.h
index dfd99de..ce86eb9 100644
--- a/src/server.h
+++ b/src/server.h
@@ -290,6 +290,7 @@ typedef struct server_conf {
     int              port;              /* port number on which to listen    */
     int              ld;                /* listening socket descriptor       */
     List             objs;              /* list of all server obj_t's        */
+    List             consoles;          /* list of refs to console obj_t's   */
     tpoll_t          tp;                /* tpoll obj for muxing i/o & timers */
     char            *globalLogName;     /* global log name (must contain &)  */
     logopt_t         globalLogOpts;     /* global opts for logfile objects   */
@@ -432,6 +433,8 @@ obj_t * create_obj(server_conf_t *conf, char *name,
 
 obj_t * create_client_obj(server_conf_t *conf, req_t *req);
 
+void start_client_obj(server_conf_t *conf, obj_t *client);
+
 void destroy_obj(obj_t *obj);
 
 void reopen_obj(obj_t *obj);
-- 
2.43.0


From e124c01199735361e23eba8f9772ddbce537d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 10/50] fix: do not pass new client connections on to external
 processes

The socket of a client was inherited by a process console or reset command
started before the client's request had been processed, such as the process
restarted because of this very request.  The connection of this client then
stayed open after the daemon had closed it.
---
 src/server.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server.c b/src/server.c
index ce6712e..c7d7066 100644
--- a/src/server.c
+++ b/src/server.c
@@ -1032,8 +1032,11 @@ static void accept_client(server_conf_t *conf)
      *    blocking I/O.  Once the client request has been processed,
      *    this fd is set non-blocking and moved to the main fd set.
      *  Consequently, we force the new fd to be blocking here for portability.
+     *  The new fd must not be inherited by a process started in the meantime
+     *    since the client's connection would not be closed until it exits.
      */
     set_fd_blocking(sd);
+    set_fd_closed_on_exec(sd);
 
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
-- 
2.43.0


From 38c4301d41d82727281792ae7ff9c57bb7962ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 11/50] fix: do not terminate when running out of file
 descriptors or threads

The failure of accept(), pthread_create(), or socket() for a telnet console was
fatal, so opening enough client connections terminated the daemon.  Connections
now remain queued until they can be accepted, a client is disconnected when no
thread can be created for it, and a telnet connection is retried.
---
 src/server-telnet.c |  5 ++++-
 src/server.c        | 27 ++++++++++++++++++++++++++-
 src/server.h        |  2 ++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index a269c85..0e2c71a 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -204,7 +204,10 @@ static int connect_telnet_obj(obj_t *telnet)
             return(-1);
         }
         if ((telnet->fd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
-            log_err(errno, "Unable to create socket for [%s]", telnet->name);
+            log_msg(LOG_WARNING, "Unable to create socket for [%s]: %s",
+                telnet->name, strerror(errno));
+            disconnect_telnet_obj(telnet);
+            return(-1);
         }
         if (setsockopt(telnet->fd, SOL_SOCKET, SO_OOBINLINE,
                 (const void *) &on, sizeof(on)) < 0) {
diff --git a/src/server.c b/src/server.c
index c7d7066..d1f0979 100644
--- a/src/server.c
+++ b/src/server.c
@@ -73,6 +73,7 @@ static void mux_io(server_conf_t *conf);
 static void open_daemon_logfile(server_conf_t *conf);
 static void reopen_logfiles(server_conf_t *conf);
 static void accept_client(server_conf_t *conf);
+static void resume_accept(server_conf_t *conf);
 
 /*  Signal handler flags and whatnot.
  */
@@ -1022,6 +1023,19 @@ static void accept_client(server_conf_t *conf)
         if (errno == ECONNABORTED) {
             return;
         }
+        if ((errno == EMFILE) || (errno == ENFILE)
+          || (errno == ENOBUFS) || (errno == ENOMEM)) {
+            /*
+             *  The connection remains queued, so leave the listening socket
+             *    alone for a moment instead of spinning on it.
+             */
+            log_msg(LOG_WARNING, "Unable to accept new connection: %s",
+                strerror(errno));
+            tpoll_clear(tp_global, conf->ld, POLLIN);
+            (void) tpoll_timeout_relative(tp_global,
+                (callback_f) resume_accept, conf, ACCEPT_RETRY_TIMEOUT * 1000);
+            return;
+        }
         log_err(errno, "Unable to accept new connection");
     }
     DPRINTF((5, "Accepted new client on fd=%d.\n", sd));
@@ -1055,7 +1069,18 @@ static void accept_client(server_conf_t *conf)
 
     if ((rc = pthread_create(&tid, NULL,
       (PthreadFunc) process_client, args)) != 0) {
-        log_err(rc, "Unable to create new thread");
+        log_msg(LOG_WARNING, "Unable to create new thread: %s", strerror(rc));
+        free(args);
+        (void) close(sd);
     }
     return;
 }
+
+
+static void resume_accept(server_conf_t *conf)
+{
+/*  Resumes accepting new client connections.
+ */
+    tpoll_set(tp_global, conf->ld, POLLIN);
+    return;
+}
diff --git a/src/server.h b/src/server.h
index ce86eb9..7c470e2 100644
--- a/src/server.h
+++ b/src/server.h
@@ -54,6 +54,8 @@
 #define DEFAULT_SEROPT_PARITY           0
 #define DEFAULT_SEROPT_STOPBITS         1
 
+#define ACCEPT_RETRY_TIMEOUT            1
+
 #define MIN_CONNECT_SECS                60
 
 #if WITH_FREEIPMI
-- 
2.43.0


From 7b7cfb99c3c246539371de143610e74f00486991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:28 +0000
Subject: [PATCH 12/50] fix: accept a reset once the previous reset command has
 finished

A reset command was considered active until its time limit of 60 seconds expired
even if it had already finished, so further resets of the console were ignored
with a false notice of this command still being active.
---
 src/server-esc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index 4ddaf65..1f6e8c3 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -452,6 +452,15 @@ static void perform_reset(obj_t *client)
         if (console->resetCmdRef == NULL) {
             continue;
         }
+        /*  Forget about a reset cmd that has since terminated.
+         */
+        if ((console->resetCmdPid > 0)
+                && (kill(console->resetCmdPid, 0) < 0)
+                && (errno == ESRCH)) {
+            (void) tpoll_timeout_cancel(tp_global, console->resetCmdTimer);
+            console->resetCmdPid = 0;
+            console->resetCmdTimer = 0;
+        }
         if (console->resetCmdPid > 0) {
             write_notify_msg(console, LOG_INFO,
                 "Ignoring reset of console [%s]: pid %d still active",
-- 
2.43.0


From 54dfc9a858b445ed38d059d961fb8dea68759e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 13/50] fix: preserve errno in the SIGCHLD handler

The exit of a process between the failure of a system call and the examination
of its errno caused EINTR or EAGAIN to be mistaken for an error, in which case
the connection to a client or console was closed.
---
 src/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.c b/src/server.c
index d1f0979..80cc6d6 100644
--- a/src/server.c
+++ b/src/server.c
@@ -384,8 +384,10 @@ static void setup_signals(server_conf_t *conf)
 static void sig_chld_handler(int signum)
 {
     pid_t pid;
+    int errno_bak = errno;
 
     while ((pid = waitpid(-1, NULL, WNOHANG)) > 0) {;}
+    errno = errno_bak;
     return;
 }
 
-- 
2.43.0


From 0443b04929a28c6948f2007dcb76d0c12997eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 14/50] fix: do not replay stale data after a console log has
 failed

---
 src/server-obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index a0acc8f..abae923 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -869,6 +869,7 @@ int shutdown_obj(obj_t *obj)
     x_pthread_mutex_lock(&obj->bufLock);
     n = num_bytes_buffered(obj);
     obj->bufInPtr = obj->bufOutPtr = obj->buf;
+    obj->gotBufWrap = 0;
     obj->gotEOF = 0;
     x_pthread_mutex_unlock(&obj->bufLock);
     if (n > 0) {
-- 
2.43.0


From fec5521c420d739720188ba5875fe0bcd3d2a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 15/50] fix: do not spin on timers more than 24 days ahead

---
 src/tpoll.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 084074c..782b4cf 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <poll.h>
 #include <pthread.h>
 #include <stdlib.h>
@@ -897,7 +898,7 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
  *  If either is NULL, the current time will be used in its place.
  */
     struct timeval tv;
-    int            ms;
+    long long      ms;
 
     if (!tvp0 || !tvp1) {
         if (gettimeofday (&tv, NULL) < 0) {
@@ -910,7 +911,7 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             tvp1 = &tv;
         }
     }
-    ms = ( (tvp1->tv_sec  - tvp0->tv_sec)  * 1000 ) +
+    ms = ( (long long) (tvp1->tv_sec  - tvp0->tv_sec)  * 1000 ) +
          ( (tvp1->tv_usec - tvp0->tv_usec) / 1000 ) ;
     /*
      *  Round to the next millisecond.
@@ -923,5 +924,14 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             && (tvp1->tv_usec < tvp0->tv_usec)) {
         ms--;
     }
-    return (ms);
+    /*
+     *  Saturate, since the difference can exceed the range of an int.
+     */
+    if (ms > INT_MAX) {
+        ms = INT_MAX;
+    }
+    else if (ms < INT_MIN) {
+        ms = INT_MIN;
+    }
+    return ((int) ms);
 }
-- 
2.43.0


From 7299e9a9e9187969a2248478a4d7c17301d615e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 16/50] fix: timestamp without a unit swallowed the next config
 line

---
 src/server-conf.c | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 6a71220..74c2434 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1427,36 +1427,34 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
                     "invalid %s value %d", tokstr, n);
             }
             else {
-                conf->tStampMinutes = n;
                 if ((lex_next(l) == LEX_EOF) || (lex_prev(l) == LEX_EOL)) {
+                    done = 1;
+                }
+                else if ((lex_prev(l) != LEX_STR)
+                        || (lex_text(l)[0] == '\0')
+                        || (lex_text(l)[1] != '\0')) {
+                    n = -1;
+                }
+                else if (lex_text(l)[0] == 'm' || lex_text(l)[0] == 'M') {
                     ; /* no-op */
                 }
-                else if (lex_prev(l) == LEX_STR) {
-                    if (lex_text(l)[1] != '\0') {
-                        conf->tStampMinutes = -1;
-                    }
-                    else if (lex_text(l)[0] == 'm' || lex_text(l)[0] == 'M') {
-                        ; /* no-op */
-                    }
-                    else if (lex_text(l)[0] == 'h' || lex_text(l)[0] == 'H') {
-                        conf->tStampMinutes *= 60;
-                    }
-                    else if (lex_text(l)[0] == 'd' || lex_text(l)[0] == 'D') {
-                        conf->tStampMinutes *= 60 * 24;
-                    }
-                    else {
-                        conf->tStampMinutes = -1;
-                    }
+                else if (lex_text(l)[0] == 'h' || lex_text(l)[0] == 'H') {
+                    n = (n <= INT_MAX / 60) ? n * 60 : -1;
+                }
+                else if (lex_text(l)[0] == 'd' || lex_text(l)[0] == 'D') {
+                    n = (n <= INT_MAX / (60 * 24)) ? n * 60 * 24 : -1;
                 }
                 else {
-                    conf->tStampMinutes = -1;
+                    n = -1;
                 }
 
-                if (conf->tStampMinutes < 0) {
-                    conf->tStampMinutes = 0;
+                if (n < 0) {
                     snprintf(err, sizeof(err),
                         "expected (m|d|h) qualifier for %s value", tokstr);
                 }
+                else {
+                    conf->tStampMinutes = n;
+                }
             }
             break;
 
-- 
2.43.0


From 474e1b9fea1bbdb2a744f341e45c0b878da2a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 17/50] fix: write out pending console log data on exit

---
 src/server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server.c b/src/server.c
index 80cc6d6..200524f 100644
--- a/src/server.c
+++ b/src/server.c
@@ -864,6 +864,15 @@ static void mux_io(server_conf_t *conf)
         }
     }
     log_msg(LOG_NOTICE, "Exiting on signal=%d", done);
+    /*
+     *  Write out console output that has been read but not yet logged.
+     */
+    list_iterator_reset(i);
+    while ((obj = list_next(i))) {
+        if (is_logfile_obj(obj)) {
+            (void) write_to_obj(obj);
+        }
+    }
     list_iterator_destroy(i);
     return;
 }
-- 
2.43.0


From dda04e944c1e0ac28814afaf8ecbd87ec90d72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 18/50] fix: do not terminate when a client resets its
 connection right away

getpeername() fails with ENOTCONN if the connection is reset before the client's
thread gets to ask for its address, and this failure was fatal.
---
 src/server-sock.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index b44c343..da56d32 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -193,8 +193,11 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     assert(sd >= 0);
 
     req->sd = sd;
-    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0)
-        log_err(errno, "Unable to get address of remote peer");
+    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0) {
+        log_msg(LOG_NOTICE, "Unable to get address of remote peer: %s",
+            strerror(errno));
+        return(-1);
+    }
     if (!inet_ntop(AF_INET, &addr.sin_addr, buf, sizeof(buf)))
         log_err(errno, "Unable to convert network address into string");
     req->port = ntohs(addr.sin_port);
-- 
2.43.0


From 56528cefc980fb0e72d050dacc4c3e8665673ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 19/50] fix: refuse regular expressions long enough to overflow
 the stack

A request line may hold a regular expression of up to 128 KB.  The recursion of
regcomp() is as deep as the expression is nested or long, so that a client could
overflow the stack of its thread and thereby terminate the daemon.
---
 src/server-sock.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index da56d32..d874f4c 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -67,6 +67,8 @@ int deny_severity = LOG_WARNING;        /* logging level for rejected reqs */
 #endif /* WITH_TCP_WRAPPERS */
 
 
+#define MAX_REGEX_LEN           4096    /* max len of a request's regex      */
+
 extern tpoll_t tp_global;               /* defined in server.c */
 
 typedef struct mux_call {
@@ -528,6 +530,7 @@ static int query_consoles_via_regex(
     char *p;
     ListIterator i;
     char buf[MAX_SOCK_LINE];
+    size_t len;
     int rc;
     regex_t rex;
     regmatch_t match;
@@ -543,13 +546,21 @@ static int query_consoles_via_regex(
     /*  Combine console patterns via alternation to create single regex.
      */
     i = list_iterator_create(req->consoles);
-    strlcpy(buf, list_next(i), sizeof(buf));
+    len = strlcpy(buf, list_next(i), sizeof(buf));
     while ((p = list_next(i))) {
         strlcat(buf, "|", sizeof(buf));
-        strlcat(buf, p, sizeof(buf));
+        len = strlcat(buf, p, sizeof(buf));
     }
     list_iterator_destroy(i);
 
+    /*  The depth to which regcomp() recurses grows with the length of the regex,
+     *    so refuse one that could exhaust the stack of this thread.
+     */
+    if (len > MAX_REGEX_LEN) {
+        send_rsp(req, CONMAN_ERR_BAD_REGEX, "Regular expression too long");
+        return(-1);
+    }
+
     /*  Initialize 'rex' to silence "uninitialized use" warnings.
      */
     memset(&rex, 0, sizeof(rex));
-- 
2.43.0


From f4dde53e661a7d6bbb4a9fad27254cc2e85e6fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:26 +0000
Subject: [PATCH 20/50] fix: leave the log file setting alone when its priority
 is invalid

Also do not take a comma in the log directory for the start of a priority.
---
 src/server-conf.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 74c2434..7fe8969 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1112,6 +1112,7 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
     int done = 0;
     char err[MAX_LINE] = "";
     char *p;
+    char *q;
     int n;
     struct stat st;
 
@@ -1256,24 +1257,29 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
                     "expected STRING for %s value", tokstr);
             }
             else {
-                destroy_string(conf->logFileName);
+                n = conf->logFileLevel;
                 if ((lex_text(l)[0] != '/') && (conf->logDirName)) {
-                    conf->logFileName = create_format_string("%s/%s",
+                    p = create_format_string("%s/%s",
                         conf->logDirName, lex_text(l));
                 }
                 else {
-                    conf->logFileName = create_string(lex_text(l));
+                    p = create_string(lex_text(l));
                 }
-                if ((p = strrchr(conf->logFileName, ','))) {
-                    *p++ = '\0';
-                    if ((n = lookup_syslog_priority(p)) < 0) {
+                if (strchr(lex_text(l), ',') && (q = strrchr(p, ','))) {
+                    *q++ = '\0';
+                    if ((n = lookup_syslog_priority(q)) < 0) {
                         snprintf(err, sizeof(err),
-                            "invalid %s priority \"%s\"", tokstr, p);
-                    }
-                    else {
-                        conf->logFileLevel = n;
+                            "invalid %s priority \"%s\"", tokstr, q);
                     }
                 }
+                if (n < 0) {
+                    destroy_string(p);
+                }
+                else {
+                    destroy_string(conf->logFileName);
+                    conf->logFileName = p;
+                    conf->logFileLevel = n;
+                }
             }
             break;
 
-- 
2.43.0


From 93ac6837b32268121c364629843e4cabc4edba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 21/50] fix: let a later server directive set the port and pid
 file again

A value given by an earlier server directive was mistaken for one given
on the command line, so the first directive won, unlike all others.
---
 src/server-conf.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 7fe8969..085b83d 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -189,7 +189,8 @@ static void parse_console_directive(server_conf_t *conf, Lex l);
 static int process_console(server_conf_t *conf, console_strs_t *con_p,
     char *errbuf, int errbuflen);
 static void parse_global_directive(server_conf_t *conf, Lex l);
-static void parse_server_directive(server_conf_t *conf, Lex l);
+static void parse_server_directive(server_conf_t *conf, Lex l,
+    int isPidFileNameSet, int isPortSet);
 static int read_pidfile(const char *pidfile);
 static int write_pidfile(const char *pidfile);
 static int lookup_syslog_priority(const char *priority);
@@ -394,6 +395,8 @@ void process_config(server_conf_t *conf)
     int n;
     Lex l;
     int tok;
+    const int isPidFileNameSet = (conf->pidFileName != NULL);
+    const int isPortSet = (conf->port >= 0);
 
     /*  Keep conf->fd open after parsing the file in order to obtain the lock.
      */
@@ -446,7 +449,7 @@ void process_config(server_conf_t *conf)
             parse_global_directive(conf, l);
             break;
         case SERVER_CONF_SERVER:
-            parse_server_directive(conf, l);
+            parse_server_directive(conf, l, isPidFileNameSet, isPortSet);
             break;
         case LEX_EOL:
             break;
@@ -1104,8 +1107,12 @@ static void parse_global_directive(server_conf_t *conf, Lex l)
 }
 
 
-static void parse_server_directive(server_conf_t *conf, Lex l)
+static void parse_server_directive(server_conf_t *conf, Lex l,
+    int isPidFileNameSet, int isPortSet)
 {
+/*  The command-line options denoted by 'isPidFileNameSet' and 'isPortSet'
+ *    are not overridden by the config file.
+ */
     const char *directive;              /* name of directive being parsed */
     int tok;
     const char *tokstr;
@@ -1116,11 +1123,6 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
     int n;
     struct stat st;
 
-    /* Prevent command-line options from being overridden by the config file.
-     */
-    const int isPidFileNameSet = (conf->pidFileName != NULL);
-    const int isPortSet = (conf->port >= 0);
-
     directive = lex_tok_to_str(l, lex_prev(l));
     if (!directive) {
         log_err(0, "Unable to lookup string for server directive");
-- 
2.43.0


From 24b9b526fccb5a9d651cdc429a2437b7ec68ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:41 +0000
Subject: [PATCH 22/50] fix: reject port numbers above 65535 instead of
 truncating them

---
 src/server-conf.c   | 4 ++--
 src/server-telnet.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 085b83d..7254b09 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -349,7 +349,7 @@ void process_cmdline(server_conf_t *conf, int argc, char *argv[])
             printf("%s", conman_license);
             exit(0);
         case 'p':
-            if ((conf->port = atoi(optarg)) < 0) {
+            if (((conf->port = atoi(optarg)) < 0) || (conf->port > 65535)) {
                 log_err(0, "CMDLINE: invalid port \"%s\"", optarg);
             }
             break;
@@ -1348,7 +1348,7 @@ static void parse_server_directive(server_conf_t *conf, Lex l,
                 snprintf(err, sizeof(err),
                     "expected INTEGER for %s value", tokstr);
             }
-            else if ((n = atoi(lex_text(l))) < 0) {
+            else if (((n = atoi(lex_text(l))) < 0) || (n > 65535)) {
                 snprintf(err, sizeof(err),
                     "invalid %s value %d", tokstr, n);
             }
diff --git a/src/server-telnet.c b/src/server-telnet.c
index 0e2c71a..a0e8a06 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -106,7 +106,7 @@ obj_t * create_telnet_obj(server_conf_t *conf, char *name,
     assert((name != NULL) && (name[0] != '\0'));
     assert((host != NULL) && (host[0] != '\0'));
 
-    if (port <= 0) {
+    if ((port <= 0) || (port > 65535)) {
         if ((errbuf != NULL) && (errlen > 0)) {
             snprintf(errbuf, errlen,
                 "console [%s] specifies invalid port \"%d\"", name, port);
-- 
2.43.0


From 779d3e5a7d3636aca816b3fe95d0f140821accd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:55 +0000
Subject: [PATCH 23/50] fix: compare expanded log names when looking for
 duplicates

The names of earlier logs were compared before expansion of their
conversion specifiers, so that two consoles could share a log file.
---
 src/server-logfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 0798150..433ddb6 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -155,7 +155,7 @@ obj_t * create_logfile_obj(server_conf_t *conf, char *name,
         }
         return(NULL);
     }
-    logfile = create_obj(conf, name, -1, CONMAN_OBJ_LOGFILE);
+    logfile = create_obj(conf, pname, -1, CONMAN_OBJ_LOGFILE);
     logfile->aux.logfile.console = console;
     logfile->aux.logfile.lineState = CONMAN_LOG_LINE_INIT;
     logfile->aux.logfile.opts = *opts;
-- 
2.43.0


From 8e636207e02fa4712128816e8c932577dac3fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:55 +0000
Subject: [PATCH 24/50] fix: do not read beyond a format string ending in a
 lone percent sign

---
 src/server-obj.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index abae923..79a3689 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -347,12 +347,13 @@ int format_obj_string(char *buf, int buflen, obj_t *obj, const char *fmt)
     get_localtime(&t, &tm);
 
     while (((c = *psrc++) != '\0') && (n > 0)) {
-        if ((c != '%') || ((*pspec = *psrc++) == '\0')) {
+        if ((c != '%') || (*psrc == '\0')) {
             if (--n > 0) {
                 *pdst++ = c;
             }
         }
         else {
+            *pspec = *psrc++;
             switch (*pspec) {
             case 'N':                   /* console name */
                 if (!obj)
-- 
2.43.0


From 008b9b9a4a757bbafeab2f2bfd9fe366cc1659ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 25/50] fix: refuse an overlong console log name instead of
 truncating it

---
 src/server-conf.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 7254b09..031f403 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -778,6 +778,7 @@ static int process_console(server_conf_t *conf, console_strs_t *con_p,
     char        *q;
     char         quote;
     int          rc;
+    int          n;
     char         buf[MAX_LINE];
     char        *arg0;
     char        *host = NULL;
@@ -930,15 +931,19 @@ static int process_console(server_conf_t *conf, console_strs_t *con_p,
     if ((con_p->log && con_p->log[ 0 ] != '\0')
             || (!con_p->log && conf->globalLogName)) {
         if (con_p->log) {
-            strlcpy(buf, con_p->log, sizeof(buf));
+            n = snprintf(buf, sizeof(buf), "%s", con_p->log);
         }
         else if ((conf->globalLogName[ 0 ] != '/') && (conf->logDirName)) {
-            snprintf(buf, sizeof(buf), "%s/%s",
+            n = snprintf(buf, sizeof(buf), "%s/%s",
                 conf->logDirName, conf->globalLogName);
-            buf[ sizeof(buf) - 1 ] = '\0';
         }
         else {
-            strlcpy(buf, conf->globalLogName, sizeof(buf));
+            n = snprintf(buf, sizeof(buf), "%s", conf->globalLogName);
+        }
+        if ((n < 0) || ((size_t) n >= sizeof(buf))) {
+            snprintf(errbuf, errbuflen,
+                "console [%s] log name exceeds maximum length", con_p->name);
+            goto err;
         }
         logopts = conf->globalLogOpts;
         if (con_p->lopts && parse_logfile_opts(
-- 
2.43.0


From e7da98db152899eab5d33d0f0e925e793a8fcfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 26/50] fix: reject serial option strings with no valid or with
 trailing text

---
 src/server-serial.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/server-serial.c b/src/server-serial.c
index 56e11ae..0bda271 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -130,6 +130,7 @@ int parse_serial_opts(
  *    (writing an error message into 'errbuf' if defined).
  */
     int n;
+    int len = 0;
     seropt_t optsTmp;
     int bpsTmp;
     char parityTmp;
@@ -148,9 +149,15 @@ int parse_serial_opts(
         return(-1);
     }
 
-    n = sscanf(str, "%d,%d%c%d", &bpsTmp, &optsTmp.databits,
-        &parityTmp, &optsTmp.stopbits);
+    n = sscanf(str, "%d%n,%d%n%c%n%d%n", &bpsTmp, &len, &optsTmp.databits,
+        &len, &parityTmp, &len, &optsTmp.stopbits, &len);
 
+    if (n < 1) {
+        if ((errbuf != NULL) && (errlen > 0))
+            snprintf(errbuf, errlen,
+                "expected INTEGER >0 for bps setting");
+        return(-1);
+    }
     if (n >= 1) {
         optsTmp.bps = int_to_bps(bpsTmp);
         if (optsTmp.bps <= 0) {
@@ -198,6 +205,11 @@ int parse_serial_opts(
             return(-1);
         }
     }
+    if (!is_empty_string(str + len)) {
+        if ((errbuf != NULL) && (errlen > 0))
+            snprintf(errbuf, errlen, "invalid seropts value \"%s\"", str);
+        return(-1);
+    }
 
     *opts = optsTmp;
     return(0);
-- 
2.43.0


From 07f5c12f0fee4d883b6b93165742078859ca2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 27/50] fix: do not mistake a 0xFF character for a lexer error

Single-character tokens were sign-extended, so the byte 0xFF was
reported as an unmatched quote.
---
 src/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.c b/src/lex.c
index 667ec7b..8e701e4 100644
--- a/src/lex.c
+++ b/src/lex.c
@@ -226,7 +226,7 @@ int lex_next(Lex l)
             }
             l->text[0] = *l->pos++;     /* single-character token */
             l->text[1] = '\0';
-            return(l->prev = l->text[0]);
+            return(l->prev = (unsigned char) l->text[0]);
         }
     }
 }
-- 
2.43.0


From 6c0d04f655ddc47bd1d0d03adceba56d7429e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 28/50] fix: do not let an earlier range error spoil valid test
 options

---
 src/server-conf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server-conf.c b/src/server-conf.c
index 031f403..72e1902 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -913,6 +913,7 @@ static int process_console(server_conf_t *conf, console_strs_t *con_p,
             goto err;
         }
         testopts = conf->globalTestOpts;
+        errno = 0;                      /* parse_test_opts() checks for ERANGE */
         if (con_p->topts && parse_test_opts(
                 &testopts, con_p->topts, errbuf, errbuflen) < 0) {
             goto err;
@@ -1081,6 +1082,7 @@ static void parse_global_directive(server_conf_t *conf, Lex l)
                     "expected STRING for %s value", tokstr);
             }
             else {
+                errno = 0;              /* parse_test_opts() checks for ERANGE */
                 parse_test_opts(&conf->globalTestOpts, lex_text(l),
                     err, sizeof(err));
             }
-- 
2.43.0


From 69430bb24ff2c69f428df0eb7311191e7c4f476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 29/50] fix: put terminals in raw mode whatever CR, NL and
 parity settings they had

get_tty_raw() left IGNCR, INLCR and PARMRK set, and CREAD clear, if they were
so before, and carriage returns, newlines or 0xFF bytes of a serial console
got lost or altered.
---
 src/common.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common.c b/src/common.c
index 2ab3899..95257ac 100644
--- a/src/common.c
+++ b/src/common.c
@@ -183,10 +183,11 @@ void get_tty_raw(struct termios *tty, int fd)
 
     get_tty_mode(tty, fd);
 
-    /*  Disable SIGINT on BREAK, CR-to-NL, input parity check,
-     *    stripping 8th bit on input, and output flow control.
+    /*  Disable SIGINT on BREAK, CR and NL conversions, input parity check and
+     *    marking, stripping 8th bit on input, and output flow control.
      */
-    tty->c_iflag &= ~(BRKINT | ICRNL | INPCK | ISTRIP | IXON);
+    tty->c_iflag &= ~(BRKINT | ICRNL | IGNCR | INLCR | INPCK | ISTRIP | IXON
+        | PARMRK);
 
     /*  Disable output processing.
      */
@@ -202,8 +203,9 @@ void get_tty_raw(struct termios *tty, int fd)
     tty->c_cflag &= ~PARENB;
 
     /*  Ignore modem status lines for locally attached device.
+     *    Enable receiver.
      */
-    tty->c_cflag |= CLOCAL;
+    tty->c_cflag |= CLOCAL | CREAD;
 
     /*  Disable echo, canonical mode, extended input processing, signal chars.
      */
-- 
2.43.0


From a42da76662078fbc7d54a144c55b9f5ffbae0b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 30/50] fix: do not truncate strings longer than 1023 bytes
 built from a format

---
 src/util-str.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/util-str.c b/src/util-str.c
index 2de4f0e..185eec8 100644
--- a/src/util-str.c
+++ b/src/util-str.c
@@ -43,9 +43,6 @@
 #include "wrapper.h"
 
 
-#define MAX_STR_SIZE 1024
-
-
 char * create_string(const char *str)
 {
     char *p;
@@ -62,22 +59,24 @@ char * create_string(const char *str)
 
 char * create_format_string(const char *fmt, ...)
 {
-    char buf[MAX_STR_SIZE];
     va_list vargs;
+    int n;
     char *p;
 
     if (!fmt) {
         return(NULL);
     }
     va_start(vargs, fmt);
-    vsnprintf(buf, sizeof(buf), fmt, vargs);
+    n = vsnprintf(NULL, 0, fmt, vargs);
     va_end(vargs);
 
-    buf[sizeof(buf) - 1] = '\0';        /* ensure buf is NUL-terminated */
-
-    if (!(p = strdup(buf))) {
+    if ((n < 0) || !(p = malloc((size_t) n + 1))) {
         out_of_memory();
     }
+    va_start(vargs, fmt);
+    vsnprintf(p, (size_t) n + 1, fmt, vargs);
+    va_end(vargs);
+
     return(p);
 }
 
-- 
2.43.0


From c81fd1de869c655706c7c1cd2d0890c6b8b7b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 31/50] fix: do not truncate a console log that another process
 has locked

---
 src/server-logfile.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 433ddb6..0d44e69 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -228,6 +228,7 @@ int open_logfile_obj(obj_t *logfile)
  */
     char  dirname[PATH_MAX];
     int   flags;
+    int   gotTruncate;
     char *now;
     char *msg;
 
@@ -268,13 +269,10 @@ int open_logfile_obj(obj_t *logfile)
     if (get_dir_name(logfile->name, dirname, sizeof(dirname))) {
         (void) create_dirs(dirname);
     }
-    /*  Only truncate on the initial open if ZeroLogs was enabled.
-     */
     flags = O_WRONLY | O_CREAT | O_APPEND | O_NONBLOCK;
-    if (logfile->aux.logfile.gotTruncate) {
-        logfile->aux.logfile.gotTruncate = 0;
-        flags |= O_TRUNC;
-    }
+    gotTruncate = logfile->aux.logfile.gotTruncate;
+    logfile->aux.logfile.gotTruncate = 0;
+
     if ((logfile->fd = open(logfile->name, flags, S_IRUSR | S_IWUSR)) < 0) {
         log_msg(LOG_WARNING, "Unable to open logfile \"%s\": %s",
             logfile->name, strerror(errno));
@@ -287,6 +285,15 @@ int open_logfile_obj(obj_t *logfile)
         logfile->fd = -1;
         return(-1);
     }
+    /*  Only truncate on the initial open if ZeroLogs was enabled,
+     *    and only after obtaining the lock so as to not truncate a logfile
+     *    in use by another process.
+     */
+    if (gotTruncate && (ftruncate(logfile->fd, 0) < 0)
+            && (errno != EINVAL)) {
+        log_msg(LOG_WARNING, "Unable to truncate logfile \"%s\": %s",
+            logfile->name, strerror(errno));
+    }
     logfile->gotEOF = 0;
     set_fd_nonblocking(logfile->fd);    /* redundant, just playing it safe */
     set_fd_closed_on_exec(logfile->fd);
-- 
2.43.0


From 67cfb02f6955137f94795bb92c0f44d1b4e7ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 32/50] fix: do not truncate a locked daemon log, and keep its
 lock when it is reopened

---
 src/server.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index 200524f..55d8edc 100644
--- a/src/server.c
+++ b/src/server.c
@@ -885,7 +885,7 @@ static void open_daemon_logfile(server_conf_t *conf)
  *    it must be specified with an absolute pathname.
  */
     static int  once = 1;
-    const char *mode = "a";
+    int         gotTruncate = 0;
     mode_t      mask;
     char        dirname[PATH_MAX];
     FILE       *fp = NULL;
@@ -899,7 +899,7 @@ static void open_daemon_logfile(server_conf_t *conf)
      */
     if (once) {
         if (conf->enableZeroLogs) {
-            mode = "w";
+            gotTruncate = 1;
         }
         once = 0;
     }
@@ -930,7 +930,7 @@ static void open_daemon_logfile(server_conf_t *conf)
     }
     /*  Open the logfile.
      */
-    fp = fopen(conf->logFileName, mode);
+    fp = fopen(conf->logFileName, "a");
     umask(mask);
 
     if (!fp) {
@@ -949,6 +949,13 @@ static void open_daemon_logfile(server_conf_t *conf)
             conf->logFileName);
         goto err;
     }
+    /*  Truncate only after obtaining the lock so as to not truncate a logfile
+     *    in use by another process.
+     */
+    if (gotTruncate && (ftruncate(fd, 0) < 0) && (errno != EINVAL)) {
+        log_msg(LOG_WARNING, "Unable to truncate daemon logfile \"%s\": %s",
+            conf->logFileName, strerror(errno));
+    }
     set_fd_closed_on_exec(fd);
     /*
      *  Transition to new log file.
@@ -959,6 +966,13 @@ static void open_daemon_logfile(server_conf_t *conf)
             log_msg(LOG_WARNING, "Unable to close daemon logfile \"%s\"",
                 conf->logFileName);
         }
+        /*  Closing the old file releases all of the process's locks on it,
+         *    which includes that on the new file if they are the same.
+         */
+        if (get_write_lock(fd) < 0) {
+            log_msg(LOG_WARNING, "Unable to lock daemon logfile \"%s\"",
+                conf->logFileName);
+        }
     }
     conf->logFilePtr = fp;
     DPRINTF((9, "Opened logfile \"%s\": fd=%d.\n", conf->logFileName, fd));
-- 
2.43.0


From 04f4329b47c5e5cbd57e70e53c47a8789c109b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 33/50] fix: resolve relative directories of the exec path
 before changing directory

---
 src/server-process.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server-process.c b/src/server-process.c
index 84642f2..7010853 100644
--- a/src/server-process.c
+++ b/src/server-process.c
@@ -59,6 +59,7 @@ extern tpoll_t tp_global;               /* defined in server.c */
 int is_process_dev(const char *dev, const char *cwd,
     const char *exec_path, char **path_ref)
 {
+    char         exec_buf[PATH_MAX];
     char         buf[PATH_MAX];
     int          n;
     struct stat  st;
@@ -66,10 +67,13 @@ int is_process_dev(const char *dev, const char *cwd,
     assert(dev != NULL);
 
     if (!strchr(dev, '/')
-            && (search_exec_path(exec_path, dev, buf, sizeof(buf)) == 0)) {
-        dev = buf;
+            && (search_exec_path(exec_path, dev, exec_buf,
+                sizeof(exec_buf)) == 0)) {
+        dev = exec_buf;
     }
-    else if ((dev[0] != '/') && (cwd != NULL)) {
+    /*  Avoid a relative pathname since the daemon will chdir() away.
+     */
+    if ((dev[0] != '/') && (cwd != NULL)) {
         n = snprintf(buf, sizeof(buf), "%s/%s", cwd, dev);
         if ((n < 0) || ((size_t) n >= sizeof(buf))) {
             return(0);
-- 
2.43.0


From 4918197954c528f71d078871540733808770cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 34/50] fix: recognise eight-bit escape characters in the
 client

The escape character was compared as a signed char with an unsigned one.
---
 src/client-tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 037e841..9fbeb87 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -162,7 +162,7 @@ static int read_from_stdin(client_conf_t *conf)
     static enum { CHR, EOL, ESC } mode = EOL;
     int n;
     unsigned char c;
-    char esc = conf->escapeChar;
+    unsigned char esc = conf->escapeChar;
     unsigned char buf[4];
     unsigned char *p = buf;
     unsigned char *q, *r;
-- 
2.43.0


From 1f8dfbf4fc78f098ca5bee64d0c69285590958ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 35/50] fix: do not discard input typed after toggling echo,
 nor echo on resuming

Toggling the echo flushed the terminal's input queue and thereby lost
characters that had been typed already.  And after the client had been
suspended, echo was off though the client still took it to be on.
---
 src/client-tty.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 9fbeb87..d7e06e0 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -357,9 +357,13 @@ static int perform_echo_esc(client_conf_t *conf, char c)
 
     if (conf->req->command != CONMAN_CMD_CONNECT)
         return(1);
+    /*  Do not flush the input here (as set_tty_mode() does) since that would
+     *    discard whatever has been typed after the escape sequence.
+     */
     get_tty_mode(&tty, STDIN_FILENO);
     tty.c_lflag ^= ECHO;
-    set_tty_mode(&tty, STDIN_FILENO);
+    if (tcsetattr(STDIN_FILENO, TCSADRAIN, &tty) < 0)
+        log_err(errno, "tcsetattr() failed on fd=%d", STDIN_FILENO);
     conf->req->enableEcho ^= 1;
     return(1);
 }
@@ -628,6 +632,8 @@ static int perform_suspend_esc(client_conf_t *conf, char c)
         log_err(errno, "Unable to suspend client (pid %d)", (int) getpid());
 
     get_tty_raw(&tty, STDIN_FILENO);
+    if (conf->req->enableEcho)
+        tty.c_lflag |= ECHO;
     set_tty_mode(&tty, STDIN_FILENO);
     locally_display_status(conf, "resumed");
     if (!send_esc_seq(conf, c))
-- 
2.43.0


From b7cf960710f5eba89b1d2afa47b420682ce96feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 36/50] fix: restore the terminal mode when the client exits
 due to an error

---
 src/client-tty.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/client-tty.c b/src/client-tty.c
index d7e06e0..aa911b0 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -44,6 +44,7 @@
 
 
 static void exit_handler(int signum);
+static void restore_tty(void);
 static int read_from_stdin(client_conf_t *conf);
 static int write_to_stdout(client_conf_t *conf);
 static int send_esc_seq(client_conf_t *conf, char c);
@@ -65,6 +66,7 @@ static void locally_display_status(client_conf_t *conf, char *msg);
 
 
 static int done = 0;
+static struct termios *tty_saved = NULL;        /* mode to restore on exit   */
 
 
 void connect_console(client_conf_t *conf)
@@ -101,6 +103,9 @@ void connect_console(client_conf_t *conf)
 
     get_tty_mode(&conf->tty, STDIN_FILENO);
     get_tty_raw(&tty, STDIN_FILENO);
+    tty_saved = &conf->tty;
+    if (atexit(restore_tty) != 0)
+        log_err(0, "Unable to register exit handler");
     set_tty_mode(&tty, STDIN_FILENO);
 
     locally_display_status(conf, "opened");
@@ -139,6 +144,18 @@ void connect_console(client_conf_t *conf)
         locally_display_status(conf, "terminated by server");
 
     set_tty_mode(&conf->tty, STDIN_FILENO);
+    tty_saved = NULL;
+    return;
+}
+
+
+static void restore_tty(void)
+{
+/*  Restores the terminal mode if exiting from within connect_console()
+ *    due to an error.
+ */
+    if (tty_saved)
+        (void) tcsetattr(STDIN_FILENO, TCSAFLUSH, tty_saved);
     return;
 }
 
-- 
2.43.0


From 94e919f9fdc3e9cb622d90a5332dcc5d9076806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 37/50] fix: treat a reset connection as closed by the server

When the server went away while it had unread input, or the session was
closed twice, the client ended with a fatal error, without a word about the
connection and without finishing its log.
---
 src/client-tty.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index aa911b0..e0c9228 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -259,7 +259,7 @@ static int read_from_stdin(client_conf_t *conf)
             }
         }
         if (write_n(conf->req->sd, buf, p - buf) < 0) {
-            if (errno == EPIPE)
+            if ((errno == EPIPE) || (errno == ECONNRESET))
                 return(0);
             log_err(errno, "Unable to write to <%s:%d>",
                 conf->req->host, conf->req->port);
@@ -282,7 +282,7 @@ static int write_to_stdout(client_conf_t *conf)
      *    escape sequences.  For human input, this isn't too bad.
      */
     while ((n = read(conf->req->sd, buf, sizeof(buf))) < 0) {
-        if (errno == EPIPE)
+        if ((errno == EPIPE) || (errno == ECONNRESET))
             return(0);
         if (errno != EINTR)
             log_err(errno, "Unable to read from <%s:%d>",
@@ -310,7 +310,7 @@ static int send_esc_seq(client_conf_t *conf, char c)
     buf[1] = c;
 
     if (write_n(conf->req->sd, buf, sizeof(buf)) < 0) {
-        if (errno == EPIPE)
+        if ((errno == EPIPE) || (errno == ECONNRESET))
             return(0);
         log_err(errno, "Unable to write to <%s:%d>",
             conf->req->host, conf->req->port);
@@ -340,7 +340,7 @@ static int perform_close_esc(client_conf_t *conf, char c)
 
     locally_display_status(conf, "closed");
 
-    if (shutdown(conf->req->sd, SHUT_WR) < 0) {
+    if ((shutdown(conf->req->sd, SHUT_WR) < 0) && (errno != ENOTCONN)) {
         log_err(errno, "Unable to shutdown connection to <%s:%d>",
             conf->req->host, conf->req->port);
     }
-- 
2.43.0


From 2be6f5608d0391dada901ff66785a84497b64bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:48 +0000
Subject: [PATCH 38/50] fix: do not lose a SIGTERM arriving just before the
 client waits for input

---
 src/client-tty.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index e0c9228..35e0a64 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -75,6 +75,7 @@ void connect_console(client_conf_t *conf)
  */
     struct termios tty;
     fd_set rset, rsetBak;
+    sigset_t mask, maskBak;
     int n;
 
     assert(conf->req->sd >= 0);
@@ -114,16 +115,26 @@ void connect_console(client_conf_t *conf)
     FD_SET(STDIN_FILENO, &rsetBak);
     FD_SET(conf->req->sd, &rsetBak);
 
+    sigemptyset(&mask);
+    sigaddset(&mask, SIGTERM);
+
     while (!done) {
+        /*  Block SIGTERM between checking 'done' and waiting for input,
+         *    lest a signal arriving in between go unnoticed.
+         */
         rset = rsetBak;
-        while ((n = select(conf->req->sd+1, &rset, NULL, NULL, NULL)) <= 0) {
-            if (errno != EINTR)
+        if (sigprocmask(SIG_BLOCK, &mask, &maskBak) < 0)
+            log_err(errno, "Unable to block signals");
+        n = 0;
+        if (!done) {
+            n = pselect(conf->req->sd+1, &rset, NULL, NULL, NULL, &maskBak);
+            if ((n < 0) && (errno != EINTR))
                 log_err(errno, "Unable to multiplex I/O");
-            else if (done)
-                /* i need a */ break;
         }
+        if (sigprocmask(SIG_SETMASK, &maskBak, NULL) < 0)
+            log_err(errno, "Unable to unblock signals");
         if (n <= 0)
-            /* should i */ continue;
+            continue;
 
         if (FD_ISSET(STDIN_FILENO, &rset)) {
             if (!read_from_stdin(conf))
-- 
2.43.0


From 37b659463aaa5f553d70459d4a3fe40ebe13ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 39/50] fix: do not split long lines of the client's names file

---
 src/client-conf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client-conf.c b/src/client-conf.c
index 5dcff38..c5db717 100644
--- a/src/client-conf.c
+++ b/src/client-conf.c
@@ -274,7 +274,8 @@ static void read_consoles_from_file(List consoles, char *file)
  *    - leading/trailing whitespace and comments are ignored
  */
     FILE *fp;
-    char buf[MAX_LINE];
+    char *buf = NULL;
+    size_t len = 0;
     char *p, *q;
 
     assert(consoles != NULL);
@@ -283,7 +284,7 @@ static void read_consoles_from_file(List consoles, char *file)
     if (!(fp = fopen(file, "r")))
         log_err(errno, "Unable to open \"%s\"", file);
 
-    while (fgets(buf, sizeof(buf), fp) != NULL) {
+    while (getline(&buf, &len, fp) >= 0) {
 
         /*  Remove trailing whitespace.
          */
@@ -304,6 +305,7 @@ static void read_consoles_from_file(List consoles, char *file)
 
         list_append(consoles, create_string(p));
     }
+    free(buf);
 
     if (fclose(fp) == EOF)
         log_err(errno, "Unable to close \"%s\"", file);
-- 
2.43.0


From 4d4c721caff87637e3454a6da7363bf7a79a264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 40/50] fix: list console names of the maximum length

---
 src/client-sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client-sock.c b/src/client-sock.c
index 1d66111..af5ed34 100644
--- a/src/client-sock.c
+++ b/src/client-sock.c
@@ -437,7 +437,7 @@ void display_consoles(client_conf_t *conf, int fd)
 {
     ListIterator i;
     char *p;
-    char buf[MAX_LINE];
+    char buf[MAX_LINE + 1];              /* name plus newline and NUL */
     int n;
 
     i = list_iterator_create(conf->req->consoles);
-- 
2.43.0


From a89d64d22c517c358a08fde2f09b0bcf0ed09580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:15 +0000
Subject: [PATCH 41/50] fix: report a connection lost while the client sends
 its request

It was killed by SIGPIPE, without any message.
---
 src/client.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index c9aa469..0bc67b0 100644
--- a/src/client.c
+++ b/src/client.c
@@ -26,10 +26,12 @@
 #  include <config.h>
 #endif /* HAVE_CONFIG_H */
 
+#include <signal.h>
 #include <unistd.h>
 #include "client.h"
 #include "common.h"
 #include "log.h"
+#include "util.h"
 
 
 int main(int argc, char *argv[])
@@ -47,6 +49,11 @@ int main(int argc, char *argv[])
     process_client_cmd_line(argc, argv, conf);
     open_client_log(conf);
 
+    /*  Report a connection lost while sending the request
+     *    instead of being killed by it.
+     */
+    posix_signal(SIGPIPE, SIG_IGN);
+
     if (connect_to_server(conf) < 0)
         display_error(conf);
     if (send_greeting(conf) < 0)
@@ -55,8 +62,10 @@ int main(int argc, char *argv[])
         display_error(conf);
     else if (recv_rsp(conf) < 0)
         display_error(conf);
-    else if (conf->req->command == CONMAN_CMD_QUERY)
+    else if (conf->req->command == CONMAN_CMD_QUERY) {
+        posix_signal(SIGPIPE, SIG_DFL);
         display_consoles(conf, STDOUT_FILENO);
+    }
     else if ((conf->req->command == CONMAN_CMD_CONNECT)
       || (conf->req->command == CONMAN_CMD_MONITOR))
         connect_console(conf);
-- 
2.43.0


From 4bf23221aa79ee382286e1b3664f1ed8ff2b1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 42/50] fix: reset the iterators of a list when sorting fewer
 than two items

---
 src/list.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/list.c b/src/list.c
index b202995..5099296 100644
--- a/src/list.c
+++ b/src/list.c
@@ -356,12 +356,11 @@ void list_sort(List l, ListCmpF f)
             }
         }
         l->tail = pp;
-
-        for (i=l->iNext; i; i=i->iNext) {
-            assert(i->magic == LIST_MAGIC);
-            i->pos = i->list->head;
-            i->prev = &i->list->head;
-        }
+    }
+    for (i=l->iNext; i; i=i->iNext) {
+        assert(i->magic == LIST_MAGIC);
+        i->pos = i->list->head;
+        i->prev = &i->list->head;
     }
     list_mutex_unlock(&l->mutex);
     return;
-- 
2.43.0


From cbaae711fcb201df87023de184d133f002cfb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 43/50] fix: keep the last returned item of an iterator when
 its next one is removed

---
 src/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.c b/src/list.c
index 5099296..d8c3c17 100644
--- a/src/list.c
+++ b/src/list.c
@@ -621,7 +621,7 @@ static void * list_node_destroy(List l, ListNode *pp)
     for (i=l->iNext; i; i=i->iNext) {
         assert(i->magic == LIST_MAGIC);
         if (i->pos == p)
-            i->pos = p->next, i->prev = pp;
+            i->pos = p->next;
         else if (i->prev == &p->next)
             i->prev = pp;
         assert((i->pos == *i->prev) || (i->pos == (*i->prev)->next));
-- 
2.43.0


From 85a8f28f2dc1e45e6413598414b1ab7e893f1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 44/50] fix: allocate room for the signal pipe in a small tpoll
 set

---
 src/tpoll.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 782b4cf..79defff 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -148,6 +148,7 @@ tpoll_create (int n)
     if (!(tp = malloc (sizeof (struct tpoll)))) {
         goto err;
     }
+    tp->fd_array = NULL;
     tp->fd_pipe[ 0 ] = tp->fd_pipe[ 1 ] = -1;
     tp->timers_active = NULL;
     tp->is_blocked = false;
@@ -155,14 +156,19 @@ tpoll_create (int n)
     tp->is_signaled = false;
     tp->is_mutex_inited = false;
 
+    if (pipe (tp->fd_pipe) < 0) {
+        goto err;
+    }
+    /*  The fd_array[] must also have room for the signal pipe.
+     */
+    if (n <= tp->fd_pipe[ 0 ]) {
+        n = tp->fd_pipe[ 0 ] + 1;
+    }
     if (!(tp->fd_array = malloc (n * sizeof (struct pollfd)))) {
         goto err;
     }
     tp->num_fds_alloc = n;
 
-    if (pipe (tp->fd_pipe) < 0) {
-        goto err;
-    }
     for (i = 0; i < 2; i++) {
         if ((fval = fcntl (tp->fd_pipe[ i ], F_GETFL, 0)) < 0) {
             goto err;
-- 
2.43.0


From d6c4cfdaa80c8de962993e9ba8951c10dda27daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 45/50] fix: do not free the array a blocked poll() is using

---
 src/tpoll.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 79defff..e20e245 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -85,6 +85,7 @@ typedef struct tpoll_timer * _tpoll_timer_t;
 
 struct tpoll {
     struct pollfd   *fd_array;          /* poll fd array                     */
+    struct pollfd   *fd_array_polled;   /* fd array in use by blocked poll() */
     int              fd_pipe[ 2 ];      /* signal pipe for unblocking poll() */
     int              num_fds_alloc;     /* num pollfd structs allocated      */
     int              num_fds_used;      /* num pollfd structs in use         */
@@ -149,6 +150,7 @@ tpoll_create (int n)
         goto err;
     }
     tp->fd_array = NULL;
+    tp->fd_array_polled = NULL;
     tp->fd_pipe[ 0 ] = tp->fd_pipe[ 1 ] = -1;
     tp->timers_active = NULL;
     tp->is_blocked = false;
@@ -215,6 +217,10 @@ tpoll_destroy (tpoll_t tp)
             log_err (errno = e, "Unable to lock tpoll mutex");
         }
     }
+    if (tp->fd_array_polled && (tp->fd_array_polled != tp->fd_array)) {
+        free (tp->fd_array_polled);
+    }
+    tp->fd_array_polled = NULL;
     if (tp->fd_array) {
         free (tp->fd_array);
         tp->fd_array = NULL;
@@ -577,6 +583,7 @@ tpoll (tpoll_t tp, int ms)
     _tpoll_timer_t  t;
     int             timeout;
     int             ms_diff;
+    int             nfds;
     int             n;
     int             e;
 
@@ -659,18 +666,24 @@ tpoll (tpoll_t tp, int ms)
         /*  Poll for events, discarding any on the "signaling pipe".
          */
         tp->is_blocked = true;
+        tp->fd_array_polled = tp->fd_array;
+        nfds = tp->max_fd + 1;
 
         if ((e = pthread_mutex_unlock (&tp->mutex)) != 0) {
             log_err (errno = e, "Unable to unlock tpoll mutex");
         }
-        DPRINTF((25, "tpoll poll enter ms=%d mfd=%d.\n", timeout, tp->max_fd));
-        n = poll (tp->fd_array, tp->max_fd + 1, timeout);
+        DPRINTF((25, "tpoll poll enter ms=%d mfd=%d.\n", timeout, nfds - 1));
+        n = poll (tp->fd_array_polled, nfds, timeout);
         DPRINTF((25, "tpoll poll return n=%d.\n", n));
 
         if ((e = pthread_mutex_lock (&tp->mutex)) != 0) {
             log_err (errno = e, "Unable to lock tpoll mutex");
         }
         tp->is_blocked = false;
+        if (tp->fd_array_polled != tp->fd_array) {
+            free (tp->fd_array_polled);
+        }
+        tp->fd_array_polled = NULL;
 
         if (n < 0) {
             break;
@@ -852,15 +865,20 @@ _tpoll_grow (tpoll_t tp, int num_fds_req)
     if (num_fds_tmp < num_fds_req) {
         num_fds_tmp = num_fds_req;
     }
-    /*  Force tpoll()'s poll() to unblock before we realloc the fd_array.
+    /*  Force tpoll()'s poll() to unblock before we replace the fd_array.
      *  Then tpoll() will have to re-acquire the mutex before continuing.
-     *  Since we currently have the mutex, we can now safely realloc fd_array.
+     *  The kernel still accesses the array passed to a blocked poll(),
+     *    so that array is not freed here but after poll() has returned.
      */
     _tpoll_signal_send (tp);
-    if (!(fd_array_tmp =
-            realloc (tp->fd_array, num_fds_tmp * sizeof (struct pollfd)))) {
+    if (!(fd_array_tmp = malloc (num_fds_tmp * sizeof (struct pollfd)))) {
         return (-1);
     }
+    memcpy (fd_array_tmp, tp->fd_array,
+        tp->num_fds_alloc * sizeof (struct pollfd));
+    if (tp->fd_array != tp->fd_array_polled) {
+        free (tp->fd_array);
+    }
     fd_array_new = fd_array_tmp + tp->num_fds_alloc;
     num_fds_new = num_fds_tmp - tp->num_fds_alloc;
     memset (fd_array_new, 0, num_fds_new * sizeof (struct pollfd));
-- 
2.43.0


From 063b06e8ea87eab2aa811582fc9fcbce0557170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 46/50] fix: report a lone quote at the end of a device string
 as unterminated

---
 src/util-str.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util-str.c b/src/util-str.c
index 185eec8..74cd3dc 100644
--- a/src/util-str.c
+++ b/src/util-str.c
@@ -144,6 +144,12 @@ int parse_string(char *src, char **dst_p, char **ptr_p, char *quote_p)
         *dst_p = *ptr_p = p;
         return(0);
     }
+    if (((*p == '"') || (*p == '\'')) && (*(p+1) == '\0')) {
+        errno = EIO;
+        *dst_p = p;
+        *ptr_p = p + 1;
+        return(-1);
+    }
     for (q = p+1; *q; q++) {
         if ((*p == '"') || (*p == '\'')) {
             if ((*q == *p) && (isspace((int) *(q+1)) || (*(q+1) == '\0'))) {
-- 
2.43.0


From 82dde64244e61db1800122af60b945f12e57e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 47/50] fix: do not read beyond a buffer without a terminator
 when appending to it

---
 src/util-str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util-str.c b/src/util-str.c
index 74cd3dc..984443e 100644
--- a/src/util-str.c
+++ b/src/util-str.c
@@ -195,7 +195,7 @@ int append_format_string(char *dst, size_t size, const char *fmt, ...)
     }
     p = dst;
     num_left = size;
-    while ((*p != '\0') && (num_left > 0)) {
+    while ((num_left > 0) && (*p != '\0')) {
         p++;
         num_left--;
     }
-- 
2.43.0


From 8f82cde60523e2dfd9ab1d3dbf098a985763ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:57 +0000
Subject: [PATCH 48/50] fix: end every log message in exactly one newline

---
 src/log.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/log.c b/src/log.c
index 586af3d..22ee722 100644
--- a/src/log.c
+++ b/src/log.c
@@ -227,7 +227,7 @@ static void log_aux(int errnum, int priority, char *msgbuf, int msgbuflen,
         len -= n;
     }
 
-    if (format[strlen(format) - 1] != '\n') {
+    if ((format[0] == '\0') || (format[strlen(format) - 1] != '\n')) {
         if ((len > 0) && (errnum > 0)) {
             n = snprintf(p, len, ": %s", strerror(errnum));
             if ((n < 0) || (n >= len)) {
@@ -236,6 +236,11 @@ static void log_aux(int errnum, int priority, char *msgbuf, int msgbuflen,
             p += n;
             len -= n;
         }
+    }
+    /*  Test the formatted message since a newline in (format) could have been
+     *    truncated, and one could also come from an argument.
+     */
+    if ((p == sbuf) || (*(p - 1) != '\n')) {
         strcat(p, "\n");        /* space was reserved above for this newline */
     }
 
-- 
2.43.0


From 84d6e1e143c57ad249aee808b8171a86616d84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:45 +0000
Subject: [PATCH 49/50] fix: keep each log message on one line

---
 src/log.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log.c b/src/log.c
index 22ee722..fb5f4c4 100644
--- a/src/log.c
+++ b/src/log.c
@@ -243,6 +243,13 @@ static void log_aux(int errnum, int priority, char *msgbuf, int msgbuflen,
     if ((p == sbuf) || (*(p - 1) != '\n')) {
         strcat(p, "\n");        /* space was reserved above for this newline */
     }
+    /*  Prevent text from remote users from forging other log messages.
+     */
+    for (p = sbuf; *p; p++) {
+        if ((*p == '\n') && (*(p + 1) != '\0')) {
+            *p = '?';
+        }
+    }
 
     if ((msgbuf != NULL) && (msgbuflen > 0)) {
         strncpy(msgbuf, sbuf, msgbuflen);
-- 
2.43.0


From eade4935bf562daeafa4e9e97eb7bf0d1a9bc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:03 +0000
Subject: [PATCH 50/50] fix: read the data of a list item before unlocking the
 list

---
 src/list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/list.c b/src/list.c
index d8c3c17..2135780 100644
--- a/src/list.c
+++ b/src/list.c
@@ -492,6 +492,7 @@ void list_iterator_destroy(ListIterator i)
 void * list_next(ListIterator i)
 {
     ListNode p;
+    void *v;
 
     assert(i != NULL);
     assert(i->magic == LIST_MAGIC);
@@ -501,8 +502,9 @@ void * list_next(ListIterator i)
         i->pos = p->next;
     if (*i->prev != p)
         i->prev = &(*i->prev)->next;
+    v = p ? p->data : NULL;             /* p can be freed once unlocked */
     list_mutex_unlock(&i->list->mutex);
-    return(p ? p->data : NULL);
+    return(v);
 }
 
 
-- 
2.43.0

