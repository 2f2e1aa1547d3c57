From ca9da0b77b0851fd06c51f2ee8556b86074a950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 01/37] fix: do not raise from cancel() when the socket is no
 longer connected

---
 src/ansibug/_socket_helper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index facca38..1d07985 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -339,7 +339,12 @@ class SocketCancellationToken:
 
             for cancel_id, func in self._cancel_funcs.items():
                 log.debug("Cancelling function with id %d", cancel_id)
-                func()
+                try:
+                    func()
+                except OSError:
+                    # The peer may have already closed the connection or it was
+                    # never established, there is nothing left to shutdown.
+                    log.debug("Cancelling function with id %d failed", cancel_id, exc_info=True)
 
             self._cancel_funcs = {}
 
-- 
2.43.0


From 6fc77dc856336d57298508c89be4dd0265345dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 02/37] fix: notice a cancellation that came just before
 connect()

---
 src/ansibug/_socket_helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 1d07985..1e8e591 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -296,6 +296,10 @@ class SocketCancellationToken:
             except BlockingIOError:
                 pass
 
+            # A cancel before the connect call had no connection to shutdown.
+            if self._cancelled:
+                raise CancelledError()
+
             _, wd, _ = select.select([], [sock], [], timeout or None)
             if not wd:
                 raise TimeoutError("Timed out waiting for socket.connect")
-- 
2.43.0


From fc0f706664dc1fd9708adc842ec4f5894fae5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 03/37] fix: allow cancelling a TLS handshake

---
 src/ansibug/_mp_queue.py      |  2 ++
 src/ansibug/_socket_helper.py | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 5275979..616ab26 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -184,6 +184,7 @@ class ClientMPQueue(MPQueue):
         if self._ssl_context:
             self._socket.wrap_tls(
                 self._ssl_context,
+                self._cancel_token,
                 server_side=False,
                 server_hostname=ssl_hostname,
             )
@@ -261,6 +262,7 @@ class ServerMPQueue(MPQueue):
                 try:
                     conn.wrap_tls(
                         self._ssl_context,
+                        self._cancel_token,
                         server_side=True,
                     )
                     # The client will read a single byte after the handshake to
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 1e8e591..416abdc 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -215,19 +215,29 @@ class SocketHelper:
         except OSError:
             pass
 
+    def settimeout(
+        self,
+        timeout: float | None,
+    ) -> None:
+        self._sock.settimeout(timeout)
+
     def wrap_tls(
         self,
         ssl_context: ssl.SSLContext,
+        cancel_token: SocketCancellationToken,
         *,
         server_side: bool = True,
         server_hostname: str | None = None,
     ) -> None:
         log.debug("Wrapping socket with TLS context")
-        self._sock = ssl_context.wrap_socket(
+        tls_sock = ssl_context.wrap_socket(
             self._sock,
             server_side=server_side,
             server_hostname=server_hostname,
+            do_handshake_on_connect=False,
         )
+        self._sock = tls_sock
+        cancel_token.do_handshake(tls_sock)
 
 
 class SocketCancellationToken:
@@ -310,6 +320,21 @@ class SocketCancellationToken:
 
             sock.setblocking(True)
 
+    def do_handshake(
+        self,
+        sock: ssl.SSLSocket,
+    ) -> None:
+        # SSLSocket.shutdown() drops the TLS object the handshake is using, only
+        # the underlying connection should be shutdown here.
+        with self.with_cancel(lambda: socket.socket.shutdown(sock, socket.SHUT_RDWR)):
+            try:
+                sock.do_handshake()
+            except OSError:
+                if self._cancelled:
+                    raise CancelledError()
+                else:
+                    raise
+
     def recv_into(
         self,
         sock: socket.socket,
@@ -317,7 +342,12 @@ class SocketCancellationToken:
         n: int,
     ) -> int:
         with self.with_cancel(lambda: sock.shutdown(socket.SHUT_RD)):
-            res = sock.recv_into(buffer, n)
+            try:
+                res = sock.recv_into(buffer, n)
+            except OSError:
+                if not self._cancelled:
+                    raise
+
             if self._cancelled:
                 raise CancelledError()
 
-- 
2.43.0


From f513a764e44010b170b6182ffff51dbd3939788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 04/37] fix: connection timeout covers the peer accepting the
 connection, fail if it closes first

---
 src/ansibug/_mp_queue.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 616ab26..8885882 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -181,6 +181,9 @@ class ClientMPQueue(MPQueue):
         else:
             raise error
 
+        # The timeout also covers the peer accepting the connection.
+        self._socket.settimeout(timeout or None)
+
         if self._ssl_context:
             self._socket.wrap_tls(
                 self._ssl_context,
@@ -188,14 +191,15 @@ class ClientMPQueue(MPQueue):
                 server_side=False,
                 server_hostname=ssl_hostname,
             )
-            # TLS 1.3 won't validate their cert was accepted until its first
-            # read. This ensures the connection is validated before it is
-            # going to be used.
-            self._socket.recv(1, self._cancel_token)
-        else:
-            # Ensures that the server is actually connected to us and we aren't
-            # in the backlog waiting for an accept().
-            self._socket.recv(1, self._cancel_token)
+
+        # Ensures that the server is actually connected to us and we aren't in
+        # the backlog waiting for an accept(). TLS 1.3 also won't validate
+        # their cert was accepted until its first read. This ensures the
+        # connection is validated before it is going to be used.
+        if not self._socket.recv(1, self._cancel_token):
+            raise ConnectionError("The connection was closed by the peer before it was ready")
+
+        self._socket.settimeout(None)
 
         super().start()
 
-- 
2.43.0


From a8ba7524acab7cc6348520a0f3c5e5d977b9e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 05/37] fix: accept the next client when one goes away before
 the connection is ready

---
 src/ansibug/_mp_queue.py | 63 ++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 8885882..62d39fa 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -250,48 +250,43 @@ class ServerMPQueue(MPQueue):
         if cancel_queue:
             cancel_socket = cancel_queue._socket
 
-        conn = self._socket.accept(
-            self._cancel_token,
-            timeout=timeout,
-            cancel_socket=cancel_socket,
-        )
+        # If the client goes away or fails to complete the TLS handshake we don't
+        # want to shutdown the socket, instead this will accept again allowing a
+        # new client to connect. This allows an attach request to be retried if
+        # the server mandates a certificate but the client does not offer one
+        # (or is rejected).
+        while True:
+            conn = self._socket.accept(
+                self._cancel_token,
+                timeout=timeout,
+                cancel_socket=cancel_socket,
+            )
 
-        if self._ssl_context:
-            # If the server fails to complete the TLS handshake we don't want
-            # to shutdown the socket, instead this will recreate it allowing a
-            # new client to connect. This allows an attach request to be
-            # retried if the server mandates a certificate but the client does
-            # not offer one (or is rejected).
-            while True:
-                try:
+            try:
+                if self._ssl_context:
                     conn.wrap_tls(
                         self._ssl_context,
                         self._cancel_token,
                         server_side=True,
                     )
-                    # The client will read a single byte after the handshake to
-                    # verify it was able to auth correctly. TLS 1.3 only errors
-                    # on the client side on the first recv/send call after the
-                    # handshake.
-                    conn.send(b"\x00", self._cancel_token)
-
-                except ssl.SSLError:
-                    log.exception("Server TLS handshake failed, trying again")
-                    conn.close()
-                    conn = self._socket.accept(
-                        self._cancel_token,
-                        timeout=timeout,
-                        cancel_socket=cancel_socket,
-                    )
 
-                else:
-                    break
+                # The client will read a single byte after the connection to
+                # verify it is actually connected to a server and not just part
+                # of the backlog. With TLS it is also how it verifies it was
+                # able to auth correctly as TLS 1.3 only errors on the client
+                # side on the first recv/send call after the handshake.
+                conn.send(b"\x00", self._cancel_token)
 
-        else:
-            # The client will read a single byte after the connection to verify
-            # it is actually connected to a server and not just part of the
-            # backlog.
-            conn.send(b"\x00", self._cancel_token)
+            except CancelledError:
+                conn.close()
+                raise
+
+            except OSError:
+                log.exception("Server connection handshake failed, trying again")
+                conn.close()
+
+            else:
+                break
 
         # The original server socket is no longer needed, replace it with the
         # client connection one.
-- 
2.43.0


From 80b9d60c6aa8153e890f2fd2cbb6e859b23b64f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 06/37] fix: report accept on a socket closed by stop() as
 cancelled

---
 src/ansibug/_socket_helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 416abdc..e14c061 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -280,8 +280,9 @@ class SocketCancellationToken:
 
                 return rd[0].accept()
 
-            except OSError:
-                # On macOS, the socket fd is closed on cancel
+            except (OSError, ValueError):
+                # On macOS, the socket fd is closed on cancel. The select call
+                # raises ValueError if the socket was closed before it.
                 if self._cancelled:
                     raise CancelledError()
                 else:
-- 
2.43.0


From 44bc76f331412ea288e174561a24bfbb80914ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 07/37] fix: do not take the targetId of a stepIn request as
 its threadId

---
 src/ansibug/dap/_requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_requests.py b/src/ansibug/dap/_requests.py
index 3d391e3..efd852a 100644
--- a/src/ansibug/dap/_requests.py
+++ b/src/ansibug/dap/_requests.py
@@ -488,7 +488,7 @@ class StepInRequest(
         "arguments": {
             "threadId": "thread_id",
             "singleThread": "single_thread",
-            "targetId": "thread_id",
+            "targetId": "target_id",
             "granularity": "granularity",
         }
     },
-- 
2.43.0


From 6abb5e064b65e39e92d2bff1d46f09cd3ee7a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 08/37] fix: accept header values that contain a colon

---
 src/ansibug/dap/_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_adapter.py b/src/ansibug/dap/_adapter.py
index 6ffcb83..10f2267 100644
--- a/src/ansibug/dap/_adapter.py
+++ b/src/ansibug/dap/_adapter.py
@@ -52,7 +52,7 @@ class DebugAdapterConnection:
             return None
 
         raw_headers = bytes(self._in_buffer[:header_idx])
-        headers = dict(h.split(b": ", 2) for h in raw_headers.split(b"\r\n"))
+        headers = dict(h.split(b": ", 1) for h in raw_headers.split(b"\r\n"))
         if b"Content-Length" not in headers:
             raise ValueError("Expected Content-Length header before message payload but none found")
 
-- 
2.43.0


From e4e4d6060c6d8956ce53defcb21f557e32545443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 09/37] fix: debug logging must not fail on a character split
 between two reads

---
 src/ansibug/_debug_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 4ea010a..2af8c62 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -283,7 +283,7 @@ class DAServer:
             data = stdin.read(4096)
 
             if log.isEnabledFor(logging.DEBUG):
-                log.debug("STDIN: %s", data.decode())
+                log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
             while msg := adapter.next_message():
-- 
2.43.0


From 8c845b71bbcb38dfc0a1cd9d37c67e3548ee1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 10/37] fix: stepping follows the includes that led to a task

Step over stopped again only in the exact same parent, so an include at the
end of a list ran on to the end of the play, step out stopped inside a nested
include and imported tasks were treated as another list. A step after an
exception stop used the task of an earlier stop.
---
 .../ansibug/dap/plugins/strategy/debug.py     | 46 +++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9daf0ab..7da5514 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -129,12 +129,7 @@ class AnsibleThread:
             # If a thread has been set to step out we want to make comparisons
             # later on easier by setting the stopped task to the parent include
             # task.
-            task = self._stopped_task
-            while task := task._parent:
-                if isinstance(task, Task) and task.action in C._ACTION_ALL_INCLUDES:
-                    break
-
-            self._stopped_task = task
+            self._stopped_task = next(iter(self._get_includes(self._stopped_task)), None)
 
         elif (
             state == ThreadState.STEP_IN
@@ -224,6 +219,7 @@ class AnsibleThread:
                 details = get_on_skipped_details(result._result)
 
         if details:
+            self._stopped_task = result._task
             self.state = ThreadState.WAIT
             return ansibug.dap.StoppedEvent(
                 reason=ansibug.dap.StoppedReason.EXCEPTION,
@@ -244,13 +240,13 @@ class AnsibleThread:
         if self.state != ThreadState.STEP_OVER or not self._stopped_task:
             return False
 
-        # Get the parent task of the current task being evaluated as well as
-        # the task which was resumed with step over. If they are the same then
-        # the task should stop.
-        task_parent = self._get_parent_task(task)
-        stopped_parent = self._get_parent_task(self._stopped_task)
+        # If the task is in the same include as the task which was resumed with
+        # step over, or in one that led to it as the rest of that include may
+        # not have any more tasks, then the task should stop.
+        task_include = next(iter(self._get_includes(task)), None)
+        stopped_includes = {i._uuid for i in self._get_includes(self._stopped_task)}
 
-        return getattr(task_parent, "_uuid", None) == getattr(stopped_parent, "_uuid", None)
+        return task_include is None or task_include._uuid in stopped_includes
 
     def _break_step_in(self) -> bool:
         # If in, then the first task to call this will need to break.
@@ -263,21 +259,25 @@ class AnsibleThread:
         if self.state != ThreadState.STEP_OUT or not self._stopped_task:
             return False
 
-        # If step out, we only want to break if the current task's parent does
-        # not match the stopped task stored at state change (the include). If
-        # the parent matches it means we are still in the same include scope.
-        task_parent = self._get_parent_task(task)
-        return getattr(task_parent, "_uuid", None) != self._stopped_task._uuid
+        # If step out, we only want to break if the current task did not come
+        # from the stopped task stored at state change (the include), directly
+        # or through another include inside it.
+        return self._stopped_task._uuid not in [i._uuid for i in self._get_includes(task)]
 
-    def _get_parent_task(
+    def _get_includes(
         self,
         task: Task,
-    ) -> Task | None:
-        while task := task._parent:
-            if isinstance(task, Task):
-                return task
+    ) -> list[Task]:
+        """Gets the include tasks that led to this task, innermost first."""
+        includes = []
 
-        return None
+        # Tasks from import_* are part of where they were imported.
+        parent = task
+        while parent := parent._parent:
+            if isinstance(parent, Task) and parent.action in C._ACTION_ALL_INCLUDES:
+                includes.append(parent)
+
+        return includes
 
 
 class AnsibleStackFrame:
-- 
2.43.0


From 2f92000fb0e3abd0a553fbaeb569f0e09d3e7a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 11/37] fix: path mappings apply to whole directories only

A mapping for /srv/app was also used for /srv/app2 as only the leading
characters of the path were compared, and a trailing slash on just one of the
two roots joined the names.
---
 src/ansibug/_debuggee.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 95bde9a..b634bec 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -48,6 +48,24 @@ class PathMapping:
     local_root: str
     remote_root: str
 
+    def to_local(self, path: str) -> str | None:
+        """Gets the local path for the remote path, None if it is not mapped."""
+        return self._map(path, self.remote_root, self.local_root)
+
+    def to_remote(self, path: str) -> str | None:
+        """Gets the remote path for the local path, None if it is not mapped."""
+        return self._map(path, self.local_root, self.remote_root)
+
+    @staticmethod
+    def _map(path: str, from_root: str, to_root: str) -> str | None:
+        # Only the directory itself and what is inside it is mapped, not other
+        # paths that start with the same characters.
+        from_root = from_root.rstrip("/")
+        if path != from_root and not path.startswith(f"{from_root}/"):
+            return None
+
+        return (to_root.rstrip("/") + path[len(from_root) :]) or "/"
+
 
 @dataclasses.dataclass(frozen=True)
 class DebugConfiguration:
@@ -521,11 +539,11 @@ class AnsibleDebugger(metaclass=Singleton):
             str: The converted path.
         """
         for mapping in self._debug_config.path_mappings:
-            if path.startswith(mapping.remote_root):
-                return mapping.local_root + path[len(mapping.remote_root) :]
+            local_path = mapping.to_local(path)
+            if local_path is not None:
+                return local_path
 
-        else:
-            return path
+        return path
 
     def register_path_breakpoint(
         self,
@@ -677,8 +695,9 @@ class AnsibleDebugger(metaclass=Singleton):
         # source mappings are keyed by the Ansible paths.
         actual_path = source_path
         for mapping in self._debug_config.path_mappings:
-            if actual_path.startswith(mapping.local_root):
-                actual_path = mapping.remote_root + actual_path[len(mapping.local_root) :]
+            remote_path = mapping.to_remote(source_path)
+            if remote_path is not None:
+                actual_path = remote_path
                 break
 
         source_info = self._source_info.get(actual_path, None)
-- 
2.43.0


From 0d6064e6a39979f5fc7ca859ad152b82bb1cb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 12/37] fix: an error in a breakpoint condition no longer
 aborts the playbook

Only some errors were treated as the condition not being met, for example 1/0
raised ZeroDivisionError in the strategy.
---
 .../ansibug/dap/plugins/strategy/debug.py           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 7da5514..ae2e592 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -24,7 +24,7 @@ import traceback
 import typing as t
 
 from ansible import constants as C
-from ansible.errors import AnsibleError, AnsibleUndefinedVariable
+from ansible.errors import AnsibleUndefinedVariable
 from ansible.executor.play_iterator import PlayIterator
 from ansible.executor.task_queue_manager import TaskQueueManager
 from ansible.executor.task_result import TaskResult
@@ -44,7 +44,6 @@ from ansible.vars.manager import VariableManager
 # minimum supported version.
 POST_DATATAGGING = False
 try:
-    from ansible.errors import AnsibleBrokenConditionalError
     from ansible.template import trust_as_template
     from ansible.utils.display import _DeferredWarningContext
 
@@ -567,7 +566,10 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return templar.evaluate_conditional(template)
-                except (AnsibleBrokenConditionalError, AnsibleUndefinedVariable):
+                except Exception:
+                    # Evaluating the user's expression can fail in many ways
+                    # and should never affect the playbook.
+                    log.debug("Breakpoint condition '%s' failed", condition, exc_info=True)
                     return False
 
         else:
@@ -578,7 +580,10 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return cond.evaluate_conditional(templar, templar.available_variables)
-                except AnsibleError:
+                except Exception:
+                    # Evaluating the user's expression can fail in many ways
+                    # and should never affect the playbook.
+                    log.debug("Breakpoint condition '%s' failed", condition, exc_info=True)
                     return False
 
         with self._waiting_condition:
-- 
2.43.0


From 60757c092cf725b1eac441024e9bc87c4d1b49f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 13/37] fix: a task with more than one breakpoint stops if any
 condition holds

Only the first breakpoint that covers the task was considered.
---
 src/ansibug/_debuggee.py                      | 26 +++++++++----------
 .../ansibug/dap/plugins/strategy/debug.py     | 13 +++++-----
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index b634bec..6e0504b 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -363,34 +363,34 @@ class AnsibleDebugger(metaclass=Singleton):
         """
         self._configuration_done.wait(timeout=timeout)
 
-    def get_breakpoint(
+    def get_breakpoints(
         self,
         path: str,
         line: int,
-    ) -> AnsibleLineBreakpoint | None:
-        """Gets the breakpoint for the path/line specified.
+    ) -> list[AnsibleLineBreakpoint]:
+        """Gets the breakpoints for the path/line specified.
 
-        Checks to see if there is a breakpoint set for the path and line that
-        is requested. If no breakpoint is associated with the arguments then
-        None will be returned.
+        Checks to see if there are any breakpoints set for the path and line
+        that is requested. There can be more than one as breakpoints on
+        different lines can refer to the same task.
 
         Args:
             path: The path of the file to check.
             line: The line in the file to check.
 
         Returns:
-            Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
-            args if present.
+            list[AnsibleLineBreakpoint]: The breakpoints associated with the
+            args, this is empty if there are none.
         """
-        for b in self._breakpoints.values():
+        return [
+            b
+            for b in list(self._breakpoints.values())
             if (
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
                 and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
-            ):
-                return b
-
-        return None
+            )
+        ]
 
     def start(
         self,
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index ae2e592..1c3ca81 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -589,13 +589,12 @@ class AnsibleDebugState(DebugState):
         with self._waiting_condition:
             tid = thread.id
 
-            line_breakpoint = self._debugger.get_breakpoint(path, line)
-            if (
-                line_breakpoint
-                and line_breakpoint.source_breakpoint.condition
-                and not eval_condition(line_breakpoint.source_breakpoint.condition)
-            ):
-                line_breakpoint = None
+            line_breakpoint = None
+            for bp in self._debugger.get_breakpoints(path, line):
+                condition = bp.source_breakpoint.condition
+                if not condition or eval_condition(condition):
+                    line_breakpoint = bp
+                    break
 
             stopped_event = thread.should_break(task, line_breakpoint)
 
-- 
2.43.0


From c9d743218e0b2736ace6fbbfb74440c06e53d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 14/37] fix: breakpoints are replaced and updated under a lock

Replacing the breakpoints of a file while tasks are run had a window where none
were set, and a file loaded at that moment could change the dictionary being
iterated or leave a new breakpoint without its position.
---
 src/ansibug/_debuggee.py | 92 ++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 41 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 6e0504b..240e18d 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -262,7 +262,10 @@ class AnsibleDebugger(metaclass=Singleton):
         self._variable_counter = 1
 
         # Stores all the client breakpoints, key is the breakpoint number/id
+        # The lock is needed as Ansible loads files and checks the breakpoints in
+        # one thread while the requests of the client are processed in another.
         self._breakpoint_exceptions: dict[str, bool] = {}
+        self._breakpoint_lock = threading.Lock()
         self._breakpoints: dict[int, AnsibleLineBreakpoint] = {}
         self._breakpoint_counter = 1
 
@@ -382,15 +385,16 @@ class AnsibleDebugger(metaclass=Singleton):
             list[AnsibleLineBreakpoint]: The breakpoints associated with the
             args, this is empty if there are none.
         """
-        return [
-            b
-            for b in list(self._breakpoints.values())
-            if (
-                b.actual_path == path
-                and (b.breakpoint.line is None or b.breakpoint.line <= line)
-                and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
-            )
-        ]
+        with self._breakpoint_lock:
+            return [
+                b
+                for b in self._breakpoints.values()
+                if (
+                    b.actual_path == path
+                    and (b.breakpoint.line is None or b.breakpoint.line <= line)
+                    and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
+                )
+            ]
 
     def start(
         self,
@@ -562,37 +566,38 @@ class AnsibleDebugger(metaclass=Singleton):
             bp_type: Set to 1 for a valid breakpoint and 0 for an invalid
                 breakpoint section.
         """
-        # Ensure each new entry has a starting value of 0 which denotes that
-        # a breakpoint cannot be set at the start of the file. It can only be
-        # set when a line was registered.
-        file_lines = self._source_info.setdefault(path, [0])
-        file_lines.extend([None] * (1 + line - len(file_lines)))
-        file_lines[line] = bp_type
-
-        for breakpoint in self._breakpoints.values():
-            if breakpoint.actual_path != path:
-                continue
-
-            source_breakpoint = breakpoint.source_breakpoint
-            bp = self._calculate_breakpoint(
-                breakpoint.id,
-                breakpoint.source,
-                source_breakpoint.line,
-                file_lines,
-            )
+        with self._breakpoint_lock:
+            # Ensure each new entry has a starting value of 0 which denotes that
+            # a breakpoint cannot be set at the start of the file. It can only be
+            # set when a line was registered.
+            file_lines = self._source_info.setdefault(path, [0])
+            file_lines.extend([None] * (1 + line - len(file_lines)))
+            file_lines[line] = bp_type
+
+            for breakpoint in self._breakpoints.values():
+                if breakpoint.actual_path != path:
+                    continue
+
+                source_breakpoint = breakpoint.source_breakpoint
+                bp = self._calculate_breakpoint(
+                    breakpoint.id,
+                    breakpoint.source,
+                    source_breakpoint.line,
+                    file_lines,
+                )
 
-            if (
-                breakpoint.breakpoint.verified != bp.verified
-                or breakpoint.breakpoint.line != bp.line
-                or breakpoint.breakpoint.end_line != bp.end_line
-            ):
-                breakpoint.breakpoint = bp
-                self.queue_msg(
-                    dap.BreakpointEvent(
-                        reason="changed",
-                        breakpoint=bp,
+                if (
+                    breakpoint.breakpoint.verified != bp.verified
+                    or breakpoint.breakpoint.line != bp.line
+                    or breakpoint.breakpoint.end_line != bp.end_line
+                ):
+                    breakpoint.breakpoint = bp
+                    self.queue_msg(
+                        dap.BreakpointEvent(
+                            reason="changed",
+                            breakpoint=bp,
+                        )
                     )
-                )
 
     @classmethod
     def _enable_debugpy(cls) -> None:  # pragma: nocover
@@ -675,9 +680,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.SetExceptionBreakpointsRequest,
     ) -> None:
-        self._breakpoint_exceptions = {}
-        for breakpoint_type in msg.filters:
-            self._breakpoint_exceptions[breakpoint_type] = True
+        self._breakpoint_exceptions = {breakpoint_type: True for breakpoint_type in msg.filters}
 
         resp = dap.SetExceptionBreakpointsResponse(request_seq=msg.seq)
         self.queue_msg(resp)
@@ -686,6 +689,13 @@ class AnsibleDebugger(metaclass=Singleton):
     def _(
         self,
         msg: dap.SetBreakpointsRequest,
+    ) -> None:
+        with self._breakpoint_lock:
+            self._set_breakpoints(msg)
+
+    def _set_breakpoints(
+        self,
+        msg: dap.SetBreakpointsRequest,
     ) -> None:
         # FIXME: Deal with source_reference if set
         source_path = msg.source.path or ""
-- 
2.43.0


From b74304d7b0a978a25e726db57dc3c7643c161365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 15/37] fix: send the response of a resume request before the
 resumed threads run

---
 src/ansibug/_debuggee.py                      | 10 ++--
 .../ansibug/dap/plugins/strategy/debug.py     | 48 ++++++++++++-------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 240e18d..22a9f44 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -166,10 +166,12 @@ class DAProtocol(MPProtocol):
 
 
 class DebugState(t.Protocol):
+    # The requests that resume a thread queue their own response, it needs to be
+    # sent before anything the resumed thread sends.
     def continue_request(
         self,
         request: dap.ContinueRequest,
-    ) -> dap.ContinueResponse:
+    ) -> None:
         raise NotImplementedError()  # pragma: nocover
 
     def disconnect(
@@ -636,8 +638,7 @@ class AnsibleDebugger(metaclass=Singleton):
         msg: dap.ContinueRequest,
     ) -> None:
         strategy = self._get_strategy()
-        resp = strategy.continue_request(msg)
-        self.queue_msg(resp)
+        strategy.continue_request(msg)
 
     @process_message.register
     def _(
@@ -664,7 +665,6 @@ class AnsibleDebugger(metaclass=Singleton):
     ) -> None:
         strategy = self._get_strategy()
         strategy.step_over(msg)
-        self.queue_msg(dap.NextResponse(request_seq=msg.seq))
 
     @process_message.register
     def _(
@@ -791,7 +791,6 @@ class AnsibleDebugger(metaclass=Singleton):
     ) -> None:
         strategy = self._get_strategy()
         strategy.step_in(msg)
-        self.queue_msg(dap.StepInResponse(request_seq=msg.seq))
 
     @process_message.register
     def _(
@@ -800,7 +799,6 @@ class AnsibleDebugger(metaclass=Singleton):
     ) -> None:
         strategy = self._get_strategy()
         strategy.step_out(msg)
-        self.queue_msg(dap.StepOutResponse(request_seq=msg.seq))
 
     @process_message.register
     def _(
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 1c3ca81..281221f 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -672,17 +672,15 @@ class AnsibleDebugState(DebugState):
     def continue_request(
         self,
         request: ansibug.dap.ContinueRequest,
-    ) -> ansibug.dap.ContinueResponse:
-        if request.single_thread:
-            self._resume_threads([request.thread_id], ThreadState.CONTINUE)
-            all_threads_continued = False
-        else:
-            self._resume_threads(self.threads.keys(), ThreadState.CONTINUE)
-            all_threads_continued = True
-
-        return ansibug.dap.ContinueResponse(
-            request_seq=request.seq,
-            all_threads_continued=all_threads_continued,
+    ) -> None:
+        thread_ids = [request.thread_id] if request.single_thread else list(self.threads.keys())
+        self._resume_threads(
+            thread_ids,
+            ThreadState.CONTINUE,
+            ansibug.dap.ContinueResponse(
+                request_seq=request.seq,
+                all_threads_continued=not request.single_thread,
+            ),
         )
 
     def disconnect(
@@ -948,19 +946,31 @@ class AnsibleDebugState(DebugState):
         self,
         request: ansibug.dap.StepInRequest,
     ) -> None:
-        self._resume_threads([request.thread_id], ThreadState.STEP_IN)
+        self._resume_threads(
+            [request.thread_id],
+            ThreadState.STEP_IN,
+            ansibug.dap.StepInResponse(request_seq=request.seq),
+        )
 
     def step_out(
         self,
         request: ansibug.dap.StepOutRequest,
     ) -> None:
-        self._resume_threads([request.thread_id], ThreadState.STEP_OUT)
+        self._resume_threads(
+            [request.thread_id],
+            ThreadState.STEP_OUT,
+            ansibug.dap.StepOutResponse(request_seq=request.seq),
+        )
 
     def step_over(
         self,
         request: ansibug.dap.NextRequest,
     ) -> None:
-        self._resume_threads([request.thread_id], ThreadState.STEP_OVER)
+        self._resume_threads(
+            [request.thread_id],
+            ThreadState.STEP_OVER,
+            ansibug.dap.NextResponse(request_seq=request.seq),
+        )
 
     def _add_thread(
         self,
@@ -1007,10 +1017,16 @@ class AnsibleDebugState(DebugState):
         self,
         thread_ids: collections.abc.Iterable[int],
         thread_state: ThreadState,
+        response: ansibug.dap.Response | None = None,
     ) -> None:
         with self._waiting_condition:
-            for tid in thread_ids:
-                self.threads[tid].set_state(thread_state)
+            for thread in [self.threads[tid] for tid in thread_ids]:
+                thread.set_state(thread_state)
+
+            # This is done before the threads can run so that the client gets
+            # it before any event coming from the resumed threads.
+            if response:
+                self._debugger.queue_msg(response)
 
             self._waiting_condition.notify_all()
 
-- 
2.43.0


From f5aca842cd8395464a1c3641be8370d7c5ca9182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 16/37] fix: do not wait for a play that will never start

---
 src/ansibug/_debuggee.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 22a9f44..6b2fb28 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -249,6 +249,7 @@ class AnsibleDebugger(metaclass=Singleton):
     def __init__(self) -> None:
         self._cancel_token = SocketCancellationToken()
         self._configuration_done = threading.Event()
+        self._ended = False
         self._adapter_connected = False
         self._debug_config: DebugConfiguration = DebugConfiguration()
         self._proc_pid_file = get_pid_info_path(os.getpid())
@@ -478,6 +479,11 @@ class AnsibleDebugger(metaclass=Singleton):
         """
         log.debug("Shutting down DebugServer")
 
+        # There are no more plays for a request to wait for.
+        with self._strategy_connected:
+            self._ended = True
+            self._strategy_connected.notify_all()
+
         if not from_send_thread and self._send_thread:
             # If we aren't connected we need to cancel the queue start method
             # before trying to join the thread. If we are connected we want to
@@ -613,8 +619,15 @@ class AnsibleDebugger(metaclass=Singleton):
 
     def _get_strategy(self) -> DebugState:
         with self._strategy_connected:
-            self._strategy_connected.wait_for(lambda: self._strategy is not None)
-            return t.cast(DebugState, self._strategy)
+            # No play will start before the configuration is done and the
+            # request for that is only processed after the current one.
+            self._strategy_connected.wait_for(
+                lambda: self._strategy or self._ended or not self._configuration_done.is_set()
+            )
+            if not self._strategy:
+                raise Exception("Ansible is not running a play")
+
+            return self._strategy
 
     @functools.singledispatchmethod
     def process_message(
@@ -890,8 +903,13 @@ class AnsibleDebugger(metaclass=Singleton):
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
 
-        strategy = self._get_strategy()
-        strategy.disconnect(msg)
+        # If a play is not running there is nothing to resume but the playbook
+        # might be waiting for the configuration to be done.
+        self._configuration_done.set()
+
+        with self._strategy_connected:
+            if self._strategy:
+                self._strategy.disconnect(msg)
 
     def _send_task(
         self,
-- 
2.43.0


From 9d1a7202e26368b7ef0adc1691f549d0f14b799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 17/37] fix: do not wait for the configuration if the
 connection failed

---
 src/ansibug/_debuggee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 6b2fb28..810e78f 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -944,4 +944,8 @@ class AnsibleDebugger(metaclass=Singleton):
             mp_queue.stop()
             self._adapter_connected = False
 
+            # The connection may have never been made, the playbook should not
+            # wait for a client that cannot connect anymore.
+            self.shutdown(from_send_thread=True)
+
         log.debug("Debuggee server send thread ended")
-- 
2.43.0


From 3d3df6699f06daadd3b57e986d3c659dc388c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 18/37] fix: forget the exception breakpoints when the client
 disconnects

---
 src/ansibug/_debuggee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 810e78f..839c915 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -499,6 +499,7 @@ class AnsibleDebugger(metaclass=Singleton):
         # If the strategy is still running we don't want it to fire on any
         # breakpoints and our debug config no longer applies
         self._debug_config = DebugConfiguration()
+        self._breakpoint_exceptions = {}
         self._breakpoints = {}
 
         # Ensure the callback plugin isn't stuck waiting for this
@@ -901,6 +902,7 @@ class AnsibleDebugger(metaclass=Singleton):
         msg: dap.DisconnectRequest,
     ) -> None:
         self._debug_config = DebugConfiguration()
+        self._breakpoint_exceptions = {}
         self._breakpoints = {}
 
         # If a play is not running there is nothing to resume but the playbook
-- 
2.43.0


From 6ecc1cfef422364d267d13c45041ac15ef0bebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 19/37] fix: terminate the playbook no matter when it is
 requested

---
 src/ansibug/_debuggee.py                      | 10 ++++++++-
 .../ansibug/dap/plugins/strategy/debug.py     | 21 +++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 839c915..9616ce5 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -298,6 +298,11 @@ class AnsibleDebugger(metaclass=Singleton):
         #     just have to use the last entry
         self._source_info: dict[str, list[int | None]] = {}
 
+    @property
+    def terminated(self) -> bool:
+        """The client has requested that the playbook is terminated."""
+        return self._terminated
+
     @property
     def should_stop_on_error(self) -> bool:
         return self._breakpoint_exceptions.get(ExceptionBreakpointType.ON_ERROR.value, False)
@@ -659,6 +664,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.DisconnectRequest,
     ) -> None:
+        self._terminated = self._terminated or bool(msg.terminate_debuggee)
         self._disconnect(msg)
         self._send_queue.put(None)
         # The response is sent by the debug adapter.
@@ -819,9 +825,11 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.TerminateRequest,
     ) -> None:
+        # The playbook may end, and the connection with it, as soon as this is
+        # marked as terminated.
+        self.queue_msg(dap.TerminateResponse(request_seq=msg.seq))
         self._terminated = True
         self._disconnect(dap.DisconnectRequest(terminate_debuggee=True))
-        self.queue_msg(dap.TerminateResponse(request_seq=msg.seq))
         self._send_queue.put(None)
 
     @process_message.register
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 281221f..fdf8c65 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -506,6 +506,8 @@ class AnsibleDebugState(DebugState):
             task: The task to process.
             task_vars: The task variables.
         """
+        self._check_terminated()
+
         thread: AnsibleThread | None = next(
             iter([t for t in self.threads.values() if t.host == host]),
             None,
@@ -596,16 +598,16 @@ class AnsibleDebugState(DebugState):
                     line_breakpoint = bp
                     break
 
+            # The condition may have taken a while to evaluate.
+            self._check_terminated()
+
             stopped_event = thread.should_break(task, line_breakpoint)
 
             if stopped_event:
                 self._debugger.queue_msg(stopped_event)
                 self._waiting_condition.wait_for(lambda: self.threads[tid].state != ThreadState.WAIT)
 
-                # If thread is marked as end then the client has requested us
-                # to terminate the debuggee.
-                if thread.state == ThreadState.END:
-                    raise EndStrategy()
+            self._check_terminated()
 
     def end_task(
         self,
@@ -625,6 +627,8 @@ class AnsibleDebugState(DebugState):
         thread = next(iter([t for t in self.threads.values() if t.host == host]))
 
         with self._waiting_condition:
+            self._check_terminated()
+
             stopped_event = thread.should_stop_on_exception(
                 result,
                 should_stop_on_error=self._debugger.should_stop_on_error,
@@ -641,8 +645,7 @@ class AnsibleDebugState(DebugState):
                 self._debugger.queue_msg(stopped_event)
                 self._waiting_condition.wait_for(lambda: self.threads[thread.id].state != ThreadState.WAIT)
 
-            if thread.state == ThreadState.END:
-                raise EndStrategy()
+            self._check_terminated()
 
         if task.action not in C._ACTION_ALL_INCLUDES:
             sfid = thread.stack_frames.pop(0)
@@ -972,6 +975,11 @@ class AnsibleDebugState(DebugState):
             ansibug.dap.NextResponse(request_seq=request.seq),
         )
 
+    def _check_terminated(self) -> None:
+        """Ends the strategy if the client requested to terminate the debuggee."""
+        if self._debugger.terminated:
+            raise EndStrategy()
+
     def _add_thread(
         self,
         host: Host,
@@ -1184,6 +1192,7 @@ class StrategyModule(LinearStrategy):
         try:
             with debugger.with_strategy(self._debug_state):
                 try:
+                    self._debug_state._check_terminated()
                     return super().run(iterator, play_context)
                 finally:
                     self._debug_state.exit_threads()
-- 
2.43.0


From c445c5d34b5ba7e4a8155429e4be3e0da0eb2f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 20/37] fix: threads can start and exit while a request for all
 of them is processed

---
 .../ansibug/dap/plugins/strategy/debug.py      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index fdf8c65..73ed200 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -676,7 +676,7 @@ class AnsibleDebugState(DebugState):
         self,
         request: ansibug.dap.ContinueRequest,
     ) -> None:
-        thread_ids = [request.thread_id] if request.single_thread else list(self.threads.keys())
+        thread_ids = [request.thread_id] if request.single_thread else None
         self._resume_threads(
             thread_ids,
             ThreadState.CONTINUE,
@@ -691,7 +691,7 @@ class AnsibleDebugState(DebugState):
         request: ansibug.dap.DisconnectRequest,
     ) -> None:
         state = ThreadState.END if request.terminate_debuggee else ThreadState.CONTINUE
-        self._resume_threads(list(self.threads.keys()), state)
+        self._resume_threads(None, state)
 
     def get_scopes(
         self,
@@ -877,7 +877,8 @@ class AnsibleDebugState(DebugState):
     ) -> ansibug.dap.ThreadsResponse:
         return ansibug.dap.ThreadsResponse(
             request_seq=request.seq,
-            threads=[t.to_dap() for t in self.threads.values()],
+            # Threads can be added and removed while the request is processed.
+            threads=[t.to_dap() for t in list(self.threads.values())],
         )
 
     def get_variables(
@@ -1023,12 +1024,19 @@ class AnsibleDebugState(DebugState):
 
     def _resume_threads(
         self,
-        thread_ids: collections.abc.Iterable[int],
+        thread_ids: collections.abc.Iterable[int] | None,
         thread_state: ThreadState,
         response: ansibug.dap.Response | None = None,
     ) -> None:
         with self._waiting_condition:
-            for thread in [self.threads[tid] for tid in thread_ids]:
+            # If no ids are specified then all the threads are resumed. Threads
+            # can be added and removed by Ansible at any time.
+            if thread_ids is None:
+                threads = list(self.threads.values())
+            else:
+                threads = [self.threads[tid] for tid in thread_ids]
+
+            for thread in threads:
                 thread.set_state(thread_state)
 
             # This is done before the threads can run so that the client gets
-- 
2.43.0


From 9299babc8bb2ff0d6f443d90e67a64255d03f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 21/37] fix: send the queued messages even if the playbook ends
 just after the client connected

---
 src/ansibug/_debuggee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 9616ce5..6587791 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -138,6 +138,10 @@ class DAProtocol(MPProtocol):
         msg: dap.ProtocolMessage,
     ) -> None:
         log.info("Processing msg %r", msg)
+
+        # A message can be received before the send thread is back from starting
+        # the queue.
+        self._debugger._adapter_connected = True
         try:
             self._debugger.process_message(msg)
         except Exception:
-- 
2.43.0


From a656ccf7cb78c1bd16b781ffb85e1658763f977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 22/37] fix: an aborted playbook does not wait for the client

---
 src/ansibug/_debuggee.py | 5 +++++
 src/ansibug/_mp_queue.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 6587791..b0c4253 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -3,6 +3,7 @@
 
 from __future__ import annotations
 
+import atexit
 import collections.abc
 import contextlib
 import dataclasses
@@ -468,9 +469,13 @@ class AnsibleDebugger(metaclass=Singleton):
             target=self._send_task,
             args=(mp_queue,),
             name="ansibug-debugger",
+            daemon=True,
         )
         self._send_thread.start()
 
+        # The playbook can end without the stats callback being called.
+        atexit.register(self.shutdown)
+
         return addr
 
     def shutdown(
diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 62d39fa..b19eed6 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -87,6 +87,7 @@ class MPQueue:
         self._recv_thread = threading.Thread(
             target=self._recv_handler,
             name=f"{type(self).__name__} Recv",
+            daemon=True,
         )
         self._recv_thread.start()
 
-- 
2.43.0


From dfb70003c712d3213e324d07de84952786d83f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 23/37] fix: messages to the client are sent one at a time

---
 src/ansibug/_debug_adapter.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 2af8c62..0284506 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -13,6 +13,7 @@ import pathlib
 import shlex
 import sys
 import tempfile
+import threading
 import traceback
 import types
 import typing as t
@@ -255,6 +256,9 @@ class DAServer:
         self._run_in_response_data: dict[int, _RunInTerminalDetails] = {}
         self._temp_dir = temp_dir
         self._terminated_sent = False
+        # The messages to the client are sent by both start() and the debuggee
+        # receive thread.
+        self._client_lock = threading.RLock()
 
     def __enter__(self) -> DAServer:
         return self
@@ -355,18 +359,19 @@ class DAServer:
     ) -> int:
         stdout = sys.stdout.buffer
 
-        req_no = self._adapter.queue_msg(msg)
-        data = self._adapter.data_to_send() or b""
-        if log.isEnabledFor(logging.DEBUG):
-            log.debug("STDOUT: %s", data.decode())
+        with self._client_lock:
+            req_no = self._adapter.queue_msg(msg)
+            data = self._adapter.data_to_send() or b""
+            if log.isEnabledFor(logging.DEBUG):
+                log.debug("STDOUT: %s", data.decode())
 
-        stdout.write(data)
-        stdout.flush()
+            stdout.write(data)
+            stdout.flush()
 
-        if isinstance(msg, dap.Response):
-            self._incoming_requests.pop(msg.request_seq, None)
+            if isinstance(msg, dap.Response):
+                self._incoming_requests.pop(msg.request_seq, None)
 
-        return req_no
+            return req_no
 
     def _send_disconnect(
         self,
-- 
2.43.0


From ddea88ee6291afc1997c62e92ac4daa30f2b2e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 24/37] fix: the debug adapter ends when its client has gone

---
 src/ansibug/_debug_adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 0284506..e262341 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -285,6 +285,9 @@ class DAServer:
         is_connected = True
         while is_connected:
             data = stdin.read(4096)
+            if not data:
+                log.debug("STDIN was closed, the client has gone")
+                break
 
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("STDIN: %s", data.decode(errors="replace"))
-- 
2.43.0


From 11d6d1eb10ae9c90ae14f275fa8b7dde29bb2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 25/37] fix: a request that cannot be understood fails without
 ending the session

---
 src/ansibug/_debug_adapter.py | 20 +++++++++++++++++++-
 src/ansibug/dap/__init__.py   |  3 ++-
 src/ansibug/dap/_adapter.py   | 34 ++++++++++++++++++++++++++++++----
 3 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index e262341..6ad7fdf 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -293,7 +293,25 @@ class DAServer:
                 log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
-            while msg := adapter.next_message():
+            while True:
+                try:
+                    msg = adapter.next_message()
+                except dap.InvalidRequestError as e:
+                    # Only this request has failed, any other error means the
+                    # data from the client is no longer understood.
+                    log.exception("Received an invalid request")
+                    self.send_to_client(
+                        dap.ErrorResponse(
+                            command=e.command,  # type: ignore[arg-type]
+                            request_seq=e.seq,
+                            message=str(e),
+                        ),
+                    )
+                    continue
+
+                if not msg:
+                    break
+
                 # Trace each request from the client so we can return an
                 # ErrorMessage if there was a critical failure.
                 if isinstance(msg, dap.Request):
diff --git a/src/ansibug/dap/__init__.py b/src/ansibug/dap/__init__.py
index 9305df9..df08c01 100644
--- a/src/ansibug/dap/__init__.py
+++ b/src/ansibug/dap/__init__.py
@@ -1,7 +1,7 @@
 # Copyright (c) 2022 Jordan Borean
 # GNU General Public License v3.0+ (see COPYING or https://www.gnu.org/licenses/gpl-3.0.txt)
 
-from ._adapter import DebugAdapterConnection
+from ._adapter import DebugAdapterConnection, InvalidRequestError
 from ._events import (
     BreakpointEvent,
     ExitedEvent,
@@ -116,6 +116,7 @@ __all__ = [
     "InitializedEvent",
     "InitializeRequest",
     "InitializeResponse",
+    "InvalidRequestError",
     "LaunchRequest",
     "LaunchResponse",
     "Message",
diff --git a/src/ansibug/dap/_adapter.py b/src/ansibug/dap/_adapter.py
index 10f2267..9a99ea7 100644
--- a/src/ansibug/dap/_adapter.py
+++ b/src/ansibug/dap/_adapter.py
@@ -8,6 +8,26 @@ import json
 from ._messages import DAPEncoder, ProtocolMessage
 
 
+class InvalidRequestError(ValueError):
+    """A request could not be unpacked, the connection is still usable.
+
+    Args:
+        seq: The seq of the invalid request.
+        command: The command of the invalid request.
+        message: The error details.
+    """
+
+    def __init__(
+        self,
+        seq: int,
+        command: str,
+        message: str,
+    ) -> None:
+        super().__init__(message)
+        self.seq = seq
+        self.command = command
+
+
 class DebugAdapterConnection:
     def __init__(self) -> None:
         self._out_buffer = bytearray()
@@ -66,12 +86,18 @@ class DebugAdapterConnection:
         self._in_buffer = self._in_buffer[header_idx + length :]
 
         msg_data = json.loads(raw_msg.decode())
-        msg = ProtocolMessage.unpack(msg_data)
         expected_seq_no_in = self._seq_no_in
-        if expected_seq_no_in != msg.seq:
-            raise ValueError(f"Expected seq {expected_seq_no_in} but received {msg.seq}")
+        if expected_seq_no_in != msg_data["seq"]:
+            raise ValueError(f"Expected seq {expected_seq_no_in} but received {msg_data['seq']}")
+
+        try:
+            return ProtocolMessage.unpack(msg_data)
+        except Exception as e:
+            if msg_data.get("type") != "request" or not isinstance(msg_data.get("command"), str):
+                raise
 
-        return msg
+            command = msg_data["command"]
+            raise InvalidRequestError(expected_seq_no_in, command, f"Invalid request '{command}': {e}") from e
 
     def queue_msg(
         self,
-- 
2.43.0


From b45b0d891302f7b84615974cb512f6759117c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 26/37] fix: every request is answered once, also when the
 launch failed or the debuggee is gone

A failed launch also no longer leaves its script behind.
---
 src/ansibug/_debug_adapter.py | 225 +++++++++++++++++++++++++---------
 1 file changed, 170 insertions(+), 55 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 6ad7fdf..5e0a847 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -233,7 +233,7 @@ class DAProtocol(MPProtocol):
         self,
         msg: dap.ProtocolMessage,
     ) -> None:
-        self._server.send_to_client(msg)
+        self._server.relay_to_client(msg)
 
     def connection_closed(
         self,
@@ -256,6 +256,8 @@ class DAServer:
         self._run_in_response_data: dict[int, _RunInTerminalDetails] = {}
         self._temp_dir = temp_dir
         self._terminated_sent = False
+        self._closed = False
+        self._launch_file: str | None = None
         # The messages to the client are sent by both start() and the debuggee
         # receive thread.
         self._client_lock = threading.RLock()
@@ -293,7 +295,7 @@ class DAServer:
                 log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
-            while True:
+            while is_connected:
                 try:
                     msg = adapter.next_message()
                 except dap.InvalidRequestError as e:
@@ -312,20 +314,10 @@ class DAServer:
                 if not msg:
                     break
 
-                # Trace each request from the client so we can return an
-                # ErrorMessage if there was a critical failure.
-                if isinstance(msg, dap.Request):
-                    self._incoming_requests[msg.seq] = msg
+                if isinstance(msg, dap.DisconnectRequest):
+                    is_connected = False
 
-                if isinstance(msg, dap.Request) and self._debuggee:
-                    if isinstance(msg, dap.DisconnectRequest):
-                        is_connected = False
-                        self._send_disconnect(msg, self._debuggee)
-                    else:
-                        self._debuggee.send(msg)
-
-                else:
-                    self._process_msg(msg)
+                self._receive_msg(msg)
 
     def stop(
         self,
@@ -343,36 +335,49 @@ class DAServer:
             from_debuggee: The stop is being called as the debuggee has
                 disconnected.
         """
-        # Ensure the DisconnectResponse is sent if there is an outstanding
-        # request.
-        for req in list(self._incoming_requests.values()):
-            if isinstance(req, dap.DisconnectRequest):
-                self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
-
         if exp:
-            # For every incoming request relay the exception back to the client
-            # for it to display to the end user.
+            exp_details = "".join(traceback.format_exception(type(exp), exp, exp.__traceback__))
+            error = f"Critical DAServer exception received\n{exp_details}"
+        else:
+            error = "The debug session has ended"
+
+        with self._client_lock:
+            self._closed = True
+
+            # Ensure the DisconnectResponse is sent if there is an outstanding
+            # request.
             for req in list(self._incoming_requests.values()):
-                resp = dap.ErrorResponse(
-                    command=req.command,
-                    request_seq=req.seq,
-                    message=f"Critical DAServer exception received\n{traceback.format_exc()}",
-                )
-                self.send_to_client(resp)
+                if isinstance(req, dap.DisconnectRequest):
+                    self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
 
-        if not from_debuggee and self._debuggee:
-            self._debuggee.stop()
-            self._debuggee = None
+            # Nothing else is going to respond to the requests that are still
+            # outstanding.
+            for req in list(self._incoming_requests.values()):
+                self._send_error(req, error)
 
-        if self._launch_queue:
-            self._launch_queue.stop()
-            self._launch_queue = None
+        if not from_debuggee:
+            if self._debuggee:
+                self._debuggee.stop()
+                self._debuggee = None
+
+            if self._launch_queue:
+                self._launch_queue.stop()
+                self._launch_queue = None
+
+            if self._launch_file:
+                # The script removes itself but it might have never been run.
+                pathlib.Path(self._launch_file).unlink(missing_ok=True)
+                self._launch_file = None
 
-        if not self._terminated_sent:
-            # Both the debuggee or start() end will hit the code here. We only
-            # need to send one TerminatedEvent() for whichever was first.
-            self.send_to_client(dap.TerminatedEvent())
-            self._terminated_sent = True
+        self._send_terminated()
+
+    def _send_terminated(self) -> None:
+        with self._client_lock:
+            if not self._terminated_sent:
+                # Both the debuggee or start() end will hit the code here. We only
+                # need to send one TerminatedEvent() for whichever was first.
+                self._terminated_sent = True
+                self.send_to_client(dap.TerminatedEvent())
 
     def send_to_client(
         self,
@@ -386,14 +391,87 @@ class DAServer:
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("STDOUT: %s", data.decode())
 
-            stdout.write(data)
-            stdout.flush()
+            try:
+                stdout.write(data)
+                stdout.flush()
+            except OSError:
+                # start() will see that the client is gone.
+                log.exception("Failed to send message to the client")
 
             if isinstance(msg, dap.Response):
                 self._incoming_requests.pop(msg.request_seq, None)
 
             return req_no
 
+    def relay_to_client(
+        self,
+        msg: dap.ProtocolMessage,
+    ) -> None:
+        """Sends a message from the debuggee to the client."""
+        with self._client_lock:
+            if isinstance(msg, dap.Response) and msg.request_seq not in self._incoming_requests:
+                log.debug("Ignoring response for request %d that has already been answered", msg.request_seq)
+                return
+
+            self.send_to_client(msg)
+
+    def _receive_msg(
+        self,
+        msg: dap.ProtocolMessage,
+    ) -> None:
+        if not isinstance(msg, dap.Request):
+            self._process_msg(msg)
+            return
+
+        with self._client_lock:
+            # Trace each request from the client so we can return an
+            # ErrorMessage if there was a critical failure.
+            self._incoming_requests[msg.seq] = msg
+
+            if self._closed and not isinstance(msg, dap.DisconnectRequest):
+                self._send_error(msg, "The debug session has ended")
+                return
+
+        if isinstance(msg, dap.DisconnectRequest):
+            if self._debuggee:
+                self._send_disconnect(msg, self._debuggee)
+
+            # This sends the DisconnectResponse if the debuggee end did not.
+            self.stop()
+
+        elif self._debuggee:
+            try:
+                self._debuggee.send(msg)
+            except (OSError, CancelledError) as e:
+                # There is no debuggee to respond to this anymore, or the one
+                # to launch isn't connected yet.
+                self._send_error(msg, f"Failed to send the request to the debuggee: {e}")
+
+        elif isinstance(msg, (dap.AttachRequest, dap.LaunchRequest)):
+            # Without a debuggee the session has failed.
+            self._process_msg(msg)
+
+        else:
+            try:
+                self._process_msg(msg)
+            except Exception:
+                log.exception("Failed to process request")
+                self._send_error(msg, f"Failed to process the request\n{traceback.format_exc()}")
+
+    def _send_error(
+        self,
+        request: dap.Request,
+        message: str,
+    ) -> None:
+        """Sends an error for the request if it has not been answered yet."""
+        self.relay_to_client(
+            dap.ErrorResponse(
+                command=request.command,
+                request_seq=request.seq,
+                message=message,
+            )
+        )
+
     def _send_disconnect(
         self,
         msg: dap.DisconnectRequest,
@@ -401,7 +479,7 @@ class DAServer:
     ) -> None:
         try:
             debuggee.send(msg)
-        except OSError:
+        except (OSError, CancelledError):
             # The debuggee might have been disconnected during the send.
             pass
 
@@ -477,13 +555,10 @@ class DAServer:
         )
 
         self._debuggee.start(timeout=attach_args.connect_timeout)
-        self.send_to_client(dap.AttachResponse(request_seq=msg.seq))
-        self._debuggee.send(
-            dap.OutputEvent(
-                category=DebugConfiguration.OUTPUT_CATEGORY,
-                output="",
-                data=DebugConfiguration(path_mappings=attach_args.path_mappings),
-            )
+        self._debuggee_connected(
+            self._debuggee,
+            dap.AttachResponse(request_seq=msg.seq),
+            attach_args.path_mappings,
         )
 
     @_process_msg.register
@@ -552,6 +627,7 @@ rm -f "$0"
 
         # Default permissions are 0o600, we need the executable bit.
         launch_fd, launch_file = tempfile.mkstemp(prefix="ansibug-launch-", dir=self._temp_dir)
+        self._launch_file = launch_file
         os.fchmod(launch_fd, 0o700)
         with os.fdopen(launch_fd, mode="w") as launch_writer:
             launch_writer.write(launch_script)
@@ -581,7 +657,10 @@ rm -f "$0"
 
     @_process_msg.register
     def _(self, msg: dap.RunInTerminalResponse) -> None:
-        details = self._run_in_response_data.pop(msg.request_seq)
+        details = self._run_in_response_data.pop(msg.request_seq, None)
+        if not details:
+            log.debug("Ignoring response for unknown request %d", msg.request_seq)
+            return
 
         try:
             details.debuggee.start(
@@ -591,18 +670,54 @@ rm -f "$0"
 
         except CancelledError:
             log.debug("Launch cancel socket was connected, launched process has ended")
-            self.stop()
+            self._launch_failed(details, "The launched process ended before it connected to the debug adapter")
 
         else:
             log.debug("Ansible process is connected to debug adapter")
             details.launch_queue.stop()
             self._launch_queue = None
 
-            self.send_to_client(dap.LaunchResponse(request_seq=details.request.seq))
-            details.debuggee.send(
+            self._debuggee_connected(
+                details.debuggee,
+                dap.LaunchResponse(request_seq=details.request.seq),
+                details.arguments.path_mappings,
+            )
+
+    @_process_msg.register
+    def _(self, msg: dap.ErrorResponse) -> None:
+        details = self._run_in_response_data.pop(msg.request_seq, None)
+        if not details:
+            log.debug("Ignoring error response for unknown request %d", msg.request_seq)
+            return
+
+        self._launch_failed(details, f"The client failed to run the launch command: {msg.message}")
+
+    def _launch_failed(
+        self,
+        details: _RunInTerminalDetails,
+        message: str,
+    ) -> None:
+        self._send_terminated()
+        self._send_error(details.request, message)
+        self.stop()
+
+    def _debuggee_connected(
+        self,
+        debuggee: MPQueue,
+        response: dap.Response,
+        path_mappings: list[PathMapping],
+    ) -> None:
+        # If the debuggee has already gone the request was answered by stop().
+        self.relay_to_client(response)
+
+        try:
+            debuggee.send(
                 dap.OutputEvent(
                     category=DebugConfiguration.OUTPUT_CATEGORY,
                     output="",
-                    data=DebugConfiguration(path_mappings=details.arguments.path_mappings),
+                    data=DebugConfiguration(path_mappings=path_mappings),
                 )
             )
+        except (OSError, CancelledError):
+            # The receive thread deals with the closed connection.
+            log.exception("Failed to send debug configuration")
-- 
2.43.0


From ed2733b55e85071e34f1ee375f341c0268564d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 27/37] fix: a failure in the rescue or always part of a block
 is not one the block rescues

---
 .../ansibug/dap/plugins/strategy/debug.py                  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 73ed200..d96d22d 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -200,11 +200,16 @@ class AnsibleThread:
         if result.is_failed() and not result._task_fields.get("ignore_errors", None):
             is_rescued = False
 
+            # Only what is in the block part itself is rescued, a failure in the
+            # rescue or always part is not. Imports are parents but the block
+            # contains the blocks that were imported.
             task = result._task
+            children = {task._uuid}
             while task := task._parent:
-                if isinstance(task, Block) and task.rescue:
+                if isinstance(task, Block) and task.rescue and any(b._uuid in children for b in task.block):
                     is_rescued = True
                     break
+                children.add(task._uuid)
 
             if should_stop_on_error and not is_rescued:
                 details = get_on_failed_details(result._result)
-- 
2.43.0


From 324b378359f8e62b0c5249d68815f1acbe4d9324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 28/37] fix: the call stack is the task and exactly the
 includes that led to it, also after an included role

---
 .../ansibug/dap/plugins/strategy/debug.py     | 121 +++++++++++-------
 1 file changed, 76 insertions(+), 45 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index d96d22d..c0e1ea0 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -32,6 +32,7 @@ from ansible.inventory.host import Host
 from ansible.parsing.dataloader import DataLoader
 from ansible.playbook.block import Block
 from ansible.playbook.conditional import Conditional
+from ansible.playbook.handler import Handler
 from ansible.playbook.play_context import PlayContext
 from ansible.playbook.task import Task
 from ansible.plugins.strategy.linear import StrategyModule as LinearStrategy
@@ -128,7 +129,7 @@ class AnsibleThread:
             # If a thread has been set to step out we want to make comparisons
             # later on easier by setting the stopped task to the parent include
             # task.
-            self._stopped_task = next(iter(self._get_includes(self._stopped_task)), None)
+            self._stopped_task = next(iter(self.get_includes(self._stopped_task)), None)
 
         elif (
             state == ThreadState.STEP_IN
@@ -247,8 +248,8 @@ class AnsibleThread:
         # If the task is in the same include as the task which was resumed with
         # step over, or in one that led to it as the rest of that include may
         # not have any more tasks, then the task should stop.
-        task_include = next(iter(self._get_includes(task)), None)
-        stopped_includes = {i._uuid for i in self._get_includes(self._stopped_task)}
+        task_include = next(iter(self.get_includes(task)), None)
+        stopped_includes = {i._uuid for i in self.get_includes(self._stopped_task)}
 
         return task_include is None or task_include._uuid in stopped_includes
 
@@ -266,9 +267,9 @@ class AnsibleThread:
         # If step out, we only want to break if the current task did not come
         # from the stopped task stored at state change (the include), directly
         # or through another include inside it.
-        return self._stopped_task._uuid not in [i._uuid for i in self._get_includes(task)]
+        return self._stopped_task._uuid not in [i._uuid for i in self.get_includes(task)]
 
-    def _get_includes(
+    def get_includes(
         self,
         task: Task,
     ) -> list[Task]:
@@ -520,43 +521,15 @@ class AnsibleDebugState(DebugState):
         if not thread:
             thread = self._add_thread(host)
 
-        if thread.stack_frames:
-            # The parent is the implicit block and we want the parent of that.
-            parent_task = task._parent._parent
-            last_frame_id = thread.stack_frames[0]
-            last_frame = self.stackframes[last_frame_id]
-            if not parent_task or (last_frame.task and last_frame.task._uuid != parent_task._uuid):
-                thread.stack_frames.pop(0)
-                self.stackframes.pop(last_frame_id)
-                for variable_id in last_frame.variables:
-                    del self.variables[variable_id]
-
-            # If this is the first task in a role included by include_role we
-            # need to scan the tasks and handlers to validate the breakpoints
-            if (
-                parent_task
-                and last_frame.task
-                and last_frame.task.action in C._ACTION_INCLUDE_ROLE
-                and hasattr(task, "_role")
-            ):
-                task_handlers = task._role.get_task_blocks()
-                role_handlers = task._role.get_handler_blocks(task.play)
-                register_block_breakpoints(self._debugger, task_handlers)
-                register_block_breakpoints(self._debugger, role_handlers)
-
-        sfid = self._debugger.next_stackframe_id()
-
-        sf = self.stackframes[sfid] = AnsibleStackFrame(
-            id=sfid,
-            task=task,
-            task_vars=task_vars,
-            debugger=self._debugger,
-        )
-        thread.stack_frames.insert(0, sfid)
-
         # Some implicit meta tasks are added without a loader so won't have
-        # a path. We can't set breakpoints on these tasks so skip the check.
+        # a path. They are not part of what the playbook includes.
         task_path = task.get_path()
+        if task_path:
+            self._sync_include_frames(thread, task, task_vars)
+
+        sf = self._add_frame(thread, task, task_vars)
+
+        # We can't set breakpoints on tasks without a path so skip the check.
         if not task_path:
             return
 
@@ -653,10 +626,7 @@ class AnsibleDebugState(DebugState):
             self._check_terminated()
 
         if task.action not in C._ACTION_ALL_INCLUDES:
-            sfid = thread.stack_frames.pop(0)
-            sf = self.stackframes.pop(sfid)
-            for variable_id in sf.variables:
-                del self.variables[variable_id]
+            self._remove_frame(thread)
 
     def exit_threads(self) -> None:
         """Exits all active threads.
@@ -669,7 +639,10 @@ class AnsibleDebugState(DebugState):
             if tid == 1:
                 continue
 
-            del self.threads[tid]
+            thread = self.threads.pop(tid)
+            while thread.stack_frames:
+                self._remove_frame(thread)
+
             self._debugger.queue_msg(
                 ansibug.dap.ThreadEvent(
                     reason="exited",
@@ -1005,6 +978,64 @@ class AnsibleDebugState(DebugState):
 
         return thread
 
+    def _add_frame(
+        self,
+        thread: AnsibleThread,
+        task: Task,
+        task_vars: dict[str, t.Any],
+    ) -> AnsibleStackFrame:
+        sfid = self._debugger.next_stackframe_id()
+
+        sf = self.stackframes[sfid] = AnsibleStackFrame(
+            id=sfid,
+            task=task,
+            task_vars=task_vars,
+            debugger=self._debugger,
+        )
+        thread.stack_frames.insert(0, sfid)
+
+        return sf
+
+    def _remove_frame(
+        self,
+        thread: AnsibleThread,
+    ) -> None:
+        """Removes the top frame of the thread and its variables."""
+        sf = self.stackframes.pop(thread.stack_frames.pop(0))
+        for variable_id in sf.variables:
+            del self.variables[variable_id]
+
+    def _sync_include_frames(
+        self,
+        thread: AnsibleThread,
+        task: Task,
+        task_vars: dict[str, t.Any],
+    ) -> None:
+        """Ensures the thread's frames are those of the includes that led to the task."""
+        includes = thread.get_includes(task)
+        if isinstance(task, Handler):
+            # The handlers of a role run after the include of the role is done.
+            includes = [i for i in includes if isinstance(i, Handler)]
+
+        include_ids = {i._uuid for i in includes}
+        while thread.stack_frames and self.stackframes[thread.stack_frames[0]].task._uuid not in include_ids:
+            self._remove_frame(thread)
+
+        # The frames of the includes are gone if the thread was exited by a
+        # refresh of the inventory.
+        frame_ids = {self.stackframes[sfid].task._uuid for sfid in thread.stack_frames}
+        for include in reversed(includes):
+            if include._uuid not in frame_ids:
+                self._add_frame(thread, include, task_vars)
+
+        # If this is a task in a role included by include_role we need to scan
+        # the tasks and handlers to validate the breakpoints
+        if includes and includes[0].action in C._ACTION_INCLUDE_ROLE and task._role:
+            role_tasks = task._role.get_task_blocks()
+            role_handlers = task._role.get_handler_blocks(task.play)
+            register_block_breakpoints(self._debugger, role_tasks)
+            register_block_breakpoints(self._debugger, role_handlers)
+
     def _add_variable(
         self,
         stackframe: AnsibleStackFrame,
-- 
2.43.0


From 8ad0525fc34d576b9ba0eb4b39272e3fbdf76d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 29/37] fix: an edit of a value inside a variable is an edit of
 that variable

Editing something nested in the options of the task or in a host variable
had no effect, and in a task variable it was done in place so that it was
seen by other tasks and hosts. A host variable that came from a fact or was
a dictionary could not be replaced, and a key that is not a string was added
again instead of set.
---
 .../ansibug/dap/plugins/strategy/debug.py     | 129 ++++++++++++++----
 1 file changed, 103 insertions(+), 26 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index c0e1ea0..aeecfc7 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -14,6 +14,7 @@ author: Jordan Borean (@jborean93)
 """
 
 import collections.abc
+import copy
 import dataclasses
 import enum
 import inspect
@@ -345,6 +346,12 @@ class AnsibleVariable:
     def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
         raise NotImplementedError()  # pragma: nocover
 
+    def get_item(
+        self,
+        index: str,
+    ) -> t.Any:
+        raise NotImplementedError()  # pragma: nocover
+
     def remove(
         self,
         index: str,
@@ -359,65 +366,133 @@ class AnsibleVariable:
         raise NotImplementedError()  # pragma: nocover
 
 
-class AnsibleListVariable(AnsibleVariable):
-    """AnsibleVariable with a list datastore."""
+class AnsibleContainerVariable(AnsibleVariable):
+    """AnsibleVariable with a datastore that can be inside another."""
+
+    _container_type: type
 
     def __init__(
         self,
         id: int,
         stackframe: AnsibleStackFrame,
-        value: collections.abc.Sequence[t.Any],
+        value: t.Any,
+        parent: tuple[AnsibleVariable, str] | None = None,
     ) -> None:
         super().__init__(id, stackframe)
-        self._ds = value
+        self._value = value
+        # The variable that contains this one and the name it has there.
+        self._parent = parent
+
+    @property
+    def _ds(self) -> t.Any:
+        if self._parent:
+            # What contains this value could have been edited since.
+            variable, name = self._parent
+            value = variable.get_item(name)
+            if isinstance(value, self._container_type) and not isinstance(value, str):
+                self._value = value
+
+        return self._value
+
+    def _set_item(
+        self,
+        container: t.Any,
+        index: str,
+        value: t.Any,
+    ) -> None:
+        raise NotImplementedError()  # pragma: nocover
+
+    def set(
+        self,
+        index: str,
+        value: t.Any,
+    ) -> None:
+        if not self._parent:
+            self._set_item(self._value, index, value)
+            return
+
+        # The value inside a variable can be shared with other tasks and hosts
+        # so what was edited is a new value of that variable.
+        new_value = copy.copy(self._ds)
+        self._set_item(new_value, index, value)
+
+        variable, name = self._parent
+        variable.set(name, new_value)
+        self._value = new_value
+
+
+class AnsibleListVariable(AnsibleContainerVariable):
+    """AnsibleVariable with a list datastore."""
+
+    _container_type = collections.abc.Sequence
 
     @property
     def indexed_variables(self) -> int:
-        return len(self._ds)
+        return len(self._value)
 
     def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
         return iter((str(k), v) for k, v in enumerate(self._ds))
 
-    def set(
+    def get_item(
         self,
         index: str,
+    ) -> t.Any:
+        ds = self._ds
+        return ds[int(index)] if int(index) < len(ds) else None
+
+    def _set_item(
+        self,
+        container: t.Any,
+        index: str,
         value: t.Any,
     ) -> None:
-        self._ds[int(index)] = value  # type: ignore[index]
+        container[int(index)] = value
 
 
-class AnsibleDictVariable(AnsibleVariable):
+class AnsibleDictVariable(AnsibleContainerVariable):
     """AnsibleVariable with a dict datastore."""
 
-    def __init__(
-        self,
-        id: int,
-        stackframe: AnsibleStackFrame,
-        value: collections.abc.Mapping[t.Any, t.Any],
-    ) -> None:
-        super().__init__(id, stackframe)
-        self._ds = value
+    _container_type = collections.abc.Mapping
 
     @property
     def named_variables(self) -> int:
-        return len(self._ds)
+        return len(self._value)
 
     def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
         return iter((str(k), v) for k, v in self._ds.items())
 
+    def get_item(
+        self,
+        index: str,
+    ) -> t.Any:
+        ds = self._ds
+        return ds.get(self._get_key(ds, index), None)
+
     def remove(
         self,
         index: str,
     ) -> None:
         if index in self._ds:
-            del self._ds[index]  # type: ignore[attr-defined]
+            del self._ds[index]
 
-    def set(
+    def _set_item(
         self,
+        container: t.Any,
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[index] = value  # type: ignore[index]
+        container[self._get_key(container, index)] = value
+
+    def _get_key(
+        self,
+        container: t.Any,
+        index: str,
+    ) -> t.Any:
+        # The name is the string of the key which can be of any type.
+        if index in container:
+            return index
+
+        return next((k for k in container if str(k) == index), index)
 
 
 class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
@@ -459,8 +534,9 @@ class AnsibleHostVarsVariable(AnsibleDictVariable):
 
     def set(self, index: str, value: t.Any) -> None:
         super().set(index, value)
-        # Persisting hostvars need to be done as a host_variable.
-        self._variable_manager.set_host_variable(self._host, index, value)
+        # Persisting hostvars need to be done as a fact, anything else is
+        # merged with or overridden by what the host has already set.
+        self._variable_manager.set_nonpersistent_facts(self._host, {index: value})
 
 
 class AnsibleDebugState(DebugState):
@@ -869,7 +945,7 @@ class AnsibleDebugState(DebugState):
         for name, value in variable.get():
             child_var: AnsibleVariable | None = None
             if isinstance(value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(value, str):
-                child_var = self._add_variable(variable.stackframe, value)
+                child_var = self._add_variable(variable.stackframe, value, parent=(variable, name))
             elif dataclasses.is_dataclass(value) and not isinstance(value, type):
                 child_var = self._add_variable(variable.stackframe, dataclasses.asdict(value))
 
@@ -913,7 +989,7 @@ class AnsibleDebugState(DebugState):
         if isinstance(new_value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(
             new_value, str
         ):
-            new_container = self._add_variable(variable.stackframe, new_value)
+            new_container = self._add_variable(variable.stackframe, new_value, parent=(variable, request.name))
 
         return ansibug.dap.SetVariableResponse(
             request_seq=request.seq,
@@ -1041,6 +1117,7 @@ class AnsibleDebugState(DebugState):
         stackframe: AnsibleStackFrame,
         value: collections.abc.Mapping[t.Any, t.Any] | collections.abc.Sequence[t.Any],
         var_factory: t.Callable[[int], AnsibleVariable] | None = None,
+        parent: tuple[AnsibleVariable, str] | None = None,
     ) -> AnsibleVariable:
         var_id = self._debugger.next_variable_id()
 
@@ -1048,10 +1125,10 @@ class AnsibleDebugState(DebugState):
             var = var_factory(var_id)
 
         elif isinstance(value, collections.abc.Mapping):
-            var = AnsibleDictVariable(var_id, stackframe, value)
+            var = AnsibleDictVariable(var_id, stackframe, value, parent)
 
         else:
-            var = AnsibleListVariable(var_id, stackframe, value)
+            var = AnsibleListVariable(var_id, stackframe, value, parent)
 
         self.variables[var_id] = var
         stackframe.variables.append(var_id)
-- 
2.43.0


From 5ed4ca0d9771d95e989d89142f8f839279ae9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 30/37] fix: the value of a console command is exactly the rest
 of the line

An expression with a quote in it could be refused, the name was looked for
in what was before it, and the commands failed if the client had not asked
for the scopes or if the value was not valid.
---
 .../dap/plugins/plugin_utils/_repl_util.py    | 38 +++++++++++--------
 .../ansibug/dap/plugins/strategy/debug.py     | 35 ++++++++++++-----
 2 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
index c0d8b85..d70fc35 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
@@ -118,13 +118,28 @@ def parse_repl_args(
     )
 
     # The provided value from the repl is just a string, we need to convert it
-    # to a command line and parse the known args. We only do the known args
-    # because some commands need the raw value provided outside of a cmd split
-    # processing argparse uses.
-    split_args = shlex.split(args)
+    # to a command line and parse the known args. Only the command and the name
+    # are words of a command line, what comes after is the raw value which is
+    # not split and could not be valid as one.
+    lexer = shlex.shlex(args, posix=True)
+    lexer.whitespace_split = True
+    lexer.commenters = ""
+
+    words: list[str] = []
+    remaining: list[str] = []
+    try:
+        while len(words) < 2 and (word := lexer.get_token()) is not None:
+            words.append(word)
+            remaining.append(args[lexer.instream.tell() :].lstrip())
+    except ValueError as e:
+        if not words or words[0] not in ["template", "t"]:
+            return str(e)
+
+    if words and words[0] in ["template", "t"] and remaining[0].rstrip() not in ["-h", "--help"]:
+        words = words[:1]
 
     try:
-        parsed_args = parser.parse_known_args(split_args)[0]
+        parsed_args = parser.parse_known_args(words)[0]
     except ReturnErrorMessage as e:
         return str(e)
 
@@ -142,20 +157,11 @@ def parse_repl_args(
 
     if parsed_args.command == "template":
         # The value after the command needs to be extracted.
-        expr = args[args.index(command) + len(command) :].lstrip()
-
-        return TemplateCommand(command="template", expression=expr)
+        return TemplateCommand(command="template", expression=remaining[0])
 
     elif parsed_args.command in ["set_option", "set_hostvar"]:
         # The value after the option/var name needs to be extracted.
-        remaining = args[args.index(command) + len(command) :].lstrip()
-        remaining = remaining[remaining.index(parsed_args.name) + len(parsed_args.name) :]
-        if remaining.startswith('"') or remaining.startswith("'"):
-            remaining = remaining[1:]
-
-        expr = remaining.lstrip()
-
-        return SetVarCommand(parsed_args.command, parsed_args.name, expr)
+        return SetVarCommand(parsed_args.command, parsed_args.name, remaining[1])
 
     else:
         return RemoveVarCommand(parsed_args.command, parsed_args.name)
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index aeecfc7..255147b 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -870,6 +870,10 @@ class AnsibleDebugState(DebugState):
             sf = self.stackframes[request.frame_id]
 
             repl_command = parse_repl_args(expression[1:])
+            if isinstance(repl_command, (RemoveVarCommand, SetVarCommand)) and not sf.variables_options_id:
+                # The client has not asked for the scopes of the frame yet.
+                self.get_scopes(ansibug.dap.ScopesRequest(frame_id=sf.id))
+
             if isinstance(repl_command, TemplateCommand):
                 value, value_type = self._safe_evaluate_expression(repl_command.expression, sf.task_vars)
 
@@ -878,15 +882,18 @@ class AnsibleDebugState(DebugState):
                 ansible_var.remove(repl_command.name)
 
             elif isinstance(repl_command, SetVarCommand):
-                new_value = self._template(repl_command.expression, sf.task_vars)
-
                 var_ids = []
-                if repl_command.command == "set_option":
-                    var_ids += [sf.variables_options_id]
+                try:
+                    new_value = self._template(repl_command.expression, sf.task_vars)
+                except Exception as e:
+                    value = self._format_evaluate_error(e)
                 else:
-                    # We want to have changing hostvars also apply to the task
-                    # vars
-                    var_ids += [sf.variables_taskvar_id, sf.variables_hostvars_id]
+                    if repl_command.command == "set_option":
+                        var_ids += [sf.variables_options_id]
+                    else:
+                        # We want to have changing hostvars also apply to the
+                        # task vars
+                        var_ids += [sf.variables_taskvar_id, sf.variables_hostvars_id]
 
                 for vid in var_ids:
                     ansible_var = self.variables[vid]
@@ -1168,16 +1175,24 @@ class AnsibleDebugState(DebugState):
         value_type = None
         try:
             templated_value = self._template(expression, task_vars)
-        except AnsibleUndefinedVariable as e:
-            value = f"{type(e).__name__}: {e!s}"
         except Exception as e:
-            value = traceback.format_exc()
+            value = self._format_evaluate_error(e)
         else:
             value = repr(templated_value)
             value_type = get_canonicalized_variable_type(templated_value)
 
         return value, value_type
 
+    def _format_evaluate_error(
+        self,
+        error: Exception,
+    ) -> str:
+        """Describes the error of an expression that could not be evaluated."""
+        if isinstance(error, AnsibleUndefinedVariable):
+            return f"{type(error).__name__}: {error!s}"
+
+        return "".join(traceback.format_exception(error))
+
     def _template(
         self,
         value: str,
-- 
2.43.0


From 34df4d729368093656ca6bf0f28ea631c4c7829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:47 +0000
Subject: [PATCH 31/37] fix: listen on IPv4 only addresses of hosts with IPv6

---
 src/ansibug/_mp_queue.py      | 17 ++--------------
 src/ansibug/_socket_helper.py | 37 +++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index b19eed6..463b931 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -16,6 +16,7 @@ from ._socket_helper import (
     CancelledError,
     SocketCancellationToken,
     SocketHelper,
+    create_tcp_server,
     create_uds_with_mask,
     parse_addr_string,
 )
@@ -223,21 +224,7 @@ class ServerMPQueue(MPQueue):
             sock.listen()
 
         else:
-            sock_kwargs: dict[str, t.Any] = {}
-            if socket.has_dualstack_ipv6():  # pragma: nocover
-                # Allows the server to bind on both IPv4 and IPv6.
-                sock_kwargs |= {
-                    "family": socket.AF_INET6,
-                    "dualstack_ipv6": True,
-                }
-
-            sock = socket.create_server(
-                parsed_addr,
-                # If port 0 is requested, don't set SO_REUSEPORT
-                reuse_port=parsed_addr[1] != 0,
-                backlog=0,
-                **sock_kwargs,
-            )
+            sock = create_tcp_server(parsed_addr)
 
         super().__init__(SocketHelper("server", sock), proto, cancel_token=cancel_token)
         self._ssl_context = ssl_context
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index e14c061..68457a5 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -97,6 +97,43 @@ def parse_addr_string(
         raise ValueError(f"An address must be for the tcp or uds scheme")
 
 
+def create_tcp_server(
+    addr: tuple[str, int],
+) -> socket.socket:
+    """Create a listening TCP socket.
+
+    The socket listens on both IPv4 and IPv6 if the host supports it and the
+    hostname is not specific to one of them.
+
+    Args:
+        addr: The hostname and port to bind to, an empty hostname is for all
+            interfaces.
+
+    Returns:
+        socket.socket: The listening TCP socket.
+    """
+    host, port = addr
+    dualstack = socket.has_dualstack_ipv6()
+
+    families = {socket.AF_INET, socket.AF_INET6}
+    if host:
+        families = {info[0] for info in socket.getaddrinfo(host, port, 0, socket.SOCK_STREAM)}
+
+    if socket.AF_INET6 in families and (dualstack or socket.AF_INET not in families):
+        family = socket.AF_INET6
+    else:
+        family = socket.AF_INET
+
+    return socket.create_server(
+        addr,
+        family=family,
+        # If port 0 is requested, don't set SO_REUSEPORT
+        reuse_port=port != 0,
+        backlog=0,
+        dualstack_ipv6=dualstack and family == socket.AF_INET6,
+    )
+
+
 def create_uds_with_mask(
     addr: str,
     mask: int,
-- 
2.43.0


From f45e1b944356bab14ce477afb04ea0e4d2336ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:47 +0000
Subject: [PATCH 32/37] fix: two playbooks do not share the port they listen on

---
 src/ansibug/_socket_helper.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 68457a5..95f17b7 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -127,8 +127,6 @@ def create_tcp_server(
     return socket.create_server(
         addr,
         family=family,
-        # If port 0 is requested, don't set SO_REUSEPORT
-        reuse_port=port != 0,
         backlog=0,
         dualstack_ipv6=dualstack and family == socket.AF_INET6,
     )
-- 
2.43.0


From aa41210918bb13a6243d8997efa9fc8b6a2e5187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:47 +0000
Subject: [PATCH 33/37] fix: the path of a Unix socket can contain any
 character

---
 src/ansibug/_socket_helper.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 95f17b7..144e29b 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -68,6 +68,27 @@ def parse_addr_string(
     Returns:
         Any: The required address for the scheme specified.
     """
+    scheme, sep, uds_value = value.partition(":")
+    if sep and scheme.lower() == "uds":
+        # A path can contain any character, it is not parsed like a URL so that
+        # none of them have a special meaning.
+        netloc, path = "", uds_value
+        if uds_value.startswith("//"):
+            netloc, slash, path = uds_value[2:].partition("/")
+            path = slash + path
+
+        if netloc and path:
+            raise ValueError("Specifying a uds address must only contain the port or netloc, not both")
+
+        elif netloc:
+            return os.path.join(tempfile.gettempdir(), netloc)
+
+        elif path:
+            return path
+
+        else:
+            return str(pathlib.Path(tempfile.gettempdir()) / f"ansibug-dap-{uuid.uuid4()}")
+
     value_split = urllib.parse.urlsplit(value)
 
     if value_split.scheme == "tcp":
@@ -80,19 +101,6 @@ def parse_addr_string(
         else:
             raise ValueError("Specifying a tcp address must include the port")
 
-    elif value_split.scheme == "uds":
-        if value_split.netloc and value_split.path:
-            raise ValueError("Specifying a uds address must only contain the port or netloc, not both")
-
-        elif value_split.netloc:
-            return os.path.join(tempfile.gettempdir(), value_split.netloc)
-
-        elif value_split.path:
-            return value_split.path
-
-        else:
-            return str(pathlib.Path(tempfile.gettempdir()) / f"ansibug-dap-{uuid.uuid4()}")
-
     else:
         raise ValueError(f"An address must be for the tcp or uds scheme")
 
-- 
2.43.0


From 711535aa6d5e2e4d668dd4ebf7adb131f2fa2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:47 +0000
Subject: [PATCH 34/37] fix: a relative Unix socket path is announced as the
 full path

---
 src/ansibug/_socket_helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 144e29b..5ec0119 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -84,7 +84,8 @@ def parse_addr_string(
             return os.path.join(tempfile.gettempdir(), netloc)
 
         elif path:
-            return path
+            # The address is given to processes in other directories.
+            return os.path.join(os.getcwd(), path)
 
         else:
             return str(pathlib.Path(tempfile.gettempdir()) / f"ansibug-dap-{uuid.uuid4()}")
-- 
2.43.0


From f8b366ed4484d554f16e37f478e9e5d77fa711b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:47 +0000
Subject: [PATCH 35/37] fix: TLS can be used with any Unix socket path

---
 src/ansibug/_mp_queue.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 463b931..9323570 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -156,9 +156,10 @@ class ClientMPQueue(MPQueue):
             hostname = self._address
             addr_info = [(socket.AF_UNIX, socket.SOCK_STREAM, -1, "", self._address)]
             # Python's ssl handling doesn't like hostnames greater than 63
-            # characters. Using SSL with a UDS should only really happen in
-            # testing so we can safely truncate this.
-            ssl_hostname = hostname[:63]
+            # characters, with empty labels, or non-ASCII characters that are
+            # longer once encoded. Using SSL with a UDS should only really
+            # happen in testing so we can safely truncate this.
+            ssl_hostname = hostname.encode("ascii", "replace").decode().replace("..", "__")[:63]
 
         else:
             hostname, port = self._address
-- 
2.43.0


From 0ae2fe84b4c8caae7e9c45d96532890161dd4124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:29 +0000
Subject: [PATCH 36/37] fix: playbooks can be debugged with Ansible's own debug
 setting

---
 src/ansibug/_exec_playbook.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/_exec_playbook.py b/src/ansibug/_exec_playbook.py
index bacea42..23b0d08 100644
--- a/src/ansibug/_exec_playbook.py
+++ b/src/ansibug/_exec_playbook.py
@@ -183,9 +183,9 @@ def _configure_ansible_env() -> dict[str, str]:
             "--format",
             "json",
         ],
-        # Explicitly set verbosity so it doesn't display version info breaking
-        # the json parsing.
-        env=os.environ | {"ANSIBLE_VERBOSITY": "0"},
+        # Explicitly set verbosity and debug so it doesn't display version info
+        # or debug messages breaking the json parsing.
+        env=os.environ | {"ANSIBLE_VERBOSITY": "0", "ANSIBLE_DEBUG": "0"},
         capture_output=True,
         check=True,  # FUTURE: Maybe a nicer exception would be useful
     )
-- 
2.43.0


From ea0cb30053a33c52e2ae59e6de398dd52adc9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:29 +0000
Subject: [PATCH 37/37] fix: the user's PYTHONPATH keeps its empty entries

---
 src/ansibug/_exec_playbook.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/_exec_playbook.py b/src/ansibug/_exec_playbook.py
index 23b0d08..8cd467f 100644
--- a/src/ansibug/_exec_playbook.py
+++ b/src/ansibug/_exec_playbook.py
@@ -217,9 +217,11 @@ def _configure_ansible_env() -> dict[str, str]:
         if not to_check:
             break
 
-    # Insert this module into the first PYTHONPATH so Ansible can import it.
-    python_path = [e for e in os.environ.get("PYTHONPATH", "").split(os.pathsep) if e]
-    python_path.insert(0, str(ansibug_path.parent))
+    # Insert this module into the first PYTHONPATH so Ansible can import it. The
+    # rest is kept as is, an empty entry is the current directory.
+    python_path = [str(ansibug_path.parent)]
+    if existing_path := os.environ.get("PYTHONPATH", ""):
+        python_path.append(existing_path)
 
     return {
         "ANSIBLE_CALLBACKS_ENABLED": ",".join(enabled_callbacks),
-- 
2.43.0

