From 0c694cef8e8e56a8c7080098e95e9cd447fd3f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 01/51] fix: notice the end of a process killed by a signal

---
 pieshell/signalio/__init__.py    | 2 +-
 pieshell/signalio/signalutils.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 3755118..507ff18 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -52,7 +52,7 @@ class ProcessSignalHandler(SignalHandler):
     def handle_event(self, event):
         log.log("Process event %s" % self.pid, "signal")
         self.last_event = event
-        if event["ssi_code"] == CLD_EXITED:
+        if event["ssi_code"] in (CLD_EXITED, CLD_KILLED, CLD_DUMPED):
             log.log("EXIT %s" % self.pid, "signal")
             #if exception is not None:
             #    self.done_future.set_exception(exception)
diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index e134f1e..e4b5494 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -68,11 +68,11 @@ def get_sigchlds():
             if os.WIFEXITED(status):
                 res["ssi_code"] = CLD_EXITED
                 res["ssi_status"] = os.WEXITSTATUS(status)
+            elif os.WIFCONTINUED(status):
+                res["ssi_code"] = CLD_CONTINUED
             elif os.WCOREDUMP(status):
                 res["ssi_code"] = CLD_DUMPED
                 res["ssi_status"] = os.WTERMSIG(status)
-            elif os.WIFCONTINUED(status):
-                res["ssi_code"] = CLD_CONTINUED
             elif os.WIFSTOPPED(status):
                 res["ssi_code"] = CLD_STOPPED
                 res["ssi_status"] = os.WSTOPSIG(status)
-- 
2.43.0


From dc6a9013e4047b6ae92bd34072487ff562f2a297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 02/51] fix: finish the pipeline when a function in it raises
 an exception

---
 pieshell/pipeline/running.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 2bbe1b4..5808f89 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -194,7 +194,11 @@ class RunningItem(BaseRunningItem):
         self.output_content = {}
         asyncio.get_event_loop().create_task(self.await_finish())
     async def await_finish(self):
-        await self.iohandler.wait()
+        try:
+            await self.iohandler.wait()
+        except Exception:
+            # Reported through is_failed / failed_processes
+            pass
         self.running_pipeline.handle_finish()
     @property
     def is_running(self):
-- 
2.43.0


From d301b84f5668cd358b8447fd727fa87e96555d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 03/51] fix: make output that is not text in the locale's
 encoding available as output_content

---
 pieshell/pipeline/running.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 5808f89..472abaa 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -213,7 +213,7 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path) as f:
+            with open(redirect.pipe.path, encoding="utf-8", errors="backslashreplace", newline="") as f:
                 self.output_content[fd] = f.read()
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
-- 
2.43.0


From 807198111eb7ed168fa817e368111362b0812cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 04/51] fix: never signal a process that has already been
 reaped

---
 pieshell/pipeline/running.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 472abaa..a7016d0 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -265,11 +265,14 @@ class RunningProcess(RunningItem):
             pass
         RunningItem.__init__(self, cmd, signalio.ProcessSignalHandler(pid))
     def restart(self):
+        # The pid of a process that has ended can belong to someone else by now
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGCONT)
         except ProcessLookupError:
             pass
     def suspend(self):
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGSTOP)
         except ProcessLookupError:
-- 
2.43.0


From b6cedc46445577219e764839b911e1a893d22a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 05/51] fix: report no exit code and no failure for a process
 that is still running

---
 pieshell/pipeline/running.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index a7016d0..eed7438 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -282,9 +282,10 @@ class RunningProcess(RunningItem):
         return self.iohandler.pid
     @property
     def is_failed(self):
-        return self.exit_code != 0
+        return not self.is_running and self.exit_code != 0
     @property
     def exit_code(self):
+        if self.is_running: return None
         return self.iohandler.last_event["ssi_status"]
     def __repr__(self, display_output=False):
         res = repr(self.cmd)
-- 
2.43.0


From bc82850d54c1b440479298d4d41158c17bd2c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 06/51] fix: do not leak the log file descriptor into every
 program run

---
 pieshell/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index c3cbb21..89a00df 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -30,6 +30,6 @@ elif hasattr(sys.stderr, "fileno"):
 else:
     outfd = 1
 logfd = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 1
-os.dup2(outfd, logfd)
+os.dup2(outfd, logfd, inheritable=False)
 def log(msg, category="misc"):
     logging.getLogger(category).error(msg)
-- 
2.43.0


From f1286c673c664f80b8a778d8edaac12e73db1954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 07/51] fix: deliver SIGTSTP to its handlers without signalfd
 too

---
 pieshell/signalio/manager_asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 6eb38b6..8237368 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -12,7 +12,7 @@ class SignalManager(object):
         self.mask = mask
         self.signal_handlers = {}
         for signo in mask:
-            asyncio.get_event_loop().add_signal_handler(signo, lambda: self.handle_event(signo))
+            asyncio.get_event_loop().add_signal_handler(signo, lambda signo=signo: self.handle_event(signo))
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
@@ -60,7 +60,7 @@ class SignalManager(object):
         # gets squashed into just one delivered signal event by
         # Linux...
         siginfos = [siginfo]
-        if siginfo["ssi_signo"] == signal.SIGCHLD or siginfo["ssi_signo"] == signal.SIGTSTP:
+        if siginfo["ssi_signo"] == signal.SIGCHLD:
             siginfos = signalutils.get_sigchlds()
 
         for siginfo in siginfos:
-- 
2.43.0


From 1fe9edb1394cb39f9839d35b6ed76dcba144539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 08/51] fix: do not list a pipeline that is over already as
 running

---
 pieshell/pipeline/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index c32aea3..9e5e847 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -150,7 +150,8 @@ class Pipeline(DescribableObject):
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
         self._env.last_pipeline = pipeline
-        self._env.running_pipelines.append(pipeline)
+        if not pipeline.finished:
+            self._env.running_pipelines.append(pipeline)
         return pipeline
     
     async def async_run_interactive(self):
-- 
2.43.0


From ef6a9acf2663b9fb9a866a939509f5cc930b2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 09/51] fix: an environment created with no variables has none

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 605fb63..75b8671 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -61,7 +61,9 @@ class Environment(object):
         self.running_pipelines = utils.LineList()
     @property
     def _exports(self):
-        return self._exports_value or os.environ
+        if self._exports_value is None:
+            return os.environ
+        return self._exports_value
     @_exports.setter
     def _exports(self, exports):
         self._exports_value = exports
-- 
2.43.0


From d4d3f75e46a2f9d47c4a4bc5e76facb8567e0f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 10/51] fix: a subshell fails when any part of its pipeline
 does

---
 pieshell/pipeline/builtins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9dacdda..f248e90 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -189,7 +189,8 @@ class SubShell(command.Command, builtin.Builtin):
         except Exception as e:
             sys.stderr.write(str(e))
             if isinstance(e, running.PipelineError):
-                sys.exit(e.pipeline.exit_code)
+                # The last command can have ended well when another one failed
+                sys.exit(e.pipeline.exit_code or 1)
             sys.exit(1)
         sys.exit(0)
 
-- 
2.43.0


From a11e6853fb88e4602ed39bae04b220d9bf36910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 11/51] fix: never let a forked child return into the code of
 its parent

---
 pieshell/pipeline/command.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 5729027..84714cd 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -226,11 +226,16 @@ class Command(command.BaseCommand):
             ecode = -1
             try:
                 self._child(redirects, args)
+            except SystemExit as e:
+                ecode = e.code if isinstance(e.code, int) else int(e.code is not None)
+                sys.stdout.flush()
             except Exception as e:
+                ecode = getattr(e, "errno", None) or ecode
                 sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
-                ecode = getattr(e, "errno", ecode)
-            # If we ever get to here, all is lost...
-            os._exit(ecode)
+            finally:
+                # Whatever happened, the child must never return into
+                # the code that called us...
+                os._exit(ecode)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From df2684bc023b7dca594cd79e1e97f87706ffb080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 12/51] fix: do not run a program whose redirects could not be
 set up

---
 pieshell/redir.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2aedc8a..4772ac6 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -211,6 +211,7 @@ class Redirects(object):
             import traceback
             log.log(e, "fd")
             log.log(traceback.format_exc(), "fd")
+            raise
     def close_other_fds(self):
         # FIXME: Use os.closerange if available
         for i in range(0, MAXFD):
-- 
2.43.0


From 5021add206063039221cfee493ae2d015e5a2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 13/51] fix: several redirects can have the same file
 descriptor as their source

---
 pieshell/redir.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 4772ac6..4b4f711 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -103,7 +103,10 @@ class Redirect(object):
             os.close(self.source)
     def perform(self):
         source = self.open()
-        assert source != self.fd
+        if source == self.fd:
+            # The file got opened right where we want it
+            os.set_inheritable(source, True)
+            return
         log.log("perform dup2(%s, %s)" % (source, self.fd), "fd")
         os.dup2(source, self.fd)
         log.log("perform close(%s)" % (source), "fd")
@@ -112,9 +115,9 @@ class Redirect(object):
         self = Redirect(self)
         if isinstance(self.source, int):
             log.log("move dup2(%s, %s)" % (self.source, fd), "fd")
+            # The original is left for other redirects from the same
+            # fd, and closed in the end by close_other_fds()
             os.dup2(self.source, fd)
-            log.log("move close(%s)" % (self.source), "fd")
-            os.close(self.source)
             self.source = fd
         return self
     def make_pipe(self):
-- 
2.43.0


From 177df2f4306e1b778f9d5373985ed9b9ba9be0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 14/51] fix: do not close file descriptors of the user that a
 pipeline was redirected to

---
 pieshell/pipeline/base.py     | 1 +
 pieshell/pipeline/redirect.py | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 9e5e847..a7590e6 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -145,6 +145,7 @@ class Pipeline(DescribableObject):
         a RunningPipeline instance."""
         if not isinstance(redirects, redir.Redirects):
             redirects = redir.Redirects(self._env._redirects, *redirects)
+            redirects.borrow()
         with copy.copy_session() as sess:
             self = copy.deepcopy(self)
             processes = self._run(redirects, sess)
diff --git a/pieshell/pipeline/redirect.py b/pieshell/pipeline/redirect.py
index c85aab5..ac114ad 100644
--- a/pieshell/pipeline/redirect.py
+++ b/pieshell/pipeline/redirect.py
@@ -38,6 +38,10 @@ class CmdRedirect(base.Pipeline):
 
         log.log(indentation + "Running [%s] with %s" % (repr(self), repr(redirects)), "cmd")
 
-        res = self.pipeline._run(redirects.merge(self.cmd_redirects), indentation + "  ")
+        # A file descriptor specified by the user still belongs to the user
+        cmd_redirects = redir.Redirects(self.cmd_redirects)
+        cmd_redirects.borrow()
+
+        res = self.pipeline._run(redirects.merge(cmd_redirects), sess, indentation + "  ")
         self._redirects = self.pipeline._redirects
         return res
-- 
2.43.0


From 6efb3d06bb784238f8bbe8c58e5061aad1be4054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 15/51] fix: close a pipe that a redirect inside the pipeline
 has replaced

---
 pieshell/pipeline/redirect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/pipeline/redirect.py b/pieshell/pipeline/redirect.py
index ac114ad..aa20540 100644
--- a/pieshell/pipeline/redirect.py
+++ b/pieshell/pipeline/redirect.py
@@ -43,5 +43,8 @@ class CmdRedirect(base.Pipeline):
         cmd_redirects.borrow()
 
         res = self.pipeline._run(redirects.merge(cmd_redirects), sess, indentation + "  ")
+        for fd in cmd_redirects.redirects:
+            if fd in redirects.redirects:
+                redirects.redirects[fd].close_source_fd()
         self._redirects = self.pipeline._redirects
         return res
-- 
2.43.0


From fb71fbc8927872e9db4bbd47cce370c512a242ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 16/51] fix: a command after one whose output is redirected to
 a file reads nothing

---
 pieshell/pipeline/pipe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 64afa7d..95f6884 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -42,7 +42,11 @@ class Pipe(base.Pipeline):
 
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
         src = self.src._run(redir.Redirects(child_redirects).redirect("stdout", redir.PIPE), sess, indentation + "  ")
-        dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", self.src._redirects.stdout.pipe), sess, indentation + "  ")
+        stdin = self.src._redirects.stdout.pipe
+        if not isinstance(stdin, int):
+            # The output of src goes somewhere else
+            stdin = "/dev/null"
+        dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", stdin), sess, indentation + "  ")
 
         self._redirects = self.src._redirects.merge(self.dst._redirects)
         self._redirects.register(redir.Redirect(self.src._redirects.stdin))
-- 
2.43.0


From d7f9a2286d084cdb71cf767f967bca352efd48d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 17/51] fix: pipe the output of both sides of a group, not just
 of one of them

---
 pieshell/pipeline/group.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 9ed6b1c..c1aed13 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,6 +36,10 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        # Both sides share one pipe
+        redirects = redir.Redirects(*[
+            redirect.make_pipe() if redirect.source is redir.PIPE else redirect
+            for redirect in redirects.redirects.values()])
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
@@ -44,6 +48,9 @@ class Group(base.Pipeline):
         b = self.b._run(child_redirects, sess, indentation + "  ")
 
         self._redirects = self.a._redirects.merge(self.b._redirects)
+        for redirect in redirects.redirects.values():
+            if isinstance(redirect.pipe, int):
+                self._redirects.register(redir.Redirect(redirect))
 
         redirects.close_source_fds()
 
-- 
2.43.0


From f33a260d2a0e73153505b8106f1dd74c55b88857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 18/51] fix: write all of the output of a function, and never
 block on writing it

---
 pieshell/iterio.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1fcc593..4b661d5 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -70,6 +70,7 @@ class OutputHandler(IOHandler):
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
         self.recursion_lock = False
+        self.pending = b""
         self.done_future = asyncio.get_event_loop().create_future()
         IOHandler.__init__(self, fd, borrowed, usage)
 
@@ -103,15 +104,26 @@ class OutputHandler(IOHandler):
             self.iter = self.iter.__aiter__()
         return self.iter
             
+    def write_pending(self):
+        # The fd is a blocking one, so write only what poll() promises
+        # room for, and keep the rest until there is room again.
+        poll = select.poll()
+        poll.register(self.fd, select.POLLOUT)
+        if self.pending and poll.poll(0):
+            written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+            self.pending = self.pending[written:]
+
     async def send_output(self):
-        if self.recursion_lock: return
+        if self.recursion_lock or self.destroyed: return
         iter = self.get_iter()
         try:
-            self.recursion_lock = True
-            val = await iter.__anext__()
-            self.recursion_lock = False
-            if val is not None:
-                os.write(self.fd, val)                
+            if not self.pending:
+                self.recursion_lock = True
+                val = await iter.__anext__()
+                self.recursion_lock = False
+                if val is not None:
+                    self.pending = val
+            self.write_pending()
         except StopAsyncIteration:
             self.destroy()
         except Exception as e:
@@ -126,15 +138,17 @@ class OutputHandler(IOHandler):
 
 class LineOutputHandler(OutputHandler):
     async def send_output(self):
-        if self.recursion_lock: return
+        if self.recursion_lock or self.destroyed: return
         iter = self.get_iter()
         try:
-            self.recursion_lock = True
-            val = await iter.__anext__()
-            self.recursion_lock = False
-            if val is not None:
-                os.write(self.fd, val + b"\n")
-            log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
+            if not self.pending:
+                self.recursion_lock = True
+                val = await iter.__anext__()
+                self.recursion_lock = False
+                if val is not None:
+                    self.pending = val + b"\n"
+                log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
+            self.write_pending()
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
             self.destroy()
-- 
2.43.0


From cf9044b01d626e8bfb48a5dcf2e864051c5ca6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 19/51] fix: functions can read from and write to files

---
 pieshell/iterio.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 4b661d5..cd7317b 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -41,10 +41,18 @@ class IOHandler(object):
         loop = asyncio.get_event_loop()
         def callback(event):
             self.handle_event(event)
-        if self.events & select.POLLIN:
-            loop.add_reader(self.fd, callback, select.POLLIN)
-        if self.events & select.POLLOUT:
-            loop.add_writer(self.fd, callback, select.POLLOUT)
+        try:
+            if self.events & select.POLLIN:
+                loop.add_reader(self.fd, callback, select.POLLIN)
+            if self.events & select.POLLOUT:
+                loop.add_writer(self.fd, callback, select.POLLOUT)
+        except PermissionError:
+            # Regular files can not be polled, as they are always ready
+            def always_ready():
+                if self.enabled:
+                    callback(self.events)
+                    loop.call_soon(always_ready)
+            loop.call_soon(always_ready)
         log.log("REGISTER %s, %s, %s" % (self.fd, events_to_str(self.events), self), "ioreg")
     def disable(self):
         self.enabled = False
-- 
2.43.0


From 89f624d8da50c3540642d54042a76e4e6d762bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 20/51] fix: report an error reading to the reader instead of
 retrying forever

---
 pieshell/iterio.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index cd7317b..a06c015 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -169,13 +169,22 @@ class InputHandler(IOHandler):
     def __init__(self, fd, borrowed = False, usage = None, at_eof = None):
         self.buffer = None
         self.eof = False
+        self.exception = None
         self.future = None
         self.at_eof = at_eof
         IOHandler.__init__(self, fd, borrowed, usage)
 
+    def read(self):
+        try:
+            return os.read(self.fd, 1024)
+        except OSError as e:
+            # There is nothing more to be had, but whoever reads should know why
+            self.exception = e
+            return b""
+
     def handle_event(self, event):
         if self.buffer is None:
-            self.buffer = os.read(self.fd, 1024)
+            self.buffer = self.read()
             if not self.buffer:
                 self.eof = True
                 self.destroy()
@@ -189,6 +198,7 @@ class InputHandler(IOHandler):
     async def __anext__(self):
         if self.buffer is None:
             if self.eof:
+                if self.exception is not None: raise self.exception
                 if self.at_eof: await self.at_eof()
                 raise StopAsyncIteration
             future = self.future = asyncio.get_event_loop().create_future()
@@ -213,7 +223,7 @@ class LineInputHandler(InputHandler):
 
     def handle_event(self, event):
         if b'\n' not in self.buffer:
-            read_data = os.read(self.fd, 1024)
+            read_data = self.read()
             self.buffer += read_data
             if not read_data:
                 self.eof = True
@@ -231,6 +241,7 @@ class LineInputHandler(InputHandler):
             await future
         if not self.buffer:
             assert self.eof
+            if self.exception is not None: raise self.exception
             if self.at_eof: await self.at_eof()
             raise StopAsyncIteration
         if b'\n' not in self.buffer:
-- 
2.43.0


From 23143621710f92cc51f23bf6527ae70012dd930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 21/51] fix: reading can go on after a read that was cancelled

---
 pieshell/iterio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index a06c015..5c537e2 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -189,7 +189,9 @@ class InputHandler(IOHandler):
                 self.eof = True
                 self.destroy()
         if self.future is not None:
-            self.future.set_result(None)
+            # The reader can have been cancelled
+            if not self.future.done():
+                self.future.set_result(None)
             self.future = None
 
     def __aiter__(self):
@@ -229,7 +231,8 @@ class LineInputHandler(InputHandler):
                 self.eof = True
                 self.destroy()
             if self.future is not None:
-                self.future.set_result(None)
+                if not self.future.done():
+                    self.future.set_result(None)
                 self.future = None
 
     def __aiter__(self):
-- 
2.43.0


From 9fd72be26ca39c21c5deed3bc45c282f177b734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 22/51] fix: any number of tasks can wait for the same pipeline

---
 pieshell/pipeline/running.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index eed7438..b9c796a 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -91,8 +91,12 @@ class RunningPipeline(object):
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
-                    future = self.finish_future = asyncio.get_event_loop().create_future()
-                    await future
+                    # Shared by everyone that waits, so not to be
+                    # cancelled when one of them is
+                    if self.finish_future is None:
+                        self.finish_future = asyncio.get_event_loop().create_future()
+                    future = self.finish_future
+                    await asyncio.shield(future)
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
             if self.pipeline_suspended:
@@ -101,7 +105,8 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            stop_signal_handler.current_pipeline = None
+            if stop_signal_handler.current_pipeline is self:
+                stop_signal_handler.current_pipeline = None
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From 67452fc3647736e78eb80909e5f88838ecfc090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 23/51] fix: suspending a pipeline ends the waiting for it

---
 pieshell/pipeline/running.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index b9c796a..b76fc91 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -84,6 +84,10 @@ class RunningPipeline(object):
         self.pipeline_suspended = True
         for process in self.processes:
             process.suspend()
+        # Whoever waits should know
+        if self.finish_future is not None:
+            self.finish_future.set_result(None)
+            self.finish_future = None
     async def wait(self):
         try:
             if self.pipeline._env._interactive:
-- 
2.43.0


From 72375a455683a43de68f2b2f62d92e41c846637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 24/51] fix: close the input of a function when the function
 ends

---
 pieshell/pipeline/function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index e14921d..1f92a18 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -84,10 +84,10 @@ class Function(base.Pipeline):
                 return str(x).encode("utf-8")
 
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
+        stdin = None
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            thing = thing(
-                iterio.LineInputHandler(redirects.stdin.open(False), usage=self),
-                *self._arg, **self._kw)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            thing = thing(stdin, *self._arg, **self._kw)
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
@@ -108,6 +108,10 @@ class Function(base.Pipeline):
                 redirects.stdout.open(False),
                 thing,
                 usage=self))
+        if stdin is not None:
+            # Whoever writes to a function that has ended should get to know
+            self._running_process.iohandler.done_future.add_done_callback(
+                lambda future: stdin.destroy())
         self._running_processes = [self._running_process]
         self._redirects = self._running_process.redirects = redirects
 
-- 
2.43.0


From 99e882b99beb150ec529a6b33ff94b910bcf43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 25/51] fix: tell which pipeline a keyboard interrupt was for

---
 pieshell/pipeline/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index a7590e6..76df87c 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -161,7 +161,18 @@ class Pipeline(DescribableObject):
         return pipeline
     
     def run_interactive(self):
-        return asyncio.get_event_loop().run_until_complete(self.async_run_interactive())
+        pipeline = self.run()
+        loop = asyncio.get_event_loop()
+        task = loop.create_task(pipeline.wait())
+        try:
+            loop.run_until_complete(task)
+        except running.PipelineError:
+            raise
+        except KeyboardInterrupt:
+            # Raised by the loop, not within the task
+            task.cancel()
+            raise running.PipelineInterrupted(pipeline)
+        return pipeline
         
     def __pos__(self):
         return self.run_interactive()
-- 
2.43.0


From 2d2f25159fd154edaafec85192370bd6b6fd5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 26/51] fix: fg of a pipeline that fails or is suspended again
 returns

---
 pieshell/pipeline/builtins.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index f248e90..761b82a 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -57,15 +57,24 @@ class BgBuiltin(builtin.Builtin):
 class RunnningFg(running.BaseRunningItem):
     def __init__(self, pipeline):
         self.wrapped_pipeline = pipeline
+        self.suspended = False
         asyncio.get_event_loop().create_task(self.await_finish())
     @property
     def is_running(self):
-        return self.wrapped_pipeline.is_running
+        return self.wrapped_pipeline.is_running and not self.suspended
     @property
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
     async def await_finish(self):
-        await self.wrapped_pipeline.wait()
+        try:
+            await self.wrapped_pipeline.wait()
+        except running.PipelineSuspended:
+            # Back to being a background job
+            self.suspended = True
+            self.running_pipeline.suspend()
+        except running.PipelineFailed:
+            # Reported through is_failed
+            pass
         self.running_pipeline.handle_finish()
     
 class FgBuiltin(builtin.Builtin):
-- 
2.43.0


From e5d322aebf86338db1ff8687793723ba706f3a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 27/51] fix: import the environment variables of a bash script
 whatever their values are

---
 pieshell/pipeline/builtins.py | 65 +++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 761b82a..0055307 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -1,7 +1,6 @@
 import os
 import os.path
-import shlex
-import io
+import re
 import asyncio
 import sys
 import base64
@@ -108,38 +107,46 @@ class ClearDirCacheBuiltin(builtin.Builtin):
         except:
             return []
 
-def parse_declares(data):
-    l = shlex.shlex(io.StringIO(data), posix=True)
-
-    l.whitespace_split = True
+def parse_value(data, pos):
+    """Parses a value as quoted by the declare builtin of bash. Returns
+    the value and the position after it."""
+    if data.startswith('"', pos):
+        match = re.compile(r'"((?:[^"\\]|\\.)*)"', re.DOTALL).match(data, pos)
+        if match:
+            return re.sub(r'\\(["\\$`])', r'\1', match.group(1)), match.end()
+    elif data.startswith("$'", pos):
+        match = re.compile(r"\$'((?:[^'\\]|\\.)*)'", re.DOTALL).match(data, pos)
+        if match:
+            value = re.sub(r"(\\\\)|\\[eE]", lambda m: m.group(1) or r"\033", match.group(1))
+            return value.encode("latin-1", "backslashreplace").decode("unicode_escape"), match.end()
+    match = re.compile(r"[^\n]*").match(data, pos)
+    return match.group(0), match.end()
 
-    lastlineno = 1
-    line = []
-    lines = []
+def parse_declares(data):
+    vars = {}
+    pos = 0
+    declare = re.compile(r"declare -\S+ ([^=\s]+)(=?)")
+    # All variables come before the first function
     while True:
-        if l.lineno != lastlineno:
-            lines.append((lastlineno, line))
-            line = []
-        lastlineno = l.lineno
-        token = l.get_token()
-        if token is None:
+        match = declare.match(data, pos)
+        if match is None:
             break
-        line.append(token)
+        value, pos = "", match.end()
+        if match.group(2):
+            value, pos = parse_value(data, pos)
+        vars[match.group(1)] = value
+        pos = (data.find("\n", pos) + 1) or len(data)
 
-    vars = {}
+    lines = data[pos:].split("\n")
     funcstarts = []
-    for (lineno, line) in lines:
-        if line[0] == "declare":
-            name = line[2]
-            if "=" in name:
-                name, value = name.split("=", 1)
-            else:
-                value = ""
-            vars[name] = value
-        elif len(line) == 3 and line[1] == '()' and line[2] == '{':
-            funcstarts.append((lineno, line[0]))
-
-    lines = data.split("\n")
+    for lineno in range(1, len(lines)):
+        # The end of what is before the function
+        if lineno > 1 and not lines[lineno - 2].startswith(("}", "declare -")):
+            continue
+        match = re.match(r"(\S+) \(\) *$", lines[lineno - 1])
+        if match and lines[lineno].strip() == "{":
+            funcstarts.append((lineno, match.group(1)))
+
     funcs = {}
     for i in range(len(funcstarts)):
         if i >= len(funcstarts) - 1:
-- 
2.43.0


From 2a034b2017a242355167ee8e4f9d32197f740412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 28/51] fix: iterating over a pipeline whose output is
 redirected yields nothing

---
 pieshell/pipeline/running.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index b76fc91..7eeaed9 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -72,10 +72,16 @@ class RunningPipeline(object):
         # Just in case all the processes have already terminated...
         # They could have been blindingly fast after all :)
         self.handle_finish()
+    def _stdout_pipe(self):
+        fd = self.pipeline._redirects.stdout.pipe
+        if not isinstance(fd, int):
+            # The output has been redirected to somewhere else
+            fd = os.open("/dev/null", os.O_RDONLY)
+        return fd
     def __aiter__(self):
-        return iterio.LineInputHandler(self.pipeline._redirects.stdout.pipe, usage=self, at_eof=self.wait).__aiter__()
+        return iterio.LineInputHandler(self._stdout_pipe(), usage=self, at_eof=self.wait).__aiter__()
     def iterbytes(self):
-        return iterio.InputHandler(self.pipeline._redirects.stdout.pipe, usage=self, at_eof=self.wait)
+        return iterio.InputHandler(self._stdout_pipe(), usage=self, at_eof=self.wait)
     def restart(self):
         self.pipeline_suspended = False
         for process in self.processes:
-- 
2.43.0


From 9b34bd390f27ef729892e160ae18ba3e3a446138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 29/51] fix: leave nothing behind of a pipeline that could not
 be started

---
 pieshell/pipeline/base.py     |  9 ++++++-
 pieshell/pipeline/command.py  |  7 ++---
 pieshell/pipeline/function.py | 50 ++++++++++++++++++++---------------
 pieshell/pipeline/group.py    |  9 +++----
 pieshell/pipeline/pipe.py     | 13 ++++-----
 pieshell/pipeline/redirect.py | 10 ++++---
 pieshell/pipeline/running.py  | 15 +++++++++++
 pieshell/redir.py             | 34 +++++++++++++++++++++---
 8 files changed, 103 insertions(+), 44 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 76df87c..1709a89 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -148,7 +148,14 @@ class Pipeline(DescribableObject):
             redirects.borrow()
         with copy.copy_session() as sess:
             self = copy.deepcopy(self)
-            processes = self._run(redirects, sess)
+            with running.collect_items() as started:
+                try:
+                    processes = self._run(redirects, sess)
+                except:
+                    # Follow what has been started already to its end
+                    if started:
+                        running.RunningPipeline(started, self).remove_output_files()
+                    raise
         pipeline = running.RunningPipeline(processes, self)
         self._env.last_pipeline = pipeline
         if not pipeline.finished:
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 84714cd..8aac1f1 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -218,10 +218,11 @@ class Command(command.BaseCommand):
         redirects = redirects.make_pipes()
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
 
-        args = self._arg_list(redirects, sess, indentation)
-        log.log(indentation + "222Running %s with %s" % (repr(self), repr(redirects)), "cmd")
+        with redirects.removed_on_failure():
+            args = self._arg_list(redirects, sess, indentation)
+            log.log(indentation + "222Running %s with %s" % (repr(self), repr(redirects)), "cmd")
 
-        pid = os.fork()
+            pid = os.fork()
         if pid == 0:
             ecode = -1
             try:
diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 1f92a18..a612382 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -85,29 +85,35 @@ class Function(base.Pipeline):
 
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         stdin = None
-        if isinstance(thing, (types.FunctionType, types.MethodType)):
-            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
-            thing = thing(stdin, *self._arg, **self._kw)
+        with redirects.removed_on_failure():
+            try:
+                if isinstance(thing, (types.FunctionType, types.MethodType)):
+                    stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+                    thing = thing(stdin, *self._arg, **self._kw)
 
-        if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
-            if isinstance(thing, types.CoroutineType):
-                unwrapped = thing
-                async def wrapper():
-                    th = await unwrapped
-                    yield th
-                thing = wrapper()
-            else:
-                thing = [thing]
-        if hasattr(thing, "__iter__"):
-            thing = itertoasync(thing)
-        thing = convert(thing)
-            
-        self._running_process = running.RunningFunction(
-            self,
-            iterio.LineOutputHandler(
-                redirects.stdout.open(False),
-                thing,
-                usage=self))
+                if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
+                    if isinstance(thing, types.CoroutineType):
+                        unwrapped = thing
+                        async def wrapper():
+                            th = await unwrapped
+                            yield th
+                        thing = wrapper()
+                    else:
+                        thing = [thing]
+                if hasattr(thing, "__iter__"):
+                    thing = itertoasync(thing)
+                thing = convert(thing)
+
+                self._running_process = running.RunningFunction(
+                    self,
+                    iterio.LineOutputHandler(
+                        redirects.stdout.open(False),
+                        thing,
+                        usage=self))
+            except:
+                if stdin is not None:
+                    stdin.destroy()
+                raise
         if stdin is not None:
             # Whoever writes to a function that has ended should get to know
             self._running_process.iohandler.done_future.add_done_callback(
diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index c1aed13..1a68b7a 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -37,15 +37,14 @@ class Group(base.Pipeline):
         base.Pipeline._run(self, redirects, sess, indentation)
 
         # Both sides share one pipe
-        redirects = redir.Redirects(*[
-            redirect.make_pipe() if redirect.source is redir.PIPE else redirect
-            for redirect in redirects.redirects.values()])
+        redirects = redirects.make_pipes(redir.PIPE)
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
-        a = self.a._run(child_redirects, sess, indentation + "  ")
-        b = self.b._run(child_redirects, sess, indentation + "  ")
+        with redirects.removed_on_failure():
+            a = self.a._run(child_redirects, sess, indentation + "  ")
+            b = self.b._run(child_redirects, sess, indentation + "  ")
 
         self._redirects = self.a._redirects.merge(self.b._redirects)
         for redirect in redirects.redirects.values():
diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 95f6884..cc4d441 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -41,12 +41,13 @@ class Pipe(base.Pipeline):
         child_redirects.borrow()
 
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
-        src = self.src._run(redir.Redirects(child_redirects).redirect("stdout", redir.PIPE), sess, indentation + "  ")
-        stdin = self.src._redirects.stdout.pipe
-        if not isinstance(stdin, int):
-            # The output of src goes somewhere else
-            stdin = "/dev/null"
-        dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", stdin), sess, indentation + "  ")
+        with redirects.removed_on_failure():
+            src = self.src._run(redir.Redirects(child_redirects).redirect("stdout", redir.PIPE), sess, indentation + "  ")
+            stdin = self.src._redirects.stdout.pipe
+            if not isinstance(stdin, int):
+                # The output of src goes somewhere else
+                stdin = "/dev/null"
+            dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", stdin), sess, indentation + "  ")
 
         self._redirects = self.src._redirects.merge(self.dst._redirects)
         self._redirects.register(redir.Redirect(self.src._redirects.stdin))
diff --git a/pieshell/pipeline/redirect.py b/pieshell/pipeline/redirect.py
index aa20540..8e79329 100644
--- a/pieshell/pipeline/redirect.py
+++ b/pieshell/pipeline/redirect.py
@@ -42,9 +42,11 @@ class CmdRedirect(base.Pipeline):
         cmd_redirects = redir.Redirects(self.cmd_redirects)
         cmd_redirects.borrow()
 
-        res = self.pipeline._run(redirects.merge(cmd_redirects), sess, indentation + "  ")
-        for fd in cmd_redirects.redirects:
-            if fd in redirects.redirects:
-                redirects.redirects[fd].close_source_fd()
+        try:
+            res = self.pipeline._run(redirects.merge(cmd_redirects), sess, indentation + "  ")
+        finally:
+            for fd in cmd_redirects.redirects:
+                if fd in redirects.redirects:
+                    redirects.redirects[fd].close_source_fd()
         self._redirects = self.pipeline._redirects
         return res
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 7eeaed9..ab47a6e 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -7,6 +7,7 @@ import uuid
 import code
 import traceback
 import threading
+import contextlib
 import signal
 import operator
 import re
@@ -181,6 +182,18 @@ class RunningPipeline(object):
         else:
             pass
         
+items_state = threading.local()
+
+@contextlib.contextmanager
+def collect_items():
+    """Yields a list of the items started within the context."""
+    outer = getattr(items_state, "items", None)
+    items_state.items = []
+    try:
+        yield items_state.items
+    finally:
+        items_state.items = outer
+
 class BaseRunningItem(object):
     is_running = False
     is_failed = False
@@ -207,6 +220,8 @@ class RunningItem(BaseRunningItem):
         self.cmd = cmd
         self.iohandler = iohandler
         self.output_content = {}
+        if getattr(items_state, "items", None) is not None:
+            items_state.items.append(self)
         asyncio.get_event_loop().create_task(self.await_finish())
     async def await_finish(self):
         try:
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 4b4f711..0916635 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -6,6 +6,7 @@ import tempfile
 import uuid
 import code
 import threading
+import contextlib
 
 from .utils import pipe
 from . import log
@@ -135,6 +136,11 @@ class Redirect(object):
             return type(self)(self.fd, sourcefd, self.flag, self.mode, self.source(path=pipefd))
         else:
             return self
+    def remove_pipe(self):
+        if isinstance(self.pipe, int):
+            os.close(self.pipe)
+        else:
+            os.unlink(self.pipe.path)
 
     def __repr__(self):
         flagmode = []
@@ -161,6 +167,7 @@ class Redirect(object):
 class Redirects(object):
     def __init__(self, *redirects, **kw):
         self.redirects = {}
+        self.made = []
         for redirect in redirects:
             if isinstance(redirect, Redirects):
                 for item in redirect.redirects.values():
@@ -194,9 +201,30 @@ class Redirects(object):
                       for redirect in self.redirects.values()
                       if isinstance(redirect.source, int)]
                    + [2]) + 1
-    def make_pipes(self):
-        return type(self)(*[redirect.make_pipe()
-                            for redirect in self.redirects.values()])
+    def make_pipes(self, *sources):
+        """Returns a copy with all pipes and temporary files (or only the
+        ones for the specified sources) made."""
+        redirects = type(self)(self)
+        with redirects.removed_on_failure():
+            for fd, redirect in self.redirects.items():
+                if sources and redirect.source not in sources: continue
+                made = redirect.make_pipe()
+                if made is not redirect:
+                    redirects.redirects[fd] = made
+                    redirects.made.append(made)
+        return redirects
+    @contextlib.contextmanager
+    def removed_on_failure(self):
+        """If whatever these redirects are for fails to start, close the
+        source fds, and remove the pipes and temporary files that
+        were made for it."""
+        try:
+            yield
+        except:
+            self.close_source_fds()
+            for redirect in self.made:
+                redirect.remove_pipe()
+            raise
     def move_existing_fds(self):
         new_fd = self.find_free_fd()
         redirects = []
-- 
2.43.0


From cbe4b44be301d269d0f9de2ec95fe0fd658baee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 30/51] fix: a file name can be given as the default
 redirection of an environment

---
 pieshell/redir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 0916635..51be32a 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -268,7 +268,7 @@ class Redirects(object):
     def _coerce(cls, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, str):
             thing = Redirect(direction, thing)
         if isinstance(thing, Redirect):
             thing = Redirects(thing)
-- 
2.43.0


From 9566d2562ac4a2aea7a99a5591226acf5f81aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 31/51] fix: default redirections set in an environment do not
 appear in the one it was copied from

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 75b8671..dfcc61d 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -121,7 +121,7 @@ class Environment(object):
         if interactive is None:
             interactive = self._interactive
         if redirects is None:
-            redirects = self._redirects
+            redirects = redir.Redirects(self._redirects)
         res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
         if cwd is not None:
             res._cd(cwd)
-- 
2.43.0


From 61e6fb284265614591295ed12c8ec465152eed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 32/51] fix: source bash scripts whatever characters are in
 their names

---
 pieshell/pipeline/builtins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 0055307..068a7ba 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -5,6 +5,7 @@ import asyncio
 import sys
 import base64
 import pickle
+import shlex
 
 from . import command
 from . import builtin
@@ -168,7 +169,7 @@ class BashSource(builtin.Builtin):
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
-                args.append("source '%s'" % (exp,))
+                args.append("source %s" % (shlex.quote(exp),))
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-- 
2.43.0


From cbc82c52c3802ee26bde968d499de6662cbedcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 33/51] fix: end a pipeline normally even if a file of captured
 output is gone

---
 pieshell/pipeline/running.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index ab47a6e..67325bf 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -243,8 +243,13 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path, encoding="utf-8", errors="backslashreplace", newline="") as f:
-                self.output_content[fd] = f.read()
+            try:
+                with open(redirect.pipe.path, encoding="utf-8", errors="backslashreplace", newline="") as f:
+                    self.output_content[fd] = f.read()
+            except FileNotFoundError:
+                # Removed with the command we are an argument of, as
+                # that one could not be started
+                pass
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
             if not isinstance(redirect.pipe, redir.STRING): continue
-- 
2.43.0


From b3adea9910586e5164359fad5f360dfeb442cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 34/51] fix: the error of a failed fg can be shown

---
 pieshell/pipeline/builtins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 068a7ba..ee30ff4 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -76,6 +76,12 @@ class RunnningFg(running.BaseRunningItem):
             # Reported through is_failed
             pass
         self.running_pipeline.handle_finish()
+    def __repr__(self, display_output=False):
+        res = "fg(%r)" % (self.wrapped_pipeline,)
+        if display_output:
+            for proc in self.wrapped_pipeline.failed_processes:
+                res += "\n%s" % (proc.__repr__(display_output=True),)
+        return res
     
 class FgBuiltin(builtin.Builtin):
     """Continue running the last pipeline in the background.
-- 
2.43.0


From e84315edc5031bbc3e1bc2450b42e8f55b001012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 35/51] fix: a subshell ends after everything started in it has
 ended

---
 pieshell/pipeline/builtins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index ee30ff4..66e8e02 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -214,6 +214,9 @@ class SubShell(command.Command, builtin.Builtin):
             if isinstance(e, running.PipelineError):
                 # The last command can have ended well when another one failed
                 sys.exit(e.pipeline.exit_code or 1)
+            # Follow what has been started already to its end
+            loop = asyncio.get_event_loop()
+            loop.run_until_complete(asyncio.gather(*asyncio.all_tasks(loop), return_exceptions=True))
             sys.exit(1)
         sys.exit(0)
 
-- 
2.43.0


From d7c2abbf4e3857ae086e8e187dd5ff53edd00154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 36/51] fix: waiting for a pipeline ends even if its captured
 output cannot be read

---
 pieshell/pipeline/running.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 67325bf..7765f02 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -246,9 +246,10 @@ class RunningItem(BaseRunningItem):
             try:
                 with open(redirect.pipe.path, encoding="utf-8", errors="backslashreplace", newline="") as f:
                     self.output_content[fd] = f.read()
-            except FileNotFoundError:
+            except OSError:
                 # Removed with the command we are an argument of, as
-                # that one could not be started
+                # that one could not be started, or the system
+                # refuses to open it. The pipeline has ended anyway.
                 pass
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
-- 
2.43.0


From 890ed2f80864f979c0c4d2f0ca7a9746960b1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 37/51] fix: when waiting for a pipeline returns, its captured
 output is there

---
 pieshell/pipeline/running.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 7765f02..4025c1e 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -113,6 +113,8 @@ class RunningPipeline(object):
             if self.pipeline_suspended:
                 self.suspend()
                 raise PipelineSuspended(self)
+            # All has ended, but this might not have been handled yet
+            self.handle_finish()
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-- 
2.43.0


From ad946b7d850c92927f82c94a060c642a1c647261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 38/51] fix: what has been run in an environment does not
 hinder sending its pipelines to a remote shell

---
 pieshell/environ.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index dfcc61d..5441bb2 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -193,9 +193,11 @@ class Environment(object):
     def __getstate__(self):
         def mangle(k, v):
             if k == "_scope": return None
-            if k == "last_pipeline": return v.pipeline
+            # What is running here is not running where this is unpickled
+            if k == "running_pipelines": return type(v)()
             return v
-        return {k: mangle(k, v) for k, v in self.__dict__.items()}
+        return {k: mangle(k, v) for k, v in self.__dict__.items()
+                if k != "last_pipeline"}
 
 env = Environment()
 
-- 
2.43.0


From 1aa75e69bb57f9c1238e2a2ea3ebb1cccba7158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 39/51] fix: a pipeline with an R() argument can be unpickled

---
 pieshell/environ.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 5441bb2..afa30df 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -20,6 +20,8 @@ class R(object):
     def __init__(self, str):
         self.str = str
     def __getattr__(self, name):
+        # Not there yet while being unpickled
+        if name == "str": raise AttributeError(name)
         return getattr(self.str, name)
     def __iter__(self):
         return iter(self.str)
-- 
2.43.0


From 10bfd73f6b5dd8e092ef9792786916d6d85a739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 40/51] fix: a pipe shared with another process does not block
 the shell

---
 pieshell/iterio.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 5c537e2..25c4bf7 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -1,6 +1,8 @@
 import os
+import fcntl
 import select
 import signal
+import stat
 import errno
 from . import log
 import asyncio
@@ -15,6 +17,22 @@ def events_to_str(events):
 
 
 
+def unshare_pipe(fd):
+    """Other processes can be using the same end of a pipe, and can take
+    the data or the room poll() has promised, so reading and writing
+    must not block. The flag for that belongs to what is shared with
+    them, so give fd an opening of the pipe of its own."""
+    try:
+        if not stat.S_ISFIFO(os.fstat(fd).st_mode): return
+        mode = fcntl.fcntl(fd, fcntl.F_GETFL) & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
+        own = os.open("/dev/fd/%s" % fd, mode | os.O_NONBLOCK)
+        try:
+            os.dup2(own, fd, False)
+        finally:
+            os.close(own)
+    except OSError as e:
+        log.log("NOT UNSHARED %s: %s" % (fd, e), "ioreg")
+
 class IOHandler(object):
     events = 0
     def __init__(self, fd, borrowed = False, usage = None):
@@ -23,6 +41,7 @@ class IOHandler(object):
         self.enabled = True
         self.usage = usage
         self.destroyed = False
+        if not borrowed: unshare_pipe(fd)
         self.enable()
     def handle_event(self, event):
         pass
@@ -113,12 +132,15 @@ class OutputHandler(IOHandler):
         return self.iter
             
     def write_pending(self):
-        # The fd is a blocking one, so write only what poll() promises
+        # The fd can be a blocking one, so write only what poll() promises
         # room for, and keep the rest until there is room again.
         poll = select.poll()
         poll.register(self.fd, select.POLLOUT)
         if self.pending and poll.poll(0):
-            written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+            try:
+                written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+            except BlockingIOError:
+                return # Someone else took that room
             self.pending = self.pending[written:]
 
     async def send_output(self):
@@ -177,6 +199,8 @@ class InputHandler(IOHandler):
     def read(self):
         try:
             return os.read(self.fd, 1024)
+        except BlockingIOError:
+            return None # Someone else took the data
         except OSError as e:
             # There is nothing more to be had, but whoever reads should know why
             self.exception = e
@@ -185,6 +209,7 @@ class InputHandler(IOHandler):
     def handle_event(self, event):
         if self.buffer is None:
             self.buffer = self.read()
+            if self.buffer is None: return
             if not self.buffer:
                 self.eof = True
                 self.destroy()
@@ -226,6 +251,7 @@ class LineInputHandler(InputHandler):
     def handle_event(self, event):
         if b'\n' not in self.buffer:
             read_data = self.read()
+            if read_data is None: return
             self.buffer += read_data
             if not read_data:
                 self.eof = True
-- 
2.43.0


From 811b839d0ec10e2e866e15c136a4c1501ff7bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 41/51] fix: Ctrl-Z does not make a subshell abandon what it
 runs

---
 pieshell/pipeline/builtins.py | 1 +
 pieshell/pipeline/running.py  | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 66e8e02..e8a7d2c 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -207,6 +207,7 @@ class SubShell(command.Command, builtin.Builtin):
         os.chdir(self._env._cwd)
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
+        running.stop_signal_handler.in_subshell = True
         try:
             self._arg[1].run_interactive()
         except Exception as e:
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 4025c1e..93ea4f5 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -28,11 +28,16 @@ except:
     psutil = None
 
 class StopSignalHandler(signalio.SignalHandler):
+    in_subshell = False
     def __init__(self):
         self.current_pipeline = None
         signalio.SignalHandler.__init__(self, {"ssi_signo": signal.SIGTSTP})
     def handle_event(self, event):
-        if self.current_pipeline is not None:
+        if self.current_pipeline is not None and self.in_subshell:
+            # A subshell is suspended and resumed as a whole by the shell
+            # that started it, what it runs must just not stay stopped
+            self.current_pipeline.restart()
+        elif self.current_pipeline is not None:
             self.current_pipeline.pipeline_suspended = True
             if self.current_pipeline.finish_future is not None:
                 self.current_pipeline.finish_future.set_result(None)
-- 
2.43.0


From 70e89a67f8e1d2d9de91f255772e6148003e1d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 42/51] fix: Ctrl-Z during fg suspends the pipeline it has
 brought to the foreground

---
 pieshell/pipeline/builtins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index e8a7d2c..ecab9a6 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -76,6 +76,8 @@ class RunnningFg(running.BaseRunningItem):
             # Reported through is_failed
             pass
         self.running_pipeline.handle_finish()
+    def suspend(self):
+        self.wrapped_pipeline.suspend()
     def __repr__(self, display_output=False):
         res = "fg(%r)" % (self.wrapped_pipeline,)
         if display_output:
-- 
2.43.0


From 1a4e90c980f253c997263b3cb80fd9b3a5bacdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:19 +0000
Subject: [PATCH 43/51] fix: interrupted start of a pipeline must not run its
 own internals as a command

The running process was told where its redirects are only after it had been
created.  An interrupt in between made the look up build, and run, the
command "<program> _redirects redirects items".
---
 pieshell/pipeline/command.py  | 7 ++++---
 pieshell/pipeline/function.py | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 8aac1f1..f417379 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -240,14 +240,15 @@ class Command(command.BaseCommand):
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
+        # The running process looks for these here
+        self._pid = pid
+        self._redirects = redirects
         self._running_process = running.RunningProcess(self, pid)
+        self._running_process.redirects = redirects
         self._running_processes.append(self._running_process)
 
         redirects.close_source_fds()
 
-        self._pid = pid
-        self._redirects = self._running_process.redirects = redirects
-
         return self._running_processes
 
     def _complete(self):
diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index a612382..00ebe7e 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -104,6 +104,8 @@ class Function(base.Pipeline):
                     thing = itertoasync(thing)
                 thing = convert(thing)
 
+                # The running function looks for these here
+                self._redirects = redirects
                 self._running_process = running.RunningFunction(
                     self,
                     iterio.LineOutputHandler(
@@ -119,7 +121,7 @@ class Function(base.Pipeline):
             self._running_process.iohandler.done_future.add_done_callback(
                 lambda future: stdin.destroy())
         self._running_processes = [self._running_process]
-        self._redirects = self._running_process.redirects = redirects
+        self._running_process.redirects = redirects
 
         redirects.close_source_fds()
 
-- 
2.43.0


From a2198377993996bf99a200159b686a57252e2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:23 +0000
Subject: [PATCH 44/51] fix: Ctrl-C at the end of a pipeline must not stop the
 event loop the next time it is run

When the interrupt came just after the pipeline had ended, but before the
loop had handled this, the scheduled stop of the loop was left for the next
run of it: the next pipeline failed with "Event loop stopped before Future
completed".
---
 pieshell/pipeline/base.py    |  7 ++-----
 pieshell/utils/asyncutils.py | 23 +++++++++++++++++++++--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 1709a89..5310bf5 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -18,7 +18,7 @@ import slugify
 import pathlib
 
 from ..utils import copy
-from ..utils.asyncutils import asyncitertoiter
+from ..utils.asyncutils import asyncitertoiter, run_until_complete
 from .. import redir
 from .. import log
 from . import running
@@ -169,15 +169,12 @@ class Pipeline(DescribableObject):
     
     def run_interactive(self):
         pipeline = self.run()
-        loop = asyncio.get_event_loop()
-        task = loop.create_task(pipeline.wait())
         try:
-            loop.run_until_complete(task)
+            run_until_complete(pipeline.wait())
         except running.PipelineError:
             raise
         except KeyboardInterrupt:
             # Raised by the loop, not within the task
-            task.cancel()
             raise running.PipelineInterrupted(pipeline)
         return pipeline
         
diff --git a/pieshell/utils/asyncutils.py b/pieshell/utils/asyncutils.py
index 001d8b3..6aed4d5 100644
--- a/pieshell/utils/asyncutils.py
+++ b/pieshell/utils/asyncutils.py
@@ -1,12 +1,31 @@
 import asyncio
 import types
 
-def asyncitertoiter(aitf):
+def run_until_complete(awaitable):
+    """Runs the event loop until awaitable is done. If that is
+    interrupted by Ctrl-C, awaitable is cancelled."""
     loop = asyncio.get_event_loop()
+    task = asyncio.ensure_future(awaitable, loop=loop)
+    try:
+        return loop.run_until_complete(task)
+    except BaseException as e:
+        task.cancel()
+        while isinstance(e, KeyboardInterrupt):
+            # If the task was done by now, stopping the loop is already
+            # scheduled, and must not be left for when it is run again
+            loop.call_soon(loop.stop)
+            try:
+                loop.run_forever()
+            except KeyboardInterrupt:
+                continue
+            break
+        raise
+
+def asyncitertoiter(aitf):
     def it():
         while True:
             try:
-                yield loop.run_until_complete(aitf.__anext__())
+                yield run_until_complete(aitf.__anext__())
             except StopAsyncIteration:
                 return
     return iter(it())
-- 
2.43.0


From 8f9f661975a0cc91e8285567c8f892a10a347c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:23 +0000
Subject: [PATCH 45/51] fix: whoever stops reading a pipeline's output lets go
 of it

Leaving a loop over a pipeline, or interrupting it with Ctrl-C, left the
pipe open for ever: the programs writing to it were blocked for ever, and
neither their processes nor the descriptor were ever released.
---
 pieshell/utils/asyncutils.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pieshell/utils/asyncutils.py b/pieshell/utils/asyncutils.py
index 6aed4d5..70b6868 100644
--- a/pieshell/utils/asyncutils.py
+++ b/pieshell/utils/asyncutils.py
@@ -23,12 +23,21 @@ def run_until_complete(awaitable):
 
 def asyncitertoiter(aitf):
     def it():
-        while True:
-            try:
-                yield run_until_complete(aitf.__anext__())
-            except StopAsyncIteration:
-                return
-    return iter(it())
+        try:
+            yield # So that there is something to be left
+            while True:
+                try:
+                    value = run_until_complete(aitf.__anext__())
+                except StopAsyncIteration:
+                    return
+                yield value
+        finally:
+            # Whoever feeds it should get to know that nobody reads any more
+            if hasattr(aitf, "destroy"):
+                aitf.destroy()
+    res = it()
+    next(res)
+    return res
 
 class itertoasync(object):
     def __init__(self, it):
-- 
2.43.0


From f40e0ee097bc8fccf0425ab60cbf88b33443988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 46/51] fix: Ctrl-C within a Python stage's own code ends the
 stage

The stage was gone, but neither counted as ended nor closed its output:
whoever read that waited for ever, and so did every wait for the pipeline.
---
 pieshell/iterio.py           | 8 ++++++++
 pieshell/pipeline/running.py | 5 +++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 25c4bf7..c0d5bb4 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -158,6 +158,10 @@ class OutputHandler(IOHandler):
             self.destroy()
         except Exception as e:
             self.destroy(e)
+        except (KeyboardInterrupt, SystemExit) as e:
+            # That was the end of the iterator too
+            self.destroy(e)
+            raise
 
     def _repr_args(self):
         args = IOHandler._repr_args(self)
@@ -184,6 +188,10 @@ class LineOutputHandler(OutputHandler):
             self.destroy()
         except Exception as e:
             self.destroy(e)
+        except (KeyboardInterrupt, SystemExit) as e:
+            # That was the end of the iterator too
+            self.destroy(e)
+            raise
 
 class InputHandler(IOHandler):
     events = select.POLLIN | select.POLLHUP | select.POLLERR
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 93ea4f5..2d2af59 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -233,9 +233,10 @@ class RunningItem(BaseRunningItem):
     async def await_finish(self):
         try:
             await self.iohandler.wait()
-        except Exception:
+        except BaseException as e:
             # Reported through is_failed / failed_processes
-            pass
+            if not isinstance(e, Exception) and e is not self.iohandler.exception:
+                raise
         self.running_pipeline.handle_finish()
     @property
     def is_running(self):
-- 
2.43.0


From 4cc47e7ca1ec3555e32a792722c723ae3111eedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:44 +0000
Subject: [PATCH 47/51] fix: looking at a pipeline of a builtin that has been
 run must not run it once more

---
 pieshell/pipeline/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 5310bf5..0054101 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -148,6 +148,9 @@ class Pipeline(DescribableObject):
             redirects.borrow()
         with copy.copy_session() as sess:
             self = copy.deepcopy(self)
+            # Not all builtins do this, and what has been run should not
+            # be run once more just as someone looks at it
+            self._started = True
             with running.collect_items() as started:
                 try:
                     processes = self._run(redirects, sess)
-- 
2.43.0


From eedbc97eeb5f872d6f25f4b5f036415d139c17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:57 +0000
Subject: [PATCH 48/51] fix: a function stage can return an asynchronous
 iterable that is no iterator

---
 pieshell/pipeline/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 00ebe7e..4241048 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -102,7 +102,8 @@ class Function(base.Pipeline):
                         thing = [thing]
                 if hasattr(thing, "__iter__"):
                     thing = itertoasync(thing)
-                thing = convert(thing)
+                # What can be iterated over need not be an iterator itself
+                thing = convert(thing).__aiter__()
 
                 # The running function looks for these here
                 self._redirects = redirects
-- 
2.43.0


From 57513a988d6855c1dfd1a93a0053fe6aa21957dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:13 +0000
Subject: [PATCH 49/51] fix: a pipeline that cannot be started must not leave
 the ends of pipes open that nobody got

---
 pieshell/pipeline/base.py    |  5 ++++-
 pieshell/pipeline/command.py |  2 ++
 pieshell/pipeline/pipe.py    |  1 +
 pieshell/redir.py            | 24 +++++++++++++++++++++++-
 4 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 0054101..e360f6a 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -151,10 +151,13 @@ class Pipeline(DescribableObject):
             # Not all builtins do this, and what has been run should not
             # be run once more just as someone looks at it
             self._started = True
-            with running.collect_items() as started:
+            with running.collect_items() as started, redir.collect_pipes() as pipes:
                 try:
                     processes = self._run(redirects, sess)
                 except:
+                    # Nobody will be told about these
+                    for fd in pipes:
+                        os.close(fd)
                     # Follow what has been started already to its end
                     if started:
                         running.RunningPipeline(started, self).remove_output_files()
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index f417379..09e4293 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -200,6 +200,8 @@ class Command(command.BaseCommand):
             sess,
             indentation + "  ")
 
+        # Closed together with everything else that we have
+        redir.take_pipe(getattr(thing._redirects, direction).pipe)
         fd = redirects.find_free_fd()
         redirects.redirect(
             fd,
diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index cc4d441..8b01f93 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -47,6 +47,7 @@ class Pipe(base.Pipeline):
             if not isinstance(stdin, int):
                 # The output of src goes somewhere else
                 stdin = "/dev/null"
+            redir.take_pipe(stdin)
             dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", stdin), sess, indentation + "  ")
 
         self._redirects = self.src._redirects.merge(self.dst._redirects)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 51be32a..da91005 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -39,6 +39,26 @@ class SpecialRedirect(object):
             ",".join(("%s=%s" % (name, value)
                       for name, value in self.kws.items())))
 
+# The ends of pipes made, which nobody has taken care of yet
+pipes_state = threading.local()
+
+@contextlib.contextmanager
+def collect_pipes():
+    """Yields the set of those other ends of the pipes made within the
+    context, that have not been closed or taken."""
+    outer = getattr(pipes_state, "pipes", None)
+    pipes_state.pipes = set()
+    try:
+        yield pipes_state.pipes
+    finally:
+        pipes_state.pipes = outer
+
+def take_pipe(fd):
+    """From now on someone will see to it that fd gets closed."""
+    if getattr(pipes_state, "pipes", None) is not None:
+        pipes_state.pipes.discard(fd)
+    return fd
+
 class PIPE(SpecialRedirect): pass
 class TMP(SpecialRedirect): pass
 class STRING(TMP): pass
@@ -128,6 +148,8 @@ class Redirect(object):
                 sourcefd, pipefd = wfd, rfd
             else:
                 pipefd, sourcefd = wfd, rfd
+            if getattr(pipes_state, "pipes", None) is not None:
+                pipes_state.pipes.add(pipefd)
             return type(self)(self.fd, sourcefd, self.flag, self.mode, pipefd)
         elif isinstance(self.source, type) and issubclass(self.source, (TMP, STRING)):
             if not (self.flag & os.O_WRONLY):
@@ -138,7 +160,7 @@ class Redirect(object):
             return self
     def remove_pipe(self):
         if isinstance(self.pipe, int):
-            os.close(self.pipe)
+            os.close(take_pipe(self.pipe))
         else:
             os.unlink(self.pipe.path)
 
-- 
2.43.0


From 51e2f6580ebb442e21581d142c6dc9aa739d918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:34 +0000
Subject: [PATCH 50/51] fix: a Python stage must end with any exception, also
 with one that is no Exception

---
 pieshell/iterio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index c0d5bb4..4fc73ab 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -158,7 +158,7 @@ class OutputHandler(IOHandler):
             self.destroy()
         except Exception as e:
             self.destroy(e)
-        except (KeyboardInterrupt, SystemExit) as e:
+        except BaseException as e:
             # That was the end of the iterator too
             self.destroy(e)
             raise
@@ -188,7 +188,7 @@ class LineOutputHandler(OutputHandler):
             self.destroy()
         except Exception as e:
             self.destroy(e)
-        except (KeyboardInterrupt, SystemExit) as e:
+        except BaseException as e:
             # That was the end of the iterator too
             self.destroy(e)
             raise
-- 
2.43.0


From 8646c8305d6971f420be8aa248d47908e0af2427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:01 +0000
Subject: [PATCH 51/51] fix: a change of directory that fails must not change
 the environment's directory

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index afa30df..cb3cf83 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -100,9 +100,9 @@ class Environment(object):
         cwd = self._expand_path(cwd)
         if not os.path.exists(cwd):
             raise IOError("Path does not exist: %s" % cwd)
-        self._cwd = cwd
         if self._interactive:
             os.chdir(cwd)
+        self._cwd = cwd
         return self
     def __call__(self, cwd = None, exports = None, interactive = None, redirects = None):
         """Creates a new environment based on the current ones. All
-- 
2.43.0

