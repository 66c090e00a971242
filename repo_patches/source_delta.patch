From 824078db7c3d32592f4af1397a3ba98da4260312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 01/39] fix: detect distrusted revisions so that backups force
 chunk writes

---
 src/backy/repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2513762..b282a9b 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -254,7 +254,7 @@ class Repository(object):
     def contains_distrusted(self) -> bool:
         return any(
             (
-                r == Trust.DISTRUSTED
+                r.trust == Trust.DISTRUSTED
                 for r in self.get_history(clean=True, local=True)
             )
         )
-- 
2.43.0


From c2cba4bbbf1cf8f5e1d8be3a5727df742b73c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 02/39] fix: file source gc must not delete the metadata of
 known revisions

---
 src/backy/file/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 768c0cb..a4c7337 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -74,8 +74,7 @@ class FileSource(Source[FileRestoreArgs]):
     def gc(self):
         files = set(self.repository.path.glob("*.rev"))
         expected_files = set(
-            (self.repository.path / r.uuid)
-            for r in self.repository.get_history()
+            r.info_filename for r in self.repository.get_history()
         )
         for file in files - expected_files:
             file.unlink()
-- 
2.43.0


From 8c0f1ee1aa1246452e4209bc567d9124f25299c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 03/39] fix: hold the repository lock while a locked coroutine
 runs

---
 src/backy/repository.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b282a9b..b596e64 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -1,6 +1,7 @@
 import contextlib
 import datetime
 import fcntl
+import inspect
 import re
 from math import ceil, floor
 from pathlib import Path
@@ -144,16 +145,25 @@ class Repository(object):
         repo_attr: Optional[str] = None,
     ):
         def wrap(f):
+            def get_repo(self):
+                return getattr(self, repo_attr) if repo_attr else self
+
             def locked_function(self, *args, skip_lock=False, **kw):
                 if skip_lock:
                     return f(self, *args, **kw)
-                if repo_attr:
-                    repo = getattr(self, repo_attr)
-                else:
-                    repo = self
-                with repo.lock(target, mode, f.__name__):
+                with get_repo(self).lock(target, mode, f.__name__):
                     return f(self, *args, **kw)
 
+            async def locked_coroutine(self, *args, skip_lock=False, **kw):
+                if skip_lock:
+                    return await f(self, *args, **kw)
+                # Keep the lock until the coroutine has finished.
+                with get_repo(self).lock(target, mode, f.__name__):
+                    return await f(self, *args, **kw)
+
+            if inspect.iscoroutinefunction(f):
+                locked_function = locked_coroutine
+
             locked_function.__name__ = "locked({}, {})".format(
                 f.__qualname__, target
             )
-- 
2.43.0


From 04f13264c3df2c59d77d16e054827c8bf13c7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 04/39] fix: do not remove completed revisions based on a stale
 history

---
 src/backy/repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b596e64..9685bd6 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -305,6 +305,8 @@ class Repository(object):
     @locked(target=".backup", mode="exclusive")
     def _clean(self) -> None:
         """Clean-up incomplete revisions."""
+        # The history might have changed before we acquired the lock.
+        self.scan()
         for revision in self.local_history:
             if "duration" not in revision.stats:
                 self.log.warning(
-- 
2.43.0


From e1d7fae13ca1001740b96583ff4714f229b502c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 05/39] fix: rbd gc must not purge chunks based on a stale
 history

---
 src/backy/rbd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 86d6a7b..0a0f7f3 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -255,6 +255,8 @@ class RBDSource(Source[RBDRestoreArgs]):
     @locked(target=".purge", mode="exclusive")
     def gc(self) -> None:
         self.log.debug("purge")
+        # The history might have changed before we acquired the lock.
+        self.repository.scan()
         used_chunks: Set[Hash] = set()
         # TODO: also remove mapping file
         # TODO: purge quarantine store
-- 
2.43.0


From be1ccf4143312e2f517667d230d96a63786a570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 06/39] fix: accept the date of the oldest revision in revision
 ranges

---
 src/backy/repository.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 9685bd6..625461e 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -466,9 +466,10 @@ class Repository(object):
             spec, list
         ), "can only index a single revision specifier"
         if isinstance(spec, str):
-            return self.index_by_date(spec) or self.history.index(
-                self.find(spec)
-            )
+            index = self.index_by_date(spec)
+            if index is None:
+                index = self.history.index(self.find(spec))
+            return index
         else:
             return self.history.index(spec)
 
@@ -490,7 +491,6 @@ class Repository(object):
                 0,
                 len(self.history),
             )
-            print(spec, L, r)
             assert 0 <= r - L <= 1, (
                 "can not index with date if multiple revision have the same "
                 "timestamp"
-- 
2.43.0


From 409a65e3865d75b25a5fe0f1778d3fed31ec822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 07/39] fix: delete problem reports by their actual file name

---
 src/backy/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 48c1d72..f2f3408 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -343,7 +343,7 @@ class Command(object):
         else:
             ids = reports.split(",")
         for id in ids:
-            path = repo.report_path.joinpath(id).with_suffix("report")
+            path = repo.report_path.joinpath(id).with_suffix(".report")
             path.unlink()
             log.info("report-deleted", id=id)
 
-- 
2.43.0


From ef8df9ef92e6f7f484b24ff38a448bdac7e28f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 08/39] fix: continue cleaning snapshot requests after removing
 garbage

---
 src/backy/rbd/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 0a0f7f3..1e5547a 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -472,6 +472,7 @@ class CephRBD:
                         snapshot_key=key,
                     )
                     del consul.kv[key]
+                    continue
                 if s["vm"] != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
-- 
2.43.0


From aa0f7702f7822f7f92838e2b341e63e825fb9555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 09/39] fix: ignore peers without this job when looking for the
 leader

---
 src/backy/daemon/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 9fea1d6..c361f5c 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -127,6 +127,9 @@ class Job(object):
                         exc_style="short",
                     )
                     continue
+                if not status:
+                    log.debug("job-unknown-on-server")
+                    continue
                 num_remote_revs = status[0]["local_revs"]
                 log.info("duplicate-job", remote_revs=num_remote_revs)
                 if num_remote_revs > leader_revs:
-- 
2.43.0


From c1adf9c69bcf65a3e865719812e7a6cda72085a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 10/39] fix: sync backup data before marking the revision as
 complete

---
 src/backy/rbd/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 1e5547a..4f65046 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -166,6 +166,9 @@ class RBDSource(Source[RBDRestoreArgs]):
             revision.remove()
         else:
             self.log.info("verification-ok", revision_uuid=revision.uuid)
+            # The data needs to be on disk before the revision is considered
+            # to be complete.
+            os.sync()
             revision.stats["duration"] = time.time() - start
             revision.write_info()
             revision.readonly()
-- 
2.43.0


From 440670fd90f326329c8d297c27c851e74d8f1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 11/39] fix: a peer that times out does not abort pull and push

aiohttp reports an exceeded total timeout as asyncio.TimeoutError which is
no ClientError: one hanging peer aborted exchanging metadata with all peers
and let the whole backup round fail.
---
 src/backy/daemon/scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index c361f5c..0fc6501 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -406,7 +406,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -421,7 +421,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-purge-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-purge-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -470,7 +470,7 @@ class Job(object):
                 log.warning("pull-client-error", exc_style="short")
                 error = True
             remote_revs = []
-        except ClientConnectionError:
+        except (ClientConnectionError, asyncio.TimeoutError):
             log.warning("pull-connection-error", exc_style="short")
             return True
         except ClientError:
-- 
2.43.0


From cada916e7c8909c69a2699afa10af7915179a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 12/39] fix: match the exact job name when asking peers for its
 status

---
 src/backy/daemon/scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 0fc6501..6e9379b 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -2,6 +2,7 @@ import asyncio
 import datetime
 import hashlib
 import random
+import re
 import subprocess
 from collections import defaultdict
 from datetime import timedelta
@@ -108,8 +109,9 @@ class Job(object):
         api = None
         try:
             api = ClientManager(self.daemon.peers, self.taskid, self.log)
+            job_filter = f"^{re.escape(self.name)}$"
             statuses = await asyncio.gather(
-                *[api[server].fetch_status(f"^{self.name}$") for server in api],
+                *[api[server].fetch_status(job_filter) for server in api],
                 return_exceptions=True,
             )
             leader = None
@@ -167,7 +169,7 @@ class Job(object):
                     log.info("run-immediately-triggered")
                     return False
                 try:
-                    res = (await api[leader].fetch_status(f"^{self.name}$"))[0]
+                    res = (await api[leader].fetch_status(job_filter))[0]
                 except ClientError:
                     log.warning("leader-failed", exc_style="short")
                     return False
-- 
2.43.0


From 78fb25a10e61b091aa09e21e2f407573a54475cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 13/39] fix: process pending purges of backups without a
 configured job

---
 src/backy/daemon/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 34ba879..7707104 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -21,6 +21,7 @@ from backy import logging
 from backy.repository import Repository, StatusDict
 from backy.revision import filter_manual_tags
 from backy.schedule import Schedule
+from backy.source import AsyncCmdLineSource
 from backy.utils import has_recent_changes, is_dir_no_symlink
 
 from .api import BackyAPI
@@ -322,7 +323,16 @@ class BackyDaemon(object):
                     ):
                         continue
                     self.log.info("purging-pending", job=candidate.name)
-                    await Job(self, candidate.name, self.log).run_gc()
+                    try:
+                        job = Job(self, candidate.name, self.log)
+                        # The job is not configured (any longer): use the
+                        # source configuration stored with the backup.
+                        job.source = AsyncCmdLineSource.load(job.path, job.log)
+                        await job.run_gc()
+                    except Exception:
+                        self.log.exception(
+                            "purge-pending", job=candidate.name
+                        )
                 self.log.info("purge-pending-finished")
             except Exception:
                 self.log.exception("purge-pending")
-- 
2.43.0


From 3f066713d642dbe83498ba8db16e2aa199e682ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 14/39] fix: pass the current revisions to the backup-completed
 callback

---
 src/backy/daemon/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 6e9379b..4ce7661 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -314,6 +314,8 @@ class Job(object):
             return
 
         self.log.info("callback-started")
+        # Revisions pulled from other servers are not part of the history yet.
+        self.repository.scan()
         status = yaml.safe_dump(
             [r.to_dict() for r in self.repository.history]
         ).encode("utf-8")
-- 
2.43.0


From fd4f772a930e62fc897a9f020a328caba50b28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 15/39] fix: a changed schedule reaches the stored
 configuration of its jobs

---
 src/backy/daemon/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 7707104..05c5c70 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -131,6 +131,9 @@ class BackyDaemon(object):
                 job.stop()
                 job.configure(config)
                 job.start()
+            else:
+                # The definition of the schedule might have changed.
+                job.source.store()
 
         for name, job in list(self.jobs.items()):
             if name not in self.config["jobs"]:
-- 
2.43.0


From 7c5fc4ac1aef9e960e3a647d50e72dc1c1107d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 16/39] fix: notice backups that are shorter than their source

If 'rbd export' fails half way through, then the stream just ends and the
revision misses the rest of the image. The sampled comparison only noticed
that if one of the missing blocks was sampled by chance.
---
 src/backy/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index d4c8fa2..362d0ca 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -397,6 +397,13 @@ def files_are_roughly_equal(
     blocklist = range(0, max(blocks, 1))
     sample = random.sample(blocklist, max(int(samplesize * blocks), 1))
 
+    # If one of the files was cut short, then they always differ in the block
+    # where the shorter one ends.
+    b.seek(0, os.SEEK_END)
+    size_b = b.tell()
+    if size_b != size:
+        sample.insert(0, min(size, size_b) // blocksize)
+
     # turn off readahead
     try:
         for fdesc in a.fileno(), b.fileno():
-- 
2.43.0


From 58a68fab6b6cf57dcf80d8f782e6ad690702c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 17/39] fix: verify must not purge the chunks of a running
 backup

Verification ends with a garbage collection, but it only held a shared purge
lock, like backups do. Chunks a concurrent backup had stored but not yet
recorded in its mapping were removed, leaving a completed revision that can
not be read.
---
 src/backy/rbd/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 4f65046..2c9288b 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -191,7 +191,9 @@ class RBDSource(Source[RBDRestoreArgs]):
                 break
         return verified
 
-    @locked(target=".purge", mode="shared")
+    # This collects garbage in the end, which would remove the fresh chunks of
+    # a backup that is running at the same time.
+    @locked(target=".purge", mode="exclusive")
     @report_status
     def verify(self, revision: Revision):
         log = self.log.bind(revision_uuid=revision.uuid)
-- 
2.43.0


From 4594023c81c30e7e0b504d7d4e3ae38966852106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 18/39] fix: remove the temporary file if writing a file safely
 fails

---
 src/backy/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index 362d0ca..1363afc 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -113,6 +113,17 @@ class SafeFile(object):
         return self
 
     def __exit__(self, exc_type=None, exc_value=None, exc_tb=None):
+        try:
+            self._finish(exc_type)
+        except BaseException:
+            # Flushing, syncing or renaming failed: the original is unchanged,
+            # do not leave the temporary file behind.
+            if self.f is not None and self.rename:
+                with contextlib.suppress(OSError):
+                    os.unlink(self.f.name)
+            raise
+
+    def _finish(self, exc_type):
         # Error handling:
         # - if we're based on temporary files, we simply unlink
         #   and haven't changed the original
-- 
2.43.0


From bd0d333c3951f144bf280bf57886f87b67956b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 19/39] fix: do not fail to convert a chunk store with
 left-over temporary files

---
 src/backy/rbd/chunked/store.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/chunked/store.py b/src/backy/rbd/chunked/store.py
index 18d310b..2581341 100644
--- a/src/backy/rbd/chunked/store.py
+++ b/src/backy/rbd/chunked/store.py
@@ -1,3 +1,4 @@
+import errno
 from pathlib import Path
 from typing import Iterable, Set
 
@@ -46,7 +47,13 @@ class Store(object):
             path.rename(new)
         for path in self.path.glob("*/??"):
             if path.is_dir():
-                path.rmdir()
+                try:
+                    path.rmdir()
+                except OSError as e:
+                    # Interrupted writes may have left temporary files here.
+                    if e.errno != errno.ENOTEMPTY:
+                        raise
+                    self.log.warning("to-v2-not-empty", path=str(path))
         with self.path.joinpath("store").open("wb") as f:
             f.write(b"v2")
         self.log.info("to-v2-finished")
-- 
2.43.0


From 811028ba1b388617d2a95184d44e96bcf3f9343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 20/39] fix: distrust does not revert changes made since the
 history was read

---
 src/backy/repository.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 625461e..7039d6f 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -359,7 +359,12 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def distrust(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        uuids = [r.uuid for r in revs]
+        # The history might have changed before we acquired the lock.
+        self.scan()
+        for r in self.history:
+            if r.uuid not in uuids:
+                continue
             assert not r.server
             r.distrust()
             r.write_info()
-- 
2.43.0


From c673921ded4c3f66f7bd3ff07d121ed79cdeca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 21/39] fix: verify does not revert changes made while it was
 checking

---
 src/backy/rbd/__init__.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 2c9288b..ace2851 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -239,14 +239,19 @@ class RBDSource(Source[RBDRestoreArgs]):
 
         yield
 
+        # The metadata might have changed while we were checking.
+        self.repository.scan()
         # TODO: move this to cli/daemon?
-        if errors:
-            # Found any issues? Delete this revision as we can't trust it.
-            revision.remove()
-        else:
-            # No problems found - mark as verified.
-            revision.verify()
-            revision.write_info()
+        for r in self.repository.history[:]:
+            if r.uuid != revision.uuid:
+                continue
+            if errors:
+                # Found any issues? Delete this revision as we can't trust it.
+                r.remove()
+            else:
+                # No problems found - mark as verified.
+                r.verify()
+                r.write_info()
 
         yield
 
-- 
2.43.0


From ef06a31657c27b1dcb52a503153cd204645954c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 22/39] fix: push the current changes, not those of a stale
 history

---
 src/backy/daemon/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 4ce7661..64dcbd9 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -365,6 +365,8 @@ class Job(object):
 
     @locked(target=".backup", mode="exclusive")
     async def push_metadata(self) -> int:
+        # The history might have changed before we acquired the lock.
+        self.repository.scan()
         grouped = defaultdict(list)
         for r in self.repository.clean_history:
             if r.pending_changes:
-- 
2.43.0


From 0917b64b4a380e205c09129c90d6a5b690c228f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:24 +0000
Subject: [PATCH 23/39] fix: report failure if a verification was killed by a
 signal

---
 src/backy/cli/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index f2f3408..6ed7cf7 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -280,7 +280,8 @@ class Command(object):
         # TODO support multiple repos
         ret = 0
         for r in self.source.repository.find_revisions(revision):
-            ret = max(ret, self.source.verify(r))
+            # Processes that ended by a signal have a negative return code.
+            ret = max(ret, self.source.verify(r), key=abs)
         return ret
 
     def rm(self, repo: Repository, revision: str) -> None:
-- 
2.43.0


From 915017bacbea0024164a617a1e64d7c0080cca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:24 +0000
Subject: [PATCH 24/39] fix: report failure of the garbage collection

---
 src/backy/cli/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 6ed7cf7..8a2ef0c 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -99,7 +99,7 @@ class Command(object):
                         r = await r
                     if not isinstance(r, int):
                         r = 0
-                    ret = max(ret, r)
+                    ret = max(ret, r, key=abs)
             elif (
                 "repos" in params
                 and params["repos"].annotation == List[Repository]
@@ -312,7 +312,7 @@ class Command(object):
         )
         return int(not success)
 
-    def gc(self, repo: Repository, expire: bool, local: bool) -> None:
+    def gc(self, repo: Repository, expire: bool, local: bool) -> int:
         if expire and not local:
             assert False  # request pull from daemon
             # XXX needs to update from remote API peers first (pull)
@@ -321,7 +321,7 @@ class Command(object):
             repo.expire()
         if expire and not local:
             assert False  # request push from daemon
-        self.source.gc()
+        return self.source.gc()
 
     def reports_list(self, repo: Repository):
         for id in repo.report_ids:
-- 
2.43.0


From 3a8c8912103e35a9349dc022dca51549bf3466f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 25/39] fix: do not lose a reload while the API is being
 reconfigured

---
 src/backy/daemon/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 05c5c70..dd95206 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -251,10 +251,11 @@ class BackyDaemon(object):
             await api.start()
             while True:
                 self.log.info("api-reconfigure")
+                # Do not lose a reload that happens in the meantime.
+                self.reload_api.clear()
                 await api.reconfigure(
                     self.api_tokens, self.api_addrs, self.api_port
                 )
-                self.reload_api.clear()
                 await self.reload_api.wait()
         except Exception:
             self.log.exception("api_server_loop")
-- 
2.43.0


From 83baca62fd219e5db0efa8af5aca839334708ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 26/39] fix: show-jobs without a job filter

---
 src/backy/cli/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 8a2ef0c..fab541e 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -398,11 +398,13 @@ class Command(object):
             "Next Tags",
         )
 
-        jobs = await self.api.fetch_status(self.jobs)
+        jobs = [
+            j
+            for j in await self.api.fetch_status(self.jobs or "")
+            if j["job"] in repo_names
+        ]
         jobs.sort(key=lambda j: j["job"])
         for job in jobs:
-            if job["job"] not in repo_names:
-                continue
             overdue = (
                 humanize.naturaldelta(job["sla_overdue"])
                 if job["sla_overdue"]
-- 
2.43.0


From 81b280390bbdeb005af2cd7c56bee5c29cfab09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 27/39] fix: accept any output of the callback

---
 src/backy/daemon/scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 64dcbd9..c96db1d 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -333,8 +333,8 @@ class Job(object):
                 "callback-finished",
                 return_code=callback_proc.returncode,
                 subprocess_pid=callback_proc.pid,
-                stdout=stdout.decode() if stdout else None,
-                stderr=stderr.decode() if stderr else None,
+                stdout=stdout.decode(errors="replace") if stdout else None,
+                stderr=stderr.decode(errors="replace") if stderr else None,
             )
         except asyncio.CancelledError:
             self.log.warning(
-- 
2.43.0


From 1f82bc0509b28ad37248ce99e278f06bec0da842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 28/39] fix: logging problems do not fail operations

---
 src/backy/logging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/logging.py b/src/backy/logging.py
index ccf30de..bd70d29 100644
--- a/src/backy/logging.py
+++ b/src/backy/logging.py
@@ -110,7 +110,11 @@ class MultiOptimisticLogger:
         for name, logger in self.loggers.items():
             line = messages.get(name)
             if line:
-                logger.msg(line)
+                try:
+                    logger.msg(line)
+                except Exception:
+                    # There is no better place to report this.
+                    pass
 
     def __getattr__(self, name):
         return self.msg
-- 
2.43.0


From 50f428e559a808bd7ed49d444fab57e36f5ab66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 29/39] fix: unmap the device if it cannot be opened

---
 src/backy/rbd/rbd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index f53cee1..1d6bbbc 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -153,11 +153,10 @@ class RBDClient(object):
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
         mapped = self.map(image, readonly=True)
-        source = open(mapped["device"], "rb", buffering=CHUNK_SIZE)
         try:
-            yield source
+            with open(mapped["device"], "rb", buffering=CHUNK_SIZE) as source:
+                yield source
         finally:
-            source.close()
             self.unmap(mapped["device"])
 
     @contextlib.contextmanager
-- 
2.43.0


From daa4e61d216cf901552e8e763f9eb211b56309b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 30/39] fix: tolerate revisions that are removed while scanning

---
 src/backy/repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 7039d6f..a43284d 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -224,7 +224,11 @@ class Repository(object):
             if f.is_symlink():
                 # Ignore links that are used to create readable pointers
                 continue
-            r = Revision.load(f, self, self.log)
+            try:
+                r = Revision.load(f, self, self.log)
+            except FileNotFoundError:
+                # Someone else removed the revision in the meantime.
+                continue
             if r.uuid not in self._by_uuid:
                 self._by_uuid[r.uuid] = r
                 self.history.append(r)
-- 
2.43.0


From 9e38510c8f9eda81a6900bc500b66b24c8949fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 31/39] fix: default base-dir to /srv/backy as documented

---
 src/backy/daemon/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index dd95206..a5ca903 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -33,7 +33,7 @@ daemon: "BackyDaemon"
 class BackyDaemon(object):
     # config defaults, will be overriden from config file
     worker_limit: int = 1
-    base_dir: Path
+    base_dir: Path = Path("/srv/backy")
     backup_completed_callback: Optional[Path]
     api_addrs: List[str]
     api_port: int = 6023
@@ -78,7 +78,7 @@ class BackyDaemon(object):
 
         g = self.config.get("global", {})
         self.worker_limit = int(g.get("worker-limit", type(self).worker_limit))
-        self.base_dir = Path(g.get("base-dir"))
+        self.base_dir = Path(g.get("base-dir", type(self).base_dir))
         callback = g.get("backup-completed-callback")
         self.backup_completed_callback = Path(callback) if callback else None
 
-- 
2.43.0


From fc8550d4c196b76665819085fff7a1e93bf50f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 32/39] fix: valid default URL for IPv6 API addresses

---
 src/backy/daemon/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index a5ca903..fc1229f 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -97,9 +97,11 @@ class BackyDaemon(object):
             and self.api_port
             and "url" not in self.api_cli_default
         ):
-            self.api_cli_default[
-                "url"
-            ] = f"http://{self.api_addrs[0]}:{self.api_port}"
+            host = self.api_addrs[0]
+            if ":" in host:
+                # IPv6 addresses need brackets in URLs.
+                host = f"[{host}]"
+            self.api_cli_default["url"] = f"http://{host}:{self.api_port}"
 
         new = {}
         for name, config in self.config["schedules"].items():
-- 
2.43.0


From 2e95d2424b23fde491e014a12c79f7d98e5e3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 33/39] fix: do not modify state in a dry run

---
 src/backy/cli/__init__.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index fab541e..3345159 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -69,6 +69,17 @@ class Command(object):
     path: Path
     config: Path
     dry_run: bool
+
+    # Commands that do not modify state and thus are fine in a dry run.
+    READ_ONLY = {
+        "rev_parse",
+        "log_",
+        "reports_list",
+        "reports_show",
+        "check",
+        "show_jobs",
+        "show_daemon",
+    }
     jobs: Optional[str]
     log: BoundLogger
 
@@ -90,6 +101,13 @@ class Command(object):
         self.log.debug("call", func=cmdname, func_args=kwargs)
         try:
             func = getattr(self, cmdname)
+            if self.dry_run and cmdname not in self.READ_ONLY:
+                self.log.warning(
+                    "dry-run",
+                    _fmt_msg="Dry run: '{func}' would modify state, skipping.",
+                    func=cmdname,
+                )
+                return 0
             params = inspect.signature(func).parameters
             ret = 0
             if "repo" in params and params["repo"].annotation == Repository:
-- 
2.43.0


From fb25d6e798eb35ae645a635e4e45b2e3630c8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 34/39] fix: refuse to distrust remote revisions

---
 src/backy/repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index a43284d..8e4141a 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -363,6 +363,8 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def distrust(self, revs: Iterable[Revision]) -> None:
+        revs = list(revs)
+        self.prevent_remote_rev(revs)
         uuids = [r.uuid for r in revs]
         # The history might have changed before we acquired the lock.
         self.scan()
-- 
2.43.0


From 5bde6da7360edcde08ee72a44dfe64c2383e80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:51 +0000
Subject: [PATCH 35/39] fix: scan problem reports even if revisions are
 unreadable

---
 src/backy/repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 8e4141a..eb3292a 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -81,8 +81,8 @@ class Repository(object):
     def connect(self):
         self.path.mkdir(exist_ok=True)
         self.report_path.mkdir(exist_ok=True)
-        self.scan()
         self.scan_reports()
+        self.scan()
 
     def to_dict(self) -> dict[str, Any]:
         return {
-- 
2.43.0


From 94765e7180735bf7bd728025a6fa68fa8d08be1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:51 +0000
Subject: [PATCH 36/39] fix: a damaged repository does not break the status of
 other jobs

---
 src/backy/daemon/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index fc1229f..ddb52e7 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -355,7 +355,11 @@ class BackyDaemon(object):
         for job in list(self.jobs.values()):
             if filter_re and not filter_re.search(job.name):
                 continue
-            job.repository.scan()
+            try:
+                job.repository.scan()
+            except Exception:
+                # This must not affect the status of other jobs.
+                self.log.exception("status-scan-failed", job_name=job.name)
             manual_tags = set()
             unsynced_revs = 0
             history = job.repository.clean_history
-- 
2.43.0


From e162760b76c307df91e575987b0cb0c360edfa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:51 +0000
Subject: [PATCH 37/39] fix: a damaged repository does not stop the daemon or
 its own job for good

---
 src/backy/daemon/scheduler.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index c96db1d..37745f2 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -62,7 +62,11 @@ class Job(object):
         repository = Repository(
             self.path, self.daemon.schedules[config["schedule"]], self.log
         )
-        repository.connect()
+        try:
+            repository.connect()
+        except Exception:
+            # This must not affect other jobs. Our loop will try again.
+            self.log.exception("connect-failed")
         self.source = AsyncCmdLineSource(repository, config["source"], self.log)
         self.source.store()
         self.last_config = config
@@ -210,11 +214,19 @@ class Job(object):
             self.repository.log = self.repository.log.bind(
                 job_name=self.name, sub_taskid=self.taskid
             )
-            self.repository.connect()
-
-            next_time, next_tags = self.schedule.next(
-                backy.utils.now(), self.spread, self.repository
-            )
+            try:
+                self.repository.connect()
+                next_time, next_tags = self.schedule.next(
+                    backy.utils.now(), self.spread, self.repository
+                )
+            except Exception:
+                self.log.exception("prepare-failed")
+                self.update_status("failed")
+                # Someone needs to repair the repository, so there is no
+                # need to hurry.
+                await backy.utils.delay_or_event(3600, self.run_immediately)
+                self.run_immediately.clear()
+                continue
 
             if self.errors:
                 # We're retrying - do not pay attention to the schedule but
-- 
2.43.0


From fec2f8cc72a50c14c9bb48bce295cfe91e4a764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:46 +0000
Subject: [PATCH 38/39] fix: one directory that fails does not keep the others
 from being purged

---
 src/backy/daemon/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index ddb52e7..f82e197 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -303,11 +303,15 @@ class BackyDaemon(object):
                         continue
                     self.log.debug("purge-candidate", candidate=candidate.path)
                     reference_time = time.time() - 3 * 31 * 24 * 60 * 60
-                    if not await has_recent_changes(
-                        candidate.path, reference_time
-                    ):
-                        self.log.info("purging", candidate=candidate.path)
-                        await aioshutil.rmtree(candidate)
+                    try:
+                        if not await has_recent_changes(
+                            candidate.path, reference_time
+                        ):
+                            self.log.info("purging", candidate=candidate.path)
+                            await aioshutil.rmtree(candidate)
+                    except Exception:
+                        # This must not keep the others.
+                        self.log.exception("purge", candidate=candidate.path)
                 self.log.info("purge-finished")
             except Exception:
                 self.log.exception("purge")
-- 
2.43.0


From 02d484f94ae5d01189dd3069ee8132ce79431ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 39/39] fix: remove the temporary file if storing a chunk fails

---
 src/backy/rbd/chunked/chunk.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/backy/rbd/chunked/chunk.py b/src/backy/rbd/chunked/chunk.py
index 04b9aa8..eab4d7d 100644
--- a/src/backy/rbd/chunked/chunk.py
+++ b/src/backy/rbd/chunked/chunk.py
@@ -124,14 +124,19 @@ class Chunk(object):
                 # locality of our change - avoid renaming between multiple
                 # directories to reduce traffic on the directory nodes.
                 fd, tmpfile_name = tempfile.mkstemp(dir=target.parent)
-                posix_fadvise(fd, 0, 0, os.POSIX_FADV_DONTNEED)  # type: ignore
-                with os.fdopen(fd, mode="wb") as f:
-                    data = lzo.compress(self.data.getvalue())
-                    f.write(data)
-                # Micro-optimization: chmod before rename to help against
-                # metadata flushes and then changing metadata again.
-                os.chmod(tmpfile_name, 0o440)
-                os.rename(tmpfile_name, target)
+                try:
+                    posix_fadvise(fd, 0, 0, os.POSIX_FADV_DONTNEED)  # type: ignore
+                    with os.fdopen(fd, mode="wb") as f:
+                        data = lzo.compress(self.data.getvalue())
+                        f.write(data)
+                    # Micro-optimization: chmod before rename to help against
+                    # metadata flushes and then changing metadata again.
+                    os.chmod(tmpfile_name, 0o440)
+                    os.rename(tmpfile_name, target)
+                except BaseException:
+                    # Nobody would ever remove it.
+                    os.unlink(tmpfile_name)
+                    raise
             self.store.seen.add(self.hash)
         self.clean = True
         return self.hash
-- 
2.43.0

