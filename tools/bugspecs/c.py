C = "src/backy/rbd/chunked/"
R = "src/backy/"
BUGS = [
dict(id="c01-gap-after-truncate", property="C01",
 edits=[(C + "file.py",
"""            target = position
            self.seek(self.size)
""",
"""            target = position
            if position // Chunk.CHUNK_SIZE == self.size // Chunk.CHUNK_SIZE:
                # The gap is within the last chunk, which gets padded when it
                # is written to.
                self._position = position
                return position
            self.seek(self.size)
""")],
 needs="seeking beyond the end within the last chunk, after the file was made shorter",
 breaks="the old data reappears in the gap",
 demo="""
from backy.rbd.chunked import Store, File
store = Store(TMP / "s", LOG)
with File(TMP / "a", store) as f:
    f.write(b"abcdefghij")
with File(TMP / "a", store) as f:
    f.truncate(2)
    f.seek(6)
    f.write(b"X")
with File(TMP / "a", store) as f:
    d = f.read()
assert d == b"ab\\0\\0\\0\\0X", d
"""),
dict(id="c02-seen-too-early", property="C02",
 edits=[(C + "chunk.py",
"""        if self.hash not in self.store.seen:
            if self.store.force_writes""",
"""        if self.hash not in self.store.seen:
            self.store.seen.add(self.hash)
            if self.store.force_writes"""),
 (C + "chunk.py",
"""                    raise
            self.store.seen.add(self.hash)
""",
"""                    raise
""")],
 needs="storing a chunk fails, then the same process stores the same content",
 breaks="the second image refers to a chunk that was never stored",
 demo="""
import lzo
from backy.rbd.chunked import Store, File
store = Store(TMP / "s", LOG)
def boom(*a):
    raise OSError(28, "No space left on device")
f = File(TMP / "a", store)
f.write(b"abc")
with mock.patch("lzo.compress", boom):
    try:
        f.close()
    except OSError:
        pass
with File(TMP / "b", store) as f:
    f.write(b"abc")
with File(TMP / "b", Store(TMP / "s", LOG)) as f:
    assert f.read() == b"abc"
"""),
dict(id="c03-link-parent", property="C03",
 edits=[(R + "rbd/__init__.py",
"""                with self._path_for_revision(revision).open(
                    "wb"
                ) as new, self._path_for_revision(parent).open("rb") as old:
                    # This is ok, this is just metadata, not the actual data.
                    new.write(old.read())
""",
"""                # This is ok, this is just metadata, not the actual data.
                os.link(
                    self._path_for_revision(parent),
                    self._path_for_revision(revision),
                )
""")],
 needs="a differential backup",
 breaks="the parent's image changes with the new one",
 demo="""
r = repo()
a, b = rev(r, "a", 0), rev(r, "b", 1)
s = source(r)
with s.open(a, "wb") as f:
    f.write(b"old")
with s.open(b, "wb", a) as f:
    f.write(b"new!")
with s.open(a) as f:
    d = f.read()
assert d == b"old", d
"""),
dict(id="c06-duration-early", property="C06",
 edits=[(R + "rbd/__init__.py",
"""                    else:
                        source.full(file)
                with self.open(revision) as file:
""",
"""                    else:
                        source.full(file)
                revision.stats["duration"] = time.time() - start
                revision.write_info()
                with self.open(revision) as file:
""")],
 needs="a backup that fails or is interrupted while it is verified",
 breaks="the unverified revision counts as complete",
 demo="""
import backy.rbd
r = repo()
new = rev(r, "new", 0, complete=False)
s = source(r)
class Ceph:
    def ready(self): return True
    def __call__(self, r): return self
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def get_parent(self): return None
    def full(self, f): f.write(b"x")
    def verify(self, *a, **kw): raise RuntimeError("device is gone")
s.ceph_rbd = Ceph()
try:
    s.backup(new)
except RuntimeError:
    pass
r.scan()
assert not r.clean_history, "counts as complete"
"""),
dict(id="c22-gc-shared", property="C22",
 edits=[(R + "rbd/__init__.py",
"""    @locked(target=".purge", mode="exclusive")
    def gc(self) -> None:
""",
"""    @locked(target=".purge", mode="shared")
    def gc(self) -> None:
""")],
 needs="a collection while another process makes a backup",
 breaks="chunks of the running backup are removed",
 demo="""
r = repo()
s = source(r)
other = repo()
with other.lock(".purge", "shared", "backup"):
    try:
        s.gc()
    except BlockingIOError:
        sys.exit(0)
assert False, "collected while a backup is running"
"""),
dict(id="c34-gc-clean", property="C34",
 edits=[(R + "file/__init__.py",
"""        files = set(self.repository.path.glob("*.rev"))
        expected_files = set(
""",
"""        files = set(self.repository.path.glob("*.rev"))
        files |= set(
            p
            for p in self.repository.path.iterdir()
            if not p.suffix and not self.repository.path.joinpath(
                p.name + ".rev"
            ).exists() and p.is_file()
        )
        expected_files = set(
""")],
 needs="a repository with further files without a suffix",
 breaks="the configuration of the job is deleted",
 demo="""
import backy.file
r = repo()
(r.path / "config").write_text("x")
(TMP / "f").write_text("x")
s = backy.file.FileSource(r, TMP / "f")
s.gc()
assert (r.path / "config").exists()
"""),
dict(id="c40-slot-leak", property="C40",
 edits=[(R + "daemon/scheduler.py",
"""                    async with self.daemon.backup_semaphores[speed]:
                        self.update_status(f"running ({speed})")

                        self.repository._clean()
                        await self.run_backup(next_tags)
                        self.repository.scan()
                        self.repository._clean()
                        await self.pull_metadata()
                        await self.run_expiry()
                        await self.push_metadata()
                        await self.run_gc()
                        await self.run_callback()
            except""",
"""                    slots = self.daemon.backup_semaphores[speed]
                    await slots.acquire()
                    try:
                        self.update_status(f"running ({speed})")

                        self.repository._clean()
                        await self.run_backup(next_tags)
                        self.repository.scan()
                        self.repository._clean()
                        await self.pull_metadata()
                        await self.run_expiry()
                        await self.push_metadata()
                        await self.run_gc()
                        await self.run_callback()
                    except asyncio.CancelledError:
                        raise
                    except Exception:
                        slots.release()
                        raise
                    else:
                        slots.release()
            except""")],
 needs="a job that is stopped or reconfigured while it makes a backup",
 breaks="its slot is never given back",
 demo="""
import asyncio, backy.daemon, backy.daemon.scheduler, backy.schedule
async def main():
    base = TMP / "base"
    base.mkdir()
    d = backy.daemon.BackyDaemon(TMP / "c", LOG)
    d.base_dir = base
    d.loop = asyncio.get_running_loop()
    d.backup_completed_callback = None
    d.backup_semaphores = {k: asyncio.BoundedSemaphore(1) for k in ("slow", "fast")}
    s = backy.schedule.Schedule()
    s.configure({"daily": {"interval": "1d", "keep": 1}})
    d.schedules["s"] = s
    j = backy.daemon.scheduler.Job(d, "j", LOG)
    j.configure({"source": {"type": "file", "filename": "x"}, "schedule": "s"})
    ev = asyncio.Event()
    async def hang(r):
        ev.set()
        await asyncio.sleep(1000)
    j.source.backup = hang
    j.run_immediately.set()
    j.start()
    await asyncio.wait_for(ev.wait(), 10)
    t = j._task
    j.stop()
    await asyncio.wait([t])
    assert not d.backup_semaphores["slow"].locked(), "slot is lost"
asyncio.run(main())
"""),
dict(id="c41-lock-dropped", property="C41",
 edits=[(R + "daemon/__init__.py",
"""        self._lock = lockfile.open("a+b")
        try:
            fcntl.flock(self._lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
""",
"""        lock = lockfile.open("a+b")
        try:
            fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
""")],
 needs="a second instance that is started while the first one is running",
 breaks="two daemons work on the same backups",
 demo="""
import backy.daemon, gc
base = TMP / "base"
base.mkdir()
def mk():
    d = backy.daemon.BackyDaemon(TMP / "c", LOG)
    d.base_dir = base
    return d
a, b = mk(), mk()
a.lock()
gc.collect()
try:
    b.lock()
except SystemExit:
    sys.exit(0)
assert False, "both run"
"""),
dict(id="c42-known-source", property="C42",
 edits=[(R + "report.py",
"""        chunks_path.mkdir(exist_ok=True)
""",
"""        chunks_path.mkdir(exist_ok=True)
        if (chunks_path / self.source_hash).exists():
            log.debug("store-report-known", hash=self.source_hash)
            return
""")],
 needs="two mismatches with the same content of the source (i.e. zeroes)",
 breaks="the second mismatch is not reported",
 demo="""
from backy.report import ChunkMismatchReport
r = repo()
r.add_report(ChunkMismatchReport(b"\\0" * 10, b"a" * 10, 0))
r.add_report(ChunkMismatchReport(b"\\0" * 10, b"b" * 10, 4096))
r.scan_reports()
assert len(r.report_ids) == 2
"""),
dict(id="c43-match", property="C43",
 edits=[(R + "cli/__init__.py",
"""                if reg.search(job["name"])
""",
"""                if reg.match(job["name"])
""")],
 needs="a filter that matches somewhere else than at the start of the name",
 breaks="jobs that match are left out",
 demo="""
import asyncio, backy.cli
async def main():
    c = backy.cli.Command(TMP, TMP / "x", False, "01$", LOG)
    class Api:
        async def get_jobs(self):
            return [{"name": n, "path": str(TMP / n), "schedule": {}} for n in ("test00", "test01")]
    c.__dict__["api"] = Api()
    (r,) = await c.get_repos()
    assert r.name == "test01"
asyncio.run(main())
"""),
dict(id="c44-falsy-missing", property="C44",
 edits=[(R + "logging.py",
"""        if value is None:
            return self.missing
        try:
            return super().format_field(value, format_spec)
        except ValueError:
            return self.bad_format
""",
"""        if value is None:
            return self.missing
        return super().format_field(value, format_spec)
""")],
 needs="a message with a format that does not fit the value",
 breaks="logging raises an exception",
 demo="""
from backy.logging import PartialFormatter
assert PartialFormatter().format("{x:zz}", x=5) == "<bad format>"
"""),
dict(id="c45-any-pool", property="C45",
 edits=[(R + "rbd/rbd.py",
"""            for mapping in mappings:
                if image == "{pool}/{name}@{snap}".format(**mapping):
                    return mapping
""",
"""            for mapping in mappings:
                if image.endswith("/{name}@{snap}".format(**mapping)):
                    return mapping
""")],
 needs="an image of the same name in another pool with the same snapshot name that is mapped",
 breaks="the other device is read and unmapped",
 demo="""
import backy.rbd.rbd, json
c = backy.rbd.rbd.RBDClient(LOG)
def cli(cmd, *a, **kw):
    if "--version" in cmd: return "ceph version 14 nautilus"
    if "showmapped" in cmd:
        return json.dumps([dict(pool="q", name="i", snap="s", device="/dev/rbd0"), dict(pool="p", name="i", snap="s", device="/dev/rbd1")])
    return ""
c._ceph_cli = cli
assert c.map("p/i@s")["device"] == "/dev/rbd1"
"""),
dict(id="c20-orig-compat", property="C20",
 edits=[(R + "revision.py",
"""        r.orig_tags = set(metadata.get("orig_tags", []))
""",
"""        # Older versions did not store the original tags.
        r.orig_tags = set(metadata.get("orig_tags") or metadata.get("tags", []))
""")],
 needs="a remote revision without tags on its server to which tags were added",
 breaks="the added tags count as the original ones after being read again",
 demo="""
r = repo()
x = rev(r, "a", 0)
x.server = "s1"
x.tags = {"manual:x"}
x.orig_tags = set()
x.write_info()
r.scan()
assert r.find_by_uuid("a").pending_changes
"""),
dict(id="c39-last-verify", property="C39",
 edits=[(R + "cli/__init__.py",
"""                ret = func(repos=await self.get_repos(), **kwargs)
                if asyncio.iscoroutine(ret):
                    ret = await ret
                if not isinstance(ret, int):
                    ret = 0
            else:
""",
"""                ret = func(repos=await self.get_repos(), **kwargs)
                if asyncio.iscoroutine(ret):
                    ret = await ret
                if not isinstance(ret, int) or ret < 0:
                    ret = 0
            else:
""")],
 needs="a backup whose process is killed by a signal",
 breaks="the command reports success",
 demo="""
import backy.cli, backy.source, asyncio, yaml
r = repo()
(r.path / "config").write_text(yaml.safe_dump({"path": str(r.path), "schedule": {}, "source": {"type": "file", "filename": "x"}}))
with mock.patch.object(backy.source.CmdLineSource, "invoke", lambda *a: -9):
    c = backy.cli.Command(r.path, None, False, None, LOG)
    ret = asyncio.run(c("backup", dict(bg=False, tags="manual:a", force=True)))
assert ret != 0, ret
"""),
dict(id="c46-unlink-first", property="C46",
 edits=[(R + "utils.py",
"""            if exc_type is None:
                os.rename(self.f.name, self.filename)
            else:
""",
"""            if exc_type is None:
                if os.path.exists(self.filename):
                    os.unlink(self.filename)
                os.link(self.f.name, self.filename)
                os.unlink(self.f.name)
            else:
""")],
 needs="a process that reads the repository while metadata is rewritten",
 breaks="the reader does not see the revision",
 demo="""
r = repo()
a = rev(r, "a", 0)
def wrap(f):
    def g(*x, **kw):
        assert len(repo().history) == 1
        y = f(*x, **kw)
        assert len(repo().history) == 1
        return y
    return g
a.tags = {"x"}
import os
with mock.patch("os.rename", wrap(os.rename)), mock.patch("os.link", wrap(os.link)), mock.patch("os.unlink", wrap(os.unlink)):
    a.write_info()
"""),
dict(id="c47-limit-text", property="C47",
 edits=[(R + "daemon/__init__.py",
"""        self.worker_limit = int(g.get("worker-limit", type(self).worker_limit))
""",
"""        self.worker_limit = g.get("worker-limit") or type(self).worker_limit
""")],
 needs="a worker limit that is quoted in the configuration file",
 breaks="the daemon can not use the limit",
 demo="""
import backy.daemon
f = TMP / "backy.conf"
f.write_text(yaml.safe_dump({"global": {"base-dir": str(TMP), "worker-limit": "3"}, "schedules": {}, "jobs": {}}))
d = backy.daemon.BackyDaemon(f, LOG)
d._read_config()
assert d.worker_limit == 3, d.worker_limit
"""),
dict(id="c47-explicit-url", property="C47",
 edits=[(R + "daemon/__init__.py",
"""            and "url" not in self.api_cli_default
""",
"""            and ("addrs" in api or "url" not in self.api_cli_default)
""")],
 needs="listen addresses and a client URL that are both configured",
 breaks="the client does not use the configured URL",
 demo="""
import backy.daemon
f = TMP / "backy.conf"
f.write_text(yaml.safe_dump({"global": {"base-dir": str(TMP)}, "schedules": {}, "jobs": {}, "api": {"addrs": "0.0.0.0", "cli-default": {"token": "x", "url": "http://other:1"}}}))
d = backy.daemon.BackyDaemon(f, LOG)
d._read_config()
assert d.api_cli_default["url"] == "http://other:1", d.api_cli_default
"""),
dict(id="c48-all-jobs", property="C48",
 edits=[(R + "cli/__init__.py",
"""    command = Command(args.workdir, args.config, args.dry_run, args.jobs, log)
""",
"""    command = Command(
        args.workdir, args.config, args.dry_run and not args.jobs, args.jobs, log
    )
""")],
 needs="a dry run of a command for several jobs",
 breaks="the command is executed",
 demo="""
import backy.cli
r = repo()
a = rev(r, "a", 0)
seen = []
async def call(self, func, args):
    seen.append(self.dry_run)
    return 0
with mock.patch.object(backy.cli.Command, "__call__", call), mock.patch("sys.argv", ["backy", "-n", "-a", "rm", "-r", "all"]):
    try:
        backy.cli.main()
    except SystemExit:
        pass
assert seen == [True], seen
"""),
dict(id="c49-all-alias", property="C49",
 edits=[(R + "repository.py",
"""            return self.history[:]
        elif token == "clean":
""",
"""            return self.history
        elif token == "clean":
""")],
 needs="the removal of all of several revisions",
 breaks="every second revision is kept",
 demo="""
r = repo()
for i, n in enumerate("abcd"):
    rev(r, n, i)
r = repo()
r.rm(r.find_revisions("all"))
assert repo().history == [], repo().history
"""),
dict(id="c49-backend-lost", property="C49",
 edits=[(R + "rbd/__init__.py",
"""        return ["--backend", self.backend.value, self.target]
""",
"""        if self.target == "-":
            return [self.target]
        return ["--backend", self.backend.value, self.target]
""")],
 needs="a restore to stdout by a backend that is asked for",
 breaks="another backend is used",
 demo="""
import backy.rbd
a = backy.rbd.RBDRestoreArgs("-", backy.rbd.RestoreBackend.PYTHON)
assert list(a.to_cmdargs()) == ["--backend", "python", "-"]
"""),
dict(id="c49-refused-late", property="C49",
 edits=[(R + "repository.py",
"""        remote = [r for r in revs if r.server]
        if remote:
            self.log.error(
""",
"""        remote = [r for r in revs if r.server]
        if remote and len(remote) == len(revs):
            self.log.error(
""")],
 needs="a distrust of local and remote revisions at once",
 breaks="some of the revisions are changed although the command fails",
 demo="""
r = repo()
a = rev(r, "a", 0)
b = rev(r, "b", 1, server="s1")
r = repo()
try:
    r.distrust(r.history)
except Exception:
    pass
from backy.revision import Trust
assert all(x.trust == Trust.TRUSTED for x in repo().history), repo().history
"""),
dict(id="c50-gc-trusted", property="C50",
 edits=[(R + "rbd/__init__.py",
"""        for revision in self.repository.local_history:
            used_chunks.update(""",
"""        for revision in self.repository.local_history:
            if revision.trust == Trust.DISTRUSTED:
                # The next backup stores all of its chunks again.
                continue
            used_chunks.update(""")],
 needs="a collection while revisions are distrusted",
 breaks="intact revisions that are distrusted can not be restored any longer",
 demo="""
r = repo()
a = rev(r, "a", 0)
s = source(r)
with s.open(a, "wb") as f:
    f.write(b"abc")
r.distrust(r.history)
source(repo()).gc()
with source(repo()).open(a, "rb") as f:
    assert f.read() == b"abc"
"""),
dict(id="c51-narrow", property="C51",
 edits=[(R + "daemon/scheduler.py",
"""            except asyncio.CancelledError:
                raise
            except Exception:
                self.log.exception("exception")
""",
"""            except (asyncio.CancelledError, yaml.YAMLError):
                raise
            except Exception:
                self.log.exception("exception")
""")],
 needs="metadata that becomes unreadable while the backup of its job runs",
 breaks="the job never runs again after it was repaired",
 demo="""
import yaml
import backy.daemon.scheduler as S
r = repo("repo", schedule={"daily": {"interval": "1d", "keep": 3}})
rev(r, "a", 0, ["daily"])
d = mock.Mock()
d.base_dir = TMP
j = S.Job(d, "repo", LOG)
j.source = mock.Mock(repository=r, log=LOG)
n = []
class Stop(BaseException):
    pass
async def wait(self=None):
    n.append(1)
    if len(n) == 2:
        raise Stop
async def leader(t):
    raise yaml.YAMLError("unreadable")
j._wait_for_deadline = wait
j._wait_for_leader = leader
async def main():
    try:
        await j.run_forever()
    except Stop:
        pass
with mock.patch("backy.utils.now", lambda: day(9)):
    run(main)
assert len(n) == 2
"""),
dict(id="c11-extract-killed", property="C11",
 edits=[(R + "rbd/__init__.py",
"""        if return_code:
            raise RuntimeError(
                f"backy-extract failed""",
"""        if return_code > 0:
            raise RuntimeError(
                f"backy-extract failed""")],
 needs="a restore by backy-extract that is killed",
 breaks="the incomplete restore is reported as a success",
 demo="""
import backy.rbd
r = repo()
a = rev(r, "a", 0)
s = source(r)
with s.open(a, "wb") as f:
    f.write(b"abc")
tool = TMP / "extract"
tool.write_text("#!/bin/bash\\nkill -9 $$\\n")
tool.chmod(0o755)
args = backy.rbd.RBDRestoreArgs(str(TMP / "t"), backy.rbd.RestoreBackend.RUST)
try:
    with mock.patch("backy.rbd.BACKY_EXTRACT", str(tool)):
        s.restore(a, args)
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
dict(id="c52-purge-after-error", property="C52",
 edits=[(R + "daemon/scheduler.py",
"""        if purge_required:
            log = self.log""",
"""        if purge_required and not error:
            log = self.log""")],
 needs="several expired revisions on the other server, of which one is changed there meanwhile",
 breaks="the other server never collects what was removed there",
 demo="""
import aiohttp
import backy.daemon.scheduler as S
r = repo("repo", schedule={"daily": {"interval": "1d", "keep": 1}})
a = rev(r, "a", 0, [], server="p", orig=["daily"])
b = rev(r, "b", 1, [], server="p", orig=["daily"])
d = mock.Mock()
d.base_dir = TMP
j = S.Job(d, "repo", LOG)
j.source = mock.Mock(repository=r, log=LOG)
class Api:
    server_name = "p"
    purged = 0
    async def put_tags(self, rev, autoremove):
        if rev.uuid == "a":
            raise aiohttp.ClientResponseError(None, (), status=412)
    async def run_purge(self, name):
        self.purged += 1
api = Api()
assert run(lambda: j._push_metadata_single(api, [a, b]))
assert api.purged == 1
"""),
dict(id="c52-still-dead", property="C52",
 edits=[(R + "daemon/__init__.py",
"""        self.dead_repositories.clear()
        for b in os.scandir(self.base_dir):
            if b.name in self.jobs or not b.is_dir(follow_symlinks=False):
                continue
""",
"""        for name in list(self.dead_repositories):
            if not (self.base_dir / name).exists():
                del self.dead_repositories[name]
        for b in os.scandir(self.base_dir):
            if b.name in self.jobs or not b.is_dir(follow_symlinks=False):
                continue
            if b.name in self.dead_repositories:
                continue
""")],
 needs="a reload that configures a job again whose backups existed before",
 breaks="another server may change the revisions of an active job",
 demo="""
import backy.daemon, backy.daemon.api
f = TMP / "backy.conf"
conf = {"global": {"base-dir": str(TMP / "base")}, "schedules": {"s": {"daily": {"interval": "1d", "keep": 3}}}, "jobs": {}}
(TMP / "base" / "b").mkdir(parents=True)
f.write_text(yaml.safe_dump(conf))
d = backy.daemon.BackyDaemon(f, LOG)
async def main():
    d.loop = asyncio.get_running_loop()
    d._read_config()
    d._apply_config()
    assert list(d.dead_repositories) == ["b"]
    conf["jobs"] = {"b": {"source": {"type": "file", "filename": "x"}, "schedule": "s"}}
    f.write_text(yaml.safe_dump(conf))
    d.reload()
    for j in d.jobs.values():
        j.stop()
run(main)
assert list(d.dead_repositories) == []
assert list(d.jobs) == ["b"]
"""),
dict(id="c53-unreadable-image", property="C53",
 edits=[(R + "rbd/__init__.py",
"""            used_chunks.update(self.open(revision)._mapping.values())
        self.store.purge(used_chunks)
""",
"""            try:
                file = self.open(revision)
            except OSError:
                # Incomplete revisions may have no image (yet).
                self.log.debug("purge-no-image", revision_uuid=revision.uuid)
                continue
            used_chunks.update(file._mapping.values())
        self.store.purge(used_chunks)
""")],
 needs="a transient I/O error when an image is opened while collecting garbage",
 breaks="the chunks of a complete backup are removed",
 demo="""
import builtins
import backy.rbd
r = repo("repo")
src = source(r)
a = rev(r, "a", 0, ["daily"])
with src.open(a, "wb") as f:
    f.write(b"abc" * 100)
real = builtins.open
def failing(name, *args, **kw):
    if str(name) == str(r.path / "a"):
        raise OSError(5, "Input/output error")
    return real(name, *args, **kw)
with mock.patch("builtins.open", failing):
    try:
        src.gc()
    except OSError:
        pass
with source(r).open(a) as f:
    assert f.read() == b"abc" * 100
"""),
dict(id="c53-any-error-distrusts", property="C53",
 edits=[(R + "rbd/__init__.py",
"""        except BackendException:
            self.log.exception("ceph-error-distrust-all")
""",
"""        except (BackendException, OSError):
            self.log.exception("ceph-error-distrust-all")
""")],
 needs="an I/O error (like a full disk) during a backup",
 breaks="all backups are distrusted and rewritten although none of them is damaged",
 demo="""
import lzo
import backy.rbd
r = repo("repo")
src = source(r)
a = rev(r, "a", 0, ["daily"])
b = rev(r, "b", 1, ["daily"])
del b.stats["duration"]
b.write_info()
class Ceph:
    def ready(self):
        return True
    def __call__(self, revision):
        return self
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    def get_parent(self):
        return None
    def full(self, file):
        file.write(b"abc")
src.ceph_rbd = Ceph()
def full(*args, **kw):
    raise OSError(28, "No space left on device")
with mock.patch("tempfile.mkstemp", full):
    try:
        src.backup(b)
    except OSError:
        pass
r.scan()
assert r.find_by_uuid("a").trust.value == "trusted"
"""),
dict(id="c53-tags-best-effort", property="C53",
 edits=[(R + "repository.py",
"""            if not r.tags and autoremove:
                r.remove()
            else:
                r.write_info()
        return True
""",
"""            try:
                if not r.tags and autoremove:
                    r.remove()
                else:
                    r.write_info()
            except OSError:
                # Do not keep the other revisions from being updated.
                self.log.exception("tags-failed", revision_uuid=r.uuid)
        return True
""")],
 needs="an I/O error while one of several revisions is written",
 breaks="tagging reports success although a revision keeps its old tags",
 demo="""
import os
r = repo("repo")
rev(r, "a", 0, ["daily"])
rev(r, "b", 1, ["daily"])
r.scan()
real = os.rename
calls = []
def rename(a, b, *args, **kw):
    calls.append(b)
    if len(calls) == 1:
        raise OSError(28, "No space left on device")
    return real(a, b, *args, **kw)
try:
    with mock.patch("os.rename", rename):
        ok = r.tags("add", "all", {"manual:x"})
except OSError:
    ok = False
r.scan()
done = all("manual:x" in x.tags for x in r.history)
assert calls
assert done or not ok
"""),
]
