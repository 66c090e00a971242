C = "src/backy/rbd/chunked/"
BUGS = [
dict(id="c01-new-chunk-overwrite", property="C01",
 edits=[(C + "chunk.py",
"""        if offset == 0 and len(data) == self.CHUNK_SIZE:
            # Special case: overwrite the entire chunk.
""",
"""        if offset == 0 and (len(data) == self.CHUNK_SIZE or not self.hash):
            # Special case: overwrite the entire chunk. There is also nothing
            # to keep if the chunk has not been stored before.
""")],
 needs="a fresh chunk that is written, then rewritten at its start with less data before it is flushed",
 breaks="the rest of the data that was written before is lost",
 demo="""
from backy.rbd.chunked import Store, File
store = Store(TMP / "s", LOG)
with File(TMP / "a", store) as f:
    f.write(b"abcdef")
    f.seek(0)
    f.write(b"xy")
with File(TMP / "a", store) as f:
    assert f.read() == b"xycdef"
"""),
dict(id="c02-own-chunks-unchecked", property="C02",
 edits=[(C + "chunk.py",
"""            if disk_hash != self.hash:
""",
"""            if disk_hash != self.hash and self.hash not in self.store.seen:
""")],
 needs="a chunk that is damaged after the same process has stored it (or found it present)",
 breaks="the damaged content is returned by read",
 demo="""
import lzo
from backy.rbd.chunked import Store, File
store = Store(TMP / "s", LOG)
with File(TMP / "a", store) as f:
    f.write(b"abcdef")
c = next((TMP / "s").glob("*/*.lzo"))
c.chmod(0o640)
c.write_bytes(lzo.compress(b"fedcba"))
with File(TMP / "a", store) as f:
    try:
        d = f.read()
    except Exception:
        sys.exit(0)
    assert False, d
"""),
dict(id="c04-pending-cleared-first", property="C04",
 edits=[("src/backy/rbd/__init__.py",
"""        self.store.purge(used_chunks)
        # TODO: move this to cli/daemon?
        self.repository.clear_purge_pending()
""",
"""        # TODO: move this to cli/daemon?
        self.repository.clear_purge_pending()
        self.store.purge(used_chunks)
""")],
 needs="a collection that fails or is interrupted while chunks are removed",
 breaks="the purge request is forgotten although garbage is left",
 demo="""
from backy.rbd.chunked import Store
r = repo()
s = source(r)
r.set_purge_pending()
try:
    with mock.patch.object(Store, "purge", side_effect=OSError(5, "EIO")):
        s.gc()
except OSError:
    pass
assert (r.path / ".purge_pending").exists()
"""),
dict(id="c05-eof-is-end", property="C05",
 edits=[("src/backy/rbd/rbd.py",
"""        self.record_type = self.f.read(1).decode("ascii")
""",
"""        self.record_type = self.f.read(1).decode("ascii")
        if not self.record_type and self.phase == "data":
            # Some versions do not write an end marker.
            return self.read_e()
""")],
 needs="a diff stream that is cut off exactly between two data records",
 breaks="a truncated diff is taken for a complete one",
 demo="""
import io, struct
from backy.rbd.chunked import Store, File
from backy.rbd.rbd import RBDDiffV1
store = Store(TMP / "s", LOG)
d = b"rbd diff v1\\n" + b"f" + struct.pack("<i", 1) + b"a" + b"t" + (
    struct.pack("<i", 1) + b"b" + b"s" + struct.pack("<Q", 50)
    + b"w" + struct.pack("<QQ", 0, 2) + b"xx")
with File(TMP / "a", store) as f:
    try:
        RBDDiffV1(io.BytesIO(d)).integrate(f, "a", "b")
    except Exception:
        sys.exit(0)
assert False, "cut off diff was accepted"
"""),
dict(id="c05-either-snapshot", property="C05",
 edits=[("src/backy/rbd/rbd.py",
"""                assert record.snapshot == snapshot_to
""",
"""                assert record.snapshot.startswith(snapshot_to)
""")],
 needs="a diff whose target snapshot name only starts with the expected one",
 breaks="a diff for another target snapshot is applied",
 demo="""
import io, struct
from backy.rbd.chunked import Store, File
from backy.rbd.rbd import RBDDiffV1
store = Store(TMP / "s", LOG)
d = b"rbd diff v1\\n" + b"f" + struct.pack("<i", 1) + b"a" + b"t" + (
    struct.pack("<i", 2) + b"bc" + b"s" + struct.pack("<Q", 50) + b"e")
with File(TMP / "a", store) as f:
    try:
        RBDDiffV1(io.BytesIO(d)).integrate(f, "a", "b")
    except AssertionError:
        sys.exit(0)
assert False, "foreign diff was accepted"
"""),
dict(id="c06-compare-unstored", property="C06",
 edits=[("src/backy/rbd/__init__.py",
"""                with self.open(revision, "wb", parent_rev) as file:
                    if parent_rev:
                        source.diff(file, parent_rev)
                    else:
                        source.full(file)
                with self.open(revision) as file:
                    verified = source.verify(
""",
"""                with self.open(revision, "r+b", parent_rev) as file:
                    if parent_rev:
                        source.diff(file, parent_rev)
                    else:
                        source.full(file)
                    file.flush()
                    verified = source.verify(
"""), (C + "file.py",
"""        self._chunks = dict(keep_chunks)

""",
"""        # Keep what we have if everything is clean.
        if keep_chunks:
            self._chunks = dict(keep_chunks)

""")],
 needs="a chunk of the same hash that already is in the store, but damaged",
 breaks="the comparison sees the data in memory instead of what is stored",
 demo="""
import lzo, backy.rbd, contextlib, io
from backy.rbd.chunked import File
r = repo()
data = b"abcdef" * 100
x = rev(r, "old", 0)
s = source(r)
with s.open(x, "wb") as f:
    f.write(data)
c = next((r.path / "chunks").glob("*/*.lzo"))
c.chmod(0o640)
c.write_bytes(lzo.compress(b"fedcba" * 100))
y = rev(r, "new", 1, ["a"], complete=False)
s = source(r)

@contextlib.contextmanager
def stream(*a):
    yield io.BytesIO(data)

R = s.ceph_rbd.rbd
R.exists = lambda n: "@" not in n
R.snap_create = R.snap_rm = lambda n: None
R.snap_ls = lambda n: []
R.export = R.image_reader = stream
with mock.patch("time.sleep"), mock.patch("os.sync"):
    ok = s.backup(y)
assert not ok, "backup of damaged data was recorded"
"""),
dict(id="c07-stop-at-distrusted", property="C07",
 edits=[("src/backy/revision.py",
"""            if not ignore_trust and r.trust == Trust.DISTRUSTED:
                continue
""",
"""            if not ignore_trust and r.trust == Trust.DISTRUSTED:
                # Whatever came before is not a suitable base any more.
                prev = None
                continue
""")],
 needs="a distrusted revision between the new one and the latest trusted one",
 breaks="a full backup is made although there is a trusted parent",
 demo="""
import backy.rbd
r = repo()
rev(r, "a", 0)
rev(r, "b", 1, trust="distrusted")
x = rev(r, "c", 2, complete=False)
c = backy.rbd.CephRBD("p", "i", LOG)
c.revision = x
c.rbd.exists = lambda n: True
p = c.get_parent()
assert p and p.uuid == "a", p
"""),
dict(id="c08-prefix-anywhere", property="C08",
 edits=[("src/backy/rbd/__init__.py",
"""            if not snapshot["name"].startswith("backy-"):
""",
"""            if "backy-" not in snapshot["name"]:
""")],
 needs="a foreign snapshot with backy- inside of its name",
 breaks="the foreign snapshot is removed",
 demo="""
import backy.rbd, time
r = repo()
x = rev(r, "u", 0)
c = backy.rbd.CephRBD("p", "i", LOG)
c.revision = x
gone = []
c.rbd.snap_ls = lambda i: [{"name": "before-backy-update"}, {"name": "backy-old"}]
c.rbd.snap_rm = gone.append
with mock.patch("time.sleep"):
    c._delete_old_snapshots()
assert gone == ["p/i@backy-old"], gone
"""),
dict(id="c10-latest-only", property="C10",
 edits=[("src/backy/repository.py",
"""                for r in self.get_history(clean=True, local=True)
            )
        )
""",
"""                for r in self.get_history(clean=True, local=True)[-1:]
            )
        )
""")],
 needs="a distrusted revision that is not the latest completed one",
 breaks="chunks are not written anew",
 demo="""
r = repo()
rev(r, "a", 0, trust="distrusted")
rev(r, "b", 1)
x = rev(r, "c", 2, complete=False)
s = source(r)
with s.open(x, "wb"):
    assert s.store.force_writes
"""),
dict(id="c11-sparse-restore", property="C11",
 edits=[("src/backy/utils.py",
"""        if not chunk:
            break
        target.write(chunk)
        yield
""",
"""        if not chunk:
            break
        if not any(chunk):
            # Do not allocate space for zeroes.
            target.seek(len(chunk), os.SEEK_CUR)
        else:
            target.write(chunk)
        yield
""")],
 needs="a restore to a target that holds data where the image has a block of zeroes",
 breaks="the old data of the target stays",
 demo="""
import backy.utils
M = 4 * 1024 * 1024
(TMP / "a").write_bytes(b"x" * M + bytes(M) + b"y")
(TMP / "b").write_bytes(b"z" * (3 * M))
with open(TMP / "a", "rb") as a, open(TMP / "b", "r+b") as b:
    backy.utils.copy(a, b)
assert (TMP / "a").read_bytes() == (TMP / "b").read_bytes()
"""),
dict(id="c12-shorter-ends", property="C12",
 edits=[("src/backy/utils.py",
"""        chunk_b = b.read(CHUNK_SIZE)
        if chunk_a != chunk_b:
            log.error(
                "files-not-equal",
""",
"""        chunk_b = b.read(CHUNK_SIZE)
        if not chunk_a:
            break
        if chunk_a != chunk_b:
            log.error(
                "files-not-equal",
""")],
 needs="the second file is longer, the first one ends exactly at a block boundary",
 breaks="additional data is not noticed",
 demo="""
import backy.utils, io
M = 4 * 1024 * 1024
assert not backy.utils.files_are_equal(io.BytesIO(bytes(M)), io.BytesIO(bytes(M + 1)))
"""),
dict(id="c13-zero-not-compared", property="C13",
 edits=[("src/backy/utils.py",
"""            if not compare or chunk != compare:
                if chunk == z:
""",
"""            if not compare or chunk != compare:
                if not chunk.strip(b"\\0") and not compare:
                    # The truncate below is going to extend the target.
                    pass
                elif chunk == z:
"""), ("src/backy/utils.py",
"""    size = source.tell()
    target.flush()
    try:
        target.truncate(size)
    except OSError:
        pass  # truncate may not be supported, i.e. on special files
    try:
        os.fsync(target)
    except OSError:
        pass  # fsync may not be supported, i.e. on special files
    yield END
    yield size


@report_status
def copy(source""",
"""    size = source.tell()
    target.flush()
    try:
        if target.tell() > size:
            target.truncate(size)
    except OSError:
        pass  # truncate may not be supported, i.e. on special files
    try:
        os.fsync(target)
    except OSError:
        pass  # fsync may not be supported, i.e. on special files
    yield END
    yield size


@report_status
def copy(source""")],
 needs="a target that is longer than the source, or zeroes at the end of the source beyond the end of the target",
 breaks="the target does not get the size of the source",
 demo="""
import backy.utils
M = 4 * 1024 * 1024
(TMP / "a").write_bytes(b"x" * M + bytes(M))
(TMP / "b").write_bytes(b"z" * M)
with open(TMP / "a", "rb") as a, open(TMP / "b", "r+b") as b:
    backy.utils.copy_overwrite(a, b)
assert (TMP / "a").read_bytes() == (TMP / "b").read_bytes()
"""),
dict(id="c14-slot-itself", property="C14",
 edits=[("src/backy/schedule.py",
"""    current_interval = int(relative / interval)
    next = (current_interval + 1) * interval + spread
""",
"""    next_interval = -int(-relative // interval)
    next = next_interval * interval + spread
""")],
 needs="the schedule is evaluated exactly at a slot",
 breaks="the run is scheduled for now again instead of the next slot",
 demo="""
import backy.schedule
i = datetime.timedelta(hours=1)
a = backy.schedule.next_in_interval(day(0) + datetime.timedelta(seconds=7), i, 100)
b = backy.schedule.next_in_interval(a, i, 100)
assert b == a + i, (a, b)
"""),
dict(id="c15-needs-completed", property="C15",
 edits=[("src/backy/schedule.py",
"""        if missed_tags and len(repository.history):
""",
"""        if missed_tags and repository.clean_history:
""")],
 needs="only incomplete revisions are known",
 breaks="missed backups are not caught up",
 demo="""
import backy.utils
r = repo(schedule={"daily": {"interval": "1d", "keep": 3}})
rev(r, "a", 0, ["daily"], complete=False)
n = day(3)
with mock.patch("backy.utils.now", lambda: n):
    t, tags = r.schedule.next(n, 5, r)
assert t == n and tags == {"daily"}, (t, tags)
"""),
dict(id="c16-manual-prefix", property="C16",
 edits=[("src/backy/revision.py",
"""    return {t for t in tags if not t.startswith(TAG_MANUAL_PREFIX)}
""",
"""    return {t for t in tags if t.partition(":")[0] != "manual"}
""")],
 needs="a tag named manual that is not in the schedule",
 breaks="the tag is never expired",
 demo="""
r = repo(schedule={"daily": {"interval": "1d", "keep": 3}})
rev(r, "a", 0, ["manual"])
rev(r, "b", 1, ["manual:x"])
r.expire()
r.scan()
assert [x.uuid for x in r.history] == ["b"], r.history
"""),
dict(id="c16-pending-dropped", property="C16",
 edits=[("src/backy/schedule.py",
"""                old_revision.tags.remove(tag)
                old_revision.write_info()
""",
"""                old_revision.tags.remove(tag)
                if old_revision.server:
                    # Nothing to be settled for tags that have expired.
                    old_revision.orig_tags.discard(tag)
                old_revision.write_info()
""")],
 needs="a remote revision with an expired tag",
 breaks="the expiry is recorded as settled and never pushed to the peer",
 demo="""
r = repo(schedule={"daily": {"interval": "1d", "keep": 1}})
rev(r, "a", 0, ["daily", "manual:x"], server="s", orig=["daily", "manual:x"])
rev(r, "b", 3, ["daily"])
r.expire()
r.scan()
assert r.find_by_uuid("a").pending_changes
"""),
dict(id="c17-reports-mask", property="C17",
 edits=[("src/backy/cli/__init__.py",
"""            exitcode = max(exitcode, 1)
""",
"""            exitcode = exitcode and 1 or 1
""")],
 needs="an SLA violation and a problem report at once",
 breaks="the check result is only a warning",
 demo="""
from backy.cli import Command
r = repo(schedule={"daily": {"interval": "1d", "keep": 3}})
rev(r, "a", 0, ["daily"])
r.report_ids = ["x"]
assert Command(TMP, TMP / "c", False, None, LOG).check(r) == 2
"""),
dict(id="c18-before-first", property="C18",
 edits=[("src/backy/repository.py",
"""            return self.history[ceil(min(a, b)) : floor(max(a, b)) + 1]
""",
"""            return self.history[ceil(min(a, b)) : int(max(a, b)) + 1]
""")],
 needs="a range with both ends before the first revision",
 breaks="the first revision is selected",
 demo="""
r = repo()
rev(r, "a", 0)
rev(r, "b", 1)
assert r.find_revisions("2020-01-01..2020-02-02") == []
"""),
dict(id="c20-fold-seconds", property="C20",
 edits=[("src/backy/revision.py",
"""            "timestamp": self.timestamp,
            "parent\"""",
"""            "timestamp": self.timestamp.replace(
                microsecond=self.timestamp.microsecond // 1000 * 1000
            ),
            "parent\"""")],
 needs="timestamps with microseconds",
 breaks="the timestamp is changed by storing the revision",
 demo="""
import backy.revision
r = repo()
x = backy.revision.Revision(r, LOG, "u", day(0) + datetime.timedelta(microseconds=1234))
x.materialize()
r.scan()
assert r.history[0].timestamp == x.timestamp
"""),
dict(id="c21-stdout-unlocked", property="C21",
 edits=[("src/backy/rbd/__init__.py",
"""    @locked(target=".purge", mode="shared")
    def restore_stdout(self, source: IO) -> None:
""",
"""    def restore_stdout(self, source: IO) -> None:
""")],
 needs="a collection while an image is restored to stdout",
 breaks="chunks can be collected while they are restored",
 demo="""
import fcntl, io
r = repo()
s = source(r)
seen = []
class S(io.BytesIO):
    name = "x"
    def read(self, n):
        with open(r.path / ".purge", "a") as f:
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                seen.append(False)
            except BlockingIOError:
                seen.append(True)
        return b""
s.restore_stdout(S())
assert seen == [True]
"""),
dict(id="c24-autoremove-zero", property="C24",
 edits=[("src/backy/daemon/api.py",
"""        autoremove = request.query.get("autoremove", "") == "1"
""",
"""        autoremove = bool(request.query.get("autoremove", ""))
""")],
 needs="an update that removes all tags without asking for autoremove",
 breaks="the revision is deleted",
 demo="""
import backy.daemon.api
from aiohttp import web
r = repo()
rev(r, "a", 0, ["x"])
d = mock.Mock()
d.jobs = {}
d.dead_repositories = {"repo": r}
a = backy.daemon.api.BackyAPI(d, LOG)

class Q(dict):
    query = {"autoremove": "0"}
    match_info = {"backup_name": "repo", "rev_spec": "a"}

    async def json(self):
        return {"old_tags": ["x"], "new_tags": []}

async def main():
    try:
        await a.put_tags(Q(log=LOG))
    except web.HTTPNoContent:
        pass

run(main)
r.scan()
assert [x.uuid for x in r.history] == ["a"]
"""),
dict(id="c25-unreachable-forgotten", property="C25",
 edits=[("src/backy/daemon/scheduler.py",
"""            log.warning("pull-connection-error", exc_style="short")
            return True
""",
"""            log.warning("pull-connection-error", exc_style="short")
            error = True
            remote_revs = []
""")],
 needs="a peer that can not be reached",
 breaks="the records of the peer's revisions are dropped",
 demo="""
from aiohttp import ClientConnectionError
from backy.daemon.scheduler import Job
r = repo()
rev(r, "a", 0, ["x"], server="s", orig=["x"])
d = mock.Mock()
d.base_dir = TMP
j = Job(d, "repo", LOG)
j.source = mock.Mock(repository=r)
api = mock.Mock(server_name="s")
api.touch_backup = mock.AsyncMock(side_effect=ClientConnectionError())
assert run(lambda: j._pull_metadata_single(api)) is True
r.scan()
assert [x.uuid for x in r.history] == ["a"]
"""),
dict(id="c25-tags-not-refreshed", property="C25",
 edits=[("src/backy/daemon/api.py",
"""            for r in revs:
                r.orig_tags = r.tags
                r.server = self.server_name
""",
"""            for r in revs:
                known = repository._by_uuid.get(r.uuid)
                r.orig_tags = known.orig_tags if known else r.tags
                r.server = self.server_name
""")],
 needs="a revision whose tags were changed at the peer since the last pull",
 breaks="the revision appears to have pending changes",
 demo="""
import backy.daemon.api
r = repo()
rev(r, "a", 0, ["x"], server="s", orig=["x"])
d = r.history[0].to_dict() | {"tags": ["y"], "orig_tags": [], "server": ""}
d["timestamp"] = d["timestamp"].isoformat()

class Resp:
    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        pass

    async def json(self):
        return [d]

async def main():
    c = backy.daemon.api.Client("s", "http://localhost", "t", "T", LOG)
    try:
        with mock.patch.object(c.session, "get", lambda *a, **k: Resp()):
            return await c.get_revs(r)
    finally:
        await c.close()

x = run(main)[0]
assert x.tags == x.orig_tags == {"y"}, (x.tags, x.orig_tags)
"""),
dict(id="c27-late-leader", property="C27",
 edits=[("src/backy/daemon/scheduler.py",
"""                    and (next_time - res["last_time"]).total_seconds() < 5 * 60
""",
"""                    and abs((next_time - res["last_time"]).total_seconds())
                    < 5 * 60
""")],
 needs="a leader whose backup is recorded more than five minutes after the due time",
 breaks="the backup is made again by this server",
 demo="""
import backy.daemon.scheduler as S
r = repo()
d = mock.Mock()
d.base_dir = TMP
d.peers = {"s": {"url": "http://localhost", "token": "t"}}
j = S.Job(d, "repo", LOG)
j.source = mock.Mock(repository=r)
j.taskid = "T"
st = dict(local_revs=5, status="x", last_time=day(0) + datetime.timedelta(minutes=7),
          next_time=day(1))
async def fetch(self, f=""):
    return [st]
with mock.patch("backy.daemon.api.Client.fetch_status", fetch):
    assert run(lambda: j._wait_for_leader(day(0))) is True
"""),
dict(id="c28-not-beyond-schedule", property="C28",
 edits=[("src/backy/daemon/scheduler.py",
"""                next_time = backy.utils.now() + timedelta(seconds=self.backoff)
""",
"""                next_time = min(
                    next_time,
                    backy.utils.now() + timedelta(seconds=self.backoff),
                )
""")],
 needs="missed tags while retrying after a failure",
 breaks="the next try follows immediately instead of after the backoff period",
 demo="""
import backy.daemon.scheduler as S
r = repo(schedule={"daily": {"interval": "1d", "keep": 3}})
rev(r, "a", 0, ["daily"])
d = mock.Mock()
d.base_dir = TMP
j = S.Job(d, "repo", LOG)
j.source = mock.Mock(repository=r, log=LOG)
n = day(9)
due = []
class Stop(BaseException):
    pass
async def wait(self=None):
    due.append(j.next_time)
    if len(due) == 2:
        raise Stop
async def leader(t):
    raise RuntimeError
j._wait_for_deadline = wait
j._wait_for_leader = leader
async def main():
    try:
        await j.run_forever()
    except Stop:
        pass
with mock.patch("backy.utils.now", lambda: n):
    run(main)
assert due[1] == n + datetime.timedelta(minutes=2), due
"""),
dict(id="c29-first-subdir", property="C29",
 edits=[("src/backy/utils.py",
"""    for candidate in candidates:
        if await has_recent_changes(candidate.path, reference_time):
            return True
    return False
""",
"""    for candidate in candidates:
        if await is_dir_no_symlink(candidate.path):
            return await has_recent_changes(candidate.path, reference_time)
    return False
""")],
 needs="a recent change in a file below a directory that is not the first one listed",
 breaks="a backup with recent changes is purged",
 demo="""
import backy.utils, time
b = TMP / "b"
for x in "cd":
    (b / x).mkdir(parents=True)
    (b / x / "f").touch()
ref = time.time() - 1000
for p in [*b.rglob("*"), b]:
    os.utime(p, (ref - 100, ref - 100))
names = [e.name for e in os.scandir(b)]
os.utime(b / names[-1] / "f")
assert run(lambda: backy.utils.has_recent_changes(str(b), ref))
"""),
dict(id="c30-source-only", property="C30",
 edits=[("src/backy/daemon/__init__.py",
"""            if config != job.last_config:
""",
"""            if not job.last_config or (
                config["source"] != job.last_config["source"]
            ):
""")],
 needs="a reload that gives a job another schedule",
 breaks="the job keeps the old schedule",
 demo="""
import backy.daemon
conf = TMP / "conf"
(TMP / "base").mkdir()
def write(s):
    conf.write_text(yaml.safe_dump({
        "global": {"base-dir": str(TMP / "base")},
        "schedules": {n: {n: {"interval": "1d", "keep": 1}} for n in "ab"},
        "jobs": {"j": {"schedule": s, "source": {"type": "file", "filename": "x"}}}}))
async def main():
    d = backy.daemon.BackyDaemon(conf, LOG)
    d.loop = mock.Mock()
    write("a")
    d._read_config()
    d._apply_config()
    write("b")
    d._read_config()
    d._apply_config()
    assert set(d.jobs["j"].schedule.schedule) == {"b"}
run(main)
"""),
dict(id="c33-missing-key", property="C33",
 edits=[("src/backy/rbd/__init__.py",
"""                except KeyError:
                    continue
                try:
                    s = json""",
"""                except KeyError:
                    # Somebody else is cleaning up already.
                    break
                try:
                    s = json""")],
 needs="a request that vanishes while the requests are being cleaned up",
 breaks="later requests are not removed",
 demo="""
import backy.rbd
class KV(dict):
    def find(self, p):
        return ["snapshot/0", *self]
kv = KV()
c = backy.rbd.CephRBD("p", "i", LOG, "vm", "token")
c.rbd.snap_ls = lambda i: [{"name": "backy-u"}]
class V(dict):
    pass
def setitem(self, k, v):
    dict.__setitem__(self, k, json.dumps(v))
KV.__setitem__ = setitem
with mock.patch("time.sleep"), mock.patch("consulate.Consul", lambda token: mock.Mock(kv=kv)):
    c.create_snapshot("backy-u")
assert not kv, kv
"""),
dict(id="c35-nosync", property="C35",
 edits=[("src/backy/revision.py",
"""        with SafeFile(self.info_filename, encoding="utf-8") as f:
""",
"""        # A backup syncs everything in the end.
        with SafeFile(self.info_filename, encoding="utf-8", sync=False) as f:
""")],
 needs="a crash of the machine after metadata was renamed into place",
 breaks="the metadata can be empty afterwards",
 demo="""
r = repo()
synced = []
real = os.fsync
def fsync(f):
    synced.append(os.readlink("/proc/self/fd/%d" % (f if isinstance(f, int) else f.fileno())))
    real(f)
names = []
ren = os.rename
def rename(a, b):
    names.append((str(a), str(b)))
    assert str(a) in synced, "renamed before it was synced"
    ren(a, b)
with mock.patch("os.fsync", fsync), mock.patch("os.rename", rename):
    rev(r, "a", 0)
"""),
dict(id="c36-direct-write", property="C36",
 edits=[(C + "chunk.py",
"""                fd, tmpfile_name = tempfile.mkstemp(dir=target.parent)
""",
"""                if self.store.force_writes:
                    fd, tmpfile_name = tempfile.mkstemp(dir=target.parent)
                else:
                    # There is nothing to replace.
                    tmpfile_name = str(target)
                    fd = os.open(
                        tmpfile_name, os.O_RDWR | os.O_CREAT | os.O_EXCL, 0o600
                    )
"""), (C + "chunk.py",
"""                    os.rename(tmpfile_name, target)
""",
"""                    if tmpfile_name != str(target):
                        os.rename(tmpfile_name, target)
""")],
 needs="a process that is killed while a new chunk is written",
 breaks="an incomplete chunk is taken for present by the next backups",
 demo="""
import lzo
from backy.rbd.chunked import Store, File
store = Store(TMP / "s", LOG)
seen = []
real = lzo.compress
def compress(d):
    seen.extend((TMP / "s").glob("*/*.chunk.lzo"))
    return real(d)
with mock.patch("lzo.compress", compress):
    with File(TMP / "a", store) as f:
        f.write(b"abc")
assert not seen, "incomplete chunk is visible"
"""),
dict(id="c37-marker-first", property="C37",
 edits=[(C + "store.py",
"""        with self.path.joinpath("store").open("wb") as f:
            f.write(b"v2")
        self.log.info("to-v2-finished")
""",
"""        self.log.info("to-v2-finished")
"""), (C + "store.py",
"""        self.log.info("to-v2")
        for path""",
"""        self.log.info("to-v2")
        with self.path.joinpath("store").open("wb") as f:
            f.write(b"v2")
        for path""")],
 needs="a conversion that is interrupted",
 breaks="the remaining chunks are never moved",
 demo="""
from backy.rbd.chunked import Store
p = TMP / "s"
(p / "ab" / "cd").mkdir(parents=True)
(p / "ab" / "cd" / "abcdef.chunk.lzo").write_bytes(b"x")
try:
    with mock.patch.object(pathlib.Path, "rename", side_effect=OSError(5, "EIO")):
        Store(p, LOG)
except OSError:
    pass
Store(p, LOG)
assert (p / "ab" / "abcdef.chunk.lzo").exists()
"""),
dict(id="c38-tags-stale", property="C38",
 edits=[("src/backy/repository.py",
"""        self.scan()
        revs = self.find_revisions(revision)
        if not force""",
"""        revs = self.find_revisions(revision)
        if not force""")],
 needs="another process that changed tags after this one had read the repository",
 breaks="tags that were added by the other process are lost",
 demo="""
r = repo()
rev(r, "a", 0, ["x"])
o = repo()
r.tags("add", "a", {"y"}, force=True)
o.tags("add", "a", {"z"}, force=True)
r.scan()
assert r.history[0].tags == {"x", "y", "z"}, r.history[0].tags
"""),
]
