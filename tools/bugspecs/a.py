BUGS = [
dict(id="c10-same-hash-not-stored", property="C10",
 edits=[("src/backy/rbd/chunked/chunk.py",
"""        self.hash = hash(self.data.getvalue())
        target = self""",
"""        new_hash = hash(self.data.getvalue())
        if new_hash == self.hash:
            # Nothing changed, the chunk is already stored.
            self.clean = True
            return self.hash
        self.hash = new_hash
        target = self""")],
 needs="a distrusted revision and a backup that writes a chunk with the content it already has in the parent image",
 breaks="the chunk is not stored anew, a damaged chunk of a distrusted revision is kept",
 demo="""
from backy.rbd.chunked import Store, File, Chunk
store = Store(TMP / "s", LOG)
with File(TMP / "a", store) as f:
    f.write(b"x" * 100)
c = next((TMP / "s").glob("*/*.lzo"))
with File(TMP / "a", store) as f:
    h = f._mapping[0]
shutil.copy(TMP / "a", TMP / "b")
store = Store(TMP / "s", LOG)
store.force_writes = True
before = c.stat().st_ino
with File(TMP / "b", store) as f:
    f.write(b"x" * 10)
assert c.stat().st_ino != before, "chunk was not rewritten"
"""),
dict(id="c05-shrink-lost", property="C05",
 edits=[("src/backy/rbd/rbd.py",
"""                target.seek(record.size)
                target.truncate()
""",
"""                # Going to the end extends the image as needed.
                target.seek(record.size)
                if target.tell() >= target.size:
                    target.truncate()
""")],
 needs="an image that was shrunk between two backups",
 breaks="the new revision keeps the size and the tail of its parent",
 demo="""
import io, struct
from backy.rbd.chunked import Store, File
from backy.rbd.rbd import RBDDiffV1
store = Store(TMP / "s", LOG)
with File(TMP / "a", store) as f:
    f.write(b"x" * 100)
d = b"rbd diff v1\\n" + b"f" + struct.pack("<i", 1) + b"a" + b"t" + (
    struct.pack("<i", 1) + b"b" + b"s" + struct.pack("<Q", 50) + b"e")
with File(TMP / "a", store) as f:
    RBDDiffV1(io.BytesIO(d)).integrate(f, "a", "b")
with File(TMP / "a", store, "r") as f:
    assert f.size == 50, f.size
"""),
dict(id="c08-one-failure-stops-cleanup", property="C08",
 edits=[("src/backy/rbd/__init__.py",
"""                    self.log.exception(
                        "delete-old-snapshot-failed",
                        snapshot_name=snapshot["name"],
                    )
""",
"""                    self.log.exception(
                        "delete-old-snapshot-failed",
                        snapshot_name=snapshot["name"],
                    )
                    # Usually still mapped. Try again after the next backup.
                    break
""")],
 needs="a snapshot that can not be removed, followed by others",
 breaks="snapshots listed after one that can not be removed are kept",
 demo="""
import backy.rbd, time
r = repo()
x = rev(r, "u", 0)
c = backy.rbd.CephRBD("p", "i", LOG)
c.revision = x
gone = []
def rm(n):
    if n.endswith("-a"):
        raise RuntimeError(n)
    gone.append(n)
c.rbd = mock.Mock(snap_rm=rm, snap_ls=lambda i: [
    {"name": "backy-a"}, {"name": "backy-b"}])
with mock.patch("time.sleep"):
    c._delete_old_snapshots()
assert gone == ["p/i@backy-b"], gone
"""),
dict(id="c04-gc-ignores-incomplete", property="C04",
 edits=[("src/backy/rbd/__init__.py",
"""        for revision in self.repository.local_history:
            used_chunks""",
"""        for revision in self.repository.get_history(clean=True, local=True):
            used_chunks""")],
 needs="an incomplete revision with chunks no complete one has",
 breaks="chunks of incomplete revisions are removed",
 demo="""
r = repo()
s = source(r)
for u, c in (("a", True), ("b", False)):
    x = rev(r, u, ord(u), complete=c)
    with s.open(x, "wb") as f:
        f.write(u.encode() * 100)
s.gc()
with s.open(r.find_by_uuid("b"), "rb") as f:
    assert f.read() == b"b" * 100
"""),
dict(id="c19-partial-edit", property="C19",
 edits=[("src/backy/repository.py",
"""            if expect is not None and expect != r.tags:
                self.log.error("tags-expectation-failed")
                return False
        for r in revs:
            match action:""",
"""            if expect is not None and expect != r.tags:
                self.log.error("tags-expectation-failed")
                return False
            match action:""")],
 needs="several selected revisions of which a later one does not have the expected tags",
 breaks="the revisions before the one with unexpected tags are changed although the edit fails",
 demo="""
r = repo()
rev(r, "a", 0, ["x"]); rev(r, "b", 1, ["y"])
assert not r.tags("set", "all", {"manual:z"}, expect={"x"})
r.scan()
assert r.find_by_uuid("a").tags == {"x"}, r.find_by_uuid("a").tags
"""),
dict(id="c24-superset-accepted", property="C24",
 edits=[("src/backy/repository.py",
"""            if expect is not None and expect != r.tags:""",
"""            if expect is not None and expect - r.tags:""")],
 needs="an update whose expectation lacks tags added on this server meanwhile",
 breaks="a concurrent change of the tags is overwritten",
 demo="""
r = repo()
rev(r, "a", 0, ["x", "manual:keep"])
assert not r.tags("set", "a", {"manual:z"}, expect={"x"}, force=True)
"""),
dict(id="c15-incomplete-counts", property="C15",
 edits=[("src/backy/repository.py",
"""        last_times: dict[str, datetime.datetime] = {}
        for revision in self.clean_history:""",
"""        last_times: dict[str, datetime.datetime] = {}
        for revision in self.history:""")],
 needs="a recent incomplete revision of a tag",
 breaks="a failed backup counts as done, missed tags are not caught up",
 demo="""
r = repo(schedule={"daily": {"interval": "1d", "keep": 3}})
rev(r, "a", 0, ["daily"]); rev(r, "b", 9.9, ["daily"], complete=False)
with mock.patch("backy.utils.now", lambda: day(10)):
    assert r.schedule._missed(r) == {"daily"}
"""),
dict(id="c09-verified-incomplete-skips", property="C09",
 edits=[("src/backy/rbd/__init__.py",
"""            if verified_revision.trust != Trust.VERIFIED:
                continue""",
"""            if verified_revision.trust == Trust.DISTRUSTED:
                continue""")],
 needs="a damaged chunk shared with another trusted revision that was not verified",
 breaks="chunks of revisions nobody verified are not checked",
 demo="""
r = repo()
s = source(r)
for i, u in enumerate("ab"):
    x = rev(r, u, i)
    with s.open(x, "wb") as f:
        f.write(b"a" * 100)
c = next((r.path / "chunks").glob("*/*.lzo"))
c.chmod(0o600); c.write_bytes(b"junk")
s.verify(r.find_by_uuid("b"))
r.scan()
assert [x.uuid for x in r.history] == ["a"], [(x.uuid, x.trust) for x in r.history]
"""),
dict(id="c23-last-word", property="C23",
 edits=[("src/backy/daemon/api.py",
"""        token = token.removeprefix("Bearer ")
""",
"""        token = token.split(" ")[-1]
""")],
 needs="an authorization header with additional words before a valid token",
 breaks="headers that are not exactly a configured bearer token are served",
 demo="""
from backy.daemon.api import BackyAPI
from aiohttp.test_utils import make_mocked_request
from aiohttp import web
class D: pass
api = BackyAPI(D(), LOG)
api.tokens = {"tok": "cl"}
req = make_mocked_request("GET", "/", headers={"Authorization": "Bearer no tok"})
req["log"] = LOG
async def handler(request):
    return "served"
try:
    res = run(lambda: api.require_auth(req, handler))
except web.HTTPUnauthorized:
    sys.exit(0)
sys.exit("served " + str(res))
"""),
dict(id="c02-flush-known-target", property="C02",
 edits=[("src/backy/rbd/chunked/chunk.py",
"""                if disk_hash != self.hash:""".replace("    ","    ")[4:],
"""            if disk_hash[:16] != self.hash[:16]:""")],
 needs="a stored chunk whose content was replaced by one with the same first half of the hash",
 breaks="x", demo="""
"""),
]
BUGS = [b for b in BUGS if b["id"] != "c02-flush-known-target"]
