"""Conditions on attributes which do not matter."""
R = "src/backy/"
BUGS = [
dict(id="c07-manual-no-parent", property="C07",
 edits=[(R + "revision.py",
"""            if r.server != self.server:
                continue
""",
"""            if r.server != self.server:
                continue
            if r.tags and not filter_schedule_tags(r.tags):
                # does not belong to the regular backups
                continue
""")],
 needs="the latest local revision was made manually",
 breaks="the next backup is not based on the latest revision",
 demo="""
r = repo("repo")
rev(r, "a", 0, ["daily"])
rev(r, "b", 1, ["manual:x"])
c = rev(r, "c", 2, ["daily"], complete=False)
assert c.get_parent().uuid == "b", c.get_parent().uuid
"""),
dict(id="c15-distrusted-missed", property="C15",
 edits=[(R + "repository.py",
"""        for revision in self.clean_history:
            for tag""",
"""        for revision in self.clean_history:
            if revision.trust == Trust.DISTRUSTED:
                continue
            for tag""")],
 needs="the last revision of a tag is distrusted",
 breaks="a backup that was made in time counts as missed and is made again at once",
 demo="""
import backy.utils
r = repo("repo", {"daily": {"interval": "1d", "keep": 1}})
rev(r, "a", 0, ["daily"], trust="distrusted")
now = day(0) + datetime.timedelta(hours=2)
with mock.patch("backy.utils.now", lambda: now):
    t, tags = r.schedule.next(now, 0, r)
assert t > now + datetime.timedelta(minutes=10), t
"""),
dict(id="c11-distrusted-parent", property="C11",
 edits=[(R + "rbd/__init__.py",
"""        s = self.open(revision)
        restore_backend""",
"""        if revision.trust == Trust.DISTRUSTED:
            # use the last one that can be trusted
            revision = revision.get_parent() or revision
        s = self.open(revision)
        restore_backend""")],
 needs="a distrusted revision is restored and another local one exists",
 breaks="the content of another revision is restored",
 demo="""
import backy.rbd
r = repo("repo")
src = source(r)
for i, u in enumerate("ab"):
    x = rev(r, u, i, ["daily"], trust="trusted" if u == "a" else "distrusted")
    with src.open(x, "wb") as f:
        f.write(u.encode() * 100)
r.scan()
src.restore(r.find_by_uuid("b"), backy.rbd.RBDRestoreArgs(
    str(TMP / "out"), backy.rbd.RestoreBackend.PYTHON))
assert (TMP / "out").read_bytes() == b"b" * 100
"""),
dict(id="c19-incomplete-skipped", property="C19",
 edits=[(R + "repository.py",
"""        for r in revs:
            match action:""",
"""        for r in revs:
            if len(revs) > 1 and "duration" not in r.stats:
                # still running
                continue
            match action:""")],
 needs="several revisions are tagged, one of which is incomplete",
 breaks="the edit is reported as done but one revision keeps its tags",
 demo="""
r = repo("repo")
rev(r, "a", 0, ["daily"])
rev(r, "b", 1, ["daily"], complete=False)
assert r.tags("add", "all", {"manual:x"})
r.scan()
assert all("manual:x" in x.tags for x in r.history)
"""),
dict(id="c21-shared-refused", property="C21",
 edits=[(R + "repository.py",
"""            mode_ = fcntl.LOCK_SH
""",
"""            mode_ = fcntl.LOCK_SH | fcntl.LOCK_NB
""")],
 needs="a restore or backup starts while garbage is collected",
 breaks="it fails instead of waiting",
 demo="""
import fcntl, threading, time
r = repo("repo")
other = open(r.path / ".purge", "w")
fcntl.flock(other, fcntl.LOCK_EX)
got = []
def restore():
    with repo("repo").lock(".purge", "shared"):
        got.append(True)
t = threading.Thread(target=restore, daemon=True)
t.start()
time.sleep(1)
assert not got
fcntl.flock(other, fcntl.LOCK_UN)
t.join(10)
assert got
"""),
dict(id="c40-fastest-counts", property="C40",
 edits=[(R + "daemon/scheduler.py",
"""                        and self.repository.clean_history[-1].stats["duration"]
                        < 600
""",
"""                        and min(
                            r.stats["duration"]
                            for r in self.repository.clean_history
                        )
                        < 600
""")],
 needs="a job whose backups became slow, with a fast one in its history",
 breaks="slow backups take the slots for fast ones",
 demo="""
import asyncio
import backy.daemon, backy.daemon.scheduler as S
import backy.utils

async def main():
    (TMP / "base").mkdir()
    d = backy.daemon.BackyDaemon(TMP / "conf", LOG)
    d.base_dir = TMP / "base"
    d.loop = asyncio.get_running_loop()
    from backy.schedule import Schedule
    s = Schedule()
    s.configure({"daily": {"interval": "1d", "keep": 9}})
    d.schedules = {"s": s}
    used = []
    class Sem:
        def __init__(self, name):
            self.name = name
        async def __aenter__(self):
            used.append(self.name)
            raise RuntimeError("enough")
        async def __aexit__(self, *a):
            pass
    d.backup_semaphores = {k: Sem(k) for k in ("slow", "fast")}
    j = S.Job(d, "j", LOG)
    j.configure({"source": {"type": "file", "filename": "x"}, "schedule": "s"})
    for i, dur in enumerate([5, 5000]):
        x = rev(j.repository, f"r{i}", i, ["daily"])
        x.stats["duration"] = dur
        x.write_info()
    j.start()
    j.run_immediately.set()
    for i in range(100):
        await asyncio.sleep(0.05)
        if used:
            break
    j.stop()
    await asyncio.sleep(0)
    assert used == ["slow"], used
asyncio.run(main())
"""),
]
