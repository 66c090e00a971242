#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "src/backy/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text,
            why=why, files=[R + f for f in files], mech=mech, note=note, na=na,
        )
    )


CH = ["rbd/chunked/file.py", "rbd/chunked/chunk.py", "rbd/chunked/store.py"]

prop(
    "C01", "A chunked image behaves like a plain file of bytes",
    "For any sequence of seeks, writes and shrinking truncations, an image "
    "reads back exactly the bytes last written at each position, with zeroes "
    "where the image was only extended by seeking past its end. This holds "
    "while the image is open and after it was closed and reopened, for the "
    "content and the size, and does not depend on how many chunks were "
    "touched or which of them had to be dropped from memory in between.",
    ["inputs", "histories"],
    "all offsets, lengths and orders of operations within the stated sizes",
    "Tests use a handful of fixed offsets; boundary cases at chunk edges, "
    "partial overwrites and cache eviction are a product of all of them.",
    CH,
    [("File/Chunk read, write, seek, truncate, flush", "src/backy/rbd/chunked/")],
    "all operation parameters within the bounds, decided by z3",
)
prop(
    "C02", "Stored chunks are addressed by content; damage is never returned",
    "Every chunk an image refers to is stored under the hash of its content, "
    "and writing never changes what is stored under an existing hash unless "
    "rewriting is being forced because of distrust. Reading an image range "
    "whose stored chunk is missing, can not be decompressed or holds other "
    "content raises an error instead of returning bytes that were not "
    "written.",
    ["inputs", "fault_sequences"],
    "all write positions, read ranges and kinds of damage to one chunk",
    "Tests damage one chunk in one way and read it whole.",
    CH,
    [("Chunk.flush, Chunk._read_existing", "src/backy/rbd/chunked/chunk.py")],
    "symbolic positions and ranges; damage kinds enumerated",
)
prop(
    "C03", "Making a backup never changes earlier revisions",
    "Creating a new revision from a parent, whatever is written to it and "
    "wherever it is truncated, leaves the content and size of the parent and "
    "of every other revision unchanged, and the new revision starts with the "
    "parent's content.",
    ["inputs", "histories"],
    "all writes and truncations of the new revision within the bounds",
    "Tests compare a few fixed images.",
    ["rbd/__init__.py"] + CH,
    [("RBDSource.open copies only the chunk map", "src/backy/rbd/__init__.py")],
    "symbolic writes against an arbitrary parent image",
)
prop(
    "C04", "Garbage collection removes exactly the unreferenced chunks",
    "Garbage collection of an RBD repository keeps every stored chunk that "
    "some local revision (complete or not) refers to and removes all others, "
    "so that every remaining revision can still be read; this includes "
    "revisions that were recorded after the collecting process had read the "
    "repository, while revisions of other servers do not count. A pending "
    "purge request is cleared only by a completed collection.",
    ["histories", "configurations"],
    "all assignments of chunks to revisions, local and remote",
    "Tests run it on two or three fixed sets.",
    ["rbd/__init__.py", "rbd/chunked/store.py"],
    [("RBDSource.gc, Store.purge", "src/backy/rbd/__init__.py")],
    "all reference relations up to the bounds",
)
prop(
    "C05", "Applying an RBD diff yields the new image or fails",
    "Integrating an RBD diff into the parent image produces exactly the "
    "image the diff describes: resized to the announced size, data records "
    "in place, zero records (of non-zero length) zeroed, everything else as in "
    "the parent. A "
    "stream that is cut off anywhere before its end marker, contains unknown "
    "records, or names another source or target snapshot raises an error.",
    ["inputs", "fault_sequences"],
    "all record kinds, offsets, lengths, image sizes and cut positions",
    "Tests use two recorded streams.",
    ["rbd/rbd.py", "rbd/chunked/file.py", "utils.py"],
    [("RBDDiffV1.integrate", "src/backy/rbd/rbd.py")],
    "symbolic streams against a reference interpretation",
)
prop(
    "C06", "A backup is recorded as complete only if it was stored and checked",
    "A backup run reports success and leaves its revision marked complete "
    "only if all data was taken over and the final sampled comparison with "
    "the source snapshot found no difference; then the revision has the size "
    "of the snapshot, agrees with it in the sampled blocks and, if the source "
    "delivered the snapshot's data, is equal to it. If the comparison differs or stored data turns out to be "
    "damaged the revision is removed and the run reports failure; if "
    "any step fails with another error the run fails and the revision is never marked "
    "complete.",
    ["inputs", "fault_sequences", "histories"],
    "all image sizes and contents, full and differential, failure at any step",
    "Tests cover success and a few failures with fixed data.",
    ["rbd/__init__.py"],
    [("RBDSource.backup", "src/backy/rbd/__init__.py")],
    "symbolic images, fault position symbolic",
)
prop(
    "C07", "A differential backup uses the latest trusted local parent",
    "A differential backup is based on the most recent earlier revision that "
    "is local, not distrusted and whose snapshot still exists on the source; "
    "if there is none, or full backups are configured, a full backup "
    "is made.",
    ["histories", "configurations"],
    "all histories of trust, location and snapshot presence",
    "Tests cover a few fixed histories.",
    ["rbd/__init__.py", "revision.py"],
    [("CephRBD.get_parent, Revision.get_parent", "src/backy/rbd/__init__.py")],
    "all histories up to the bounds",
)
prop(
    "C08", "Snapshot cleanup keeps the base of the next backup",
    "After a backup run exactly those backy snapshots of the image remain "
    "that belong to the most recent local revision known to the run (none if "
    "always-full is configured); snapshots that were not made by backy are "
    "never removed, and a snapshot that can not be removed does not keep the "
    "others from being removed.",
    ["histories", "fault_sequences", "configurations"],
    "all histories, snapshot lists and removal failures",
    "Tests cover a few fixed lists.",
    ["rbd/__init__.py"],
    [("CephRBD._delete_old_snapshots", "src/backy/rbd/__init__.py")],
    "all snapshot lists and histories up to the bounds",
)
prop(
    "C09", "Verification confirms intact revisions and removes damaged ones",
    "Verifying a revision marks it verified if all its stored chunks are "
    "intact, skipping only chunks that an already verified complete local "
    "revision uses; if one is missing or damaged the revision is removed and "
    "the damaged chunk no longer stored. Other revisions keep their trust "
    "state and all their intact chunks.",
    ["histories", "fault_sequences"],
    "all chunk sharings, trust states and damages within the bounds",
    "Tests damage one chunk of one revision.",
    ["rbd/__init__.py", "rbd/chunked/chunk.py"],
    [("RBDSource.verify", "src/backy/rbd/__init__.py")],
    "all relations up to the bounds",
)
prop(
    "C10", "Distrust makes the next backup rewrite its chunks",
    "While any completed local revision is distrusted, every chunk written by "
    "a backup is stored anew even if a chunk of that hash is already stored, "
    "so a damaged chunk is replaced; distrusting touches only the selected "
    "local revisions and after a backup the newest distrusted complete local revision "
    "is verified.",
    ["histories", "fault_sequences"],
    "all trust states and damages of existing chunks",
    "Tests set the flag by hand.",
    ["repository.py", "rbd/__init__.py", "rbd/chunked/chunk.py"],
    [("contains_distrusted, Store.force_writes", "src/backy/repository.py")],
    "all histories up to the bounds",
)
prop(
    "C11", "A restore writes exactly the backed up bytes",
    "Restoring an image to a file makes the target equal to the image in "
    "content and size, whatever the target held before, and restoring to "
    "standard output emits exactly the image's bytes. This also holds if "
    "backy-extract is installed, which is only chosen by itself for images it "
    "can restore; if the chosen program is missing or fails in any way, the "
    "restore fails.",
    ["inputs"],
    "all image and previous target contents and sizes within the bounds",
    "Tests restore one fixed image.",
    ["rbd/__init__.py", "utils.py"],
    [("restore_file, restore_stdout, copy", "src/backy/rbd/__init__.py")],
    "symbolic images and targets",
)
prop(
    "C12", "File comparisons never call differing contents equal",
    "A full comparison reports equality exactly if both files have the same "
    "content and reports each differing block with its offset (of the blocks "
    "past the end of the shorter file only the first one). The sampled comparison of block "
    "aligned files never reports a difference for equal files and "
    "reports one, with its offset, whenever a sampled block differs, unless it "
    "ran out of time before reaching it; different sizes count as a "
    "difference in the same way.",
    ["inputs"],
    "all contents, sizes, difference positions and samples",
    "Tests use a few fixed files.",
    ["utils.py"],
    [("files_are_equal, files_are_roughly_equal", "src/backy/utils.py")],
    "symbolic files and difference positions",
)
prop(
    "C13", "Copying makes the target identical to the source",
    "Both ways of copying an open file make the target equal to the source in "
    "content and size, whatever the target held before, and return the size; "
    "the copy-on-write friendly one does not write to blocks that already "
    "are equal. Punching a hole zeroes exactly the given range.",
    ["inputs"],
    "all contents and sizes within the bounds",
    "Tests use a few fixed files.",
    ["utils.py"],
    [("copy, copy_overwrite, punch_hole", "src/backy/utils.py")],
    "symbolic files",
)
prop(
    "C14", "Scheduled run times form a fixed grid per job",
    "For every schedule and point in time the regular next run of a tag lies "
    "in the future and at most one interval away, and looking again later "
    "names the same slot until it is reached and then the one exactly one "
    "interval later. With several tags the earliest slot is chosen together "
    "with exactly the tags due in it.",
    ["inputs", "configurations"],
    "all clock values of this century, spreads, a set of intervals",
    "Tests use a few fixed dates; rounding at slot edges is not sampled.",
    ["schedule.py"],
    [("next_in_interval, Schedule._next_ideal", "src/backy/schedule.py")],
    "decided for every microsecond with rounding error bounds",
)
prop(
    "C15", "Missed backups are caught up without delay",
    "A tag counts as missed exactly if no completed revision carrying it is "
    "younger than its interval. If tags are missed, any revision is known "
    "and the next regular run is more than five minutes away, a run with "
    "exactly the missed tags is due now; in all other cases the next run is "
    "the regular one, with its own and all missed tags.",
    ["histories", "configurations"],
    "all clocks, revision ages, tags and completeness",
    "Tests fix one clock and two or three histories.",
    ["schedule.py", "repository.py"],
    [("Schedule.next, Schedule._missed, last_by_tag", "src/backy/schedule.py")],
    "symbolic clock and history",
)
prop(
    "C16", "Expiry removes a revision only when all its tags have expired",
    "A scheduled tag is removed from a revision exactly if at least `keep` newer "
    "revisions carry it and the revision is older than `keep` intervals; "
    "tags no longer in the schedule are removed, manual tags never. Local "
    "revisions left without tags are deleted, remote ones are kept (without "
    "tags) until the change is pushed; nothing else changes.",
    ["histories", "configurations"],
    "all clocks, ages, tag sets and locations within the bounds",
    "Tests use a few fixed timelines.",
    ["schedule.py", "repository.py", "revision.py"],
    [("Schedule.expire", "src/backy/schedule.py")],
    "symbolic clock and ages",
)
prop(
    "C17", "SLA and check results reflect the last completed backup",
    "The SLA of a repository counts as violated exactly if there is a "
    "completed revision and the last one is older than one and a half times "
    "the smallest interval of the schedule, and the overdue time is its age. "
    "The check command returns 2 on a violation, otherwise 1 if there are "
    "problem reports, otherwise 0; the daemon status agrees with it and "
    "reports last and next runs, tags and revision counts as recorded.",
    ["histories", "configurations"],
    "all clocks, ages, completeness and schedules",
    "Tests use a few fixed ages.",
    ["repository.py", "cli/__init__.py", "daemon/__init__.py"],
    [("Repository.sla_overdue, Command.check", "src/backy/repository.py")],
    "symbolic clock and ages",
)
prop(
    "C18", "Revision specifiers select what the manual says",
    "Each form of revision specifier in the manual (IDs, relative counts, "
    "first/last/latest, functions, all/clean/local/remote, trust:, tag: and "
    "server: filters, date and revision ranges, intersections, lists and "
    "parentheses) selects exactly the documented revisions in the documented "
    "order, for any history with distinct timestamps. Specifiers that match no "
    "single revision raise an error.",
    ["inputs", "histories"],
    "all histories within the bounds, all dates, nested specifiers",
    "Tests use one fixed history.",
    ["repository.py", "utils.py"],
    [("Repository.find_revisions, Repository.find", "src/backy/repository.py")],
    "reference semantics, symbolic timestamps and dates",
)
prop(
    "C19", "Tag edits are all-or-nothing and change nothing else",
    "Setting, adding or removing tags changes exactly the tags of the selected "
    "revisions, on disk as in memory; if an expectation is given "
    "and any selected revision has other tags, or a new tag is not in the "
    "schedule and the edit is not forced, nothing changes and failure is "
    "reported. With autoremove local revisions left without tags are deleted.",
    ["inputs", "histories"],
    "all tag sets, selections and options within the bounds",
    "Tests use a few fixed edits.",
    ["repository.py", "revision.py", "cli/__init__.py"],
    [("Repository.tags", "src/backy/repository.py")],
    "all tag sets up to the bounds",
)
prop(
    "C20", "Revision metadata survives storing and loading",
    "All metadata of a revision (ID, timestamp, tags, original tags, trust, "
    "server, statistics) is the same after being written and read again. "
    "Scanning lists every stored revision exactly once, oldest first, "
    "and ignores symbolic links; removing a local one removes only it.",
    ["inputs", "histories"],
    "all metadata values within the bounds, directory contents",
    "Tests use one or two fixed revisions.",
    ["revision.py", "repository.py"],
    [("Revision.write_info/load, Repository.scan", "src/backy/revision.py")],
    "symbolic timestamps, trust, tags",
)
prop(
    "C21", "Operations on one repository exclude each other",
    "At most one of backup, tag edit, removal, expiry, distrust, cleanup, push "
    "and pull runs on a repository at any time. Garbage collection and "
    "verification (which collects garbage at its end) never run "
    "while a backup, restore or another collection or verification runs. A "
    "conflicting operation fails at once without changing anything, only "
    "backups and restores wait for a collection or verification; restores run in parallel "
    "with backups. The collection and verification that a backup does "
    "itself are part of it. Locks "
    "are held until the operation, including asynchronous ones, has ended "
    "and are released on success and failure.",
    ["schedules", "histories"],
    "all pairs of operations and moments at which the second starts; all "
    "failing steps",
    "Tests try a few pairs in one process.",
    ["repository.py", "rbd/__init__.py", "daemon/scheduler.py"],
    [("Repository.locked, Repository.lock", "src/backy/repository.py")],
    "recorded steps and lock states of the real code, the moment of the second "
    "operation is symbolic; replay runs both",
)
prop(
    "C22", "Concurrent maintenance never loses a completed backup",
    "Whatever the moment at which another process read the repository, its "
    "cleanup of incomplete revisions and its garbage collection never remove "
    "a revision that has been completed in the meantime or chunks it needs, "
    "nor do they break a backup that is running.",
    ["schedules"],
    "all interleavings of reading, locking and completing",
    "Tests run operations one after another.",
    ["repository.py", "rbd/__init__.py", "cli/__init__.py"],
    [("_clean and gc rescan under the lock", "src/backy/repository.py")],
    "moments of reading and running symbolic, real code runs per moment",
)
prop(
    "C23", "The API serves only requests with a configured token",
    "Every API request whose authorization header is not exactly a bearer "
    "token from the configured table is answered with 401 and has no effect; "
    "with a valid one it is served on behalf of that client.",
    ["inputs", "configurations"],
    "all header values and token tables within the bounds, all routes",
    "Tests try three headers.",
    ["daemon/api.py"],
    [("BackyAPI.require_auth", "src/backy/daemon/api.py")],
    "header relation symbolic",
)
prop(
    "C24", "Remote tag updates are compare-and-set on inactive backups only",
    "A tag update through the API is applied only if the revision's tags "
    "equal the expected old tags, and then sets exactly the new tags (or, "
    "with autoremove and no tags left, deletes the revision); otherwise it "
    "is refused and nothing changes. Tag updates and purge requests for backups of jobs "
    "configured on this server are refused, unknown backups, revisions and "
    "jobs are reported as such, and listing revisions returns local ones "
    "only.",
    ["inputs", "histories", "configurations"],
    "all tag sets, revision locations and backup states within the bounds",
    "Tests try a few fixed requests.",
    ["daemon/api.py", "repository.py"],
    [("BackyAPI.put_tags, get_backup", "src/backy/daemon/api.py")],
    "all requests up to the bounds",
)
prop(
    "C25", "Pulling mirrors the peers' revisions and nothing else",
    "After pulling, the recorded revisions of each reachable peer are exactly "
    "those the peer reported, with the peer's metadata; revisions of peers "
    "that are no longer configured are dropped, those of peers that could "
    "not be reached are kept, and local revisions are never changed. The "
    "number of peers with errors is returned.",
    ["histories", "fault_sequences", "configurations"],
    "all previous records, answers and failures of peers",
    "Tests use two peers and fixed answers.",
    ["daemon/scheduler.py", "daemon/api.py"],
    [("Job.pull_metadata", "src/backy/daemon/scheduler.py")],
    "all answers up to the bounds",
)
prop(
    "C26", "Pushing settles each pending remote change exactly once",
    "Pushing sends a tag update for exactly the completed remote revisions whose tags were "
    "changed here, with the original tags as expectation. Accepted changes "
    "are recorded as settled, accepted removals delete the record and ask the "
    "peer to purge once; refused or failed ones stay pending unchanged and "
    "are counted, and do not keep others from being pushed.",
    ["histories", "fault_sequences"],
    "all pending changes and peer answers within the bounds",
    "Tests use fixed answers.",
    ["daemon/scheduler.py", "daemon/api.py"],
    [("Job.push_metadata", "src/backy/daemon/scheduler.py")],
    "all answers up to the bounds",
)
prop(
    "C27", "A job leaves the backup to a peer only if the peer did it",
    "A job skips its own backup only if its leader (the reachable peer with "
    "the most completed local revisions of the job, if these are strictly more "
    "than this server has) reports a backup not older than five minutes "
    "before the due time. In all other cases (no such peer, the "
    "leader stopped, is not scheduled soon, fails, or an immediate run is "
    "requested) the job makes the backup itself; peers that are unavailable or do not have the "
    "job are ignored.",
    ["histories", "fault_sequences", "inputs"],
    "all status answers over several polls, all clocks",
    "Tests use fixed answers.",
    ["daemon/scheduler.py"],
    [("Job._wait_for_leader", "src/backy/daemon/scheduler.py")],
    "symbolic counts and times, poll answers enumerated",
)
prop(
    "C28", "The scheduler loop keeps backups going",
    "In each round a job that makes the backup itself first clears "
    "incomplete revisions, backs up with the tags due, then clears again, "
    "pulls, expires, pushes, collects garbage and calls back, in this order; "
    "a failing step ends the round as failed. After n consecutive failures "
    "the next try is due after min(2^n, 360) minutes, after a success the "
    "schedule applies again; failures of one round never end the loop.",
    ["fault_sequences", "histories"],
    "all positions of failures over consecutive rounds",
    "Tests use one failure pattern.",
    ["daemon/scheduler.py"],
    [("Job.run_forever", "src/backy/daemon/scheduler.py")],
    "failure positions enumerated by solver-decided forks",
)
prop(
    "C29", "Only backups without any recent change are purged",
    "The daemon's periodic purge deletes exactly those directories below the "
    "base directory in which nothing has been modified for 93 days (symbolic "
    "links are neither followed nor removed); one that can not be examined or "
    "removed does not keep the others. Processing pending purges "
    "collects garbage only in directories that carry a purge request and "
    "belong to no configured job.",
    ["inputs", "configurations"],
    "all modification times and directory shapes within the bounds",
    "Tests use two fixed ages.",
    ["daemon/__init__.py", "utils.py"],
    [("purge_old_files, has_recent_changes", "src/backy/daemon/__init__.py")],
    "symbolic modification times",
)
prop(
    "C30", "Reloading the configuration updates exactly what changed",
    "After loading a configuration the running jobs are exactly the "
    "configured ones with the configured source and schedule: unchanged jobs are not "
    "restarted, changed ones are restarted with the new configuration, "
    "removed ones are stopped, and directories of no job are the inactive "
    "backups. A schedule change reaches all jobs that use it.",
    ["configurations", "histories"],
    "all pairs of configurations within the bounds",
    "Tests use one reload.",
    ["daemon/__init__.py", "daemon/scheduler.py"],
    [("BackyDaemon._apply_config", "src/backy/daemon/__init__.py")],
    "all configuration pairs up to the bounds",
)
prop(
    "C33", "Snapshot requests to the VM host are always cleaned up",
    "With a configured VM a snapshot is requested through Consul and the "
    "run proceeds as soon as it exists; if it does not appear in time it is "
    "created directly. In every case all backy snapshot requests of this VM "
    "and unreadable ones are removed afterwards, and requests of other VMs "
    "or for other snapshots are left alone.",
    ["histories", "fault_sequences"],
    "all request tables and appearance times",
    "Tests use fixed tables.",
    ["rbd/__init__.py"],
    [("CephRBD.create_snapshot", "src/backy/rbd/__init__.py")],
    "appearance time symbolic, tables enumerated",
)
prop(
    "C34", "The file source keeps, restores and collects revisions faithfully",
    "Restoring a revision of a file source yields the content the file had "
    "when it was backed up, independent of later backups and changes; garbage collection "
    "removes no metadata of known revisions and nothing but metadata, "
    "and verification fails exactly "
    "if the revision's data is missing.",
    ["histories"],
    "all sequences of backups, changes and removals within the bounds",
    "Tests run one backup and restore.",
    ["file/__init__.py"],
    [("FileSource", "src/backy/file/__init__.py")],
    "all histories up to the bounds",
)
prop(
    "C35", "A crash never leaves broken or lost metadata",
    "If the machine stops at any point while revision metadata, job "
    "configuration or a report is being written, afterwards the file holds "
    "either the complete old or the complete new content; leftover temporary "
    "files are not taken for revisions. If writing fails with an error the "
    "old content stays and no temporary file is left.",
    ["crash_points", "fault_sequences"],
    "all crash points with every subset of unsynced writes lost",
    "Tests never crash.",
    ["utils.py", "revision.py"],
    [("SafeFile", "src/backy/utils.py")],
    "file operation trace of the real code; crash point and lost writes symbolic",
)
prop(
    "C36", "A crash during a backup never damages complete revisions",
    "If the process or the machine stops at any point during a backup, every "
    "revision that is recorded as complete afterwards, including the new one, "
    "can be read back with its exact content, also after later cleanups, "
    "backups and garbage collections. Chunk files are either absent or "
    "complete after a killed process. After a crash of the machine the data "
    "of a new revision is on disk before the revision is recorded as "
    "complete.",
    ["crash_points"],
    "all crash points of a backup with all subsets of unsynced data lost",
    "Tests never crash.",
    ["rbd/__init__.py", "rbd/chunked/chunk.py", "rbd/chunked/file.py"],
    [("Chunk.flush, RBDSource.backup", "src/backy/rbd/__init__.py")],
    "file operation trace of the real code; crash point and lost writes symbolic",
)
prop(
    "C37", "Converting an old chunk store keeps every chunk",
    "Opening a chunk store of the old layout moves every chunk to its new "
    "place with unchanged content, and every chunk is found afterwards even if the "
    "conversion was interrupted at any point and is run again; stores of "
    "the current layout are left as they are.",
    ["crash_points", "histories"],
    "all sets of chunks and interruption points within the bounds",
    "Tests convert one store once.",
    ["rbd/chunked/store.py"],
    [("Store.convert_to_v2", "src/backy/rbd/chunked/store.py")],
    "chunk sets and interruption point symbolic",
)
prop(
    "C38", "Completed metadata changes survive concurrent operations",
    "A change of revision metadata that another process has completed (tags "
    "added or removed, trust marks, removal, expiry, verification) is never undone by "
    "an operation that read the repository before: added tags stay, "
    "removed tags and revisions do not come back and trust marks are kept "
    "unless the operation itself sets them.",
    ["schedules", "histories"],
    "all pairs of operations and moments of the concurrent change",
    "Tests run operations one after another.",
    ["repository.py", "rbd/__init__.py", "daemon/scheduler.py", "schedule.py"],
    [("distrust, verify, push_metadata, expire rescan under the lock",
      "src/backy/repository.py")],
    "moment of the change symbolic, real code runs per moment",
)
prop(
    "C39", "Commands report failures by their exit code",
    "A command line invocation exits with 0 exactly if everything that was "
    "asked for was done: an unknown or failing job, an interrupted or "
    "failed backup, verification or garbage collection, and a child process "
    "that was killed by a signal lead to a non-zero code, also if other "
    "jobs, run before or after, are fine. The check command returns the most severe result of all jobs.",
    ["inputs", "fault_sequences"],
    "all sequences of job results and return codes within the bounds",
    "Tests sample single results.",
    ["cli/__init__.py", "source.py"],
    [("Command.__call__", "src/backy/cli/__init__.py"),
     ("CmdLineSource, Source.main", "src/backy/source.py")],
    "results and return codes symbolic",
)
prop(
    "C40", "The worker limit bounds concurrent backups and starves nobody",
    "Never more backups than the worker limit run at once, counted "
    "separately for jobs with fast and with slow backups (whose last completed "
    "one took less than ten minutes, or not); at most one "
    "command per job runs at a time. A job never waits while a slot is "
    "free, every job that is due gets its turn, and a job that fails, is stopped or "
    "is reconfigured gives its slot back. The command of a stopped job is terminated, "
    "and no other.",
    ["schedules", "fault_sequences"],
    "all durations, results and stop or reload moments within the bounds",
    "Tests run one job with stand-in commands that end at once.",
    ["daemon/scheduler.py", "daemon/__init__.py"],
    [("Job.run_forever, run_backup, _run_proc", "src/backy/daemon/scheduler.py"),
     ("_apply_config", "src/backy/daemon/__init__.py")],
    "durations, return codes and moments of events symbolic, virtual time",
)
prop(
    "C41", "Stopping the daemon stops its work; reloads take effect",
    "At most one daemon works on a base directory: a second one ends with "
    "exit code 69 and changes nothing. SIGTERM, SIGINT and SIGQUIT end the "
    "daemon at any moment: every command it runs is terminated, no further "
    "one is started and the loop ends. After any sequence of reloads "
    "(SIGHUP), however close they follow one another, the API listens on "
    "exactly the addresses and accepts exactly the tokens that were "
    "configured last, and unchanged jobs go on undisturbed. A reload with a "
    "broken configuration stops the daemon instead of running on with a "
    "part of it.",
    ["schedules", "histories"],
    "all moments of signals and sequences of configurations within the bounds",
    "Tests send single signals to an idle daemon.",
    ["daemon/__init__.py", "daemon/api.py", "daemon/scheduler.py"],
    [("BackyDaemon.start, lock, reload, terminate, api_server_loop",
      "src/backy/daemon/__init__.py"),
     ("BackyAPI.reconfigure", "src/backy/daemon/api.py")],
    "moments, states and configurations symbolic, virtual time",
)
prop(
    "C42", "Every noticed mismatch is kept as evidence",
    "Each mismatch between an image and its source that a comparison "
    "notices leaves exactly one problem report with the time, the offset, "
    "the hashes and the contents of both blocks, also if blocks repeat or "
    "were reported before. Reports are seen by all later runs and make the "
    "check command warn. Listing, showing and deleting reports treats "
    "exactly the selected ones and never those of other backups.",
    ["inputs", "histories"],
    "all block contents, offsets and selections within the bounds",
    "Tests store one report.",
    ["report.py", "repository.py", "cli/__init__.py", "utils.py"],
    [("ChunkMismatchReport", "src/backy/report.py"),
     ("add_report, scan_reports", "src/backy/repository.py"),
     ("reports_list, reports_show, reports_delete, check",
      "src/backy/cli/__init__.py")],
    "offsets, sizes and contents symbolic",
)
prop(
    "C43", "Client commands act on exactly the selected jobs",
    "The commands that talk to the daemon act on exactly the jobs whose name "
    "matches the given filter (a regular expression found anywhere in the "
    "name), or on the repository of the working directory without a filter: "
    "backup --bg triggers exactly these jobs, show-jobs lists and counts "
    "exactly these jobs with their state, and dead backups; show-daemon "
    "counts all jobs by state. A token the daemon does not accept makes the "
    "command fail without any effect.",
    ["inputs"],
    "all filters, job sets, states and tokens within the bounds",
    "Tests use one or two jobs and mocked clients.",
    ["cli/__init__.py", "daemon/api.py", "daemon/__init__.py"],
    [("get_repos, backup, show_jobs, show_daemon",
      "src/backy/cli/__init__.py"),
     ("Client, BackyAPI", "src/backy/daemon/api.py"),
     ("BackyDaemon.status", "src/backy/daemon/__init__.py")],
    "the real client talks to the real API; selections and states symbolic",
)
prop(
    "C44", "The log is complete and never fails an operation",
    "Every event is written to the log file exactly once with its level, "
    "job, values, named message fields, command output and exception, and "
    "without terminal codes; the console shows the same for events at or above the chosen "
    "verbosity (info, or everything with --verbose). Missing or ill-formed "
    "named fields of a message do not raise. A log that can not be written "
    "(full disk, closed console) neither raises nor keeps the event from "
    "the other log, and operations have the same effects as otherwise.",
    ["inputs", "fault_sequences"],
    "all levels, kinds of values and ranges of failing writes within the "
    "bounds",
    "Tests never fail a log write.",
    ["logging.py"],
    [("ConsoleFileRenderer, PartialFormatter, MultiOptimisticLogger",
      "src/backy/logging.py")],
    "levels, values and failing writes chosen by the solver",
)
prop(
    "C45", "No RBD device stays mapped; only the own snapshot is read",
    "A backup verifies against a read-only mapping of exactly its own "
    "snapshot, whatever other images, pools and snapshots of the same or "
    "similar names are mapped on the host and in either listing format of "
    "the supported Ceph releases. The device is unmapped again however the "
    "use ends: normally, by an error, an interrupt or because the device can "
    "not be opened. Devices of others are never unmapped.",
    ["inputs", "fault_sequences"],
    "all contents, mapping tables and failing steps within the bounds",
    "Tests map one image.",
    ["rbd/rbd.py", "rbd/__init__.py"],
    [("RBDClient.map, image_reader", "src/backy/rbd/rbd.py"),
     ("CephRBD.verify", "src/backy/rbd/__init__.py")],
    "device contents, mapping tables and faults symbolic",
)
prop(
    "C46", "Reading a repository is safe while others change it",
    "Reading a repository (at the start of each round of a job, for the "
    "status, the log and check commands) works at any moment, also while "
    "backups, edits, removals, expiry, synchronisation, verification or "
    "collection by others are in progress: it never fails, lists every "
    "revision at most once, oldest first, and each one as it was at some "
    "moment in between; revisions nobody removed are always listed.",
    ["schedules"],
    "all readers, operations and moments within the bounds",
    "Tests have one process.",
    ["repository.py", "revision.py", "daemon/__init__.py", "cli/__init__.py",
     "utils.py"],
    [("Repository.scan, connect", "src/backy/repository.py"),
     ("Revision.load, write_info, remove", "src/backy/revision.py"),
     ("BackyDaemon.status", "src/backy/daemon/__init__.py")],
    "moment symbolic, real code runs per moment",
)
prop(
    "C47", "The configuration means what the manual says",
    "Intervals (number and unit s, m, h, d or w) and numbers of copies "
    "configured for a schedule are those the daemon, its jobs, the command line and "
    "API clients work with. Each global and API setting (base directory, "
    "worker limit, callback, listen addresses and port, tokens, peers, default "
    "of the command line client) is the given one, in any notation the manual shows, "
    "or the documented default if it is missing. The command line client "
    "talks to an address at which the API listens, with the default token.",
    ["inputs"],
    "all numbers, units, selections of settings and addresses within the bounds",
    "Tests read one configuration file.",
    ["daemon/__init__.py", "schedule.py", "utils.py", "source.py",
     "daemon/scheduler.py", "cli/__init__.py", "daemon/api.py"],
    [("BackyDaemon._read_config", "src/backy/daemon/__init__.py"),
     ("Schedule.configure, to_dict, from_dict", "src/backy/schedule.py"),
     ("parse_duration", "src/backy/schedule.py"),
     ("Job.configure", "src/backy/daemon/scheduler.py")],
    "numbers symbolic from the text of the file on, selections explicit",
)
prop(
    "C48", "A dry run changes nothing",
    "With -n (--dry-run) no command of the backy client changes anything: no "
    "file in any repository is created, changed or removed, no operation is "
    "started, and the daemon is not asked for one. Commands that only read "
    "work and print the same as without.",
    ["inputs", "histories"],
    "all commands, selections and states of revisions within the bounds",
    "Tests never use the flag.",
    ["cli/__init__.py"],
    [("main, Command.__call__", "src/backy/cli/__init__.py")],
    "states and commands chosen by the solver",
)
prop(
    "C49", "Commands work on exactly the selected revisions",
    "Each command of the backy client works on exactly the revisions that are "
    "selected by -r, or on the documented default selection of the command, "
    "in order, and leaves all others as they are. An unknown revision is a "
    "failure without any change; a command that is refused for one of the "
    "selected revisions changes none of them. A restore asked for a revision, "
    "target and backend restores this revision to this target by this backend.",
    ["inputs", "histories"],
    "all commands, selections, orders and states of revisions within the "
    "bounds",
    "Tests call single methods with one selection.",
    ["cli/__init__.py", "repository.py", "source.py", "rbd/__init__.py",
     "file/__init__.py"],
    [("Command, main", "src/backy/cli/__init__.py"),
     ("distrust, edit_tags, rm", "src/backy/repository.py"),
     ("CmdLineSource, RestoreArgs", "src/backy/source.py"),
     ("RBDRestoreArgs", "src/backy/rbd/__init__.py")],
    "order, kinds and selection of revisions symbolic, real argument parsing",
)
prop(
    "C50", "Any history of commands keeps the listed backups restorable",
    "Whatever sequence of backups (of an image that changes in any way "
    "in between, also failing ones), removals, tag edits, expiry, collection, distrust and "
    "verification is performed with the command line: each complete revision "
    "that is listed restores to exactly the image at its time, a restore "
    "never yields anything else without failing, exactly the expected revisions "
    "are listed and intact ones are never removed by verification. If stored chunks are "
    "damaged on the way, revisions verified or made while the damaged ones "
    "are distrusted are intact. In the end collection leaves nothing unused "
    "and a backup leaves only its own snapshot.",
    ["histories", "fault_sequences"],
    "all histories of commands and damage up to the bounds, all contents",
    "Tests perform single commands on prepared repositories.",
    ["cli/__init__.py", "source.py", "repository.py", "revision.py",
     "schedule.py", "rbd/__init__.py", "rbd/rbd.py"] + CH,
    [("Command, CmdLineSource, Source.main", "src/backy/cli/__init__.py"),
     ("RBDSource, CephRBD", "src/backy/rbd/__init__.py"),
     ("File, Chunk, Store", "src/backy/rbd/chunked/file.py")],
    "commands, damage and samples chosen by the solver, contents symbolic",
)
prop(
    "C51", "A damaged repository only affects its own job",
    "If the metadata of one repository becomes unreadable at any moment, the "
    "daemon still starts, reloads and keeps running, the status of all other jobs is "
    "reported correctly, and all other jobs make their backups in time. Nothing is "
    "collected or removed in the damaged repository meanwhile, and its job "
    "goes on by itself after it was repaired.",
    ["schedules", "fault_sequences"],
    "all moments, kinds of damage and concerned repositories within the bounds",
    "Tests use intact repositories.",
    ["daemon/__init__.py", "daemon/scheduler.py", "repository.py"],
    [("_apply_config, status", "src/backy/daemon/__init__.py"),
     ("Job.configure, run_forever", "src/backy/daemon/scheduler.py"),
     ("Repository.connect, scan", "src/backy/repository.py")],
    "moment, kind and place of the damage symbolic, virtual time",
)
prop(
    "C52", "A job on two servers keeps one consistent history",
    "Two servers that know each other as peers and share the schedule run "
    "the job on one of them, move it to the other one or have it configured "
    "on both. Whatever the order of moves, tag edits, removals and network "
    "failures: there is a backup every day, only where the job is "
    "configured; scheduled tags are removed, on either server, only if "
    "enough newer revisions known on both carry them; what a user marked is "
    "kept; after a round without disturbance the server knows exactly the "
    "revisions and tags of the other one, and exactly the expired revisions "
    "are gone on both; revisions of an unreachable server stay known, those "
    "of another server that has the job configured are never changed, and "
    "the server where revisions were removed collects within two days.",
    ["histories", "fault_sequences", "schedules", "configurations"],
    "all orders of the listed events and ages of revisions within the bounds",
    "Tests look at one request or one function with fixed answers.",
    ["daemon/__init__.py", "daemon/scheduler.py", "daemon/api.py",
     "schedule.py", "repository.py"],
    [("Job.run_forever, pull_metadata, push_metadata, _wait_for_leader",
      "src/backy/daemon/scheduler.py"),
     ("put_tags, get_revs, run_purge", "src/backy/daemon/api.py"),
     ("_apply_config, purge_pending_backups", "src/backy/daemon/__init__.py"),
     ("Schedule.expire", "src/backy/schedule.py")],
    "two whole daemons with events, losses and ages chosen by the solver, "
    "virtual time",
)
prop(
    "C53", "A failing step never costs a backup",
    "Whatever single step of an operation on a repository fails (opening, "
    "writing or renaming a file, syncing, reading metadata, an image or a "
    "chunk, locking, an rbd command, a request to a peer), or all such steps "
    "from then on: every complete backup stays, with its content, metadata "
    "and its old or new tags; a revision that is considered complete is "
    "exact; what is reported as done is done completely; locks are released, "
    "no device stays mapped, no unfinished file stays behind; and repeating "
    "the operation gives the same as if nothing had failed. A collection that "
    "a peer requested is not forgotten before it is done.",
    ["fault_sequences", "histories"],
    "each step of backup, tags, rm, expire, distrust, clean, push, pull, gc, "
    "verify and restore as the failing one, for the contents listed",
    "Tests make few selected calls fail and look at the error.",
    ["repository.py", "revision.py", "schedule.py", "utils.py",
     "rbd/__init__.py", "rbd/chunked/chunk.py", "rbd/chunked/file.py",
     "daemon/scheduler.py"],
    [("RBDSource.backup, gc, verify", "src/backy/rbd/__init__.py"),
     ("Chunk.flush", "src/backy/rbd/chunked/chunk.py"),
     ("SafeFile", "src/backy/utils.py"),
     ("Repository.lock", "src/backy/repository.py")],
    "the index of the failing step is chosen by the solver; compared with the "
    "same operation without failure",
)
prop(
    "C31", "Performance: backups and restores are fast enough",
    "Backup, restore and garbage collection of large images finish within "
    "the intervals of usual schedules.",
    ["inputs"],
    "all image sizes",
    "Timing is not asserted.",
    ["rbd/__init__.py"],
    [],
    "",
    na="run time on real storage is not a property of the code's values that "
    "a solver could decide",
)
prop(
    "C32", "The external restore tool writes the same bytes",
    "Restoring with the external backy-extract program yields the same bytes "
    "as the built-in restore.",
    ["inputs"],
    "all images",
    "The tool is not part of the tests.",
    ["rbd/__init__.py"],
    [],
    "",
    na="backy-extract is a separate Rust program whose source is not in this "
    "repository",
)

checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(
            json.dumps(
                {
                    "id": p["id"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]},
                    "why_tests_cant": p["why"],
                    "anchors": {
                        "files": p["files"],
                        "mechanism": [
                            {"name": n, "where": w} for n, w in p["mech"]
                        ],
                        "hook_needed": None,
                    },
                }
            )
            + "\n"
        )
        have = os.path.exists(
            os.path.join(HERE, "checks", p["id"].lower() + ".py")
        )
        if p["na"] or not have:
            na.append(
                {"property": p["id"], "reason": p["na"] or "check not built"}
            )
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"bin/check {p['id']}",
                "thorough_cmd": f"bin/check {p['id']} --tier thorough",
                "technique": "bounded symbolic execution of the real Python "
                "code, z3 decides branches and assertions; " + p["note"],
                "level": "other",
                "level_note": "Holds for all values within the bounds listed "
                "in the evidence file; counterexamples are replayed on the "
                "unpatched code. Trusts z3, CPython, the proxies in sx/ and "
                "the assumptions in the evidence file.",
            }
        )
json.dump(
    {
        "version": 1,
        "setup_cmd": "bin/setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "See DESIGN.md. bin/check C01 --replay FILE reruns a "
        "counterexample.",
    },
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks,", len(na), "not applicable")
