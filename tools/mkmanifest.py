#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Searches generated cases only; nothing beyond them is shown. Trusts git 2.43 itself (fast-import, log, rev-list) "
          "and the reference model in harness/model.go and views.go, which shares no code with git-who. ")
T = "property-based testing (rapid): generated repositories and requests, black-box runs of git-who against "
NOTES = {
 "C01": (T + "an independent reference model of the table", "Lines and files are judged against the diffs git itself reports for each generated commit."),
 "C02": (T + "a reference model, merge-heavy histories", "Only two-parent merges and octopus merges of up to three parents are generated."),
 "C03": (T + "a reference model of path selection", "History simplification of paths is taken from git rev-list. Glob forms beyond a leading asterisk with a literal rest are not generated."),
 "C04": (T + "set algebra on the generated commit graph", "Commit sets come from the generator's own graph, not from git."),
 "C05": (T + "a reference model of the filters", "Patterns are literal text or simple regular expressions whose meaning in git and in the model agree."),
 "C06": (T + "a reference model of mailmap", "Mailmap files of all four entry forms, checked against git check-mailmap semantics re-implemented in the model."),
 "C07": (T + "a reference model without the listed commits", "Includes changing the file between runs that share a cache."),
 "C08": (T + "a reference ranking", "Authors tied in metric and last commit may come in any order here (see C25)."),
 "C09": (T + "a reference model; metamorphic over GOMAXPROCS and history length", "Batch sizes are crossed with histories around multiples of the batch size; schedules are those the Go runtime happens to take."),
 "C10": ("stateful property-based testing (rapid): sequences of commands and repository changes sharing one cache, against a reference model and uncached runs", "Sequences of up to 6 steps in quick runs."),
 "C11": ("property-based fault injection (rapid): generated damage to the cache directory and kills at drawn instants, then comparison with a reference model", "Damage that keeps a gzip checksum valid while altering recorded commits is out of scope."),
 "C12": ("property-based fault injection (rapid) with a stand-in git: every call of a generated command is made to fail in drawn ways; judged by exit status, output and a later run against a reference model", "Each drawn command has every git call it makes enumerated; the way it fails is drawn per call. Faults are process exits, signals, truncated output; not a hanging git."),
 "C13": (T + "a reference tree of tallies", "Colors are ignored."),
 "C14": (T + "a reference tree layout", "Trees in which a path is a file in one commit and a directory in another are left out."),
 "C15": (T + "a reference timeline with its own calendar", "Time zones from a fixed list, including ones without midnight on some dates."),
 "C16": (T + "the generator's record of what each commit contains", "Paths without line feeds. Identities as git can store them."),
 "C17": (T + "a reference table layout measured with an independent width routine call (go-runewidth) and layout rules", "Display width is that of go-runewidth in the C.UTF-8 locale, as git-who itself uses."),
 "C18": (T + "the definition of the number and age formats", "Ages allow for the seconds that pass during a run."),
 "C19": (T + "an independent CSV reader and the reference model", "Go's encoding/csv is used as the independent reader."),
 "C20": ("property-based testing (rapid): snapshots of repository, home, temporary and cache directories around generated commands", "Compares file contents, modes and names; access times are not looked at."),
 "C21": ("property-based testing (rapid): generated invalid requests must be refused, generated valid spellings must give the reference model's answer", "Invalid requests come from a grammar of known kinds."),
 "C22": ("property-based concurrency testing (rapid): drawn groups of simultaneous processes on one cache, against a reference model", "Schedules are those the operating system happens to take, varied by drawn start delays, cache states and process counts."),
 "C23": (T + "a reference model, from drawn directories, links, worktrees and repository names; metamorphic against the run at the root", "Names without line feeds."),
 "C24": ("metamorphic property-based testing (rapid): outputs of git-who compared with each other over generated partitions", "Path partitions only for histories without merges, where git does not simplify history."),
 "C25": ("metamorphic property-based testing (rapid): repeated runs over processor counts and cache use must agree byte for byte", "Runs that straddle a change of the shown age are repeated."),
 "C26": ("metamorphic property-based testing (rapid): runs under drawn git configuration and environment against a reference model", "Only settings that do not change what git reports as content of commits."),
 "C27": (T + "a reference model, after drawn changes of how the repository is stored", "Storage forms that git 2.43 offers offline; no partial clones."),
 "C29": ("property-based fault injection (rapid): git-who run as an unprivileged user with drawn permissions and obstacles in the cache's place, and on full file systems, against a reference model", "Full file systems need a user namespace that may mount a tmpfs; without one only the other faults are drawn."),
 "C30": ("property-based testing (rapid) over generated ways to start git-who (by git with its options, aliases, hook environments, streams, limits, nested repositories) against a reference model of the history", "Pathspec modes of git are drawn with paths only that mean the same in each."),
 "C31": ("property-based testing (rapid) over generated points at which a reader stops, paces of reading, full devices and closed streams, against a reference model of the history", "What tables, trees and histograms report on a full device is left open; CSV has to fail."),
 "C32": ("property-based testing (rapid) over generated histories, views and limits: the emphasis of every printed character against what a reference model of the history says it has to mean", "Names and paths with escape sequences of their own are left out."),
 "C33": ("stateful property-based testing (rapid): generated histories of changes to attributes, diff settings, shallow boundaries, grafts and replacements, with commands in between, against a reference model learned from git under the same circumstances", "Attributes of the system and untracked ones in subdirectories are left out."),
 "C34": ("stateful property-based testing (rapid): generated series of commands and repository changes, each command run with all file contents taken out of the object store but those that diffs of commits never counted before need, against a reference model", "Runs with one processor or without caching, which may read everything, come in between but are not judged so."),
 "C35": (T + "a reference model, commit by commit and change by change, over what the commands parse and dump list", "Paths with newlines are left out, as the lists do not mark where a path ends; changes listed by dump under paths are not judged."),
 "C28": ("property-based testing (rapid) on a pseudo-terminal: what is left on a modelled screen against the reference model and the piped run; an invariant over the progress texts", "The screen model knows the sequences git-who uses; others are reported."),
}
LEVEL = {"C12": "fault_enumeration"}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    tech, note = NOTES[p]
    checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": LEVEL.get(p, "exploration"), "level_note": COMMON + note})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: all checks run git-who as built from /repo as a black box. known_findings.txt lists defects found and repaired."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
