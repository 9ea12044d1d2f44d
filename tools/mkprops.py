#!/usr/bin/env python3
"""(Re)generates /verif/properties.jsonl from the table below."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, observe):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe, "hook_needed": None}}

SP = "multibag/split.py"; RE = "multibag/restore.py"; AM = "multibag/amend.py"
AB = "multibag/access/bagit.py"; AE = "multibag/access/extended.py"; AMB = "multibag/access/multibag.py"
VB = "multibag/validate/base.py"; VH = "multibag/validate/headbag.py"; VM = "multibag/validate/member.py"; VG = "multibag/validate/bag.py"
CO = "multibag/constants.py"; MK = "multibag/testing/mkdata.py"

props = [
P("C01", "Splitting a bag and restoring it gives the bag back",
  "For every valid source bag and every way of splitting it, restoring the aggregation from the resulting head bag yields a valid bag with exactly the source's payload files, tag files and empty directories, byte for byte, under the same paths and with the same recorded checksums. Its bag metadata equals the source's, apart from the size fields, which are recomputed for the restored bag. This holds whichever supported source form, splitter, size limits and restore destination are used.",
  ["inputs", "configurations"], "all source bags (names, depths, sizes, tag files, metadata, checksum algorithms, serialized or not) x all splitters and limits x restore modes",
  "tests split and restore two fixed sample bags with one or two size limits; the guarantee quantifies over every tree shape, name, size and setting",
  [SP, RE, AE, AB], [("split plan application", SP), ("member recombination", RE), ("replication of files between bags", AE)],
  ["restored directory tree", "restored manifests and bag-info.txt"]),
P("C02", "Split output is a partition of the source with a truthful head bag",
  "Whatever source bag is split and however, every payload and tag file of the source ends up, byte-identical and with its recorded checksums, in exactly one output bag, and every output bag is by itself a valid BagIt bag with a correct payload size record and the multibag profile version. Only the last bag produced is a head bag; it passes head-bag validation, lists exactly the output bags in the order produced with itself last, and its file lookup names, for each file, the bag that really contains it. If the source is itself a head bag, the outputs take its place: the other members, their lookup entries and the deletions are carried over.",
  ["inputs", "configurations"], "all source bags x splitters x limits x bag naming choices",
  "tests look at a few names and counts in the output for one sample bag; nothing checks the partition for arbitrary names, depths or sizes",
  [SP, AE], [("plan application and multibag tag files", SP), ("enumeration of files to distribute", AE)],
  ["output bag directories", "member-bags.tsv", "file-lookup.tsv"]),
P("C03", "Split plans respect the size limits and pack greedily",
  "For every bag and every maximum and target size, both built-in splitters assign each file exactly once and no planned bag exceeds the maximum unless it consists of one single over-sized file (with at most empty files beside it); the planned total always equals the sum of the file sizes. A bag is closed only after its total passes the target size or when no remaining file would still fit, and files reserved for the head bag are placed in the last bag and nowhere else. The plan does not depend on the order in which the file system lists files.",
  ["inputs", "configurations"], "all multisets of file sizes and directory layouts x all (max size, target size, reserved list) settings x listing orders",
  "tests use one data set with one limit; boundary relations (exact fit, zero-length, larger than limit, target below/equal/above) are combinatorial",
  [SP], [("well-packed and neighborly packing", SP)], ["plan manifests: contents, totalsize, ishead"]),
P("C04", "Restore is a last-member-wins overlay minus deleted paths",
  "For every aggregation, the restored bag contains, for each path present in any member bag, the version from the member listed last, except for paths (files or whole directories) that the head bag lists as deleted, which are absent; nothing else is added and no file is lost. The result is a valid BagIt bag, without multibag tag files or head metadata, and is the same for in-place and out-of-place restoration, for serialized or unserialized members, and for members fetched on demand.",
  ["inputs", "configurations", "histories"], "all assignments of file versions to members, deleted sets, member orders, member forms and restore modes",
  "tests restore two hand-made aggregations without overrides in more than one file and without deleted entries in several bags",
  [RE, AMB, AE], [("reverse-order member restoration", RE), ("deleted path list", AMB)],
  ["restored directory tree", "restored manifests"]),
P("C05", "Restored bag metadata, fetch list and manifests follow the profile rules",
  "The restored bag's metadata is the head bag's saved aggregation metadata when present, otherwise the head's own, minus all head-bag bookkeeping and with payload size fields recomputed; its fetch list is the merge of the members' lists in member order with later entries winning and deleted paths removed. Each of its manifests is the union, per checksum algorithm, of the members' entries for the surviving file versions: it has an entry for every surviving file some member recorded and none for deleted or superseded content.",
  ["inputs", "configurations"], "all combinations of member metadata, fetch lists, checksum algorithms, tag directories and deleted lists",
  "one fixture, one algorithm, one tag directory; merging rules only show when members disagree",
  [RE], [("metadata install, fetch merge, manifest update", RE)], ["bag-info.txt, fetch.txt, manifest-*.txt of the restored bag"]),
P("C06", "Amending yields a correct new head bag",
  "After amending a bag or aggregation with a new head bag and any further bags, the new head lists all previous members in their previous order with their identifiers and comments, then the new bags in the order given, and itself last, each once. Its file lookup resolves every payload path to the newest bag containing it and keeps all other previous entries; paths deleted before stay deleted unless an amending bag brings them back; the previous version is recorded as deprecated along with those it deprecated. The new head carries the requested version and passes head-bag validation.",
  ["inputs", "histories"], "all amended aggregations (plain bag, single, split, previously amended), amendment contents, name collisions, options",
  "tests amend one sample once with non-overlapping defaults",
  [AM, AMB], [("amendment of aggregations", AM), ("head bag update interface", AMB)], ["new head's tag files and bag-info.txt"]),
P("C07", "Every version stays restorable through any update history",
  "For any sequence of creations, splits, conversions and amendments (adding, replacing, deleting and re-adding files), restoring from the head bag of any version, old or new, yields exactly the file set that version had, as a valid bag. Later updates never change what an earlier head bag restores to, and each head's lookup finds each live payload file in a member that holds the right version.",
  ["histories"], "all update histories up to the explored depth, all versions in each",
  "tests exercise at most one amendment of one sample; versions interact only over several steps",
  [AM, RE, AMB, SP], [("amendment", AM), ("restoration", RE), ("deleted list", AMB)], ["restored trees for each head bag"]),
P("C08", "Source and member bags are never modified, even when interrupted",
  "Splitting, restoring to another location, amending and validating leave every input bag exactly as it was: same files, contents, names and metadata, in memory and on disk, including when the library later changes the output bags or the run is interrupted or fails at any point. The one bag that an in-place restoration, conversion or amendment is asked to update is the only one it touches.",
  ["inputs", "crash_points", "fault_sequences", "histories"], "all operations x inputs x every file-system call at which the process may die or the call may fail",
  "tests never compare inputs before and after and never interrupt a run",
  [SP, RE, AM, AE, AMB], [("replication (hard link or copy)", AE), ("tag file writing", SP)], ["tree snapshot of every input bag"]),
P("C09", "No I/O failure is silently absorbed",
  "If any file-system call that opens, reads, lists, creates, writes, links or removes something fails while splitting, restoring, amending, converting, saving head-bag data or generating test data, the operation either reports an error to its caller or still produces the complete and correct result. It never returns normally with missing, truncated or stale output, and validation never accepts a damaged bag because it could not be read.",
  ["fault_sequences"], "every single file-system call of every operation, with several error codes",
  "tests inject no failures",
  [SP, RE, AM, AE, AMB], [("replication", AE), ("tag writing", AMB), ("restoration", RE)], ["exception raised or complete output"]),
P("C10", "A serialized bag behaves exactly like its unserialized form",
  "Opening the same bag as a directory (read-only or writable) or from any supported archive format gives identical answers to every read operation: name, metadata, file existence and type, sizes, listings, text contents, checksums, validation verdicts, head-bag data, and the files produced when they are copied out. An archive that contains no bag is rejected.",
  ["inputs", "configurations"], "all bag shapes x all access forms x all read operations and path spellings within the bag",
  "tests compare a handful of calls on one sample in each form",
  [AB, AE, AMB], [("opening of archives", AB), ("read-only and writable access layers", AE)], ["return values of read operations"]),
P("C11", "Head-bag editing behaves like a simple record and survives save and reopen",
  "Any sequence of head-bag edits (adding, removing, replacing members; adding, removing, clearing lookup entries; marking and unmarking deletions; changing the tag directory) gives the same visible members, lookups and deleted paths as the same edits on a plain in-memory record. Saving writes exactly that state, reopening returns it, re-reading discards unsaved edits, and no edit loses data already stored in the bag.",
  ["histories"], "all sequences of edit, save, re-read and reopen operations up to the explored depth, from several starting bags",
  "tests call each method once or twice from one start state",
  [AMB], [("head bag update interface with lazy caches", AMB)], ["member list, lookup, deleted list; tag files on disk"]),
P("C12", "Multibag tag files round-trip and are parsed as the profile says",
  "Every combination of member name, identifier, extra fields and comment, every lookup pair and every deleted path permitted by the profile is read back exactly as it was written. Reading accepts every layout the profile allows (spaces around TABs, blank lines, empty URL field, comment column, missing final newline, the older space-separated format) with the same meaning, and rejects lines without the required fields. The tag files are found in the bag's multibag tag directory (the last one, where the metadata gives several).",
  ["inputs"], "all field combinations over an adversarial alphabet, all permitted layouts, both format generations",
  "tests parse a few lines",
  [AMB], [("line formatting and parsing", AMB)], ["parsed member info, lookup pairs, deleted paths"]),
P("C13", "The head-bag validator's verdict matches the profile",
  "For every bag, validation as a head bag terminates with a verdict, never an internal failure: it reports an error exactly when some mandatory requirement of the profile is broken, a warning or recommendation exactly when an advisory one is, and accepts every conforming head bag. The verdict is the same for serialized and unserialized forms.",
  ["inputs"], "all head bags with up to the explored number of simultaneous deviations from a conforming one, in all profile versions",
  "tests break one requirement at a time on one sample",
  [VH, VG, VB], [("head bag validation", VH)], ["sets of failed requirements by severity"]),
P("C14", "Validation detects every single corruption of a bag",
  "A bag whose payload or recorded tag file has been altered, truncated, removed, renamed or added, or whose manifests, declaration or payload size record have been damaged so that they disagree with the content, is reported invalid; an intact bag is reported valid. This holds for every file, position and form (directory or archive), and for plain bag, member and head validation alike.",
  ["inputs", "fault_sequences"], "all single corruptions of all files of all bag shapes, all forms",
  "tests corrupt nothing or one file",
  [AB, VG, VM], [("BagIt validation through the file-system abstraction", AB)], ["validation verdict"]),
P("C15", "Bag access never reaches outside the bag",
  "No path given to a bag operation or found in a bag's manifests, fetch list, metadata or multibag tag files makes the library read, report on, copy or write a file outside that bag's directory, including a sibling whose name merely starts with the bag's name; a manifest or fetch list that names such a path, or one that a shell would expand to it (~, $HOME), is refused. Paths inside the bag keep working however they are spelled.",
  ["inputs"], "all path spellings up to the explored length over {.., ., names, sibling names, absolute} x all access operations",
  "tests try one or two escaping paths",
  [AB, AE], [("path canonicalisation", AE), ("dangerous path detection", AB)], ["results of access operations; files created"]),
P("C16", "Profile versions form a consistent total order",
  "Version comparison is a total order that agrees with numeric comparison of the dotted fields, is the same whether a version was given as text, as a sequence of numbers or as a version object, and its six comparison operators are mutually consistent.",
  ["inputs"], "all pairs and triples of versions up to the explored length and field values, in all forms",
  "tests compare a few pairs",
  [CO], [("version comparison", CO)], ["comparison results"]),
P("C17", "Converting a bag makes it a valid one-bag aggregation of itself",
  "Converting any valid bag into a single-bag aggregation leaves its payload and other tag files untouched and valid, and makes it a valid head bag of the requested version whose only member is itself (with the given identifier) and whose lookup lists exactly its selected files. Repeating the conversion gives the same result, and restoring or amending it works like for any aggregation.",
  ["inputs", "configurations"], "all bags x versions, identifiers, tag directories, include/exclude choices, repeated conversions",
  "tests convert one sample",
  [AM, AMB], [("single-bag conversion", AM)], ["tag files, bag-info.txt, payload of the converted bag"]),
P("C18", "Plan bookkeeping is exact",
  "For any plan, built by hand or by a splitter, the files reported missing are exactly the source's distributable files and empty directories not assigned to any bag, the plan counts as complete exactly when none is missing, and a file's destination is the last planned bag listing it. Completing a plan adds at most one bag, holding exactly the missing items with their true total size, changes nothing else, and is idempotent; listings handed out cannot be used to alter the plan.",
  ["inputs", "histories"], "all partial assignments of a source's files to planned bags, all sequences of plan operations",
  "tests check one partial plan",
  [SP, AE], [("plan queries and completion", SP)], ["missing, completeness, destination, plan listing"]),
P("C19", "Bags are produced one at a time, under the chosen names",
  "Iterating over a plan writes each output bag completely before handing it over, in plan order, under the name chosen by default, by a naming sequence or by earlier assignment, directly in the output directory; the caller may move, archive, alter or delete a bag just handed over without affecting the bags that follow. Head-bag records use those same names, a plan cannot be named from a sequence that runs out (this is reported), and an existing output is reported instead of overwritten.",
  ["histories", "configurations"], "all interleavings of iteration with caller actions on delivered bags, all naming sources and lengths",
  "tests collect the iterator in one go with default names",
  [SP], [("incremental plan application", SP)], ["output directory after each step; head bag lists"]),
P("C20", "Lookup selection honours include and exclude choices",
  "When files of a bag are registered in a lookup, the registered files are exactly those that exist in the bag and lie at or below an included path (the payload by default), minus files and whole directories that are excluded (unless the file itself is named for inclusion), for directories at any depth. The result is the same for writable, read-only and archived bags, for single strings and lists, and for bags registered under another name.",
  ["inputs", "configurations"], "all include and exclude choices over a tree of files and directories, all bag forms",
  "tests try two or three choices",
  [AMB, AM], [("member registration", AMB)], ["lookup contents, member list"]),
P("C21", "Source metadata is passed on to split bags correctly",
  "Each output bag of a split carries every metadata field of the source, with all its values in order, except fields the caller asked to withhold and the source's own multibag fields; identifiers, descriptions and sizes that describe the source as a whole are kept under source-specific names, while the bag's own identifier, group identifier and payload size describe that bag. The head bag additionally stores the source's metadata unchanged.",
  ["inputs", "configurations"], "all combinations of source metadata fields, repetitions, long or non-ASCII values and withheld names",
  "tests check a few fields for one sample",
  [SP], [("bag-info propagation", SP)], ["bag-info.txt of each output bag; saved aggregation metadata"]),
P("C22", "Generated test data has exactly the requested size and number of files",
  "A file created with a requested size has exactly that size, and a data set created with a requested total size and number of files has exactly that total and number; so has one whose parts (files and directories) each state a size and number within the requested totals, part by part. Everything is created inside the destination directory, and the size sequences used add up exactly to their target.",
  ["inputs"], "all sizes and counts up to the explored bounds, all plan shapes",
  "tests try a few sizes",
  [MK], [("data set generation", MK)], ["sizes and counts on disk"]),
P("C23", "Results do not depend on how a bag's location is written",
  "Splitting, restoring, amending, converting, validating and reading a bag give the same result whether its location is absolute or relative, has a trailing slash or redundant components, is given as text or as an already opened bag, and whatever the current directory is.",
  ["configurations"], "all location spellings x all operations",
  "tests use absolute temporary paths",
  [AB, AE, AMB, AM, RE, SP], [("location handling", AB)], ["outputs for each spelling"]),
P("C24", "Restore finds, fetches or reports every member",
  "Restoration uses each member bag from the component directory, preferring an unserialized one, whatever supported serialization it has, and calls the fetcher exactly for the members not found there, with the right name and cache directory. If a member is neither present nor fetchable, restoration fails with an error naming it and never returns an incomplete bag. A restoration that failed for want of a member can be completed by restoring again, into the same destination or in place, once the member is there; a head bag that does not exist or is not one, or a destination without a parent directory, is refused before anything is written.",
  ["configurations", "fault_sequences"], "all assignments of forms (directory, each archive type, fetchable, missing) to members x cache directory settings",
  "tests use one layout",
  [RE], [("member discovery", RE)], ["restored tree, fetcher calls, exceptions"]),
P("C25", "Validation results are accounted for consistently",
  "For any set of recorded findings, the applied, passed and failed lists and counts per severity are exact, overall success means that no finding of a requested severity failed, and asking for validity, demanding validity and the module-level shortcuts always agree with it. Restricting the requested severities never changes the verdict about the severities requested. A finding's summary, description, tuple and JSON forms carry its severity, label, requirement, outcome and comments, and a finding survives the round trip through its tuple form.",
  ["inputs", "configurations"], "all sequences of findings up to the explored length x all severity masks; all masks on a family of bags",
  "tests add a few findings",
  [VB, VH, VM, VG], [("result collection", VB)], ["counts, lists, verdicts, raised errors"]),
P("C26", "Reported sizes are truthful",
  "Computed payload records give the exact number of payload bytes and files for any bag, file sizes and times reported by any access form are those of the file, and human-readable sizes use the right unit and are accurate to the digits shown for every byte count.",
  ["inputs"], "all byte counts over decades and boundaries, all bag shapes and forms",
  "tests check a few values",
  [AE, AMB], [("size calculation and formatting", AE)], ["Payload-Oxum, Bag-Size, reported sizes and times"]),
]
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
    with open(out, "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    print(len(props))
