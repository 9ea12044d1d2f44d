#!/usr/bin/env python3
"""(Re)generates known_findings.json; commit ids are looked up in /repo by the subject line."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 {"id": "C07-undeleted-tagdir", "property": "C07",
  "what": "amending an aggregation whose head lists the directory meta as deleted with a bag that brings a file of that directory (meta/n) takes meta off the deleted list, "
          "and the earlier members' other files in it (meta/t) come back, because they are not in the file lookup (histories deltagdir, ..., tagin; "
          "multibag/amend.py Amender._undelete_files_in; not repaired because the amender has no access to the earlier members)"},
 {"id": "C22-no-files", "property": "C22",
  "what": "UniformSizeIterator(0, 0).iterate() fails with ZeroDivisionError instead of giving an empty sequence (multibag/testing/mkdata.py; "
          "not repaired because files of the testing package may not be changed here)"},
 {"id": "C22-beyond-float", "property": "C22",
  "what": "UniformSizeIterator rounds the size per file to floating point: sequences for totals of 2**53 bytes and more do not add up "
          "(multibag/testing/mkdata.py; not repaired because files of the testing package may not be changed here)"},
 {"id": "C25-member-results", "property": "C25",
  "what": "MemberBagValidator.validate() without a results argument (and so is_valid, ensure_valid and member.validate) "
          "drops its bag-name and non-head findings: bags 'memberdep', 'membertagdir', 'memberdir' and 'membername' of the C25 "
          "family are called valid (multibag/validate/member.py passes `results` instead of `out`; the existing tests pin the "
          "count of checks applied, so it cannot be repaired without editing them)"},
]
FIXED = [
 ("registering a bag without files", "C17 C06", "a head bag whose bag has no selected files had no file-lookup.tsv and failed validation"),
 ("a directory that cannot be listed", "C09", "a source directory that could not be listed was taken as empty: its files were silently left out of the split"),
 ("text files and directories are read the same", "C10 C12", "line ends were translated differently, and directories listed differently, by writable and read-only access"),
 ("failure to copy a file is reported", "C09", "a failing copy while replicating was logged and ignored: output bags silently lacked files"),
 ("head bag validation gives a verdict", "C13", "the head-bag validator crashed on malformed bags and judged absolute URLs the wrong way round"),
 ("split passes files that are yet to be fetched", "C01", "fetch.txt entries of files not present were lost by splitting"),
 ("splitting a head bag does not overwrite", "C08", "splitting a head bag wrote through hard links into the source's multibag tag files"),
 ("default names of split bags", "C23", "default names of split bags were wrong for paths with a trailing slash"),
 ("a path into a sibling", "C15", "paths into a sibling directory whose name starts with the bag's name counted as inside the bag"),
 ("a bag's name and location", "C23 C10", "a bag's name was empty or '.' for some spellings of its path"),
 ("converted bag is listed under its real name", "C17 C23", "converting a bag given with a trailing slash listed it under an empty name"),
 ("amending keeps earlier deletions", "C06 C07 C08", "amending dropped the deleted list and modified the amended head's metadata in memory"),
 ("lookup exclusions work", "C20", "exclusion as a single string, of nested directories, or for read-only bags was ignored or failed"),
 ("head bag edits no longer lose", "C11", "editing the member list, lookup or deleted list before reading it lost what was stored"),
 ("member-bags.tsv and file-lookup.tsv lines", "C12", "comments, info fields and names with spaces did not survive writing and reading"),
 ("restore merges manifests", "C04 C05", "restore mixed up manifests of several algorithms, kept deleted files' entries, and lost fetch lists"),
 ("split sets Multibag-Tag-Directory only", "C02", "every output bag claimed a multibag tag directory"),
 ("versions given as text and as tuples", "C16", "versions could not be compared with text or tuples consistently"),
 ("naming iterators work", "C19", "naming iterators failed with Python 3 and when empty"),
 ("splitter's forhead list is honored", "C03", "files reserved for the head bag were not put there, and the caller's list was modified"),
 ("split a source bag that has no bag-info", "C01", "splitting a bag without bag-info.txt failed"),
 ("SplitPlan accepts the path", "C01", "SplitPlan did not accept a serialized bag as documented"),
 ("split only treats BagIt's own files", "C01 C02 C18", "payload and tag files named like BagIt's own files were lost by splitting"),
 ("asking a read-only bag about a path outside", "C13 C10 C15", "validating a head bag whose tag directory or lookup names a path with .. failed with an internal error"),
 ("a read-only bag lists each checksum", "C10", "a bag opened read-only listed each checksum algorithm twice (manifest and tag manifest)"),
 ("validating a read-only bag with an unlisted", "C10 C14", "validating an archived bag with an unlisted payload file failed with a KeyError instead of a verdict"),
 ("a read-only bag can be validated with several", "C10 C14", "validate(processes=2) on a read-only or archived bag failed with a pickling error"),
 ("walking and copying from a writable bag", "C15", "walk('..') listed what is outside of a writable bag, and replicate() of a path with .. could write outside of the destination"),
 ("a multibag tag directory outside of the bag", "C15", "a Multibag-Tag-Directory with .. or an absolute path made saving write, and restoring delete, outside of the bag"),
 ("manifest and fetch paths into a similarly named", "C15", "validating a writable bag read files of a sibling whose name starts with the bag's name"),
 ("left-over multibag tag files", "C08", "splitting a non-head bag that has files like multibag/member-bags.tsv overwrote them in the source through hard links"),
 ("a bag given by a relative path", "C23", "a bag opened by a relative path with a trailing slash could not be saved, and a relative one not read after a change of directory"),
 ("a file of a read-only bag that cannot be read", "C10", "validity of a read-only or archived bag with a listed file that cannot be opened (e.g. a differently composed name in the manifest) was an internal error instead of False"),
 ("a directory in place of aggregation-info.txt", "C13", "validating a head bag with a directory called aggregation-info.txt failed with an internal error"),
 ("a validation issue can be turned into a JSON object", "C25", "turning a finding into JSON failed with an AttributeError, and a finding made from a tuple lost its outcome or failed"),
 ("a failed in-place restore can be repeated", "C24 C04", "an in-place restoration that failed for want of a member left the head bag without its multibag metadata, or with an older head's deleted list, so that repeating it failed or lost files"),
 ("a multibag tag directory inside the payload", "C13", "a tag directory inside the payload was accepted"),
]
def main(extra=()):
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    fixed = []
    reverted = [l.split('Revert "', 1)[1][:-1] for l in log if 'Revert "' in l]
    subs = [l for l in log if l.split(" ", 1)[1].startswith("fix: ") and l.split(" ", 1)[1] not in reverted]
    used = set()
    for key, props, what in FIXED:
        hit = [l for l in subs if key in l]
        assert len(hit) == 1, (key, hit)
        used.add(hit[0])
        for p in props.split():
            fixed.append("fixed: property=%s %s %s" % (p, hit[0].split()[0], what))
    for l in subs:
        if l not in used:
            print("NOT RECORDED:", l)
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
        f.write("\n")
main()
