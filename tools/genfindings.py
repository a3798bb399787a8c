#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.md: the repairs made in /repo, by property."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "3c547d3": "C01", "4bdd709": "C03", "c1e3293": "C03", "ea35e96": "C01", "22fabd9": "C02", "c7a45cd": "C19", "2e03c14": "C14",
 "0dc2291": "C15", "f1bc418": "C15", "904bc92": "C12", "6266b8f": "C02", "1b9c71b": "C24", "a914cd2": "C24", "712ee48": "C06",
 "4bae29d": "C06", "35c8892": "C06", "caebedd": "C04", "8ff9ac1": "C13", "6dd4eb8": "C04", "fb7eaba": "C12", "5099923": "C19",
 "e16eed0": "C15", "18dd0da": "C16", "3278861": "C17", "d330398": "C25", "70f1ebc": "C18", "9cb7e53": "C21", "c7816ca": "C26",
 "1631e96": "C14", "350ab36": "C09", "7f6c380": "C08", "67ec3d8": "C08", "af4bd02": "C08", "078edc2": "C09", "cf6bf21": "C07",
 "dbda7b0": "C07", "9337048": "C12", "ad3944d": "C22", "bb6f201": "C22", "a3bf37b": "C22", "300d845": "C22", "beda3db": "C22",
 "023ff98": "C03", "f99cedf": "C06", "a05a0e2": "C09", "3719709": "C11", "40610fa": "C11",
 "3a64c46": "C23", "2243eba": "C10", "775a12b": "C28", "180b661": "C27", "31a6ce7": "C22", "fe2c3f0": "C22", "0239654": "C20", "9e354cb": "C29", "33093d4": "C29", "4cd74e9": "C23", "acb0362": "C23", "2969d5d": "C16",
}
HEAD = """# Known findings

Open findings (suppressed by a check): none. No check prints a KNOWN-FINDING line.

Repaired defects. Each was found by a check on the original tree (or while writing its oracle), repaired by one
commit in /repo, and is reported again by the check of the named property if it returns. Where a commit mends
several aspects of one routine, the property named is the one whose check found it first.

"""
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
with open(V + "/KNOWN_FINDINGS.md", "w") as f:
    f.write(HEAD)
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if s.startswith("fix:"):
            f.write("fixed: property=%s %s %s\n" % (PROP.get(h, "?"), h, s[4:].strip()))
