#!/usr/bin/env python3
"""Writes known-findings.json. status "fixed" suppresses nothing."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [l.split("|") for l in """C19,C21|07ad449|removing a deep tree recursively exhausted the stack (the process was aborted)
C04,C21|c188001|a listing resumed at the index of "." or ".." had no entries (and panicked on the transient storage, as any index close to the maximum did)
C15,C01,C12|ce265a5|reading V1 chunks (or the transient storage) across the maximum file size returned nothing
C05|e6e2a9e|setting an outdated metadata record overwrote the link count, the directory links, the directory size and the chunk type
C15|a7037bb|the transient storage let the type of an object be changed and reported a changed node with another error
C08|563d735|the attributes of a descriptor renumbered to 0-2 were those of a standard stream, not of its file
C11,C10|e2476cd|opening a file with truncation and append left the cursor at the old end of the file
C05|3909a90|the link count of a mounted file was kept with the mount and lost or wrong after unmounting
C07,C13|6b62a52|storing a mounted file bigger than the limit of its host file failed after having stored part of it
C07,C13|a9ddf54|a mount refused because of the size limit left the memory mounted
C02,C15|13059f1|shrinking a file on the transient storage kept the bytes above the new size, which reappeared when the file grew
C02,C14,C20|c72aa0f|shrinking a file to a size inside a chunk dropped or recreated chunks: data below the new size lost, or space leaked
C21,C01|f66b694|reading or writing the last chunks of a file of the maximum supported size failed
C12,C21|9de6d72|a file could be resized or written beyond the maximum supported size
C07,C13|47d6d80|a mount above the file size limit failed but left its new host file behind
C21,C10|0e0eb94|seeking by extreme values overflowed
C08|0e5e753|renumbering a closed descriptor onto itself succeeded
C08|292cb12|the root descriptor could be renumbered away or replaced
C08|7457b8c|after renumbering to a number not yet given out, open returned that busy number again
C07|4b78bb1|creating a path with a too long component left the directories before it behind
C07,C06|1c5b633|renaming a mounted file failed after the target had been removed
C14,C05|5d6d54a|a file overwritten by rename kept its chunks and metadata for ever
C06|e53ce39|a directory could be moved below itself, which lost the whole subtree
C07|5bc85f8|a refused hard link to a directory had incremented its link count
C06,C05|9b81fc7|renaming or linking a name onto itself removed the file""".splitlines()]
out = []
for p, c, w in F:
    for q in p.split(","):
        out.append({"status": "fixed", "property": q, "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (q, c, w)})
json.dump(out, open(os.path.join(H, "known-findings.json"), "w"), indent=1)
