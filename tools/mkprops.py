#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["stable-fs/src/"+f for f in files],
            state=[dict(name=a, meaning=b, where="stable-fs/src/"+c) for a,b,c in state],
            mechanism=[dict(name=a, where="stable-fs/src/"+c) for a,c in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Reads return the latest written bytes; untouched bytes stay untouched",
 "Reading any range of a file returns, byte for byte, the data most recently written there through any descriptor or name of that file, zeros where nothing was ever written, and stops exactly at the end of file. A write changes exactly the addressed byte range of exactly one file (extending it with zeros when it starts past the end) and no byte of any other file. This holds for every offset, length, buffer split, chunk type and chunk size.",
 ["inputs","histories","configurations"], "every interleaving of positioned, sequential, vectored and appending writes and reads on any number of files, at every offset relative to chunk boundaries, sparse or dense, for V1 chunks and each V2 chunk size",
 "The tests use a few fixed offsets and mostly one file at the default chunk size; aliasing and stale-data errors depend on which chunks exist, on reuse of freed space and on what is cached.",
 ["storage/stable.rs","storage/transient.rs","storage/chunk_iterator.rs","storage/ptr_cache.rs","runtime/file.rs","runtime/structure_helpers.rs"],
 [("chunked write, zero fill of new chunks","storage/stable.rs write_chunks_v2/write_filechunk_v1"),("chunked read with holes","storage/stable.rs read_chunks_v1/read_chunks_v2"),("chunk splitting","runtime/structure_helpers.rs get_chunk_infos")],
 [("v2_chunk_ptr","(node, chunk index) -> address of the chunk","storage/stable.rs"),("filechunk","(node, chunk index) -> V1 chunk","storage/stable.rs")],
 ["FileSystem::read/read_vec/read_vec_with_offset","FileSystem::write/write_vec/write_vec_with_offset"])

prop("C02", "Resizing keeps the prefix, drops the tail, and regrowth reads zeros",
 "Setting a file's size (directly, through its metadata, or by opening with truncation) leaves every byte below the smaller of the old and new size unchanged and makes the size exactly the requested one. Bytes cut off are gone for good: when the file later grows over that range, by resizing or by writing past it, they read as zero. No other file changes.",
 ["inputs","histories","configurations"], "every sequence of grow, shrink, truncate and write on a file, for every pair of sizes relative to chunk boundaries, for every chunk type and size",
 "Tests shrink at a few unaligned sizes on the default configuration; the boundary cases (exact chunk multiples, zero, legacy chunk type, cached chunk addresses) are combinatorial.",
 ["storage/stable.rs","storage/transient.rs","fs.rs","runtime/file.rs"],
 [("chunk deletion and tail zeroing on shrink","storage/stable.rs resize_file_internal"),("size change detection","storage/stable.rs put_metadata"),("truncate on open","runtime/file.rs truncate")],
 [], ["FileSystem::set_file_size","FileSystem::set_metadata","FileSystem::open(TRUNCATE)","FileSystem::read"])

prop("C03", "Everything persistent survives an upgrade at any point",
 "Re-creating the file system over the same stable memory, at any point between two calls, yields exactly the same directory tree, file contents, sizes, size limits, times, link counts and node identities as before, and every later operation behaves as if no upgrade had happened. Only open descriptors, active mounts and the default chunk type selection are forgotten; the remembered state of mounted files (their size and limit) is kept for the next mount.",
 ["crash_points","histories","configurations"], "every history of operations with an upgrade inserted at any set of points, any number of times",
 "A handful of tests perform one upgrade after one fixed script; state that only lives in memory (caches, counters, free lists) would only be missed after particular histories.",
 ["storage/stable.rs","storage/metadata_provider.rs","storage/allocator.rs","fs.rs"],
 [("write-through of metadata, entries, chunk map","storage/stable.rs"),("allocator header and free list in stable memory","storage/allocator.rs"),("node counter in the header cell","storage/stable.rs new_node")],
 [("header/metadata/direntry/filechunk/v2 memories","the ten persisted memories","storage/stable.rs StorageMemoryIdx")],
 ["StableStorage::new_with_memory_manager + FileSystem::new on the same memory"])

prop("C04", "Names and listings reflect exactly the history of the namespace",
 "A path resolves to an object exactly when the history of creations, links, renames and removals put it there, and to exactly that object. A directory listing shows every entry of that directory exactly once with the right name and object, in a stable order that can be resumed from any entry index without skipping or repeating entries that stay in place, and the directory's reported size is its number of entries; no two entries of a directory share a name.",
 ["histories","inputs"], "every history of create, mkdir, link, rename, remove over any tree shape and names, and every starting index of a listing",
 "Tests check a few names in small fixed trees; lookup goes through a name index and a name cache whose agreement with the entries depends on the whole history.",
 ["runtime/structure_helpers.rs","runtime/dir.rs","filename_cache.rs","storage/stable.rs","storage/transient.rs","fs.rs"],
 [("entry insertion/removal","runtime/structure_helpers.rs add_dir_entry/rm_dir_entry"),("lookup index maintenance","storage/stable.rs put_direntry/rm_direntry"),("entry index assignment","storage/stable.rs new_direntry_index")],
 [("direntry","(dir, index) -> entry","storage/stable.rs"),("direntry_lookup","(dir, name) -> index","storage/stable.rs")],
 ["FileSystem::open/open_metadata","FileSystem::with_direntries/get_direntry"])

prop("C05", "Link counts are exact and a file lives as long as it is named",
 "A file's reported link count always equals the number of directory entries that refer to it, and all its names give access to the same content and metadata. Removing or overwriting one name never affects the file as seen through its other names or open descriptors, and the file disappears exactly when its last name is removed.",
 ["histories"], "every history of hard links, renames (also over existing names and over another name of the same file), removals, with and without open descriptors",
 "Tests create at most two links of one file; count errors need links, overwriting renames and removals in particular orders.",
 ["runtime/structure_helpers.rs","runtime/dir.rs","fs.rs"],
 [("link creation","runtime/structure_helpers.rs create_hard_link"),("unlink and free at zero","runtime/structure_helpers.rs rm_dir_entry; runtime/dir.rs remove_file")],
 [("link_count","number of names","storage/types.rs Metadata")], ["FileSystem::metadata","FileSystem::create_hard_link","FileSystem::remove_file"])

prop("C06", "Rename moves exactly one object and loses nothing",
 "A successful rename makes the object reachable under the new name only, with unchanged identity, content, metadata and subtree, replaces only a compatible target (a file, or an empty directory) and leaves open descriptors on the object working. Renaming an object onto itself changes nothing, and a directory can never be moved below itself. A rename that fails changes nothing.",
 ["histories","inputs"], "every pair of source and target paths (same, nested, linked, existing, missing, busy, mounted) in every tree",
 "Tests rename to fresh names or over one existing file; self-renames, renames into the own subtree, between two links or onto busy targets are not run.",
 ["fs.rs","runtime/structure_helpers.rs"],
 [("rename = link new name, unlink old name","fs.rs rename"),("target checks","runtime/structure_helpers.rs create_hard_link")],
 [], ["FileSystem::rename"])

prop("C07", "A failed operation has no effect",
 "When an operation returns an error, the directory tree, all file contents and metadata, all descriptors and cursors and all mounts are exactly as before the call. The only exceptions are a vectored write that runs into a limit, which may have stored a prefix of its buffers, and a recursive removal that runs into a protected object, which may have removed other objects below the named directory.",
 ["inputs","histories","fault_sequences"], "every operation with every kind of failing argument in every reachable state",
 "Tests assert the error code of single failures, hardly ever the full state after it, and most error paths are reached after part of the work has been done.",
 ["fs.rs","runtime/structure_helpers.rs","runtime/dir.rs","storage/stable.rs","storage/transient.rs"],
 [("checks before effects","runtime/structure_helpers.rs create_hard_link/create_path/rm_dir_entry"),("metadata validation","storage/stable.rs validate_metadata_update"),("mount and store","storage/stable.rs mount_node/store_mounted_memory")],
 [], ["every FileSystem method returning Err"])

prop("C08", "Descriptors are unique, stable and independent",
 "A newly returned descriptor number is never that of a descriptor still open, and a descriptor keeps referring to the same object, with its own cursor, rights and flags, until it is closed or renumbered, whatever is done through other descriptors. Closing or renumbering a descriptor makes its old number invalid until it is assigned again; renumbering moves the descriptor unchanged to the requested number, closing what was there, and refuses to mix files with directories. The root descriptor always stays open on the root directory.",
 ["histories","inputs"], "every history of open, close and renumber with any descriptor numbers (open, closed earlier, never used, root), interleaved with all other operations",
 "Tests renumber one or two descriptors; number reuse after renumbering to unused or freed numbers needs longer histories.",
 ["runtime/fd.rs","fs.rs"],
 [("number allocation and reuse","runtime/fd.rs FdTable::open/close"),("renumber","runtime/fd.rs FdTable::renumber")],
 [("table, free_fds, next_fd","descriptor table and the numbers to reuse","runtime/fd.rs")],
 ["FileSystem::open/close/renumber/get_stat/tell"])

prop("C09", "Objects in use cannot be removed",
 "The last name of a file or directory that is open, any name of a file hosting a mounted memory, and a directory that is not empty can neither be removed nor overwritten, removal operations accept only objects of their kind, and everything else that exists can be removed. A descriptor or mount therefore never refers to an object that no longer exists, and closing the last descriptor makes the object removable again.",
 ["histories"], "every history of open, close, renumber, link, rename, mount and removal",
 "Tests try one removal of one opened file; the protection counts descriptors per object and can be wrong after renumbering, linking or repeated opens.",
 ["runtime/structure_helpers.rs","runtime/fd.rs","runtime/dir.rs"],
 [("busy, mounted and emptiness checks","runtime/structure_helpers.rs rm_dir_entry"),("per-object open counts","runtime/fd.rs inc_node_refcount/dec_node_refcount")],
 [("node_refcount","open descriptors per object","runtime/fd.rs")],
 ["FileSystem::remove_file/remove_dir/rename"])

prop("C10", "Cursors move exactly as specified",
 "Sequential reads and writes start at the cursor and advance it by exactly the number of bytes transferred, positioned reads and writes leave it alone, and append-mode writes always land at the current end of file and leave the cursor after the written data. Seeking sets the cursor to the requested position relative to start, cursor or end of file and reports it, refuses positions before the start or (relative to the end) behind the end, and does not change the file.",
 ["inputs","histories"], "every interleaving of reads, writes, seeks and flag changes through several descriptors of the same file, with every split into buffers",
 "Tests check a few seek/tell sequences with one descriptor.",
 ["runtime/file.rs","fs.rs"],
 [("seek arithmetic","runtime/file.rs seek"),("cursor update and append offset","fs.rs write_vec/write_vec_with_offset/read_vec")],
 [("cursor","per-descriptor position","runtime/file.rs File")],
 ["FileSystem::seek/tell/read/write"])

prop("C11", "Access rights and open flags are enforced",
 "Reading needs a descriptor with the read right, and writing and setting the file size one with the write right; without it the call fails and changes nothing. (Opening with truncation and replacing the whole metadata record need no right.) Opening creates only when creation is requested, fails on an existing object when exclusive creation is requested, truncates only when truncation is requested, refuses to open a file as a directory, and a descriptor has exactly the rights and flags it was opened with or last given.",
 ["inputs","histories"], "every combination of rights, descriptor flags and open flags on missing, existing, file and directory paths, and every later change of them",
 "Tests use almost only default rights and a few flag combinations.",
 ["fs.rs","runtime/file.rs","runtime/types.rs"],
 [("right checks","fs.rs read/read_vec/write_vec/set_file_size"),("flag handling","fs.rs open/open_internal"),("stat updates","fs.rs set_stat")],
 [], ["FileSystem::open/set_stat/get_stat/read/write/set_file_size"])

prop("C12", "File size limits are never exceeded",
 "No operation makes a file larger than its configured limit, or than the maximum supported file size when there is none: writes, appends, resizes and mounts that would do so fail with a file-too-large error, and those that reach exactly the limit succeed. A limit below the current size is refused, and a limit stays with the file across every other operation and upgrade.",
 ["inputs","histories"], "every write, append, resize and limit change at sizes just below, at and above the limit, up to the largest representable offset",
 "Tests probe one limit with a few writes and never offsets whose end overflows or lies near the format's maximum.",
 ["storage/stable.rs","storage/transient.rs","fs.rs","storage/types.rs"],
 [("limit checks on write","storage/stable.rs write"),("limit check on metadata update","storage/stable.rs validate_metadata_update")],
 [("maximum_size_allowed","configured limit","storage/types.rs Metadata")],
 ["FileSystem::set_file_size_limit/set_file_size/write"])

prop("C13", "A mounted file is exactly its memory, its host file stays intact",
 "While a memory is mounted on a file, reads and writes of that file access precisely that memory at the same offsets, with a size of its own determined by the mount policy and remembered between mounts and upgrades; the host file's content and size are untouched and are back after unmounting. Initialising copies exactly the host content into the memory and storing copies exactly the memory content (up to its size) and size into the host file. Mounting twice, or unmounting, initialising or storing an unmounted file fails.",
 ["histories","inputs","configurations"], "every history of mount, unmount, init, store, read, write, resize and upgrade, for every mount policy and memory size",
 "Tests mount once with one policy and small sizes; policies depend on remembered sizes, page counts and the order of operations.",
 ["fs.rs","storage/stable.rs","storage/transient.rs","storage/metadata_provider.rs","storage/types.rs"],
 [("mount/unmount/init/store","storage/stable.rs mount_node/unmount_node/init_mounted_memory/store_mounted_memory"),("policy","storage/types.rs get_mounted_file_size"),("separate mounted metadata","storage/metadata_provider.rs")],
 [("active_mounts, mounted metadata","current mounts and remembered sizes","storage/stable.rs")],
 ["FileSystem::mount_memory_file/unmount_memory_file/init_memory_file/store_memory_file"])

prop("C14", "Storage space is owned once, reclaimed and reused",
 "Every piece of storage space handed out belongs to exactly one existing file or is available for reuse, never both and never neither. Removing, overwriting or shrinking files returns their space, so the total space taken never exceeds the largest amount that was in use at one time. All of it lies in the memories given to the storage: what the application keeps in other memories of the same memory manager is never touched.",
 ["histories","configurations"], "every history of creation, growth, shrinking, overwriting, removal and upgrade, for every chunk size",
 "Tests inspect the free list after a few allocations; double ownership or leaks show only after particular orders of freeing and reusing, often long after the faulty step.",
 ["storage/allocator.rs","storage/stable.rs","storage/metadata_provider.rs","runtime/structure_helpers.rs"],
 [("allocate/free with persistent free list","storage/allocator.rs"),("freeing on shrink/removal","storage/stable.rs resize_file_internal; storage/metadata_provider.rs remove_metadata")],
 [("free list and high-water mark","allocator words in stable memory","storage/allocator.rs")],
 ["persisted chunk map and allocator memories of the MemoryManager passed in"])

prop("C15", "Behaviour does not depend on the storage configuration",
 "The same sequence of calls gives the same results and the same observable state whether the file system is transient or stable, with any chunk type, any chunk size and any placement of its memories, and when the chunk type for new files is switched at any time. The chunk size can be chosen only while nothing is stored, and files of different chunk types coexist.",
 ["configurations","histories"], "every history of operations on every supported storage configuration, compared with each other through the common specification",
 "Tests run some scripts on several configurations but compare only a few values.",
 ["storage/stable.rs","storage/transient.rs","storage/allocator.rs","storage.rs"],
 [("Storage trait implementations","storage/stable.rs; storage/transient.rs"),("chunk type decision","storage/stable.rs use_v2"),("chunk size setting","storage/allocator.rs set_chunk_size")],
 [], ["FileSystem over StableStorage / TransientStorage", "Storage::set_chunk_size/set_chunk_type"])

prop("C16", "Paths are resolved lexically inside the starting directory",
 "A relative path denotes the object reached by its components, ignoring empty and \".\" components and cancelling \"..\" with the preceding component; absolute paths and paths that climb above the starting directory are refused by every operation, and the trailing form of a path does not change the object it names. Components are compared byte for byte up to the full 255-byte length, longer ones are refused, and missing parent directories are created when an object is created below them.",
 ["inputs"], "every path string (depth, dots, repeated and trailing separators, prefixes of other names, maximum and over-long components) for every operation taking a path, in every tree",
 "Tests parse a dozen paths; names sharing prefixes, maximum-length names and dotted forms in each operation are not covered.",
 ["runtime/structure_helpers.rs","storage/types.rs","fs.rs"],
 [("path normalisation","runtime/structure_helpers.rs get_path_parts"),("creation of missing directories","runtime/structure_helpers.rs create_path"),("name comparison","storage/types.rs FileName")],
 [], ["FileSystem::open/open_metadata/mkdir/remove_file/rename/create_hard_link"])

prop("C17", "Caching is never visible",
 "The result of every operation is independent of what was accessed before, how many files, names or chunks were touched since, and whether an upgrade emptied the internal caches. In particular data, sizes and names seen right after a change are the new ones even when the old ones were read many times before, at any scale.",
 ["histories"], "every history, with any amount of unrelated accesses before, between and after its operations (hundreds of names, thousands of files, tens of thousands of chunks)",
 "Tests fill caches in isolation; stale answers need a cached item, a change through another path, and a later access, possibly with an eviction in between.",
 ["filename_cache.rs","storage/ptr_cache.rs","storage/metadata_provider.rs","storage/chunk_iterator.rs","storage/stable.rs"],
 [("name cache and its clearing","filename_cache.rs; runtime/structure_helpers.rs find_node/rm_dir_entry"),("chunk address cache, negative entries, prefetch window","storage/ptr_cache.rs"),("metadata caches","storage/metadata_provider.rs MetadataCache")],
 [("names_cache, ptr_cache, meta_cache","bounded caches with wholesale eviction","fs.rs, storage/stable.rs, storage/metadata_provider.rs")],
 ["all FileSystem methods"])

prop("C18", "Identity and attributes change only by the calls that set them",
 "Every object keeps its own identity number and type for its whole life, no two objects ever share one, and numbers of removed objects are not given to new ones. Creation time is the one passed at creation, and access and modification times change exactly when set explicitly, to the given value, for exactly the addressed object; every way of asking (by descriptor, by name, by identity) reports the same attributes.",
 ["histories","inputs"], "every history of operations with every descriptor, path or identity used to ask",
 "Tests read attributes back right after setting them on one file.",
 ["fs.rs","storage/metadata_provider.rs","storage/stable.rs","runtime/structure_helpers.rs"],
 [("attribute updates","fs.rs set_accessed_time/set_modified_time/set_metadata"),("identity allocation","storage/stable.rs new_node"),("update validation","storage/stable.rs validate_metadata_update")],
 [], ["FileSystem::metadata/metadata_from_node/open_metadata/set_*_time"])

prop("C19", "Recursive removal deletes exactly the named subtree",
 "A recursive removal that succeeds removes the named object and everything below it and nothing else, keeps objects alive that have other names outside, and frees all space of what disappears. If something below is protected (open or mounted), the call fails, the protected object and the directories leading to it stay, and nothing outside the subtree is touched.",
 ["histories","inputs"], "every tree shape, with links into and out of the subtree, open descriptors and mounts anywhere",
 "One test removes one fixed tree.",
 ["fs.rs","runtime/structure_helpers.rs"],
 [("recursive removal","fs.rs remove_recursive"),("listing used for it","fs.rs list_dir_internal")],
 [], ["FileSystem::remove_recursive"])

prop("C20", "Data written by earlier versions stays readable and writable",
 "A file system image left by an earlier version (attributes kept in the old attribute table, data in the old fixed-size chunks, no recorded chunk type, older allocator marker, entries without a name index) opens without change of any content, and all operations on its files, including growing, shrinking, overwriting, renaming and removing them, have the same results as on newly created files.",
 ["configurations","histories"], "every operation history started from an image in the older layouts, with upgrades in between",
 "Two tests decode old records; no test runs operations on an image in the old layout.",
 ["storage/stable.rs","storage/metadata_provider.rs","storage/allocator.rs","runtime/structure_helpers.rs"],
 [("attributes: new place first, old table as fallback","storage/metadata_provider.rs get_metadata"),("chunk type guess for old files","storage/stable.rs use_v2"),("slow name search when not indexed","runtime/structure_helpers.rs find_entry_index")],
 [], ["StableStorage over a crafted image, then all FileSystem methods"])

prop("C21", "Every call returns a result, whatever its arguments",
 "No sequence of calls of the file system interface, with whatever descriptors, paths, offsets, lengths, positions, sizes or flags and with the memory it needs available, makes it panic, overflow or hang: invalid or extreme arguments give an error result and leave the file system usable and unchanged, as for any failed operation.",
 ["inputs","histories"], "every call with extreme and boundary arguments (offsets, lengths and limits around 0, chunk and format maxima and the largest integers; arbitrary descriptor numbers) in every reachable state",
 "Tests use moderate arguments only.",
 ["fs.rs","runtime/file.rs","runtime/fd.rs","storage/stable.rs","storage/transient.rs","storage/ptr_cache.rs"],
 [("offset arithmetic","runtime/file.rs seek; storage/stable.rs write; storage/ptr_cache.rs add_range"),("descriptor allocation assertion","runtime/fd.rs open")],
 [], ["every public FileSystem method"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
