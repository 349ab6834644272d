"""What each property's check runs: drivers, builds, case counts (quick, thorough)."""


def run(src, variant, quick, thorough, **kw):
    d = {"src": src, "variant": variant, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


def huge(prop, quick, thorough):
    # files beyond 4 GiB, kept as holes
    return run("huge.cpp", "plain", quick, thorough, noprobes=True, aside=True, chunk=1, stall=400, env={"HUGE_FOR": prop},
               link=["-Wl," + ",".join("--wrap=" + f for f in ("read", "write", "pread", "pread64", "pwrite", "pwrite64"))])


PLAN = {
    "C01": {
        "level": "exploration",
        "technique": "round-trip monitor against an in-memory model, under ASan+UBSan",
        "note": "held on the generated layouts, values and transfer plans; every value of every record compared",
        "rule": "a case is one file: random record layouts (1..60 fields, all kinds, bit widths 0..64), values, transfer "
                "representations and piece sizes; written by the library, re-opened, every value compared. "
                "Distinct = distinct layout/record-count signatures",
        "runs": [huge("C01", 1, 6), run("c01.cpp", "asan2", 6000, 100000), run("c01.cpp", "asan1", 1200, 10000, noprobes=True)],
        "need": {"values compared": 100000, "files beyond 4 GiB written": 1},
    },
}

PLAN["C02"] = {
    "level": "exploration",
    "technique": "round-trip monitor of element trees against an in-memory model, under ASan+UBSan",
    "note": "held on the generated trees; every element, attribute and value compared before and after closing",
    "rule": "a case is one file holding a random element tree (or one dense in awkward numbers, strings, long vectors, "
            "deep nesting), built in random order; distinct = distinct tree shapes",
    "runs": [run("c02.cpp", "asan2", 3000, 60000), run("c02.cpp", "asan1", 600, 10000, noprobes=True)],
    "need": {"elements compared": 20000, "extensions compared": 200},
}

PLAN["C03"] = {
    "level": "exploration",
    "technique": "history monitor of blob reads and writes against a byte-array model, under ASan+UBSan",
    "note": "held on the generated histories; every byte of every blob compared before and after closing, and everything around it",
    "rule": "a case is one history on one file: creating, attaching, writing and reading blobs in random pieces (also outside "
            "the blob), mixed with point data and metadata, then re-opening; distinct = distinct sequences of sizes",
    "runs": [huge("C03", 2, 24), run("c03.cpp", "asan2", 15000, 150000), run("c03.cpp", "asan1", 1000, 10000, noprobes=True)],
    "need": {"bytes compared": 1000000, "transfers outside refused": 2000, "files beyond 4 GiB written": 1},
}

PLAN["C05"] = {
    "level": "exploration",
    "technique": "conformance monitor: every closed file is parsed and decoded by an independent strict implementation of the format",
    "note": "held on the generated files; every page, section, packet and value inspected",
    "rule": "a case is one file produced through the foundation or simple interface (random trees, record sections of many "
            "packets, blobs, refused operations in between); distinct = distinct section/page/packet counts",
    "runs": [huge("C05", 2, 12), run("c05.cpp", "asan2", 6000, 100000), run("c05.cpp", "asan1", 1000, 10000, noprobes=True)],
    "need": {"files parsed": 1000, "values compared": 100000, "data packets decoded": 1000, "files beyond 4 GiB written": 1, "sections beyond 4 GiB": 1},
}

PLAN["C04"] = {
    "level": "exploration",
    "technique": "differential monitor: files synthesised by an independent encoder are read by the library and compared with the model, under ASan+UBSan",
    "note": "held on the synthesised files; every value, byte and element compared",
    "rule": "a case is one synthesised file (random section order, gaps and alignment, packet splitting, index/empty packets, XML "
            "spelling; one in 50 is larger than 4 GiB with holes); distinct = distinct packet/section counts",
    "runs": [run("c04.cpp", "asan2", 5000, 80000), run("c04.cpp", "asan1", 600, 8000, noprobes=True)],
    "need": {"foreign files read": 1000, "values compared": 100000, "files beyond 4 GiB": 10},
}

PLAN["C08"] = {
    "level": "exploration",
    "technique": "trace monitor over many readers of the same data against one model, with canaries in and around every buffer, under ASan+UBSan",
    "note": "held on the generated files and ways of reading; every delivered value compared, every other buffer byte checked",
    "rule": "a case is one file (own or foreign layout) read in several sessions with random block sizes, field subsets and orders, "
            "buffer types and strides, checksum policies, file/memory source and interleaved readers; distinct = distinct record layouts",
    "runs": [run("c08.cpp", "asan2", 3000, 40000), run("c08.cpp", "asan1", 400, 5000, noprobes=True)],
    "need": {"values compared": 100000, "blocks read": 5000, "untouched elements checked": 10000},
}

PLAN["C12"] = {
    "level": "exploration",
    "technique": "online monitor: a state model of files, readers, writers and elements predicts the outcome of every call of random histories; "
                 "independent parse of every closed file; ASan+UBSan for lifetimes",
    "note": "held on the generated histories; destruction in random order, use after close and after destruction included",
    "rule": "a case is a history of 20-320 calls on up to 12 files; distinct = distinct sequences of calls and outcomes",
    "runs": [run("c12.cpp", "asan2", 10000, 200000), run("c12.cpp", "asan0", 1500, 20000, noprobes=True)],
    "need": {"calls made": 100000, "refusals as documented": 10000, "closed files verified": 1000, "handles destroyed": 5000},
}

PLAN["C10"] = {
    "level": "exploration",
    "technique": "online monitor of every accepted and refused value against the declared bounds, then an independent parse of the closed file; ASan+UBSan",
    "note": "held on the generated values, bounds and refusal points; bounds of floating point fields apply to elements only, as in the library",
    "rule": "a case is one file built with accepted and refused elements and point blocks, plus one file opened with a value in or out of bounds; "
            "distinct = distinct sequences of accept/refuse decisions and refusal positions",
    "runs": [run("c10.cpp", "asan2", 12000, 150000), run("c10.cpp", "asan0", 2000, 15000, noprobes=True)],
    "need": {"elements refused": 5000, "elements accepted": 5000, "point blocks refused": 2000, "files out of bounds refused": 1000, "files verified": 2000},
}

PLAN["C06"] = {
    "level": "fault_enumeration",
    "technique": "fault injection into stored bytes with a monitor of everything delivered: page damage, truncation and extension of files whose "
                 "layout an independent parser knows, under ASan+UBSan",
    "note": "held on the injected damage; changes that keep a page and its checksum consistent are outside what the format can detect",
    "rule": "a case is one file (own or foreign layout) read intact under several policies and then with about 22 injected damages; "
            "distinct = distinct page/extent counts",
    "runs": [run("c06.cpp", "asan2", 1500, 40000), run("c06.cpp", "asan0", 250, 6000, noprobes=True)],
    "need": {"corruptions refused": 5000, "sampled corruptions refused": 2000, "length changes refused": 2000, "intact readings": 2000,
             "runs of damaged pages": 300, "single bits refused": 20000},
}

PLAN["C07"] = {
    "level": "exploration",
    "technique": "hostile files presented to both interfaces under ASan+UBSan with an allocation meter, CPU limits, watched bait files and a "
                 "monitor of the exceptions that escape",
    "note": "held on the generated hostile files; structure-aware changes of XML, headers, sections and packets behind right checksums, and raw damage",
    "rule": "a case is one valid file and 14 hostile variants of it, or one document of deep nesting; distinct = distinct sequences of changes made",
    "runs": [run("c07.cpp", "asan2", 3000, 100000), run("c07.cpp", "asan0", 800, 25000, noprobes=True)],
    "need": {"calls on hostile files": 200000, "hostile files opened": 5000, "records read from hostile files": 100000, "hostile: XML": 5000,
             "hostile: sections and packets": 3000, "hostile: file header": 500, "entity bombs": 10, "nested documents": 30,
             "hostile scans read": 1000, "hostile images read": 1000},
}

PLAN["C09"] = {
    "level": "exploration",
    "technique": "oracle in quadruple precision over every transfer between memory types and stored types, with and without conversion and scaling, "
                 "watching what arrives in the file, in the buffers and as errors; ASan+UBSan with float-cast checks",
    "note": "held on the generated transfers; for scaling, the tolerance is the rounding error of double arithmetic; plain conversion drops a fraction, scaling rounds to nearest",
    "rule": "a case is one field written through one kind of buffer, or read through 12 kinds; distinct = distinct field/buffer combinations",
    "runs": [run("c09.cpp", "asan2", 16000, 600000), run("c09.cpp", "asan0", 3000, 80000, noprobes=True)],
    "need": {"values stored with conversion": 50000, "values delivered with conversion": 200000, "refusals on writing": 1000, "refusals on reading": 5000,
             "scaled views": 5000, "scaled constructions": 1000},
}

PLAN["C11"] = {
    "level": "exploration",
    "technique": "online checker: a model of all elements in two files predicts the result of every operation in random histories, and is compared with what all queries return; "
                 "the files are read again and compared; ASan+UBSan",
    "note": "held on the generated histories; which of several applicable errors is reported is left open",
    "rule": "a case is a history of 10 to 70 operations on the trees of two files; distinct = distinct resulting trees",
    "runs": [run("c11.cpp", "asan2", 4000, 150000), run("c11.cpp", "asan0", 800, 20000, noprobes=True)],
    "need": {"operations done": 20000, "operations refused": 5000, "lookups compared": 500000, "elements compared after reopening": 10000, "changes refused in read mode": 1000},
}

PLAN["C15"] = {
    "level": "exploration",
    "technique": "round-trip monitor of the simple interface against a model of scans, and an independent parse of what was stored; ASan+UBSan",
    "note": "held on the generated scans: every header item, group and point value compared",
    "rule": "a case is one file of 1-20 scans with random fields, storage types, ranges, groups, buffer kinds and block sizes; "
            "distinct = distinct sequences of scan shapes",
    "runs": [run("c15.cpp", "asan2", 4000, 80000), run("c15.cpp", "asan0", 500, 8000, noprobes=True)],
    "need": {"values compared": 100000, "scans read": 5000, "groups compared": 5000, "stored values checked": 100000},
}

PLAN["C16"] = {
    "level": "exploration",
    "technique": "round-trip monitor of the simple interface against a model of images, and an independent parse of what was stored; ASan+UBSan",
    "note": "held on the generated images: every header item and every byte compared",
    "rule": "a case is one file of 1-30 images of all projections and formats written in random pieces; distinct = distinct sequences of image shapes",
    "runs": [run("c16.cpp", "asan2", 6000, 100000), run("c16.cpp", "asan0", 800, 10000, noprobes=True)],
    "need": {"image bytes compared": 1000000, "images read": 10000},
}

PLAN["C20"] = {
    "level": "exploration",
    "technique": "online checker: grammar and tables of an independent model decide every use of generated names, paths, prefixes and URIs; "
                 "closed files are parsed by an independent parser and read again; ASan+UBSan",
    "note": "held on the generated names and histories; names with characters beyond ASCII may be accepted or refused",
    "rule": "a case is a history of 20 to 60 uses of names in one file; distinct = distinct names and paths",
    "runs": [run("c20.cpp", "asan2", 24000, 800000), run("c20.cpp", "asan0", 4000, 100000, noprobes=True)],
    "need": {"names accepted": 20000, "names refused": 20000, "paths looked up in vain": 40000, "declarations": 10000, "declarations refused": 5000, "elements added": 40000, "elements refused": 40000,
             "names found again": 40000, "field names found again": 10000, "extensions looked up": 40000},
}

# storage calls of the library go through harness/io.cpp
IO = {"extra": ["io.cpp"],
      "link": ["-Wl," + ",".join("--wrap=" + f for f in ("open", "open64", "read", "pread", "pread64", "write", "pwrite", "pwrite64", "lseek", "lseek64", "close", "remove", "unlink",
                                                         "ftruncate", "ftruncate64", "fsync"))]}

PLAN["C13"] = {
    "level": "fault_enumeration",
    "technique": "interposed storage calls fail, are shortened or interrupted at chosen points of recorded workloads; what is then reported, left on disk and delivered is compared with the "
                 "undisturbed run; ASan+UBSan",
    "note": "held on the faults injected (sampled over all calls of each workload)",
    "rule": "a case is one workload repeated with 12 to 40 faults; distinct = distinct faulty calls with kind, position and origin of the error",
    "runs": [run("c13.cpp", "asan2", 1200, 60000), run("c13.cpp", "asan0", 300, 15000, noprobes=True)],
    "need": {"faults injected": 10000, "faults reported": 8000, "faulty write": 2000, "faulty read": 2000, "faulty seek": 1000, "faulty close": 300, "faulty open": 300,
             "files removed after failure": 2000, "files right after all": 300, "calls repeated": 500, "read again": 100},
    **IO,
}

PLAN["C14"] = {
    "level": "fault_enumeration",
    "technique": "storage calls of whole workloads are recorded; what every prefix of them leaves (also within a call) is given to the library, which must refuse it or deliver everything; "
                 "processes are really ended at sampled calls; abandoned and read-only files are watched; ASan+UBSan",
    "note": "held on the recorded workloads; prefixes are enumerated for the first and last 40 writes and sampled between; a stop of the machine, where writes may be reordered, is not considered",
    "rule": "a case is one workload with all states judged; distinct = distinct states of files",
    "runs": [run("c14.cpp", "asan2", 1600, 80000), run("c14.cpp", "asan0", 400, 15000, noprobes=True)],
    "need": {"states refused": 20000, "states complete": 500, "states within a write": 5000, "states between calls": 300, "processes stopped": 500, "files given up": 2000,
             "files read and untouched": 1000, "files refused and untouched": 1000, "closed files kept": 200},
    **IO,
}

PLAN["C19"] = {
    "level": "exploration",
    "technique": "leak sanitizer, the process's descriptor table, interposed storage calls and the number of bytes in use after repeated identical work, over successful, failing, faulty and abandoned workloads",
    "note": "held on the generated workloads; memory that is still referenced from elsewhere shows only through growth",
    "rule": "a case is one workload done four times over; distinct = distinct workloads",
    "runs": [run("c19.cpp", "asan2", 1400, 70000, asan=":detect_leaks=1:leak_check_at_exit=0:detect_stack_use_after_return=0"),
             run("c19.cpp", "asan0", 350, 14000, noprobes=True, asan=":detect_leaks=1:leak_check_at_exit=0:detect_stack_use_after_return=0")],
    "need": {"leak checks": 500, "leak detector tested": 1, "faults injected": 500, "damaged files refused": 500, "damaged files read": 100, "calls refused": 500, "descriptors seen released": 1000,
             "storage calls watched": 100000},
    **IO,
}

PLAN["C18"] = {
    "level": "exploration",
    "technique": "differential monitor: the same calls in worlds with other contents of fresh memory and stack, other locales, directories, environments, clocks, descriptors, threads and histories, "
                 "and in builds with differently initialised variables, must give the same bytes and the same results",
    "note": "held on the generated work and worlds",
    "rule": "a case is one piece of work done in 4 to 6 worlds, read in as many, and 6 damaged versions of it read in 3; distinct = distinct files",
    "runs": [run("c18.cpp", "plain", 800, 40000), run("c18.cpp", "fillp", 500, 20000, noprobes=True), run("c18.cpp", "fill0", 500, 20000, noprobes=True),
             run("c18.cpp", "asan1", 250, 10000, noprobes=True)],
    "need": {"files compared": 3000, "readings compared": 3000, "readings of damaged files compared": 5000, "results compared between builds": 3000, "worlds with another locale": 2000,
             "worlds with descriptor 0": 300, "worlds with a history": 1000, "files overwritten": 1000, "fresh blocks filled": 100000},
    "link": ["-Wl," + ",".join("--wrap=" + f for f in ("time", "gettimeofday", "clock_gettime", "_ZNSt6chrono3_V212system_clock3nowEv", "rand", "getpid", "getenv"))],
}

PLAN["C17"] = {
    "level": "exploration",
    "technique": "thread sanitizer over threads that work on files of their own and on a shared file to read, with delays at storage calls and a shadow variable for the parser's set-up; "
                 "results compared with the same work done by one thread; also under ASan+UBSan",
    "note": "held on the schedules that occurred; the thread sanitizer finds unordered accesses also when they didn't collide",
    "rule": "a case is 2 to 5 threads with 2 to 4 tasks each; distinct = distinct sets of tasks; interleavings are counted by the order of storage calls",
    "runs": [run("c17.cpp", "tsan", 520, 40000, chunk=5), run("c17.cpp", "asan1", 320, 20000, noprobes=True, chunk=10)],
    "need": {"results compared": 5000, "changes of thread between storage calls": 20000, "cases with a cold start": 50, "identifiers compared": 200, "tasks: write and read": 500,
             "tasks: shared file": 300, "tasks: damaged file": 300, "tasks: shared memory": 100},
    "link": ["-Wl," + ",".join("--wrap=" + f for f in ("open", "open64", "read", "write", "lseek64", "close", "remove",
             "_ZN11xercesc_3_216XMLPlatformUtils10InitializeEPKcS2_PNS_12PanicHandlerEPNS_13MemoryManagerE", "_ZN11xercesc_3_216XMLPlatformUtils9TerminateEv"))],
}

PLAN["C21"] = {
    "level": "exploration",
    "technique": "differential monitor: files of scans and images synthesised by an independent encoder are read with the simple reader, and everything it reports is compared with the model "
                 "of the file; ASan+UBSan",
    "note": "held on the synthesised files: every header item, group, point value and image byte compared",
    "rule": "a case is one file of 0-3 scans and 0-3 images with any selection of optional items, stored types, field orders and unknown extensions; distinct = distinct selections",
    "runs": [run("c21.cpp", "asan2", 6000, 100000), run("c21.cpp", "asan0", 800, 10000, noprobes=True)],
    "need": {"files read": 2000, "header items compared": 100000, "point values compared": 500000, "group values compared": 10000, "image bytes compared": 100000},
}

PLAN["C22"] = {
    "level": "exploration",
    "technique": "the same calls with and without an observer that queries, checks and dumps every object after every step: files and results must be the same, every answer is compared with a model and "
                 "with the other handles of the same object; ASan+UBSan",
    "note": "held on the generated work; the text of dumps is undocumented and not judged",
    "rule": "a case is one piece of work (elements and point data, or scans and images) done twice and read twice; distinct = distinct pieces of work",
    "runs": [run("c22.cpp", "asan2", 2000, 60000), run("c22.cpp", "asan1", 300, 10000, noprobes=True)],
    "need": {"dumps": 20000, "handles compared": 20000, "buffers looked at": 5000, "transfers looked at": 5000, "files watched while written": 500, "files watched while read": 500,
             "raw handles": 500, "dumps after closing": 2000, "dumps when the file is gone": 2000, "errors examined": 200},
}
