#!/usr/bin/env python3
"""Source of properties.jsonl (run this after editing)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Point records written to a file are read back unchanged",
     "Whatever records are written to a compressed vector and closed without error are read back from the closed file with the same count, order and values, for every record layout (integers of any declared range, scaled integers, single and double floats, strings, nested structures and vectors), every memory type and stride of the source and destination buffers and every split into write and read blocks. "
     "Integers, raw scaled-integer values and strings come back exactly, floats bit-exactly at the declared precision (infinities and NaN included), and scaled values to the nearest representable step.",
     ["inputs", "configurations", "histories"],
     "For all record layouts, value sequences, buffer types/strides and write/read block partitions.",
     "The existing tests write a few fixed scans and, without the external data files, hardly read any file back; bit widths, packet boundaries and block splits are not sampled.",
     ["src/Encoder.cpp", "src/Decoder.cpp", "src/CompressedVectorWriterImpl.cpp", "src/CompressedVectorReaderImpl.cpp", "src/SourceDestBufferImpl.cpp", "src/Packet.cpp", "src/CheckedFile.cpp"],
     [("bit packing encoders/decoders", "src/Encoder.cpp, src/Decoder.cpp"), ("packet assembly and dispatch per bytestream", "src/CompressedVectorWriterImpl.cpp packetWrite, src/CompressedVectorReaderImpl.cpp feedPacketToDecoders"), ("buffer element access", "src/SourceDestBufferImpl.cpp")],
     ["compressed vector writer/reader public API", "destination buffers"],
     [("record count", "number of records completed", "src/CompressedVectorWriterImpl.h recordCount_")])

prop("C02", "The metadata tree written to a file is read back unchanged",
     "After a file is closed and reopened, the tree of elements has the same shape, element names, child order and types as the tree that was built, and every element has the same value, bounds, scale, offset and precision; strings of any legal XML text, all 64-bit integers and all finite floats (at their declared precision) come back identical. "
     "Declared extension namespaces come back with the same prefixes and URIs.",
     ["inputs", "programs"],
     "For all trees of elements that the API lets a user build, with any legal values.",
     "The tests never reopen an arbitrary tree; number formatting, text escaping and default-attribute elision are only correct if they hold for all values.",
     ["src/E57XmlParser.cpp", "src/StringFunctions.cpp", "src/IntegerNodeImpl.cpp", "src/ScaledIntegerNodeImpl.cpp", "src/FloatNodeImpl.cpp", "src/StringNodeImpl.cpp", "src/StructureNodeImpl.cpp", "src/VectorNodeImpl.cpp", "src/CompressedVectorNodeImpl.cpp", "src/ImageFileImpl.cpp"],
     [("XML serialisation of each element type", "src/*NodeImpl.cpp writeXml"), ("XML parsing", "src/E57XmlParser.cpp"), ("float formatting", "src/StringFunctions.h floatingPointToStr")],
     ["public node accessors after reopening"])

prop("C03", "Blob contents are stored and returned byte for byte",
     "Bytes written to a binary blob at any offset and in any pieces are read back identically, in any pieces, both before and after the file is closed, and bytes never written read as zero. "
     "A transfer that does not lie wholly inside the blob is refused with a library exception and neither changes nor reveals any other part of the file, so no write to one blob ever alters another blob, point data or metadata.",
     ["inputs", "histories"],
     "For all blob sizes, numbers of blobs, write/read ranges (including ones outside the blob) and interleavings with other sections.",
     "Tests write one image blob in one piece and do not read it back; page-boundary and range cases are not sampled.",
     ["src/BlobNodeImpl.cpp", "src/CheckedFile.cpp", "src/SectionHeaders.cpp"],
     [("range check and section header", "src/BlobNodeImpl.cpp read/write"), ("logical-to-physical page mapping", "src/CheckedFile.cpp")],
     ["blob read/write public API", "bytes of the closed file"])

prop("C04", "Any conformant file is decoded to the values it encodes",
     "A file that conforms to the E57 format is read to exactly the element values, point records and blob bytes it encodes, however its writer laid it out: packet sizes, different record counts per bytestream in a packet, values straddling packet and page boundaries, index and empty packets anywhere, sections in any order or alignment, and XML with any legal spelling of attributes, whitespace and numbers. "
     "The same holds for data beyond 4 GiB into the file.",
     ["inputs", "configurations"],
     "For all conformant files, not only those this library's own writer can produce.",
     "Without the external data files the tests read no foreign file; the library's own writer only ever produces one layout.",
     ["src/CompressedVectorReaderImpl.cpp", "src/Decoder.cpp", "src/Packet.cpp", "src/E57XmlParser.cpp", "src/ImageFileImpl.cpp", "src/SectionHeaders.cpp", "src/CheckedFile.cpp"],
     [("packet walking and stream reassembly", "src/CompressedVectorReaderImpl.cpp earliestPacketNeededForInput/findNextDataPacket"), ("packet cache", "src/Packet.cpp PacketReadCache"), ("attribute parsing", "src/E57XmlParser.cpp")],
     ["files synthesised by an independent encoder", "public read API"])

prop("C05", "Every successfully closed file conforms to the E57 format",
     "A file whose close reported success is well formed as judged without the library: right header, length and version, every page checksum right, well-formed XML with legal element and attribute spelling, every binary section with a correct header, length, offsets and alignment, data packets that are internally consistent and stay within the size limit, an index packet for each point section, and sections that do not overlap. "
     "An independent decoder applied to it recovers the values that were written.",
     ["programs", "inputs", "histories"],
     "For all sequences of API calls ending in a successful close.",
     "The tests check only that writing does not throw; nothing inspects the bytes produced.",
     ["src/CheckedFile.cpp", "src/ImageFileImpl.cpp", "src/CompressedVectorWriterImpl.cpp", "src/SectionHeaders.cpp", "src/Packet.cpp", "src/Encoder.cpp", "src/BlobNodeImpl.cpp"],
     [("page checksums", "src/CheckedFile.cpp writePhysicalPage"), ("section headers and index packet", "src/CompressedVectorWriterImpl.cpp close"), ("file header", "src/ImageFileImpl.cpp close")],
     ["bytes of the closed file"])

prop("C06", "Corruption of a file is detected, never returned as data",
     "When a file is read with full checksum verification, changing any bytes inside any page that is read (so that its checksum no longer fits), or truncating or extending the file, leads to an exception and never to different data being returned. "
     "With the sparse and half policies at least every fourth or second page, and always the last page of a request, is verified, and under every policy an intact file reads correctly.",
     ["inputs", "fault_sequences", "configurations"],
     "For all files, all corruptions of page contents and all checksum policies.",
     "Tests contain no corrupted file; detection must hold for every page and every byte position.",
     ["src/CheckedFile.cpp", "src/ImageFileImpl.cpp"],
     [("CRC32C verification per page according to policy", "src/CheckedFile.cpp verifyChecksum/read"), ("header length and signature checks", "src/ImageFileImpl.cpp readFileHeader")],
     ["read API over corrupted copies"])

prop("C07", "Malformed or hostile files are rejected safely",
     "Whatever bytes a file or memory buffer contains, and whatever checksum policy is used, opening it and reading everything in it through the public interfaces either succeeds or ends in a library exception. "
     "It never accesses memory out of bounds or after release, never executes undefined behaviour, never aborts or lets another kind of exception escape, never loops without end, never allocates memory out of proportion to the size of the input, and never opens a file other than the one given.",
     ["inputs", "configurations"],
     "For all byte strings presented as files, including ones with valid checksums.",
     "Tests hold one invalid buffer length; hostile inputs are unbounded.",
     ["src/CheckedFile.cpp", "src/ImageFileImpl.cpp", "src/E57XmlParser.cpp", "src/CompressedVectorReaderImpl.cpp", "src/CompressedVectorNodeImpl.cpp", "src/Packet.cpp", "src/Decoder.cpp", "src/SectionHeaders.cpp", "src/BlobNodeImpl.cpp", "src/ReaderImpl.cpp"],
     [("header/section/packet verification", "src/Packet.cpp verify, src/SectionHeaders.cpp, src/ImageFileImpl.cpp"), ("XML attribute validation", "src/E57XmlParser.cpp")],
     ["sanitizer reports", "escaping exceptions", "step and memory meters", "inotify watches on files the input refers to"])

prop("C08", "What is read does not depend on how it is read",
     "Reading point data gives the same records whichever block size, subset and order of fields, buffer type wide enough for the values, checksum policy, source (file or memory buffer) is used, and however reading is interleaved with readers of other open files or with other accesses to the same file; each read call fills the whole requested block until the end of the data and then returns zero. "
     "Read calls write only to the reported number of elements of the designated buffers, never to the gaps between strided elements or to any other memory.",
     ["inputs", "histories", "configurations"],
     "For all files and all ways of reading them.",
     "Tests read in one block with one buffer layout.",
     ["src/CompressedVectorReaderImpl.cpp", "src/Decoder.cpp", "src/Packet.cpp", "src/SourceDestBufferImpl.cpp", "src/CheckedFile.cpp"],
     [("per-channel decode state and shared packet cache", "src/CompressedVectorReaderImpl.cpp, src/DecodeChannel.cpp, src/Packet.cpp"), ("strided element access", "src/SourceDestBufferImpl.cpp")],
     ["read API results", "guard bytes around and between destination elements"])

prop("C09", "Number conversions deliver the right value or a documented error",
     "When a value moves between a user buffer and a file with conversion or scaling requested, the delivered value is the mathematically right one (exact where the target can hold it; a plain conversion to an integer drops the fraction, scaling rounds to the nearest integer, narrowing to single precision rounds to nearest); if the target cannot represent it, the documented error is raised and no wrong value is stored or delivered. "
     "If a conversion would be needed but was not requested, the transfer is refused.",
     ["inputs", "configurations"],
     "For all values (including extremes, infinities and NaN) and all pairs of memory type and stored type, scales and offsets.",
     "Tests use one memory type per field and ordinary values.",
     ["src/SourceDestBufferImpl.cpp", "src/Encoder.cpp", "src/Decoder.cpp", "src/ScaledIntegerNodeImpl.cpp"],
     [("range checks and conversions", "src/SourceDestBufferImpl.cpp getNext*/setNext*")],
     ["buffers before write and after read", "error codes"])

prop("C10", "Values outside declared bounds are refused and never stored",
     "A number outside the minimum and maximum declared for its element (NaN included) is refused with the value-out-of-bounds error, whether it is set on an integer, scaled integer or float element, found in the XML of a file being opened, or supplied as point data of an integer or scaled integer field; and numbers inside the bounds are always accepted, including at both ends of the 64-bit range. "
     "After such a refusal the file can still be completed and contains no out-of-bounds value and no partial effect of the refused operation.",
     ["inputs", "histories"],
     "For all declared ranges, values and positions of the bad value in the record stream.",
     "Tests never supply a bad value to point data.",
     ["src/Encoder.cpp", "src/IntegerNodeImpl.cpp", "src/ScaledIntegerNodeImpl.cpp", "src/FloatNodeImpl.cpp", "src/CompressedVectorWriterImpl.cpp"],
     [("bounds checks at construction and in the encoder", "src/*NodeImpl.cpp constructors, src/Encoder.cpp processRecords")],
     ["error codes", "contents of the completed file"])

prop("C11", "Element trees stay consistent under any sequence of operations",
     "After any sequence of creating, adding and looking up elements, the tree agrees with a simple model: every element has at most one parent, path names, indices, names, child counts, attachment and root queries agree with each other, and looking an element up by index or by absolute or relative path gives the same element. "
     "Operations the documentation forbids (setting twice, wrong types in a homogeneous vector, adding an element that already has a parent, mixing files, changing a read-only file, bad index or path) fail with the documented error and leave the tree unchanged.",
     ["programs", "histories"],
     "For all sequences of tree operations, legal and illegal.",
     "Tests build a few fixed trees and do not try illegal sequences.",
     ["src/NodeImpl.cpp", "src/StructureNodeImpl.cpp", "src/VectorNodeImpl.cpp", "src/CompressedVectorNodeImpl.cpp", "src/ImageFileImpl.cpp", "src/Node.cpp"],
     [("parent/attach bookkeeping and set-once rule", "src/NodeImpl.cpp setParent, src/StructureNodeImpl.cpp set"), ("homogeneity check", "src/VectorNodeImpl.cpp set")],
     ["public node accessors", "error codes"])

prop("C12", "Open/close states and exclusivity rules are enforced safely",
     "At any time a file has at most one open point writer, and never a writer and a reader together; the reported counts are always right, closing twice is harmless, and a request the current state forbids (use after close of the file, reader or writer; second writer; writer while reading; writing twice; mismatched buffers) fails with the documented error. "
     "No order of calls, including destroying handles in any order, leads to memory errors or damages data already written.",
     ["histories", "programs"],
     "For all interleavings of open, read, write, close, cancel and destruction on files, readers, writers and elements.",
     "Tests follow one correct order of calls.",
     ["src/ImageFileImpl.cpp", "src/CompressedVectorReaderImpl.cpp", "src/CompressedVectorWriterImpl.cpp", "src/CompressedVectorNodeImpl.cpp", "src/Packet.cpp"],
     [("reader/writer counters and open flags", "src/ImageFileImpl.cpp, src/CompressedVector{Reader,Writer}Impl.cpp")],
     ["error codes", "reader/writer counts", "sanitizer reports"],
     [("reader/writer count", "open iterators of a file", "src/ImageFileImpl.h readerCount_, writerCount_")])

prop("C13", "Storage failures are reported and never produce a wrong file silently",
     "If the operating system fails or shortens a read, write, seek, open or close during any operation, either the operation completes with full effect or the caller gets a library exception. "
     "If closing a file reports success, the file on disk is complete and correct, and a failure never leads to a crash, to undefined behaviour or to data being returned that is not what the file holds.",
     ["fault_sequences", "crash_points"],
     "For all points at which a storage operation can fail, and all kinds of failure.",
     "Tests run on a healthy disk only.",
     ["src/CheckedFile.cpp", "src/ImageFileImpl.cpp", "src/CompressedVectorWriterImpl.cpp", "src/WriterImpl.cpp"],
     [("return-value checks of each system call", "src/CheckedFile.cpp")],
     ["interposed system calls", "bytes on disk", "exceptions"])

prop("C14", "Unfinished files never pass as complete",
     "At whatever moment a process writing a file stops, what it leaves on disk is either rejected by the library when it is opened or is the complete file with all its content; once closing has returned it is complete. "
     "Cancelling or destroying an unclosed file being written removes it from disk, while cancelling, failing to open or destroying a file opened for reading leaves it untouched.",
     ["crash_points", "histories"],
     "For all write histories and all points at which the process can stop between two storage operations.",
     "Tests never stop a writer midway.",
     ["src/ImageFileImpl.cpp", "src/CheckedFile.cpp"],
     [("header written last", "src/ImageFileImpl.cpp close"), ("unlink on cancel", "src/ImageFileImpl.cpp cancel, src/CheckedFile.cpp unlink")],
     ["replay of every prefix of the recorded storage operations", "directory contents"])

prop("C15", "Scans written with the simple interface are read back unchanged",
     "Every scan written with the simple writer is read back by the simple reader with the same points in all enabled fields and the same header information: identifiers, names, sensor data, pose, times, bounds, limits, index bounds, grouping and field description, for float and double points, every node type (integer, scaled, float, double), several scans per file, and block-wise as well as whole-scan writing and reading. "
     "Group (line) records are returned exactly as written; identifiers not given are made up (GUIDs in the usual form, never the same twice). (Acquisition times count only if positive, and the value range of floating-point time stamps is not recorded.)",
     ["inputs", "configurations", "programs"],
     "For all scan headers, field combinations, node types, point values and numbers of scans.",
     "Tests write a few fixed scans and read back none without external data.",
     ["src/WriterImpl.cpp", "src/ReaderImpl.cpp", "src/E57SimpleData.cpp", "src/E57SimpleWriter.cpp", "src/E57SimpleReader.cpp"],
     [("header to tree mapping", "src/WriterImpl.cpp NewData3D / src/ReaderImpl.cpp ReadData3D")],
     ["simple reader output"])

prop("C16", "Images written with the simple interface are read back unchanged",
     "Every image written with the simple writer is read back by the simple reader with the same bytes (image and mask, whole or in pieces), the same projection, format, size and camera parameters, pose, times, identifiers and camera-distortion extension, for every projection and format and several images per file, mixed with scans. "
     "Sizes reported before reading are exactly those written, and nothing is transferred for a projection, format or image that is not there; identifiers not given are made up (GUIDs in the usual form, never the same twice). (One representation per image, as the simple writer supports; acquisition times count only if positive.)",
     ["inputs", "configurations", "programs"],
     "For all image headers, projections, formats, sizes and piecewise transfers.",
     "Tests write one image per file and read it back only for one extension.",
     ["src/WriterImpl.cpp", "src/ReaderImpl.cpp", "src/E57SimpleData.cpp", "src/BlobNodeImpl.cpp"],
     [("header to tree mapping", "src/WriterImpl.cpp NewImage2D / src/ReaderImpl.cpp ReadImage2D")],
     ["simple reader output"])

prop("C17", "Independent files can be used from different threads at once",
     "Threads that each work only on their own files (writing, reading, failing to open, through either interface) obtain the same results and the same file bytes as when run one after another, with no data race. "
     "Several threads may also read the same file on disk at once through their own handles.",
     ["schedules", "programs"],
     "For all interleavings of threads working on independent files.",
     "Tests are single threaded.",
     ["src/E57XmlParser.cpp", "src/ImageFileImpl.cpp", "src/CheckedFile.cpp", "src/Common.cpp", "src/Packet.cpp"],
     [("no shared mutable state between files; per-parser XML initialisation", "src/E57XmlParser.cpp, src/Common.cpp")],
     ["thread sanitizer reports", "digests of results per thread"])

prop("C18", "Output and results depend only on the calls made",
     "Writing the same content with the same calls (identifiers supplied by the caller) gives byte-identical files on every run, whatever the memory contents, process environment, working directory or current locale; no uninitialised or unrelated memory ever reaches a file. "
     "Reading a file gives the same values under every locale.",
     ["configurations", "inputs"],
     "For all contents, locales and initial memory states.",
     "Tests run once in the C locale and do not compare bytes.",
     ["src/StringFunctions.cpp", "src/StringFunctions.h", "src/CheckedFile.cpp", "src/Packet.cpp", "src/CompressedVectorWriterImpl.cpp", "src/SectionHeaders.h", "src/ImageFileImpl.cpp", "src/WriterImpl.cpp"],
     [("explicit classic locale and zero-initialised headers", "src/StringFunctions.cpp, src/SectionHeaders.h, src/Packet.cpp")],
     ["bytes of files written under different memory fill patterns and locales"])

prop("C19", "All memory and file handles are released on every path",
     "When all handles to a file have gone, whether operations succeeded, failed with an exception at any stage or were cancelled, no memory and no file descriptor acquired by the library remains in use, and closing releases the descriptor at once. "
     "Repeating any operation does not make the process grow.",
     ["histories", "fault_sequences", "inputs"],
     "For all successful and failing paths of opening, reading, writing, cancelling and closing.",
     "Tests do not count descriptors and mostly run success paths.",
     ["src/ImageFileImpl.cpp", "src/CheckedFile.cpp", "src/E57XmlParser.cpp", "src/CompressedVectorReaderImpl.cpp", "src/CompressedVectorWriterImpl.cpp", "src/NodeImpl.cpp"],
     [("ownership by smart pointers and explicit clean-up on exceptions", "src/ImageFileImpl.cpp, src/CompressedVectorReaderImpl.cpp")],
     ["leak sanitizer", "descriptor table of the process"])

prop("C20", "Element names, paths and extension prefixes follow the naming rules",
     "A name or path is accepted exactly when it follows the documented grammar: names are optionally prefixed identifiers or child numbers, prefixes must be declared in the file before they are used, and declared prefixes and URIs are unique and can be looked up both ways. "
     "Accepted names are written so that they are found again under the same name after reopening, and a rejected name raises the documented path or namespace error without changing the tree; a definedness query with a well-formed path never throws.",
     ["inputs", "histories"],
     "For all strings used as names, paths, prefixes and URIs.",
     "Tests use a handful of standard names.",
     ["src/ImageFileImpl.cpp", "src/StructureNodeImpl.cpp", "src/NodeImpl.cpp", "src/E57XmlParser.cpp"],
     [("element name and path parsing", "src/ImageFileImpl.cpp elementNameParse/pathNameParse"), ("extension table", "src/ImageFileImpl.cpp extensionsAdd")],
     ["public naming functions", "error codes"])

prop("C21", "The simple reader reports the scans and images of any conformant file",
     "For every conformant file, whichever software wrote it, the simple reader reports what the file holds: the root information, the number of scans and images, all header items of each scan and image that are present and the documented defaults for those that are not, limits and bounds stored as integer, scaled or floating-point elements, the point fields that exist with their types, scales and ranges, sizes, groups, every point value in whatever type it is stored and in any order of fields, and the image and mask bytes. "
     "Elements and fields it does not know are ignored, and nothing is reported for scans, images, groups or representations that are not there.",
     ["inputs", "configurations"],
     "For all selections of optional elements, stored element types, field orders, extensions and file layouts.",
     "The tests read no scan or image header without external data, and the simple writer produces only some of the allowed element types.",
     ["src/ReaderImpl.cpp", "src/E57SimpleReader.cpp", "src/E57SimpleData.cpp"],
     [("tree to header mapping", "src/ReaderImpl.cpp ReadData3D/ReadImage2D"), ("sizes", "src/ReaderImpl.cpp GetData3DSizes/GetImage2DSizes"), ("point buffers", "src/ReaderImpl.cpp SetUpData3DPointsData")],
     ["simple reader output"])

prop("C22", "Looking at objects tells the truth and changes nothing",
     "At any point while a file is written or read, what a query reports about a file, element, buffer, reader or writer agrees with what was done so far: state, names, paths, parents, types, values, limits, counts, and the arguments a transfer buffer was made with; generic and typed handles, copies, and the raw handles of the simple interface answer alike. "
     "The built-in invariant checks object to no state that can be reached. Dumps never fail, not even after the file was closed or is gone; they give the same text again, indent all lines as asked and leave the stream's format as it was. "
     "No query, check or dump changes what is later written or read. Errors carry their code, text, context and place of origin, and each code has its own text.",
     ["inputs", "histories"],
     "For all trees, transfers and moments at which objects are looked at.",
     "No test dumps or checks anything while work is in progress, and none compares work done with and without looking.",
     ["src/NodeImpl.cpp", "src/ImageFile.cpp", "src/SourceDestBuffer.cpp", "src/CompressedVectorWriter.cpp", "src/CompressedVectorReader.cpp", "src/E57SimpleWriter.cpp", "src/E57SimpleReader.cpp", "src/E57Exception.cpp"],
     [("dumps", "src/*Impl.cpp dump"), ("invariants", "src/*Node.cpp checkInvariant"), ("buffer accessors", "src/SourceDestBuffer.cpp"), ("raw handles", "src/E57SimpleReader.cpp GetRaw*")],
     ["query results, dump text, files and values with and without looking"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
