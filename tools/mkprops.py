#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the properties)."""
import json, os
P = []

def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {})}})

BR, BW = "src/bytereader.rs", "src/bytewriter.rs"
p("C01", "Bit field write then read returns the value",
  "Writing a value that fits into a bit field of any primitive type, bit offset and bit width, and reading the same field back, yields exactly that value. This holds for every previous content of the buffer and on every build configuration. A signed field of width two or more is sign extended from its top bit; a signed field of width one reads 0 or 1.",
  ["inputs", "configurations"], "All nine primitive types, all widths 1..size of the type, all bit offsets modulo 8 at every byte position, all values, all previous buffer contents; little and big endian, overflow checks on and off.",
  "The tests sample fixed buffers and a few widths and values per type; the product of types, widths, offsets, values and surrounding bytes is far out of reach.",
  [BR, BW], [("read_bytes!/masked!", BR), ("write_bytes!", BW)])
p("C02", "Writing a field changes no other bit; reading depends on no other bit",
  "Writing a bit field leaves every bit of the buffer outside that field unchanged, whatever the value written is, even one too large for the field. Reading a field depends on the bits of that field only.",
  ["inputs", "configurations"], "All types, widths, bit offsets, byte positions, values (fitting or not) and previous contents, on little and big endian targets.",
  "Isolation must hold for every neighbouring content; the tests write into zeroed or fixed buffers.",
  [BR, BW], [("read-modify-write of the boundary bytes", BW), ("masking of the last byte", BR)])
p("C03", "Fields have the portable little endian, least-significant-bit-first layout",
  "Bit i of a field at bit offset o is bit (o+i) mod 8 of byte (o+i)/8 of the buffer, for every type, offset and width, on every target and through every form of the read and write interface. Data written on one platform is therefore read identically on every other one.",
  ["inputs", "configurations"], "All types, offsets, widths, values; little and big endian targets; the short forms (bit offset and width implied) as well as the long ones.",
  "The tests run on one little endian target and a symmetric error in reader and writer is invisible to a round trip.",
  [BR, BW, "src/helper.rs"], [("shift/mask cases per type", BR), ("aligned and unaligned branches", BW)])
p("C04", "Field access touches no memory outside the field and assumes no alignment",
  "Reading or writing a field at a bit offset accesses only the bytes which contain bits of that field, and never more than eight bytes beyond its first byte. With the eight padding bytes that follow every buffer this makes each access to the last element stay inside the buffer. No access needs the buffer to be aligned.",
  ["inputs"], "All types, widths, bit offsets and byte positions.",
  "An out-of-range byte access is undefined behaviour a passing test does not show.",
  [BR, BW, "src/memory.rs"], [("byte count computation", BR), ("byte count computation", BW), ("PADDING_SIZE", "src/memory.rs")])
p("C05", "Generated structs access exactly the declared fields",
  "For every declared struct, each getter returns the declared bits of the data, each setter changes exactly the declared bits, a written field is read back equal, copying from another struct makes every field equal and touches nothing else, and two structs are equal exactly if all fields are. Creating a struct over a buffer shorter than its declared size is refused by a panic instead of exposing memory outside of the buffer.",
  ["programs", "inputs"], "All struct declarations in a generated family (all primitive types, all widths, all bit offsets, packed and sparse neighbours, enum fields) and all buffer contents and values.",
  "The tests use a handful of declarations; the generator macros must be right for every schema.",
  ["src/archive.rs", BR, BW], [("define_struct! getters, setters, fill_from, eq", "src/archive.rs"), ("create/create_mut size assertion", "src/archive.rs")])
p("C06", "In-memory vector and struct buffer behave like a sequence of structs",
  "A vector holds exactly as many elements as it was created with plus those appended, each new element is zeroed, appending changes no earlier element, element i occupies the i-th slot of the exposed bytes, and clones, views and exposed bytes show the same content. Exposed bytes never include the padding. A single-struct buffer behaves like a vector of exactly one element.",
  ["inputs", "histories"], "All element sizes, all lengths, all contents, all positions; each operation applied to any state satisfying the invariant (hence all operation histories).",
  "The tests build a few short vectors of one or two element types.",
  ["src/vector.rs", "src/structbuf.rs"], [("Vector::{with_len,grow,at,at_mut,as_view,as_bytes}", "src/vector.rs"), ("StructBuf", "src/structbuf.rs")])
p("C07", "Array views, their slices and iterators show exactly the stored elements",
  "A view over a buffer has as many elements as fit completely, element i is the i-th slot of the buffer, a sub-slice shows exactly the requested positions and iteration yields every element exactly once in order, with a correct size hint, also through iterator adaptors such as nth, nth_back, count, last and fold. This holds for slices of slices and all range forms.",
  ["inputs"], "All element sizes, all buffer lengths and contents, all ranges, all iteration positions.",
  "The tests sample a few short views and ranges.",
  ["src/arrayview.rs"], [("ArrayView::{at,slice,len,iter}", "src/arrayview.rs"), ("ArrayViewIter", "src/arrayview.rs")])
p("C08", "Positions and ranges out of bounds are refused, never read",
  "Asking a vector, an array view or a multi array view for a position or range that is not inside of it panics, for every integer argument including those whose byte position overflows; in no case is data outside of the container exposed or changed. The same holds for struct and item constructors over too short buffers and for invalid multi array indices.",
  ["inputs"], "All containers, all lengths, all index and range values of the full machine range, with overflow checks on and off.",
  "Boundary and overflow values of the index space and build modes are not tested, and an access just outside rarely crashes.",
  ["src/arrayview.rs", "src/multiarrayview.rs", "src/vector.rs", "src/archive.rs"], [("index assertions", "src/arrayview.rs"), ("index and slice assertions", "src/multiarrayview.rs"), ("at/at_mut assertions", "src/vector.rs")])
p("C09", "Multi array views show exactly the items between consecutive offsets",
  "Entry i of a multi array view consists of exactly the items stored between the i-th and the (i+1)-th offset of its index, decoded in order with their types; its length is the number of index entries without the sentinel, and sub-slices and iterators show the same entries. Corrupted data (unknown type tag, offsets beyond the data or unsorted) panics instead of exposing memory outside of the data.",
  ["inputs"], "All index widths in the family, all index contents, all data contents, all entry positions and ranges.",
  "The tests read a few well-formed examples.",
  ["src/multiarrayview.rs"], [("MultiArrayView::{at,slice,iter}, VariadicIter", "src/multiarrayview.rs")])
p("C10", "Variadic items: the tag written is the tag read, with the right size",
  "Adding an item of a variadic type appends exactly one tag byte and one zeroed struct of its type at the end of the data, leaves all earlier bytes unchanged, and returns access to exactly that struct. Reading the tag yields the same type with the same struct; unknown tags are refused by a panic, and the size reported for an item equals the space it takes.",
  ["inputs", "programs"], "All variants of the family of variadic declarations, all earlier contents, all tags 0..255.",
  "The tests use one declaration with two variants.",
  ["src/archive.rs"], [("define_variadic_struct! create, add_*, size_in_bytes", "src/archive.rs")])
p("C11", "External vector writes every element exactly once and in order",
  "After a successful close, the resource consists of exactly the elements appended, in order, each once and with the content last given to it, however many were appended and however the data was split into chunks while being written. The view returned by close and a later read of the resource show the same elements. Until then the vector reports the number of elements appended, also after a call that failed.",
  ["histories", "inputs"], "All numbers of appended elements of all sizes (crossing the internal write threshold any number of times), all contents.",
  "Crossing the internal threshold takes tens of megabytes of data; the tests write a few elements and never flush in between.",
  ["src/vector.rs", "src/storage.rs"], [("ExternalVector::{grow,flush,close}", "src/vector.rs"), ("ResourceHandle::{write,close}", "src/storage.rs")])
p("C12", "Multi vector: index offsets, sentinel and data agree",
  "After a successful close of a multi vector, offset i of the written index is the position of the first item of entry i in the written data, the last offset is the total size of the data, and the data consists of exactly the items added, in order. Reading the pair back yields every entry with exactly its items, however often the data was written out in between.",
  ["histories", "inputs"], "All sequences of entries and items (including empty entries), all positions of the internal write threshold.",
  "The tests write a few small entries and never cross the threshold, where offsets have to account for data already written.",
  ["src/multivector.rs", "src/vector.rs"], [("MultiVector::{grow,add_to_index,flush,close}", "src/multivector.rs")])
p("C13", "All writers produce, and the reader expects, the same resource format",
  "Every resource is stored as its size as eight little endian bytes, the payload and eight zero bytes of padding, with its schema under the resource's name plus '.schema', no matter whether it was written at once or incrementally. Reading returns exactly the payload of such a resource.",
  ["inputs", "histories"], "All payloads and sizes, all resource names and schemas, both ways of writing.",
  "The format must be identical for all ways of writing; tests only read back what the same code wrote.",
  ["src/storage.rs"], [("ResourceStorage::{write,read_and_check_schema}", "src/storage.rs"), ("ResourceHandle::{try_new,write,close}", "src/storage.rs"), ("write_size, write_padding", "src/storage.rs")])
p("C14", "Reading validates size and schema of arbitrary stored bytes",
  "For every content of the stored resource and its schema, a read either returns exactly the payload announced by the size header of a well-formed resource whose stored schema equals the expected one, or an error that tells the reason: not found, unexpected size, not UTF-8, or a different schema. It never panics and never returns memory outside of the resource.",
  ["inputs"], "All byte contents of data and schema file (truncated, extended, corrupted), including sizes near the end of the integer range; any expected schema.",
  "Corrupted contents are unbounded; tests cover few or none of them.",
  ["src/storage.rs", "src/error.rs"], [("read_and_check_schema", "src/storage.rs"), ("ResourceStorageError::from_io_error", "src/error.rs")])
p("C15", "Opening an archive succeeds exactly if all required parts are valid",
  "Opening an archive fails if the archive signature or any non-optional resource or subarchive is missing, has a different schema or is corrupted; otherwise it succeeds and every accessor shows exactly the stored resource. An optional part that cannot be read is absent and never makes opening fail.",
  ["inputs", "programs", "fault_sequences"], "All archive declarations in a family (every kind of resource, optional and not), each part present, missing or unreadable in any combination.",
  "The combinations of missing and damaged parts are exponential; the tests open one or two complete archives.",
  ["src/archive.rs"], [("define_archive! open, accessors", "src/archive.rs"), ("check_resource!, opt!, static_if!", "src/archive.rs")])
p("C16", "Archive builder and reader use the same names and schemas",
  "Whatever is written through an archive builder under a resource is found by the archive reader under the same resource: both sides use the same storage location, resource name and schema for each kind of resource, including subarchives and both parts of a multi vector. The stored names equal the declared names and do not collide.",
  ["programs", "inputs"], "All archive declarations in a family covering each kind of resource, optional or not, nested subarchives.",
  "Names and schemas are spread over macros for reader and builder and helper functions; the tests exercise few declarations.",
  ["src/archive.rs", "src/storage.rs"], [("define_archive! reader and builder", "src/archive.rs"), ("create_external_vector, create_multi_vector, create_archive", "src/storage.rs")])
p("C17", "Creating an archive never overwrites an existing one",
  "If an archive of the same name already exists in the storage, creating a builder for it fails with an error of kind 'already exists' and leaves everything stored unchanged. Otherwise creating it makes the archive exist, with its schema.",
  ["histories", "inputs"], "All prior states of the storage.",
  "The prior state is arbitrary; tests try one.",
  ["src/storage.rs", "src/archive.rs"], [("create_archive", "src/storage.rs")])
p("C18", "Every input/output error is reported to the caller",
  "If any operation of the underlying storage fails while a resource is created, written, grown or closed, or while an archive is created, the call in progress returns an error; it neither reports success nor panics, and no later close reports success for a resource whose bytes did not all reach the storage.",
  ["fault_sequences"], "Every single fault at every call into the storage (creation of a stream, write, seek, read back) on every path, followed by any continuation.",
  "The tests inject no faults.",
  ["src/storage.rs", "src/vector.rs", "src/multivector.rs"], [("? and map_err on every storage call", "src/storage.rs"), ("ExternalVector::close, abort", "src/vector.rs"), ("MultiVector::close", "src/multivector.rs")])
p("C19", "An unfinished resource is never read as a valid one",
  "If writing a resource stops before it was closed successfully (crash, error or abandonment at any point), reading that resource yields an error (or, as long as nothing of it was replaced yet, the complete version stored before), never a truncated or empty but valid looking resource.",
  ["crash_points", "fault_sequences"], "Every prefix of the sequence of stored bytes produced by any writer before its last write.",
  "Tests never interrupt a writer.",
  ["src/storage.rs"], [("size placeholder in ResourceHandle::try_new", "src/storage.rs"), ("header update in ResourceHandle::close", "src/storage.rs")])
p("C20", "Writers must be closed exactly once; misuse is refused",
  "An incremental writer that is dropped without having been closed panics (unless already panicking), a successful or failed close releases it without panic, and using a writer after close, or an element reference of a writer, vector or view after its owner was changed or dropped, does not compile.",
  ["programs", "histories"], "All client programs over the public interface of the writers and containers.",
  "That a program is rejected by the compiler cannot be shown by a running test, and all histories of use cannot be sampled.",
  ["src/storage.rs", "src/vector.rs", "src/multivector.rs", "src/arrayview.rs", "src/structbuf.rs"], [("Drop for ResourceHandle", "src/storage.rs"), ("close(self)", "src/vector.rs"), ("lifetimes of items", "src/archive.rs")])
p("C21", "Data handed out by a storage stays valid and unchanged",
  "A slice returned by reading a completely written resource stays valid and unchanged for as long as the storage lives, whatever else is read, written or rewritten through that storage or its subdirectories.",
  ["histories"], "All sequences of reads, writes and rewrites of the same and other resources on both storages.",
  "A dangling slice is undefined behaviour that a passing test does not show.",
  ["src/memstorage.rs", "src/filestorage.rs"], [("retired buffers", "src/memstorage.rs"), ("retired mappings, new file instead of truncation", "src/filestorage.rs")])
p("C22", "File and memory storage are interchangeable",
  "Both storages behave the same: a resource exists exactly if it was written, reading a missing one fails with 'not found', reading returns exactly the bytes last written to it, subdirectories are the same storage under a longer path, and writing again replaces the content.",
  ["histories", "inputs"], "All sequences of operations on both storages with any names and contents, including empty contents.",
  "The tests run single scenarios on one of the storages.",
  ["src/memstorage.rs", "src/filestorage.rs"], [("MemoryResourceStorage", "src/memstorage.rs"), ("FileResourceStorage", "src/filestorage.rs")])
p("C23", "Offsets that do not fit into an index are refused",
  "Storing an offset in a multi array index either stores exactly this offset or, if it does not fit into the declared width of the index, panics; it is never silently truncated. Reading an index element yields the offset stored.",
  ["inputs", "programs"], "All index widths 1..64 bits of the family, all offsets.",
  "Overflowing a wide index takes terabytes of data.",
  ["src/archive.rs"], [("define_index! set_index", "src/archive.rs")])
p("C24", "Byte compatibility with the C++ and other implementations",
  "An archive written by this library is read with the same content by the other language implementations of the same schema, and vice versa.",
  ["programs", "inputs"], "All schemas and contents.",
  "The other implementations are not part of the repository.",
  ["src/archive.rs", "src/storage.rs"], [("format", "src/storage.rs")])
p("C25", "Closed resources survive a power failure",
  "After a successful close of a resource in the file storage, its content is on stable storage and survives a power failure.",
  ["crash_points"], "All crash points after close.",
  "Needs control over the operating system's cache.",
  ["src/filestorage.rs"], [("no fsync in create_output_stream/close", "src/filestorage.rs")])
p("C26", "An archive keeps its data alive",
  "An archive, each copy of it and each subarchive obtained from it keeps its data accessible and unchanged as long as it lives, also after the storage it was opened from, the builder, the archive it was copied or obtained from and all other copies are dropped; and nothing an archive hands out can be used after that archive is dropped (such a program does not compile).",
  ["histories", "programs"], "All archive declarations in a family, on both storages; all histories of copying and dropping of some length.",
  "A dangling slice is undefined behaviour that a passing test does not show; that a program is refused cannot be shown by a running one.",
  ["src/archive.rs", "src/filestorage.rs", "src/memstorage.rs"], [("define_archive! fields, open, Clone", "src/archive.rs"), ("subdir", "src/filestorage.rs")])
p("C27", "Incremental writers need bounded memory",
  "An external vector and a multi vector hold in memory at most the element being written and a bounded amount of data not yet stored (well below 256 MiB), however many elements are written, so that data can be serialised that does not fit in memory.",
  ["histories", "inputs"], "All numbers, sizes and contents of elements.",
  "Needs far more data than a test writes; a writer which keeps everything in memory gives the same results.",
  ["src/vector.rs", "src/multivector.rs"], [("ExternalVector::grow, flush", "src/vector.rs"), ("MultiVector::grow, flush_if_not_empty", "src/multivector.rs")])
p("C28", "Nothing is shared between threads without synchronisation",
  "State which the library shares between several owners without synchronisation (the maps of a storage and its subdirectories, the streams of writers, the storage inside of archives and builders) cannot be reached from two threads by a program without unsafe code: such a program does not compile. No function changes global state without synchronisation.",
  ["programs", "schedules"], "All client programs and all schedules of their threads.",
  "That a program is rejected by the compiler cannot be shown by a running test, and a data race need not show in any of its runs.",
  ["src/memstorage.rs", "src/filestorage.rs", "src/storage.rs", "src/archive.rs", "src/vector.rs", "src/multivector.rs"],
  [("MemoryResourceStorage, Rc and RefCell", "src/memstorage.rs"), ("FileResourceStorage, Rc and RefCell", "src/filestorage.rs"), ("_storage and storage fields of define_archive!", "src/archive.rs")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
