"""The checks: property id -> rules, explanation."""
import bits_checks as B
import struct_checks as S
import cont_checks as V
import store_checks as R
import arch_checks as A
import borrow_checks as W
import fs_checks as F
import keep_checks as K
import real_checks as Q
import thread_checks as H


def over(f, items, **kw):
    def g(ctx):
        ctx.par((lambda sub, it: f(sub, it, **kw)) if kw else f, items(ctx))
    return g


ENGINE = ("Abstract interpretation of the compiler's MIR (monomorphic, as dumped by a rustc driver from /repo's current "
          "tree): a forward dataflow over every path of every function reachable from the listed entry points, with "
          "linear relations between machine integers, provenance of single bits, and segmented symbolic memory. Library "
          "functions are either analysed from their own MIR or have a model (both are listed). ")
TRUST = ["The nightly compiler's MIR is what the stable compiler compiles the same source to.",
         "The models of standard library functions in lib/models.py, which replace their bodies, are right.",
         "A case which the domains cannot decide is reported as undecided and raises no alarm."]


def chk(run, explanation, floor, assumptions=()):
    return dict(run=run, explanation=ENGINE + explanation, floor=floor, assumptions=TRUST + list(assumptions))


CHECKS = {
    "C01": chk([over(B.round_trip, B.cases)],
               "Entry points are one write and one read of a field for every primitive type, width and bit offset, at a symbolic byte "
               "position in a buffer of symbolic bits. Rule: the bits read after the write are the bits of the value, in order.", 100),
    "C02": chk([over(B.write_own, B.cases), over(B.read_own, B.cases)],
               "As C01, with an arbitrary (also too large) value. Rules: after a write every bit outside of the field is the same bit as before; "
               "every bit of the value read is a bit of the field (or its sign).", 100),
    "C03": chk([over(B.read_layout, B.cases), over(B.write_layout, B.cases), over(B.short_forms, lambda c: B.short_items())],
               "As C01, for little and big endian targets. Rules: bit i of the value read is bit (o+i) mod 8 of byte (o+i)/8; after a write that bit is bit i of "
               "the value; the short forms of the macros give the same.", 100),
    "C04": chk([over(B.footprint, B.cases)],
               "As C01. Rule: the set of bytes loaded or stored is inside of the bytes that hold the field, and not more than eight bytes behind its first one.", 100),
    "C05": chk([over(S.getters, S.fields_items), over(S.setters, S.fields_items), over(S.fill, S.structs_items), over(S.equality, S.structs_items),
                over(S.sizes, S.structs_items), over(S.short, S.fields_items), over(S.index_types, S.index_items)],
               "Entry points are all accessors of a generated family of struct declarations (lib/layouts.json). Rules: bits read and written are exactly the declared ones; "
               "copying and comparing involve exactly all fields; too short buffers panic.", 50),
    "C06": chk([over(V.vector, V.size_items), over(V.structbuf, V.size_items)],
               "Vectors of n items with symbolic n for many item sizes, and of few items of symbolic size; arbitrary content. Each operation is applied to an arbitrary valid state.", 50),
    "C07": chk([over(V.view, V.size_items)],
               "Views of symbolic length and content, symbolic positions and ranges in all range forms, slices of slices, iteration from an arbitrary position.", 50),
    "C08": chk([over(V.vector, V.size_items, only={"refuse"}), over(V.view, V.size_items, only={"refuse", "slices_refused"}),
                over(V.multi_view, V.size_items, only={"refuse", "slices_refused", "overrun", "unsorted"}),
                over(V.variadic, V.variadic_items, only={"unknown"}), over(S.short, S.fields_items)],
               "Positions and ranges are any machine integers outside of the container, with overflow checks on and off. Rule: every path ends in a panic.", 50),
    "C09": chk([over(V.multi_view, V.size_items)],
               "Views of symbolic length with an abstract index (any offsets) and abstract items (any tag, any size). Rules: entry i yields the items between offset i and i+1, in order; "
               "slices and iterators show the same; invalid offsets panic.", 50),
    "C10": chk([over(V.variadic, V.variadic_items)],
               "All variants of the variadic types of the family, symbolic length and content of the earlier data, any tag.", 20),
    "C11": chk([over(R.ext_vector, R.ev_items), over(R.induction, lambda c: [x for x in R.step_items(c) if x[0] == "ev"]),
                over(R.faulty, lambda c: [x for x in R.fault_items(c) if x[0] == "ev" and x[3]], key="content"),
                over(Q.ext_vector, Q.ev_items)],
               "Above an abstract storage (files are byte sequences; lib/ghost.py): create, up to a few grows with arbitrary contents, close. The element size is "
               "symbolic (1 .. 2^32), so that every relation to the size of the buffer is covered, or one of several concrete sizes. Rules: the stored resource and the view returned "
               "consist of the elements in order; len, is_empty and is_open agree, also after a failed call. The same above both real storages and an abstract file system.", 50),
    "C12": chk([over(R.multi_vector, R.mv_items), over(R.induction, lambda c: [x for x in R.step_items(c) if x[0] == "mv"]),
                over(R.faulty, lambda c: [x for x in R.fault_items(c) if x[0] == "mv" and x[3]], key="content"),
                over(Q.multi_vector, Q.mv_items)],
               "As C11, for up to a few entries of up to two items each of any of two types of symbolic sizes, with an abstract index. Rules: the two stored resources are exactly "
               "the items and their offsets plus the sentinel; the view shows the same, also after a failed call. The same above both real storages and an abstract file system.", 50),
    "C13": chk([over(R.once, lambda c: ["write", "write again", "read"]), over(R.ext_vector, lambda c: R.ev_items(c)[:3]), over(R.multi_vector, lambda c: R.mv_items(c)[len(R.LONG):][:6]),
                over(Q.two_names, Q.names_items)],
               "Writing and reading resources of symbolic names, schemas and contents above an abstract storage, and pairs of similar names above both real ones. Rule: the stored bytes are header, payload and padding, and the schema; "
               "a resource of this form is read as its payload.", 50),
    "C14": chk([over(R.once, lambda c: ["any", "read"]), over(R.near, R.near_items), over(Q.anything, Q.any_items)],
               "Stored bytes and schema are arbitrary (symbolic length and content) or missing, the storage may fail. Rule: which results are possible for which contents; every path returns. The same above both real storages and an abstract file system. "
               "Concrete schemas that differ in one place (case, space, line ends, prefixes, order) are refused.", 50),
    "C15": chk([over(A.opening, A.open_items), over(K.keep, lambda c: [x for x in K.items(c) if x[2] == "opened"], key="opening", short=True)],
               "A family of archives with every kind of resource, required and optional, and subarchives, above an abstract storage. Every subset of the resources is missing (pairs for the "
               "largest archive), or one of them has arbitrary bytes. Rules: opening succeeds exactly if reading all required ones does; each accessor shows the stored bytes. Opened archives above both real storages show theirs.", 100),
    "C16": chk([over(A.building, A.build_items), over(K.keep, lambda c: [x for x in K.items(c) if x[2] == "built"], key="names and schemas", short=True)],
               "As C15. Everything is written through the builder, with arbitrary contents. Rules: exactly the declared names hold exactly the contents and schemas; the opened archive shows them. The same above both real storages and an abstract file system.", 100),
    "C17": chk([over(A.creating, A.create_items), over(Q.creating, Q.create_items)],
               "As C15; the archive and its schema may exist with any content, the storage may fail. Rules: nothing is written if the archive exists; its name and schema are written otherwise. The same above both real storages and an abstract file system.", 50),
    "C18": chk([over(R.faulty, R.fault_items, key="reported"), over(A.creating, lambda c: [x for x in A.create_items(c) if x[2]]),
                over(F.faults, F.fault_items)],
               "Every operation of the abstract storage may fail in every run (a failing write writes any part). Rules: a call fails exactly if an operation in it fails, it never panics, and "
               "a writer closed successfully after an earlier error has stored everything. The same for the file storage above an abstract file system, whose operations may fail.", 100),
    "C19": chk([over(R.crash, R.crash_items), over(R.faulty, R.fault_items, key="unfinished"),
                over(R.dropping, lambda c: [x for x in R.drop_items(c) if x[2] == "unwind"]),
                over(Q.ext_vector, lambda c: [x for x in Q.ev_items(c) if x[2] == "peek"], key="unfinished"),
                over(Q.stopped, Q.stop_items)],
               "The stored bytes after every prefix of the operations of a writer, the last write done in part (any part), with nothing or an old version stored before; after every error; and after a panic dropped the writer. "
               "Rule: reading them fails or yields everything that was written. Reading while the writer is at work, above both real storages, gives no valid resource either; nor does reading after an operation of the file system failed, with an old version there before, unless all of it is shown.", 100),
    "C20": dict(chk([over(R.dropping, R.drop_items), W.misuse],
               "Dropping writers: paths of their destructors, with storage operations failing in all ways. Misuse: for each way (lib/borrow_checks.py) a program containing it, which the compiler must refuse with an "
               "ownership error, and a twin without it, which it must accept.", 60),
               technique="abstract interpretation of MIR, and compile-fail witnesses with compiling twins"),
    "C21": chk([over(F.history, F.hist_items, mode="slices"), over(F.faults, F.fault_items, mode="slices"),
                over(Q.ext_vector, lambda c: [x for x in Q.ev_items(c) if x[2] == "read"], key="slices")],
               "Both storages above an abstract file system, maps, mappings and cursors (lib/fsmodel.py). Histories: all sequences of four (thorough: five) of writing and reading two resources through the storage, a "
               "subdirectory and new handles of it, longer ones with other operations, with and without files there before; contents are symbolic. "
               "Rule: after every operation each slice handed out before refers to live memory with the bytes it had; also after operations which fail.", 1000),
    "C22": chk([over(F.history, F.hist_items), over(F.read_faults, F.fault_items), over(Q.two_names, Q.names_items, key="content")],
               "Both storages above an abstract file system, maps, mappings and cursors (lib/fsmodel.py). Histories: all sequences of four (thorough: five) of writing and reading two resources through the storage, a "
               "subdirectory and new handles of it, longer ones with other operations, with and without files there before; contents are symbolic. "
               "Rule: existence, errors and contents are those of a map from full names to the contents last written, for both storages.", 1000),
    "C23": chk([over(S.index_types, S.index_items)],
               "Index types of every width 1..64; any offset. Rule: the offset is stored exactly, or the call panics if it does not fit.", 20),
    "C26": dict(chk([over(K.keep, K.items), lambda c: W.misuse(c, "archive-")],
               "A family of archives above both storages and an abstract file system (lib/fsmodel.py); the only handle of the storage goes into the archive, which was built or whose files are there. "
               "Then up to two of: copying it and dropping the original, copying it and dropping the copy, copying a subarchive and dropping the archive. "
               "Rule: each accessor of what is left shows the stored bytes in live memory. And compile-fail witnesses, with twins: what an archive hands out cannot outlive it.", 50),
               technique="abstract interpretation of MIR, and compile-fail witnesses with compiling twins"),
    "C27": chk([over(R.bounded, R.bounded_items), over(Q.bounded, Q.bounded_items)],
               "As C11 and C12, with elements (items, index elements) of any symbolic size of at least 2^30 bytes, and elements of 100 MiB. Rule: after each call, the bytes of all buffers the writer has "
               "made exceed the newest element by at most 256 MiB. The same above both real storages and an abstract file system.", 10),
    "C28": dict(chk([H.threads],
               "The types of the public interface (lib/thread_checks.py), their parts as in the compiler's types: whether a reference-counted handle or a cell is reached, so that several owners use the same state without "
               "synchronisation. Rule: such a type does not implement Send (Sync): a program which needs that is refused by the compiler, its twin is accepted. And: no function reached uses a mutable global variable.", 15),
               technique="structural ownership analysis of types, and compile-fail witnesses with compiling twins"),
}
