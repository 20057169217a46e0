#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
H = "include/fast_ber/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

GEN = "src/compiler/EncodeDecode.cpp"
p("C01", "Encoding respects the capacity of the caller's buffer",
  "Encoding any message or value object into a caller-supplied buffer succeeds exactly when the buffer's capacity is at least the length the object reports beforehand; on success the returned length equals that reported length and the octets are the same whatever the capacity and previous contents of the buffer. When the buffer is too small the call reports failure. In either case no octet outside the buffer is read or written and the object itself is unchanged, so that a retry with a larger buffer succeeds.",
  ["inputs", "fault_sequences"],
  "every message value of every supported ASN.1 construct, every buffer capacity from 0 to beyond the needed length, any earlier contents of the buffer, and any sequence of failed attempts followed by retries",
  "Tests encode a few fixed values into ample (5000 octet) buffers, and a handful into one too short buffer; they never sweep the capacity, place guards around the buffer, or retry on the same object.",
  [H+"util/EncodeHelpers.hpp", H+"util/EncodeIdentifiers.hpp", H+"util/FixedIdBerContainer.hpp", H+"util/SmallFixedIdBerContainer.hpp", H+"ber_types/SequenceOf.hpp", GEN],
  [("header is written after the content at a guessed offset, then moved; capacity is compared to header+content", H+"util/EncodeHelpers.hpp: wrap_with_ber_header"), ("generated collections encode member by member into the remaining span", GEN+": create_collection_encode_functions")],
  observe=["encoded_length(), encode() of generated types and ber_types"])
p("C02", "A transferred message arrives equal to the one sent",
  "A message set through the generated C++ interface, encoded, carried over a transport that may fragment, coalesce, delay, duplicate or reorder whole messages, and decoded by the receiver is equal, member by member, to the one which was sent, each as many times as it was delivered. The octets on the wire are the definite-length BER encoding the ASN.1 schema prescribes (tags, tagging mode, optional and default members, order), so an independent BER implementation reads the same value. A relay which decodes and re-encodes a received message forwards identical octets.",
  ["inputs", "histories", "fault_sequences"],
  "every message value over schemas which use all supported constructs and tagging modes, every split of the octet stream into chunks, every delivery order and duplication of messages, any number of relays",
  "Tests round trip one or two hand-written values per generated type from a single contiguous buffer; no test compares against an independent codec, chains relays, or combines constructs, tag forms and lengths freely.",
  [GEN, "src/compiler/Identifier.cpp", "src/compiler/TypeAsString.cpp", "src/compiler/GenerateChoice.cpp", H+"ber_types/", H+"util/"],
  [("identifier selection for tagged, automatic and nested types", "src/compiler/Identifier.cpp"), ("generated encode/decode of SEQUENCE, SET, CHOICE", GEN), ("primitive contents", H+"ber_types/Integer.hpp, Real.hpp, ObjectIdentifier.hpp, StringImpl.hpp, GeneralizedTime.hpp")],
  observe=["encode(), decode(), members and operator== of generated types"])
p("C03", "A torn message is never accepted and reception resumes",
  "No strict prefix of an encoded message is ever accepted as a message: while octets are missing, framing and decoding report failure and touch no octet beyond those received. As soon as the last octet arrives the message is framed at exactly its length, whatever follows it in the receive buffer, and decodes to the value sent, even into the object that the failed attempts used. A connection cut at any octet loses only the message in flight, and messages on the next connection decode normally.",
  ["inputs", "crash_points", "fault_sequences"],
  "every message, every cut position, every fragmentation with a decode attempt after each fragment, every reconnect sequence",
  "Tests decode complete packets, plus a few fixed truncated integers and headers; none resumes after a failed attempt or cuts composite messages at each octet.",
  [H+"util/BerView.hpp", H+"util/Extract.hpp", H+"util/DecodeHelpers.hpp", GEN],
  [("a view is valid only when the complete header and content lie in the span", H+"util/BerView.hpp: BerView::assign"), ("every decode first checks the view", GEN)],
  observe=["BerView::is_valid(), ber_length(), decode() results"])
p("C04", "Every valid BER form a peer may choose decodes to the same value",
  "The receiver accepts the alternative definite-length encodings other BER implementations produce (long-form and padded length octets, any member order in a SET, explicitly encoded default values, any non-zero octet for TRUE, padded integers within 64 bits, alternative binary forms of a REAL) and decodes them to the same value as the shortest form. Decoding then encoding such a message yields octets which again decode to that value, and copies of the received message behave alike.",
  ["inputs", "configurations", "histories"],
  "every message and every combination of alternative forms at every nesting level, as produced by peers of different implementations on one connection",
  "Tests contain a handful of hand-made packets, nearly all in shortest form; alternatives are never combined across levels, types and tagging.",
  [H+"util/Extract.hpp", H+"util/FixedIdBerContainer.hpp", H+"util/SmallFixedIdBerContainer.hpp", H+"ber_types/Real.hpp", H+"ber_types/Boolean.hpp", GEN],
  [("length octets are parsed in short and long form", H+"util/Extract.hpp: extract_length"), ("SET members are dispatched by identifier", GEN), ("received encoding is stored and content located from its end", H+"util/FixedIdBerContainer.hpp")],
  observe=["decode() results, re-encoded octets, values of copies"])
p("C05", "Corrupted input is survived: no crash, no hang, no false value",
  "Whatever octets arrive, decoding ends within a number of steps and an amount of memory bounded by the length of the input, with no access outside the received octets and no undefined behaviour. It either reports failure, or yields exactly the value which the schema assigns to those octets; in particular unknown or repeated SET members, missing mandatory members, wrong identifiers or constructions and lengths beyond the input are not accepted. The receiver stays usable: the next intact message decodes normally.",
  ["inputs", "fault_sequences"],
  "every corruption (bit flips, lost, inserted, duplicated, swapped or overwritten octets and elements, rewritten lengths and tags) of every message, and arbitrary octets",
  "Tests cover a few malformed headers; there is no test with corrupted composite messages, nor any memory or step bound.",
  [H+"util/BerView.hpp", H+"util/Extract.hpp", H+"util/DecodeHelpers.hpp", H+"ber_types/", GEN],
  [("lengths are compared with the remaining octets", H+"util/BerView.hpp"), ("identifier and construction are checked", H+"util/DecodeHelpers.hpp: has_correct_header"), ("SET counts and unknown members", GEN)],
  observe=["decode() results and decoded values, value()/string()/time() accessors, stream output"])
p("C06", "Decoding depends only on the octets, and decoded objects own their data",
  "Decoding a message into an object gives the same result whatever the object held before: earlier values, earlier successful or failed decodes, copies and moves leave no trace, and absent optional and default members are reset. Decoded objects keep no reference to the receive buffer, which may be overwritten or released at once. Copies are independent of the original: changing or destroying one never affects the other.",
  ["histories", "inputs"],
  "every sequence of assignments, decodes (of intact, torn or corrupted messages), copies, moves, swaps and buffer reuse over a pool of message objects",
  "Tests decode into freshly constructed objects and keep the buffer alive; no test reuses an object or buffer across different messages.",
  [GEN, H+"ber_types/Optional.hpp", H+"ber_types/Default.hpp", H+"ber_types/SequenceOf.hpp", H+"util/FixedIdBerContainer.hpp", H+"util/BerContainer.hpp"],
  [("optional members are emptied and defaults restored when absent", GEN), ("SEQUENCE OF is cleared before decoding", H+"ber_types/SequenceOf.hpp"), ("containers copy the received octets", H+"util/FixedIdBerContainer.hpp")],
  observe=["members of decoded objects, re-encoded octets"])
p("C07", "Peers with different schema versions interoperate",
  "A receiver built from an older version of an extensible schema decodes messages from a newer peer: elements it does not know after its own members of a SEQUENCE, or anywhere in an extensible SET, are skipped and every member it knows is decoded correctly. A receiver built from the newer version decodes messages of older peers, reporting the optional additions as absent, and an ENUMERATED value it has no name for is preserved. Alternatives of a CHOICE, or elements of a non-extensible SET, which the receiver does not know are rejected and never mistaken for known ones.",
  ["configurations", "inputs", "histories"],
  "every message of each version, every assignment of schema versions to the nodes, any order of upgrades and restarts, any number of hops",
  "The only extension test round trips one value within a single version; no test connects two versions.",
  [GEN, "src/compiler/CompilerTypes.cpp", H+"ber_types/Enumerated.hpp"],
  [("decoding of a SEQUENCE ignores trailing elements", GEN), ("SET decoding skips unknown elements when extensible", GEN), ("CHOICE dispatch on class and tag", GEN)],
  observe=["decode() results and members of the types generated from both versions"])
p("C08", "A log of packets, cut anywhere, reads back its intact packets",
  "Iterating over a sequence of encoded packets of any identifiers yields exactly the packets which are completely present, in order, with the class, tag, construction, header and content that were written, and stops before the first incomplete packet; the iteration takes one step per packet. Containers which store a packet keep its octets exactly, through copies, content replacement and resizing, and write them back unchanged.",
  ["inputs", "crash_points", "histories"],
  "every sequence of packets with any identifier (all classes, multi-octet tags up to the supported maximum), any content length and length form, cut at any octet or with lost writes, nested to any depth, and any container operations in between",
  "Tests iterate one fixed nested packet and store small packets with single-octet headers; none cuts a log or combines long tags with long lengths.",
  [H+"util/BerView.hpp", H+"util/BerContainer.hpp", H+"util/Extract.hpp", H+"util/EncodeIdentifiers.hpp", H+"ber_types/Tag.hpp"],
  [("BerViewIterator advances by the length of the packet and stops at an invalid view", H+"util/BerView.hpp"), ("header encoding and extraction", H+"util/EncodeIdentifiers.hpp, Extract.hpp")],
  state=[("m_data, m_view", "octets of the stored packet and the view on them", H+"util/BerContainer.hpp")],
  observe=["BerView, BerViewIterator, MutableBerView, BerContainer"])
p("C09", "Value objects behave like plain values through any history",
  "Through any sequence of construction, assignment (from values, literals, other objects and objects with other tags), resizing, in-place modification, copying, moving, self assignment, decoding and encoding, every library value object (strings, integers, booleans, reals, enumerated, object identifiers, times, optionals, defaults, sequences-of) holds the value a plain C++ value would hold. Its reported encoding always decodes to this value. A moved-from object can still be inspected, encoded, assigned and destroyed, and operations which fail leave a valid object.",
  ["histories", "inputs"],
  "every operation sequence over a pool of objects, with content lengths on both sides of the inline storage (100 octets) and header length (128, 256, 65536) boundaries",
  "Tests perform a single operation on a fresh object with short contents; storage and header length transitions, moved-from and self-assigned objects are not reached.",
  [H+"util/FixedIdBerContainer.hpp", H+"util/SmallFixedIdBerContainer.hpp", H+"ber_types/StringImpl.hpp", H+"ber_types/Integer.hpp", H+"ber_types/Real.hpp", H+"ber_types/ObjectIdentifier.hpp", H+"ber_types/GeneralizedTime.hpp", H+"ber_types/Optional.hpp", H+"ber_types/Default.hpp", H+"ber_types/SequenceOf.hpp"],
  [("value is stored as its encoding; header is rewritten on each change of the content length", H+"util/FixedIdBerContainer.hpp")],
  state=[("m_data, m_content_length", "encoding of the value and the length of its content", H+"util/FixedIdBerContainer.hpp")],
  observe=["value(), size(), comparison operators, encoded_length(), encode()"])
p("C10", "Dynamically stored choices and optionals behave like values",
  "Choices and optional members of recursive types, which are stored on the heap, hold exactly one alternative or value (or none) through any history of emplacement, assignment, copying, moving, swapping, self assignment and assignment from a part of themselves, and agree with the reference semantics of a standard variant and optional. Every contained object is constructed and destroyed exactly once, also when a constructor or assignment of a contained object throws; afterwards the object is either unchanged or valueless and can be assigned again. Comparisons agree with the held values.",
  ["histories", "fault_sequences"],
  "every operation sequence over a pool of objects, a throwing constructor, copy, move or assignment at any point, any nesting depth",
  "Tests exercise each operation once on a fresh variant and never throw from a contained object at a chosen point.",
  [H+"util/DynamicVariant.hpp", H+"util/DynamicVariantHelpers.hpp", H+"util/DynamicOptional.hpp", H+"ber_types/Choice.hpp", "src/compiler/GenerateChoice.cpp"],
  [("alternatives are held through a type-erased pointer replaced on emplacement", H+"util/DynamicVariant.hpp"), ("unique_ptr replaced on assignment", H+"util/DynamicOptional.hpp")],
  state=[("m_data, m_index", "held alternative and its number", H+"util/DynamicVariant.hpp")],
  observe=["index(), get, holds_alternative, visit, has_value, constructor/destructor counts"])
p("C11", "Memory exhaustion never corrupts, leaks or forges a message",
  "When a memory allocation fails during any operation on messages or values, the operation either throws std::bad_alloc or, where it is declared not to throw, ends the process; it never returns a wrong value, reports success for an incomplete result, writes out of bounds, leaks memory or destroys anything twice. Objects involved in an operation which threw can still be inspected, destroyed, assigned and decoded into, after which they behave as new. Encoding allocates no memory, so it is not affected.",
  ["fault_sequences", "histories"],
  "every operation, each allocation within it failing, alone or persistently, at any point of any history",
  "No test fails an allocation.",
  [H+"util/", H+"ber_types/", GEN],
  [("ownership through unique_ptr, vectors and inlined vectors", H+"util/DynamicOptional.hpp, DynamicVariant.hpp, BerContainer.hpp"), ("noexcept on decode and assignment", GEN)],
  observe=["exceptions, process termination, allocation balance, state of the objects after the failure"])
p("C12", "Threads using separate or shared constant objects do not interfere",
  "Threads which encode, decode, copy, compare and print separate objects, or which concurrently read, encode, copy, compare and print the same constant object or decode the same octets, each obtain the results they would obtain alone, under every interleaving. No operation blocks forever waiting for another thread.",
  ["schedules", "inputs"],
  "every interleaving of the threads' steps, any number of threads and any assignment of operations and objects to them",
  "All tests are single threaded.",
  [H+"ber_types/", H+"util/", "src/ber_types/Real.cpp", "src/util/BerView.cpp", GEN],
  [("const operations touch no shared mutable state; scratch data is thread_local or on the stack", H+"ber_types/GeneralizedTime.hpp, Real.hpp")],
  observe=["octets, values and texts each thread obtains"])
p("C13", "Times do not depend on the host's clock or time zone",
  "A time value set from an absolute or civil time is encoded to the same octets, and received octets are read as the same time, on every host and at every moment: neither the local time zone, nor daylight saving transitions, nor clock steps, nor a change of the time zone between sending and receiving has any influence. A received UTC time is read as exactly the instant that was sent, to the second, and malformed time text is reported rather than read as some other time.",
  ["configurations", "histories", "inputs", "fault_sequences"],
  "every instant between year 0 and 9999, every pair of sender and receiver time zones, every clock jump or time zone change in between",
  "Tests run with the time zone and clock of the build machine and a few fixed instants.",
  [H+"ber_types/GeneralizedTime.hpp", H+"ber_types/UTCTime.hpp", H+"ber_types/Date.hpp", H+"ber_types/DateTime.hpp"],
  [("formatting and parsing always use the UTC time zone", H+"ber_types/GeneralizedTime.hpp")],
  observe=["set_time(), time(), string(), format(), encode(), decode()"])
p("C14", "The schema compiler never reports success for incomplete output",
  "Whenever the schema compiler exits with status 0, all three generated headers exist with the complete contents that an undisturbed run produces; any failure to read an input or to create or write an output (missing or unreadable file, read error, short or failed write, full disk, failure on closing) gives a non-zero exit status. Interrupted or partial reads and writes which the system allows to be retried make no difference to the output. A damaged input is rejected, or compiled as what it now says up to its end. The compiler terminates, without crashing, under every such fault and whatever its inputs hold, and never modifies its inputs.",
  ["fault_sequences", "inputs"],
  "every system call made for an input or output file failing or being shortened in every way the operating system allows, alone or persistently, for any set of input files",
  "Tests run the compiler only on readable inputs and writable outputs.",
  ["src/compiler_main/CompilerMain.cpp"],
  [("stream states are checked after opening and after closing", "src/compiler_main/CompilerMain.cpp: main"), ("exceptions are turned into a non-zero exit status", "src/compiler_main/CompilerMain.cpp: main")],
  observe=["exit status, contents of the output files"])
p("C15", "Compiler output is reproducible, and re-running repairs a crashed run",
  "For given input files the generated headers are byte-identical on every run: they do not depend on memory layout, hash seeds, the environment, the working directory, the location of the inputs, how the operating system chunks their contents, or what the output files contained before. A run killed at any point, followed by a complete run, leaves exactly the output of an undisturbed run, and a run that is merely repeated changes nothing.",
  ["crash_points", "configurations", "fault_sequences", "schedules"],
  "every kill point at every system call, every earlier state of the output files, every memory layout and hash seed, concurrent runs on different outputs",
  "The build runs the compiler once per schema, and nobody compares two runs.",
  ["src/compiler_main/CompilerMain.cpp", "src/compiler/ReorderAssignments.cpp", "src/compiler/Dependencies.cpp", "src/compiler/ResolveType.cpp", "src/compiler/Parameters.cpp", "src/compiler/ObjectClass.cpp"],
  [("outputs are truncated on opening", "src/compiler_main/CompilerMain.cpp"), ("modules and assignments are emitted in dependency order, independent of hash iteration order", "src/compiler/ReorderAssignments.cpp")],
  observe=["contents of the output files"])
p("C16", "The packet viewer reports exactly what the file holds",
  "Given a file, the viewer prints the structure of its first packet (lengths, identifiers and contents at every level) and exits with status 0 only if the file starts with a complete packet and all output was written; otherwise its exit status is non-zero. Whatever the file holds, it does not crash or hang, and truncated, corrupted or unreadable input and failed writes are reported. Partial reads and writes and interrupted reads make no difference to its output; an interrupted write is repeated or reported.",
  ["inputs", "fault_sequences"],
  "every file content, torn or corrupted at any octet, and every failing, interrupted or shortened read and write",
  "The viewer itself has no test; printing is tested on a few packets.",
  ["src/view/view.cpp", "src/util/BerView.cpp"],
  [("structure is printed recursively from a view of the whole file", "src/util/BerView.cpp: operator<<"), ("stream errors are turned into the exit status", "src/view/view.cpp")],
  observe=["standard output and exit status of fast_ber_view"])
# not claimed
p("C17", "Invalid schemas are rejected with a diagnostic",
  "A schema that is not valid ASN.1, or uses a construct the compiler does not support (duplicate names, unresolved references, circular mandatory members), makes it exit with a non-zero status and a message naming the problem.",
  ["inputs"], "every invalid schema", "Tests contain a few invalid schemas.",
  ["src/compiler/", "src/compiler_main/CompilerMain.cpp"], [("exceptions from the passes", "src/compiler_main/CompilerMain.cpp")])
p("C18", "Generated code is independent of the order of definitions",
  "Any order of the assignments and modules in the input files gives generated code with the same types and the same encodings.",
  ["programs"], "every permutation of every schema", "Tests permute a few assignments.",
  ["src/compiler/ReorderAssignments.cpp"], [("topological ordering", "src/compiler/ReorderAssignments.cpp")])
p("C19", "Headers and generated code compile in every supported language mode",
  "The library headers and all generated code compile without warnings with C++11, 14, 17 and 20 on the supported compilers.",
  ["programs", "configurations"], "every schema, language standard and compiler", "The test build uses one standard and compiler.",
  [H, "src/compiler/"], [("feature use restricted to C++11 and abseil", "CMakeLists.txt")])
p("C20", "Encoding and decoding speed",
  "Encoding and decoding take time linear in the message length, and small messages need no heap allocation.",
  ["inputs"], "every message", "Benchmarks are run by hand.",
  ["benchmarks/", H+"util/SmallFixedIdBerContainer.hpp"], [("inline storage", H+"util/FixedIdBerContainer.hpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
