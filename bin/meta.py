#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, observe=observe, note=note, na=na)

SIM = "Seeded exploration by deterministic simulation: one process, every choice from VERIF_SEED, every failure replayed in a fresh process before it is reported. "

PROPS = [
P("C01", "A print to a FILE that returns normally has handed over every byte",
  "When print, println (with or without arguments or a text style), or the raw os output functions return normally on a C stream whose error indicator was clear, every byte of the formatted text, after whatever the caller had buffered before, has been accepted by the operating system in order and exactly once; otherwise the call throws std::system_error. "
  "A failed call leaves only a prefix of that text behind and no error is reported when nothing failed. Once the fault is gone and the error cleared, the next print succeeds completely.",
  ["fault_sequences", "inputs", "crash_points"],
  "every text, stream mode, buffering mode and buffer size, every failing, torn or short device write at any byte offset, and a crash right after the call",
  "The tests print to stdout or to healthy temporary files; none makes a write or flush fail or looks at what had reached the device when the call returned.",
  ["src/print.cpp", "src/os/posix.cpp", "src/os/general.cpp", "include/papilio/print.hpp", "include/papilio/os/os.hpp"],
  [("fwrite/fflush/ferror reporting", "src/os/posix.cpp"), ("print functions format first, then output", "src/print.cpp")],
  ["print", "println", "os::output_nonconv", "os::output_conv"]),
P("C02", "Prints to a FILE are all or nothing and do not interleave",
  "A print or println to a C stream whose formatting fails (bad format string, throwing argument, failed allocation) writes not one byte. "
  "When several threads print to the same C stream at the same time, the text of each call arrives complete and contiguous (the newline of println included), so the stream holds some order of whole messages.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of threads printing to one FILE, every buffering mode, every formatting failure or failed allocation inside a call",
  "The tests print from one thread and never make formatting fail half way; an interleaving or a half-written message needs a schedule or a fault the tests do not control.",
  ["src/print.cpp", "src/os/posix.cpp", "src/os/general.cpp", "include/papilio/print.hpp"],
  [("the message is formatted into one buffer before it is written", "src/print.cpp"), ("one write per message", "src/os/posix.cpp")],
  ["print", "println"]),
P("C03", "Printing to a std::ostream delivers the text or shows the failure",
  "print and println to a std::basic_ostream, and the insertion of string containers, references, code points and joiners, deliver exactly the text (and the newline of println) to the stream buffer in order. "
  "When the stream buffer fails or throws part way, what was delivered is a prefix of that text, nothing is written after the failure, and the failure shows in the stream's state (or as an exception); a stream already in a failed state receives nothing and stays failed.",
  ["fault_sequences", "inputs"],
  "every text, every stream buffer that accepts k characters and then refuses, throws or recovers, every buffer size, exception mask and stream locale",
  "The tests print to string streams, which cannot fail.",
  ["include/papilio/print.hpp", "include/papilio/format.hpp", "include/papilio/core.hpp"],
  [("print to ostream", "include/papilio/print.hpp")],
  ["print(std::ostream&)", "println(std::ostream&)"]),
P("C04", "A failed allocation during formatting surfaces as bad_alloc and nothing else",
  "If an allocation fails at any point inside format, vformat, format_to, format_to_n, formatted_size or the building of format arguments, the call throws std::bad_alloc (it never terminates, hangs or reports success with a different result), releases everything it had allocated, and leaves the arguments and the argument store as they were. "
  "The same call made again with memory available gives the same result as if the failure had never happened.",
  ["fault_sequences", "inputs"],
  "every allocation point of every call, single and persistent failures, every kind of argument (strings, wide and UTF text, user types, accessors, named arguments, dynamic stores)",
  "The tests never let an allocation fail.",
  ["include/papilio/core.hpp", "include/papilio/core.inl", "include/papilio/format.hpp", "src/core.cpp", "src/format.cpp"],
  [("RAII of argument handles and buffers", "include/papilio/core.hpp"), ("interpreter", "include/papilio/core.hpp")],
  ["format", "format_to", "format_to_n", "formatted_size", "make_format_args", "dynamic_format_args"]),
P("C05", "An exception thrown by user code inside formatting reaches the caller unchanged",
  "An exception thrown by a user formatter (parse or format), user accessor, stream insertion operator, output iterator or lazily produced range propagates out of the formatting call unchanged, whatever branch, replacement field or nesting it occurs in; the library neither swallows it nor terminates. "
  "What was emitted before it is exactly the text of the format string up to that point (also when the error is one the library itself reports), every object the library created is destroyed exactly once, and the same arguments can be formatted again with the normal result.",
  ["fault_sequences", "inputs"],
  "every point inside a formatting call at which user code can throw, in taken and skipped script branches, nested fields and accessor chains",
  "The tests contain a handful of throwing formatters on the taken path; they do not enumerate the throw points.",
  ["include/papilio/core.hpp", "include/papilio/core.inl", "include/papilio/format.hpp", "include/papilio/formatter/vocabulary.hpp"],
  [("interpreter executes and skips branches", "include/papilio/core.hpp"), ("type-erased argument handle", "include/papilio/core.hpp"), ("fallback to operator<<", "include/papilio/core.inl")],
  ["format", "format_to", "vformat_to", "formatter<T>::parse", "formatter<T>::format"]),
P("C06", "Every output path produces the same text, and bounded ones stop in time",
  "In each of the five character types, for the same format string and arguments format, vformat, format_to and vformat_to (whatever the kind of output iterator, with or without a locale), an appending context, formatted_size, and print produce the same characters or fail the same way. "
  "format_to_n(out, n, ...) writes exactly the first min(n, length) characters to out, never one more even if the iterator could not take it, and returns the iterator just past them with that count; formatted_size returns the full length.",
  ["inputs", "fault_sequences"],
  "every format string and argument list, every bound n, and sinks that fail when written beyond their capacity",
  "The tests compare a few literal strings with one sink; the bound at arbitrary places inside fields, multi-byte characters, scripts and user formatters is not exercised.",
  ["include/papilio/format.hpp", "include/papilio/core.hpp", "src/format.cpp", "include/papilio/utility.hpp"],
  [("format_to_n_result and truncating iterator", "include/papilio/format.hpp"), ("formatted_size counting iterator", "include/papilio/format.hpp")],
  ["format", "vformat", "format_to", "vformat_to", "format_to_n", "formatted_size", "PAPILIO_NS print"]),
P("C07", "small_vector behaves like std::vector whatever fails",
  "Under any sequence of operations a small_vector holds the values a std::vector would hold, in the inline buffer while they fit and in memory of its allocator otherwise, with consistent size, capacity, iterators and accessors. "
  "When an allocation, an element operation or a source iterator throws, the exception reaches the caller, no element is leaked, destroyed twice or left holding foreign values, and operations for which std::vector guarantees no effect on failure have none.",
  ["histories", "fault_sequences"],
  "every sequence of construction, assignment, insertion, growth, shrinking, move and swap over two vectors, with a failure at any allocation or element operation",
  "The tests run short fixed sequences with healthy allocators and elements that never throw.",
  ["include/papilio/container.hpp"],
  [("small_vector storage switch and growth", "include/papilio/container.hpp")],
  ["small_vector"]),
P("C08", "fixed_vector and fixed_flat_map respect their bound and survive failures",
  "fixed_vector and fixed_flat_map behave like a vector and a sorted unique-key map until they are full; an operation that would exceed the capacity throws std::length_error and changes nothing, and the capacity is never exceeded. "
  "When an element operation or a comparison throws, the exception reaches the caller, nothing is leaked or destroyed twice, and the map stays sorted, unique and consistent with its lookups.",
  ["histories", "fault_sequences"],
  "every sequence of operations at every fill level and capacity, transparent and plain comparators, a throw at any element or comparator call",
  "The tests run short fixed sequences that never throw and rarely reach the capacity.",
  ["include/papilio/container.hpp", "src/container.cpp"],
  [("capacity checks", "include/papilio/container.hpp"), ("sorted insertion", "include/papilio/container.hpp")],
  ["fixed_vector", "fixed_flat_map"]),
P("C09", "optional_unique_ptr frees exactly once what it owns, never what it does not",
  "Over any history of construction, reset, release, move, swap, assignment and destruction an object owned through optional_unique_ptr is destroyed exactly once, by the deleter that came with it, when its last owner lets go of it; an object it only refers to is never destroyed by it; has_ownership, get and comparisons always tell the truth. "
  "If make_optional_unique fails to allocate or construct, it throws and nothing is leaked.",
  ["histories", "fault_sequences"],
  "every history over several pointers (single objects and arrays, stateless and stateful deleters), including self-assignment, self-swap and self-move, and failing construction",
  "The tests check a few short histories with the default deleter.",
  ["include/papilio/memory.hpp"],
  [("ownership flag next to the pointer", "include/papilio/memory.hpp")],
  ["optional_unique_ptr", "make_optional_unique"]),
P("C10", "string_container is a value: sharing and failures never show through",
  "A string_container always has the value of the last operation on it, reads (iteration, indexing and slicing from either end, searching, comparison, substr, conversion to another encoding) agree with that sequence of code points, and a string it merely refers to is never modified by writing to the container; copying refers, writing detaches. "
  "When an allocation or a source iterator fails inside an operation the exception reaches the caller, nothing is leaked and the container keeps a valid value (the old one, or for appends of ranges the old one plus a prefix of what was to be appended).",
  ["histories", "fault_sequences"],
  "every history of operations on two containers of any character type, values with 1- to 4-byte characters and U+0000, a failing allocation or iterator at any point",
  "The tests check individual member functions on short ASCII and CJK literals with healthy memory.",
  ["include/papilio/utf/string.hpp", "include/papilio/utf/codepoint.hpp", "include/papilio/utf/stralgo.hpp", "src/utf/string.cpp", "src/utf/codepoint.cpp"],
  [("obtain_ownership before writing", "include/papilio/utf/string.hpp")],
  ["basic_string_container"]),
P("C11", "Formatting is safe to run concurrently on shared constant arguments",
  "Any number of threads may format and print at the same time, with the same format arguments, argument stores and constant objects shared between them, and every call gives the result it would give alone; the library has no hidden shared mutable state, so no schedule of the threads contains a data race.",
  ["schedules", "inputs"],
  "every interleaving of threads formatting with shared arguments, stores, locales and strings, at memory-access granularity",
  "The tests are single-threaded.",
  ["include/papilio/core.hpp", "include/papilio/format.hpp", "src/core.cpp", "src/format.cpp", "src/utf/codepoint.cpp"],
  [("contexts live on the stack of the call", "include/papilio/core.hpp")],
  ["format", "vformat", "format_to", "formatted_size", "print"]),
P("C12", "Formatting depends on its arguments only, not on ambient state",
  "The result of formatting does not depend on the global C or C++ locale, the thread's locale, errno, the state of any stream, or on any call made before, and formatting changes none of them. "
  "Without an explicit locale, or without the L option, it is the result of the classic locale; with the L option and an explicitly passed locale (or the locale of the stream printed to) it depends on that locale only.",
  ["histories", "configurations", "inputs"],
  "every history of locale, errno and stream state changes between calls and at any point user code runs inside them, failed calls included, every kind of argument",
  "The tests run in one environment (the C locale) and never compare across environments.",
  ["include/papilio/locale.hpp", "src/locale.cpp", "include/papilio/core.hpp", "include/papilio/core.inl", "include/papilio/format.hpp"],
  [("locale_ref", "include/papilio/locale.hpp"), ("to_chars based conversion", "include/papilio/core.hpp")],
  ["format", "format_to", "formatted_size"]),
P("C13", "Reading a string_container obeys the rules of formatted extraction",
  "operator>> for a string container behaves like the extraction of a std::basic_string from the same stream: same characters consumed, same stream state afterwards, same value when it succeeds. "
  "If the stream buffer fails or throws, or an allocation fails, the failure is reported through the stream state or as an exception, the container holds a valid value that no failed extraction turned into foreign data, and nothing is leaked.",
  ["fault_sequences", "inputs"],
  "every input split into buffers of any size, failures and exceptions of the stream buffer at any position, every width, skipws, exception mask and locale setting",
  "The tests read one word from a healthy string stream.",
  ["src/utf/string.cpp", "include/papilio/utf/string.hpp"],
  [("operator>>", "src/utf/string.cpp")],
  ["operator>>"]),
P("C14", "Stream adaptors over iterators carry every character once and stop on failure",
  "A stream written through the library's output-iterator stream (oiterstream, basic_iterbuf) passes every character to the underlying iterator exactly once, in order, with whatever mix of stream operations it is written; end-of-file markers are never written as characters. "
  "A stream reading from an input iterator through basic_iterbuf delivers each of its characters exactly once, in order, with whatever mix of unformatted and formatted reads, peeks and put-backs. "
  "If the iterator throws, the failure shows in the stream's state or as the exception, and nothing after the failing character is written by that operation.",
  ["fault_sequences", "histories", "inputs"],
  "every mix of put, write, insertion, flush and seek operations, every iterator kind, a throw at any character",
  "The tests write one short string through a healthy iterator.",
  ["include/papilio/utility.hpp", "include/papilio/core.inl"],
  [("basic_iterbuf::overflow/xsputn", "include/papilio/utility.hpp")],
  ["basic_oiterstream", "basic_iterbuf"]),
P("C15", "A formatted_range reads exactly the text format would produce",
  "Reading a formatted_range from its beginning to its end yields exactly the characters format would produce for the same format string and arguments, each once and in order, whatever steps over, repeated reads, comparisons with the end and moves or assignments of its iterator happen in between, and whichever other ranges over the same arguments are read at the same time; the end is reported when, and only when, no character is left. "
  "An error in the format string, a failed allocation or an exception of user code reaches the reader no earlier than the text in front of it has been delivered, and an abandoned or failed reader leaves nothing allocated and the arguments unchanged.",
  ["histories", "fault_sequences", "inputs"],
  "every format string, every interleaving of reads, skips, comparisons, moves and abandonment over several readers, a failed allocation or an exception of user code at any step",
  "The tests read three short texts from front to back with a healthy allocator.",
  ["include/papilio/format.hpp", "include/papilio/core.hpp"],
  [("formatted_range::const_iterator", "include/papilio/format.hpp"), ("interpreter runs step by step", "include/papilio/core.hpp")],
  ["formatted_range"]),
P("C16", "A dynamic argument store keeps its arguments alive, findable and intact",
  "Under any history of push, emplace, clear and lookup, a dynamic argument store gives for every index and every name the argument put there (the positional count and the names being exactly those stored), a copy of an argument refers to the same object while a move transfers it and leaves the source empty, and every stored argument is destroyed exactly once. "
  "When adding an argument fails (an allocation or the argument's own copy throws) the exception reaches the caller, the arguments added before are still there unchanged and nothing is leaked.",
  ["histories", "fault_sequences"],
  "every history of additions, clearing, lookup and formatting on a dynamic store, with a failure at any allocation or copy",
  "The tests add two arguments to a healthy store and read them back.",
  ["include/papilio/core.hpp"],
  [("dynamic_format_args storage", "include/papilio/core.hpp")],
  ["dynamic_format_args", "static_format_args", "format_args_ref"]),
P("C17", "Any format string ends in a text or in one reported error",
  "Formatting with any well-formed text as the format string - valid, cut off, damaged or meaningless - ends after a bounded number of steps, reads nothing outside the format string and the arguments, leaves the arguments as they were and nothing allocated, and ends either in a text or in one of the library's errors (format_error and its script errors, invalid_attribute, invalid_conversion, out_of_range, 'index unavailable'). "
  "Every way of formatting the same string (vformat, vformat_to, an output iterator, with a bound, counting, incremental) comes to the same outcome: the same text, or the same error with the same text in front of it, whichever allocations failed in the attempts before.",
  ["inputs", "fault_sequences"],
  "every format string, whatever its damage, and a failure at any allocation while it is processed",
  "The tests feed some twenty hand-written malformed strings to the interpreter, each once and with every allocation succeeding, and compare the error code only.",
  ["include/papilio/core.hpp", "include/papilio/format.hpp", "include/papilio/access.hpp", "src/core.cpp"],
  [("script parsing and execution", "include/papilio/core.hpp"), ("format specification parsers", "include/papilio/core.hpp"), ("errors", "src/core.cpp")],
  ["interpreter", "std_formatter_parser", "script_base"]),
P("P01", "Replacement fields format values as specified",
  "For every argument of a supported type and every valid format specification (fill, alignment, sign, alternate form, width, precision, type) the text is the one the documentation and the std::format rules prescribe; invalid specifications are rejected with a format error.",
  ["inputs"], "every value and every format specification",
  "The tests sample values and specifications.",
  ["include/papilio/core.hpp", "include/papilio/formatter/vocabulary.hpp", "include/papilio/formatter/chrono.hpp"],
  [("formatters", "include/papilio/core.hpp")], ["format"],
  na="A pure function of the format string and the arguments: no schedule, clock, fault or I/O can change it, so there is nothing for a simulator to control."),
P("P02", "Scripted fields evaluate conditions and branches as documented",
  "The script in a scripted field selects the branch its condition prescribes, with truthiness, comparison and literal rules as documented, and malformed scripts are rejected with a script error that names the problem.",
  ["inputs", "programs"], "every script and every argument list",
  "The tests sample scripts.",
  ["include/papilio/core.hpp", "src/core.cpp"], [("interpreter", "include/papilio/core.hpp")], ["format"],
  na="A pure function of script and arguments; the fault-dependent part (errors and exceptions inside branches) is C04 and C05."),
P("P03", "Unicode conversions are lossless and reject or replace malformed text safely",
  "Decoding, encoding, counting, indexing and converting between UTF-8, UTF-16, UTF-32 and wide text agree with the Unicode standard for well-formed text and never read outside the given range for malformed text.",
  ["inputs"], "every sequence of code units",
  "The tests sample short literals.",
  ["include/papilio/utf/codepoint.hpp", "include/papilio/utf/codepoint.inl", "include/papilio/utf/stralgo.hpp"], [("decoder", "include/papilio/utf/codepoint.hpp")], ["codepoint", "stralgo"],
  na="A pure function of its input; value semantics of strings under faults are C10."),
P("P04", "Accessors reach the member, element or attribute they name",
  "Index, slice and attribute access on ranges, maps, tuples, strings and vocabulary types yields the element the documentation prescribes, negative and out-of-range indices included.",
  ["inputs"], "every value and every access chain",
  "The tests sample chains.",
  ["include/papilio/access.hpp", "include/papilio/accessor/ranges.hpp", "include/papilio/accessor/tuple.hpp", "include/papilio/accessor/vocabulary.hpp", "include/papilio/accessor/chrono.hpp"], [("accessor traits", "include/papilio/access.hpp")], ["format"],
  na="A pure function of value and access chain."),
P("P05", "Styles produce the escape sequences of their attributes",
  "A text style prints exactly the ANSI escape sequences of its styles and colours, and resets them afterwards.",
  ["inputs"], "every combination of styles and colours",
  "The tests sample styles.",
  ["include/papilio/color.hpp", "src/color.cpp"], [("escape sequences", "src/color.cpp")], ["text_style"],
  na="A pure function of the style; that a styled print is delivered whole under I/O faults is part of C01."),
]

NOTES = {
 "C01": "Trusts glibc stdio (real code) and that fopencookie models a device; wide-oriented streams are out of reach of fopencookie.",
 "C02": "Threads are simulated one at a time at intercepted points; trusts glibc's FILE lock semantics.",
 "C07": "Trusts the std::vector reference; small_vector with unequal non-propagating allocators is not generated.",
}

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"].strip(),
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif not os.path.exists(os.path.join(V, "sim", p["id"] + ".cpp")):
            na.append(dict(property=p["id"], reason="No check built yet."))
        else:
            checks.append(dict(property=p["id"], quick_cmd="python3 bin/check.py " + p["id"],
                               thorough_cmd="python3 bin/check.py " + p["id"] + " --thorough",
                               technique="deterministic simulation with fault injection (seeded search)",
                               level="exploration",
                               level_note=SIM + NOTES.get(p["id"], "A clean batch is evidence over the sampled runs, not proof.")))
    m = dict(version=1, setup_cmd="python3 bin/check.py --build-only", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
