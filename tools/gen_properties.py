#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
AS, IM, LI, UT, DR, ER, IN = ("src/arraystring.rs", "src/implementations.rs", "src/lib.rs", "src/utils.rs", "src/drain.rs", "src/error.rs", "src/integration.rs")
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})
ST = (("array", "backing bytes of the string; only the first `size` are content", AS), ("size", "current length in bytes, one u8", AS))
TESTS = "The suite runs eight fixed strings, almost all at capacity 255 where nothing truncates, plus one ASCII example per doc-test"

p("S01", "Content is always valid UTF-8 and never longer than the capacity",
  "After any sequence of safe operations, successful or failed, on any string type of the crate, the visible content is valid UTF-8 and its length is at most the capacity. This holds even when user-supplied conversions or iterators return something different on every call.",
  ["inputs", "histories"], "every capacity 1..=255, every reachable string value, every argument value, every implementation of the caller-supplied traits",
  TESTS + "; the invariant ranges over every content, offset and caller-supplied trait implementation.",
  [AS, IM, DR, LI, UT], [("checked entry to every size/array write", AS + " replace_range, truncate, pop, trim, clear"), ("truncate_str", UT)],
  ["content of the string after each call", "arguments given to caller-supplied code"], ST)
p("S02", "Safe operations never touch memory outside the string and its arguments",
  "No safe operation reads or writes outside the string's own bytes and the data the caller passed, and no unchecked operation used inside is ever invoked with its precondition unmet. This holds for every argument, including caller-supplied conversions that are inconsistent between calls.",
  ["inputs", "histories"], "every capacity, content, offset, range bound and caller-supplied trait implementation",
  "An out-of-bounds write of a few bytes or a non-boundary unchecked slice is silent in a normal test run; tests reach a handful of offsets.",
  [AS, IM, UT, IN], [("bounds and boundary checks before unsafe blocks", AS + " replace_range, drain"), ("unchecked views bounded by size", IM), ("get_unchecked in truncate_str", UT)],
  ["preconditions of unsafe operations"], ST)
p("S03", "No operation panics, except range indexing with an invalid range",
  "For every argument value (including the extreme ones, such as the largest integer as an index or bound), no operation of the library panics or overflows by itself, whether or not debug assertions are compiled in. The only exceptions are the range indexing operators when given a range that is out of bounds or not on character boundaries.",
  ["inputs", "histories", "configurations"], "every operation, argument and string value; debug and release builds",
  "Arithmetic overflow and slicing panics need extreme indices or multi-byte characters at exact offsets, which the fixed examples do not have; release-only wrap-around is not visible to a debug test run.",
  [AS, IM, UT, DR], [("saturating bound conversion, checked before arithmetic", AS), ("Index/IndexMut", IM)],
  ["panic exits of each operation"], ST)
p("S04", "A panic in caller-supplied code leaves the string valid",
  "If caller-supplied code (a predicate, an iterator, a conversion, a range) panics in the middle of an operation and the panic is caught, the string being operated on is still valid: valid UTF-8 of at most the capacity. Filtering with a predicate that panics leaves the string exactly as it was before the call.",
  ["crash_points", "inputs"], "every call into caller-supplied code, at every point of every operation",
  "No test panics inside a callback; the guarantee quantifies over the point at which the callback panics.",
  [AS, IM], [("retain builds a new string before replacing the old one", AS), ("extend collects before appending", IM)],
  ["string state at the unwinding exit"], ST)
p("S05", "Every operation comes to an end",
  "Every operation returns (or reports failure, or panics where that is allowed) after finitely many steps, for every content, capacity and argument, provided caller-supplied code returns and caller-supplied iterators come to an end. Collecting or extending from a sequence of characters that never ends also returns, as soon as the string is full.",
  ["inputs", "histories"], "every operation, every content, capacity and argument; every iterator of the caller",
  "A loop that stops advancing for one particular content (a certain character at a certain place) hangs only on that content; tests run a few strings.",
  [AS, UT, IM, DR], [("loops over positions and characters", AS + " remove, trim; " + UT + " truncate_str"), ("loops over the caller's items", AS + " try_from_chars, from_chars_truncate, try_from_utf16"), ("iterator of removed text", DR)],
  ["return of each operation"], ST)
p("A01", "A failed operation leaves the string unchanged",
  "When an operation that modifies a string reports failure (an error, or no value), the string has exactly the same content and length as before the call.",
  ["inputs", "histories"], "every fallible mutating operation, every failing input",
  "Tests check that an error is returned in a few cases, and hardly ever look at the string afterwards; a partial update before the failing check would go unnoticed.",
  [AS, IM, LI, DR], [("all validation precedes the first write", AS + " replace_range, remove, drain, truncate"), ("write_str", IM)],
  ["string content at error exits"], ST)
p("A02", "Fallible construction and appending are all-or-nothing and exact",
  "Fallible construction (from a string, characters, or a sequence of strings) and fallible appending succeed exactly when the whole input fits in the remaining capacity. On success the result is the previous content followed by the whole input; otherwise they report an out-of-bounds error.",
  ["inputs", "histories"], "every capacity, current content and input",
  TESTS + "; only one overflow length (capacity + 1 ASCII bytes) is tried.",
  [AS, IM, LI], [("try_push_str through replace_range", AS), ("try_from_* loops", AS), ("FromStr, fmt::Write", IM)],
  ["returned value and string content"], ST)
p("A03", "Truncating operations keep the longest whole-character prefix that fits",
  "Construction from, conversion from, addition of, appending of and insertion of a string in the truncating variants keep the longest prefix of the input that fits in the remaining capacity and ends on a character boundary. Existing content is never lost or altered, and input that fits is kept whole.",
  ["inputs", "histories"], "every capacity, current content and input string, including multi-byte characters that straddle the capacity",
  "Tests truncate only ASCII input; the boundary cases are multi-byte characters ending 1, 2 or 3 bytes past the capacity.",
  [AS, UT, IM, LI], [("truncate_str", UT), ("push_str_truncate, insert_str_truncate, from_str_truncate", AS), ("From<&str>, Add", IM)],
  ["string content after the call"], ST)
p("A04", "Positional edits produce exactly the content they describe",
  "Inserting, replacing a range, removing a character, truncating, splitting off and draining a range change the string to exactly the described splice of the old content and the inserted text, and return exactly the removed text or character. Text outside the edited range is preserved byte for byte.",
  ["inputs", "histories"], "every capacity, content, valid position or range (all range forms), and inserted text that is shorter than, equal to or longer than the range",
  "Tests use index 2 or the range ..2 on eight strings; moves of the tail in each direction and full capacity are hardly reached.",
  [AS, LI], [("replace_range tail move and copy", AS), ("remove, split_off, drain, truncate", AS)],
  ["string content and returned value"], ST)
p("A05", "Positions and ranges are validated precisely, with the documented error",
  "An operation taking a position or range succeeds only if it lies within the string, is not inverted, falls on character boundaries and the result fits the capacity. Otherwise it reports out-of-bounds when the position, range or resulting length is out of range, and an invalid-UTF-8 error when the position is within the string but inside a character; this does not depend on the text to be inserted being empty or cut to nothing.",
  ["inputs"], "every position and range (all range forms, included and excluded bounds, extreme values), content and capacity",
  "Each error is exercised by one example per operation; off-by-one acceptance of a neighbouring position is not.",
  [AS, UT], [("is_inside_boundary, is_char_boundary", UT), ("bound resolution in replace_range and drain", AS)],
  ["returned error"], ST)
p("A06", "Pop, trim, retain and clear behave as they do on a standard string",
  "Popping removes and returns the last character and reports nothing only on an empty string; trimming removes exactly the leading and trailing Unicode whitespace; filtering consults the predicate once per character in order and keeps exactly the accepted characters in order; clearing leaves the empty string.",
  ["inputs", "histories"], "every content, including multi-byte whitespace and characters, and every predicate including stateful ones",
  "Tests use ASCII spaces and one stateless predicate on eight strings.",
  [AS], [("pop, trim, retain, clear", AS)], ["string content and returned value"], ST)
p("A07", "UTF-16 conversion decodes faithfully or reports the error",
  "Constructing from UTF-16 yields the decoded text. In the fallible variant it reports invalid UTF-16 at an unpaired surrogate and out-of-bounds when the text does not fit, whichever comes first; the truncating variant keeps the longest whole-character prefix that fits and still reports invalid data met before that point; the lossy variant puts one replacement character for each unpaired surrogate and truncates.",
  ["inputs"], "every sequence of 16-bit units and every capacity",
  "One valid and one invalid sequence plus 300 zero units are tried.",
  [AS, LI], [("try_from_utf16, from_utf16_truncate, from_utf16_lossy_truncate", AS)], ["returned value"], ST)
p("A08", "Collecting and extending keep the longest prefix of the concatenated items",
  "Collecting from or extending with an iterator of characters or strings, in the non-failing variants, leaves the previous content followed by the longest whole-character prefix of the concatenation of all items that fits. Nothing that comes after a piece that did not fit is ever added, even if it would fit.",
  ["inputs", "histories"], "every item sequence (finite or infinite), capacity and current content",
  "Tests feed a one-element vector or identical items; skipping an item that does not fit and adding a later shorter one is invisible to them.",
  [AS, IM, LI], [("from_chars_truncate, from_iterator_truncate", AS), ("FromIterator, Extend", IM)], ["string content after the call"], ST)
p("V01", "Every view shows exactly the current content",
  "All read access (string slice, bytes, dereference, borrow, conversions, length, capacity, copying and default construction) shows exactly the current content, never bytes beyond the current length left from earlier content; mutable views cover exactly the content and nothing else.",
  ["inputs", "histories"], "every reachable string value, in particular after it was shortened",
  "Tests compare views of strings that were never shortened below stale bytes, and compare a single kind of view.",
  [IM, AS, DR, LI], [("AsRef/AsMut/Deref/Borrow", IM), ("len, as_str, as_mut_str", AS)], ["returned reference"], ST)
p("V02", "Equality, order and hash are those of the text",
  "Equality, ordering and hashing of strings, of cache-line strings and of drains depend only on the visible text and agree with the standard string slice: equal text is equal and hashes as the slice does, and order is the slice order, also when compared with a plain string slice.",
  ["inputs", "histories"], "every pair of values, including values with equal text and different histories",
  "No test hashes a string or orders two; equality is only compared on freshly built values.",
  [IM, DR, LI], [("PartialEq, Ord, PartialOrd, Hash, Borrow<str>", IM)], ["result of the comparison; data fed to the hasher"], ST)
p("V03", "Displaying a string prints its text as a string slice would",
  "Displaying a string gives what displaying its text as a standard string slice gives, with the formatter's width, fill, alignment and precision respected. Debug output shows the visible text and its length, never stale bytes.",
  ["inputs", "configurations"], "every content and every format specification",
  "The only formatting in tests is a plain println in a doc-test.",
  [IM, LI, DR], [("Display, Debug", IM)], ["calls made on the formatter"], ST)
p("V04", "Range indexing selects the same text as on a string slice",
  "Indexing with any range form, shared or mutable, gives exactly the part of the text that the same range gives on a standard string slice, and panics exactly when that would.",
  ["inputs"], "every range form, every start and end value up to 255, every content",
  "No test indexes a string.",
  [IM, LI], [("Index and IndexMut for six range types", IM)], ["returned slice; panic exits"], ST)
p("D01", "A drain yields the removed characters from either end, each once",
  "Draining removes the range from the string at once, even if the result is dropped unused. The result yields, from the front in order and from the back in reverse order, exactly the removed characters, each once, its text view shows what remains, and after the end it keeps yielding nothing.",
  ["inputs", "histories"], "every drained text and every interleaving of front and back steps",
  "One test collects a drain of at most two bytes from the front; the back end, mixing ends and exhaustion are never exercised.",
  [DR, AS], [("Iterator, DoubleEndedIterator", DR), ("drain", AS)], ["item returned and remaining text"], ST)
p("C01", "The cache-line string behaves exactly as the 63-byte string",
  "Every operation, trait and conversion of the cache-line string gives the same result and the same effect on the content as the same operation on the generic string with capacity 63.",
  ["inputs", "histories"], "every operation offered by both types, every input",
  "Most forwarding implementations are not called by any test (extend, index, order, add, write, borrow).",
  [LI, IN], [("forwarding implementations", LI + " cache_string")], ["results and content of both types"], ())
p("L01", "Capacities are exactly 1 to 255 and each string occupies capacity + 1 bytes",
  "Exactly the capacities 1 to 255 are usable, the reported capacity is that number, and the string occupies exactly capacity + 1 bytes with alignment 1. The cache-line string has capacity 63, size 64 and alignment 64; the small string is as large as three machine words plus one byte; the maximal string has capacity 255.",
  ["programs"], "every capacity (also 0 and those above 255, which must not compile)",
  "Tests measure one type (the cache-line string) and use about six capacities.",
  [AS, LI], [("sealed ValidCapacity", AS), ("struct layout", AS), ("repr(align(64))", LI)], ["type layout", "set of usable capacities"], ST)
p("L02", "No operation allocates memory or needs an allocator",
  "No operation of the library allocates heap memory, and without the default feature the library needs neither the standard library nor an allocator. Optional integrations may only allocate inside the integrated crate.",
  ["inputs", "configurations"], "every operation, every input, every feature set",
  "No test counts allocations; an allocation on a rare path would be invisible.",
  [AS, IM, DR, UT, ER, LI], [("core-only call graph", "src")], ["functions reachable from the API"], ())
p("L03", "Strings are plain values that cannot be corrupted from safe code",
  "Strings and drains are plain copyable values: copies are independent, they can be sent to and shared between threads, and have no destructor or hidden shared state. Safe code outside the library cannot reach the length or the raw bytes for writing, nor build a string other than through the checked operations.",
  ["programs", "schedules"], "every safe program using the public interface",
  "Whether some program can break the invariant through the public interface is a statement about all programs.",
  [AS, DR, LI], [("private fields, sealed trait, derive(Copy)", AS)], ["public signatures, field visibility, auto traits"], ST)
p("I01", "Serialization writes exactly the text and deserialization accepts any string",
  "Serializing writes exactly the visible text as a string. Deserializing accepts every form in which a format can deliver a string (borrowed, transient or owned), keeps the longest whole-character prefix that fits, and passes format errors on; so any string survives a round trip.",
  ["inputs", "configurations"], "every content (including text that the format has to escape) and every deserializer behaviour",
  "The tests round-trip one 7-letter ASCII word through one format, which delivers it borrowed.",
  [IN], [("Serialize, Deserialize", IN)], ["calls made on the serializer/deserializer; resulting content"], ())
p("I02", "Database conversion writes exactly the text and reads with truncation",
  "Writing to a database passes exactly the visible text; reading keeps the longest whole-character prefix of the stored text that fits, and passes conversion errors on.",
  ["inputs", "configurations"], "every content, every stored text and every backend",
  "Tests store one 5-letter name in SQLite.",
  [IN], [("ToSql, FromSql", IN)], ["calls made on the backend; resulting content"], ())
p("E01", "Errors keep their kind through every conversion and comparison",
  "Converting a specific error to the general error keeps its kind, errors are equal exactly when their kinds are equal and equal errors hash alike, and each prints as its own kind.",
  ["inputs"], "every error kind, every pair, every conversion",
  "No test compares, hashes, converts or prints errors beyond a few equality assertions.",
  [ER], [("From, PartialEq, Hash, Display, Debug", ER)], ["result of conversion or comparison"], ())
p("F01", "Optional features and build profile never change behaviour",
  "Every operation has the same results and effects in every feature configuration (with or without logging, the standard library and the integrations) and with or without debug assertions: logging and assertions only observe.",
  ["configurations", "inputs"], "every feature configuration and profile, every operation",
  "The suite runs only with all features and debug assertions on; code for the other configurations is only compiled.",
  [LI, AS, UT, IN], [("mock logging macros", LI), ("debug_assert", IM)], ["contracts of each operation per configuration"], ())
p("N01", "The C interface exposes the same operations with the same meaning",
  "Each exported C function behaves as the operation of the same name on the cache-line string.",
  ["inputs", "programs"], "every exported function, every argument", "The FFI crate is never built or tested.",
  ["ffi/src/lib.rs"], [("extern C wrappers", "ffi/src/lib.rs")], ["exported functions"], ())
p("N02", "Stack strings are faster to create, clone and append to than heap strings",
  "For small capacities, creating, cloning and appending take less time than with the standard heap-allocated string.",
  ["inputs"], "every small capacity and input", "Benchmarks are only compiled by the test scripts.",
  ["README.md", "benches/string.rs"], [("inline storage", AS)], ["time per operation"], ())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
