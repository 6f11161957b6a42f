import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
     anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
p("C01","Encode/decode round trip preserves every bundle",
 "Encoding any in-memory bundle (any messages, any argument types, any nesting of sub-bundles) and decoding the bytes yields an equal bundle: same messages in the same order, same addresses, argument types and argument values. Re-encoding the decoded bundle gives the identical bytes, and the same holds for a single message encoded and decoded on its own.",
 ["inputs","programs"],"all bundles within bounds on messages, arguments, nesting and a boundary value set per argument type",
 "Tests encode a few fixed messages; the guarantee is over all type/length/nesting combinations, where padding and per-type size rules interact.",
 ["osc_bundle_u.c","osc_bundle_s.c","osc_message_u.c","osc_message_s.c","osc_atom_u.c","osc_atom_s.c"],
 [("encoding","osc_bundle_u.c, osc_message_u.c, osc_atom_u.c (nserialize/serialize)"),("decoding","osc_bundle_s.c, osc_message_s.c, osc_atom_s.c (deserialize)")],
 ["bytes returned by encoding","contents of the decoded bundle"])
p("C02","Encoded bytes are exact OSC wire format and the announced size is exact",
 "The bytes produced for any bundle or message are exactly the OSC encoding of its contents: big-endian values, strings and type strings zero-padded to multiples of four, correct size prefixes, nothing left uninitialised. Asking for the size without a buffer gives exactly the number of bytes later written, and encoding into a caller's buffer never writes outside it, whatever its size.",
 ["inputs","programs"],"all bundles within bounds, and all buffer sizes from zero to beyond the encoded size",
 "No test compares bytes with an independent encoder or sweeps buffer sizes.",
 ["osc_bundle_u.c","osc_message_u.c","osc_atom_u.c","osc_byteorder.h","osc_util.c","osc_typetag.c"],
 [("size computation and padding","osc_util.c osc_util_getPaddingForNBytes, osc_typetag.c, nserialize(NULL,0,..)"),("byte order","osc_byteorder.h")],
 ["returned sizes","buffer bytes and guard bytes around the buffer"])
p("C03","Readers of encoded data report exactly what was encoded",
 "For every encoded bundle, walking it directly (message count, iteration, addresses, argument counts, type strings, the nth argument and its value, sub-bundles, sizes, timetag) reports exactly the contents that were encoded, in order. Walking with an iterator, fetching by index, and copying out all give the same answers, and asking for an argument that does not exist reports absence rather than data.",
 ["inputs","histories"],"all encoded bundles within bounds times all reader entry points and argument indices",
 "Tests read one fixed message; index arithmetic over variable-sized arguments depends on every earlier argument.",
 ["osc_message_s.c","osc_message_iterator_s.c","osc_bundle_iterator_s.c","osc_bundle_s.c","osc_atom_s.c","osc_atom_array_s.c"],
 [("argument walking","osc_message_s.c, osc_message_iterator_s.c"),("message walking","osc_bundle_iterator_s.c, osc_bundle_s.c")],
 ["values returned by the reader functions"])
p("C04","Typed reads convert values the same way in memory and on the wire",
 "Reading a numeric, boolean, nil, timetag or text argument as any numeric or boolean type gives the value-preserving conversion of the stored value (ordinary C numeric conversion when representable; true 1, false 0, nil 0, text the number it spells, or its first character when read as an 8-bit integer), whatever type it was stored as, and reading it as a string, or a blob as a blob, gives the stored contents. The answer is the same whether the argument is in memory or in encoded form, and byte-order conversions are exact inverses.",
 ["inputs"],"every stored type times every read type times a boundary value set",
 "Tests read values back as the type they were stored with; the cross product of types and boundary values is untested.",
 ["osc_atom_u.c","osc_atom_s.c","osc_byteorder.h"],
 [("typed getters","osc_atom_u.c, osc_atom_s.c (get*)"),("byte order","osc_byteorder.h")],
 ["values returned by the typed getters"])
p("C05","A value cell always holds exactly the last value stored",
 "After any sequence of stores, clears, copies and deep copies between value cells of any types, each cell holds exactly the type and value last stored in it. A copy is independent: changing, clearing or freeing the source never alters it, and no sequence reads or writes memory it does not own.",
 ["histories"],"all operation sequences up to a depth over several cells and all value types",
 "Ownership mistakes only show on particular orders of store, copy and free, which tests never sequence.",
 ["osc_atom_u.c","osc_atom_array_u.c"],
 [("setters and ownership flag","osc_atom_u.c (set*, clear, copy, copyInto)")],
 ["cell type and value after each step","memory errors under AddressSanitizer"])
p("C06","Editing a message behaves as editing a list of arguments",
 "After any sequence of append, prepend, insert, remove, set-address, copy and clear operations, the message's address, argument count, argument order, types and values equal those of an ordinary list subjected to the same edits. Iteration and indexed access agree with that list, and the encoded message has exactly those arguments.",
 ["histories"],"all edit sequences up to a depth, including operations at and beyond the ends",
 "Tests only append; head/tail/count bookkeeping breaks on specific orders of insert and remove.",
 ["osc_message_u.c","osc_message_iterator_u.c","osc_atom_array_u.c"],
 [("linked argument list with head, tail, count","osc_message_u.c")],
 ["count, iteration, indexed access, encoding after each edit"])
p("C07","Editing an in-memory bundle behaves as editing a list of messages",
 "After any sequence of adding, removing, replacing and copying messages, an in-memory bundle's message count, iteration order and contents equal those of an ordinary list subjected to the same edits, and its encoding contains exactly those messages. Adding without duplicates takes the place of any message that has the same address (the new one is at the end), replacing a message keeps its position, and a deep copy of a bundle or message is independent of the original.",
 ["histories"],"all edit sequences up to a depth over a small set of addresses",
 "Count and link bookkeeping is only exercised by tests that append.",
 ["osc_bundle_u.c","osc_bundle_iterator_u.c","osc_message_u.c"],
 [("linked message list with head, tail, count","osc_bundle_u.c")],
 ["count, iteration, lookups and encoding after each edit"])
p("C08","Editing an encoded bundle in place keeps it well formed and correct",
 "After any sequence of appending, removing and replacing messages in an encoded bundle and setting its timetag, the bytes are a well-formed bundle whose length matches the reported length and whose messages equal those of an ordinary list subjected to the same edits. Messages and the header not addressed by an edit keep their bytes.",
 ["histories"],"all edit sequences up to a depth over messages of different sizes, including edits of absent addresses",
 "In-place byte moves depend on the size and position of every message; tests make at most one edit.",
 ["osc_bundle_s.c"],
 [("in-place remove/replace/append","osc_bundle_s.c")],
 ["bytes and length after each edit"])
p("C09","Union, intersection and difference obey set semantics",
 "Over the addresses of two bundles in which no address occurs twice, encoded or in memory, union holds every message of the first plus the messages of the second whose address is not in the first, intersection holds exactly the first bundle's messages whose address also occurs in the second, and difference holds exactly the messages whose address occurs in only one of the two. The inputs are left unchanged and the result is always a well-formed bundle with a defined header (timetag zero or that of an input), also when it is empty or when an address occurs more than once.",
 ["inputs"],"all pairs of small bundles over a small set of addresses",
 "No test combines two bundles; empty and overlapping combinations are where it breaks.",
 ["osc_bundle_s.c"],[("set operations","osc_bundle_s.c osc_bundle_s_union/intersection/difference")],
 ["result bytes","input bytes afterwards"])
p("C10","Exploding and flattening are faithful",
 "When no address of a bundle occurs twice or is a leading part of another, exploding it to any depth and flattening the result gives back, in some order, the messages (address and arguments) that went in, and exploding groups messages by exactly their leading address parts. Neither operation changes its input or invents a message, for any bundle; the encoded and in-memory forms agree, and messages without arguments are dropped only when that is asked for.",
 ["inputs"],"all bundles over a small address tree with all depth limits",
 "One fixed example is printed but never checked by the tests.",
 ["osc_bundle_s.c","osc_bundle_u.c","osc_message_u.c"],
 [("explode/flatten","osc_bundle_s.c, osc_bundle_u.c, osc_message_u.c")],
 ["contents of results"])
p("C11","Untrusted bytes are judged correctly and read safely",
 "The sanity check accepts every well-formed encoded bundle and rejects byte strings whose header, sizes, alignment or message layout (unterminated strings, unknown types, values or nested bundles that do not fit) do not fit in the given length, never reading outside the given bytes. Whatever bytes it accepts can then be iterated, read, formatted, decoded, and handed to every operation on encoded bundles (queries, dispatch, set operations, joining, appending, replacing, removing, renaming, explode and flatten, expression evaluation) without touching memory outside the given bytes or changing them, and the bundles those operations produce pass the check in turn.",
 ["inputs","fault_sequences"],"every single-byte corruption, truncation and word substitution of a set of well-formed bundles, and all short word strings",
 "Tests only feed well-formed data.",
 ["osc_error.c","osc_bundle_s.c","osc_message_s.c"],
 [("bundle and message sanity checks","osc_error.c")],
 ["verdict","memory errors under AddressSanitizer with exact-size buffers"])
p("C12","The byte-at-a-time checker accepts well-formed streams and only those",
 "Feeding the bytes of a well-formed message or bundle one at a time to the streaming checker raises no error at any byte, whatever the number and the sizes of the messages. A stream with a byte that cannot occur at that place (bad header, negative, zero or misaligned size, missing slash, unbalanced or nested brackets, wildcards or doubled separators within them, non-zero padding, missing type string, unknown type, a message too short for its address and types) is reported at or before the end of the message that contains it, in a single message at once.",
 ["inputs","histories"],"all well-formed streams within bounds and every single-byte corruption of them at structural positions",
 "The state machine is driven by one 28-byte message in the tests.",
 ["osc_serial.c","osc_serial.h"],[("state machine","osc_serial.c")],
 ["state and error after every byte"])
p("C13","Address pattern matching follows the OSC pattern language",
 "For every address and pattern built of literals, ?, *, character sets and ranges (also negated), and alternatives, the matcher reports a complete match exactly when the address is in the language of the pattern, with wildcards never crossing a slash. Ranges mean the same in either direction, a ']' or '-' at an end of a set is literal, and alternatives may be empty. When one string is exhausted at an address-part boundary the matcher reports which, with the lengths matched. A mismatch reports no match with zero lengths, and an ill-formed pattern never matches.",
 ["inputs"],"all pattern/address pairs up to a length over a small alphabet that contains every metacharacter",
 "A fixed table of pairs cannot cover backtracking interactions among wildcards, sets and alternatives.",
 ["osc_match.c","osc_match.h"],[("backtracking matcher","osc_match.c")],
 ["match verdict and offsets"])
p("C14","Looking up addresses finds exactly the matching messages",
 "Looking up an address pattern in a bundle (all matches, complete matches only, first match, exists, is-bound) returns exactly the messages whose address matches, in bundle order, the same for the in-memory and the encoded form. Queries that select by several patterns return per pattern the complete and the partial matches (one string exhausted at an address-part boundary, the matched prefix stripped when asked), leave the queried bundle unchanged, and report what was left unmatched.",
 ["inputs"],"all bundles over a small address set times a set of patterns",
 "Tests look up one literal address.",
 ["osc_bundle_s.c","osc_bundle_u.c","osc_query.c","osc_rset.c"],
 [("lookup","osc_bundle_s.c, osc_bundle_u.c"),("query and result sets","osc_query.c, osc_rset.c")],
 ["returned messages"])
p("C15","Dispatch tables and dispatch deliver each message to the right handlers",
 "After any sequence of adding, rebinding and renaming entries, a dispatch table resolves each selector to exactly the handler and context last registered under it. Dispatching a non-empty bundle calls each handler exactly once, with exactly the messages that match its selector completely and those that match it partially (the matched prefix removed when asked), and gives the messages that match no selector to the delegation method.",
 ["histories","inputs"],"all table edit sequences up to a depth and all small bundles against small selector sets",
 "There is no test of dispatch.",
 ["osc_vtable.c","osc_dispatch.c"],[("selector table","osc_vtable.c"),("dispatch","osc_dispatch.c")],
 ["resolved entries","recorded handler calls"])
p("C16","Timetag arithmetic and ordering are exact",
 "Adding timetags adds seconds and fractions with exact carry, subtracting two timetags in either order gives exactly the distance between them, and comparison orders timetags chronologically. Converting a timetag to seconds and back loses no more than the precision of the floating-point number or one fraction unit.",
 ["inputs"],"all pairs from a boundary set of seconds and fractions, exhaustively",
 "There is no test of timetags; carry and borrow show only at boundary values.",
 ["osc_timetag.c"],[("arithmetic","osc_timetag.c")],["results"])
p("C17","Date strings and timetags convert exactly",
 "Every timetag renders to the correct UTC calendar date and time of day (Gregorian leap years included), and parsing that string gives back the same second and the fraction to within a microsecond. The rendering never exceeds the documented buffer size and every valid ISO-8601 string in the supported forms (optional fraction, Z or a numeric zone offset) parses to the instant it denotes.",
 ["inputs"],"every day of the timetag era at boundary seconds, times boundary fractions and zone offsets",
 "No test converts a date.",
 ["osc_timetag.c","contrib/strptime.c"],[("ISO 8601 conversion","osc_timetag.c")],["strings and timetags"])
p("C18","Text form of a bundle parses back to the same bundle",
 "Printing a non-empty bundle whose values have a textual form (integers, decimals of up to six significant digits, strings with any characters, booleans, nil, characters, nested bundles, argument lists) and parsing the text yields a bundle with the same addresses, argument counts and values, and the same types for 32-bit integers, doubles, strings, booleans, nil and bundles. The in-memory and the encoded form of the same bundle print the same text, and so does the parsed bundle.",
 ["inputs","programs"],"all bundles within bounds over textual values, with strings over an alphabet containing every metacharacter",
 "No test prints and re-parses.",
 ["osc_atom_u.c","osc_atom_s.c","osc_message_u.c","osc_message_s.c","osc_bundle_u.c","osc_bundle_s.c","osc_strfmt.c","osc_parser.y","osc_scanner.l"],
 [("printing","*_nformat in osc_atom_*.c, osc_message_*.c, osc_bundle_*.c, osc_strfmt.c"),("parsing","osc_scanner.l, osc_parser.y")],
 ["text","parsed bundle"])
p("C19","Printing into a buffer of any size is measured and bounded",
 "For every value, message and bundle, asking for the printed length gives exactly the length of the full text, the same for every buffer size. Printing into a buffer of any size never writes outside it; a buffer large enough receives the full text, terminated, and a smaller one a terminated prefix of it. The in-memory and the encoded form print the same.",
 ["inputs"],"all printable objects within bounds times all buffer sizes",
 "No test varies buffer sizes.",
 ["osc_strfmt.c","osc_atom_u.c","osc_atom_s.c","osc_message_u.c","osc_message_s.c","osc_bundle_u.c","osc_bundle_s.c"],
 [("nformat","osc_strfmt.c and *_nformat")],["returned lengths","buffer and guard bytes"])
p("C20","The bundle text parser accepts exactly its language",
 "Every token sequence of the bundle text notation that is well formed (addresses, optional colon and value, bracketed lists, braced sub-bundles, comma separation) parses to exactly the bundle it denotes, integers that do not fit 32 bits becoming 64-bit ones. Every other text is rejected with an error, yields no bundle, and leaves no memory behind.",
 ["inputs"],"all token sequences up to a length over an alphabet containing every token kind",
 "No test parses bundle text other than two fixed legacy-form inputs.",
 ["osc_parser.y","osc_scanner.l"],[("grammar","osc_parser.y"),("tokens","osc_scanner.l")],
 ["verdict and parsed bundle"])
p("C21","Expressions parse with the documented precedence and associativity",
 "Every expression text built from literals, addresses, prefix, infix, ternary, null-coalescing and assignment operators, parentheses, lists, indexing and function calls parses to the tree that the operator precedence and associativity table prescribes, or is rejected with an error if it is not in the grammar. Several comma-separated expressions parse to that many expressions in order.",
 ["inputs"],"all token sequences up to a length, and all operator combinations up to a nesting depth",
 "31 fixed expressions cannot cover the pairs and triples of operators whose relative precedence matters.",
 ["osc_expr_parser.y","osc_expr_scanner.l","osc_expr.c"],
 [("grammar and precedence","osc_expr_parser.y"),("tokens","osc_expr_scanner.l")],
 ["printed parse tree","error verdict"])
p("C22","Operators compute and broadcast element-wise",
 "Arithmetic, comparison and logical operators on lists apply element by element: a single value is combined with every element of the other list, otherwise the shorter list bounds the result. Each element result has the promoted type and the value that C arithmetic gives, comparisons give booleans that agree across numeric types (values beyond 2^53 compare as doubles), and division by zero or overflow never crashes; the value of an overflowing integer operation is not promised.",
 ["inputs"],"all operators times all operand type pairs times boundary values, and all list length pairs up to a bound",
 "31 expressions on small integers reach few type pairs and no boundary values.",
 ["osc_expr.c"],[("operator implementations and broadcasting","osc_expr.c")],
 ["result types and values"])
p("C23","List functions return what their documentation says",
 "For every list argument, the list functions (length, sum, product, mean, median, min, max, cumulative sum, sort, reverse, first, last, rest, all-but-last, nth, sequence and fill generators, interleave, range, clip, scale, casts, convex hull of points, string split/join/length) return the documented elements, in the documented order. None of them changes its arguments, and out-of-range or empty arguments give an error or an empty result, never a crash.",
 ["inputs"],"all lists up to a length over a small value set, for every function",
 "Tests evaluate a few of the functions once each.",
 ["osc_expr.c","osc_expr_func.h"],[("built-in functions","osc_expr.c"),("function table","osc_expr_func.h")],
 ["result lists"])
p("C24","Expressions read and update the bundle exactly as written",
 "Evaluating any sequence of expressions against a bundle leaves it with exactly the updates they prescribe in order: assignment (plain, compound, indexed, into a sub-bundle member, increments, null-coalescing) changes only the target address, deletion removes only the named one, and reads see the latest value. Conditionals and short-circuit operators evaluate only the chosen branch, lambdas, map, reduce and apply bind their parameters locally, and the bundle stays well formed after each step.",
 ["histories","programs"],"all statement sequences up to a depth over a small set of statements and addresses, from several start bundles",
 "Each test evaluates one expression on one small bundle; state carried between statements is untested.",
 ["osc_expr.c","osc_bundle_s.c"],[("special forms","osc_expr.c osc_expr_specFunc_*"),("bundle update","osc_bundle_s.c")],
 ["bundle bytes and results after each statement"])
p("C25","A parsed expression is reusable and a failed one changes nothing",
 "Evaluating the same parsed expression again on an equal bundle gives the same result and the same updated bundle, and a copy of a parsed expression behaves like the original even after the original is freed. A statement that fails (unbound address, bad operand, index out of range, bad target) returns or reports an error and leaves the bundle byte-for-byte unchanged, apart from assignments nested in it that had already been evaluated. (An assignment to several indexes reports and skips those out of range, and makes the others.)",
 ["histories","inputs"],"every statement in the enumerated set evaluated repeatedly, copied, and against bundles that make it fail",
 "Tests evaluate each expression exactly once and only on inputs that succeed.",
 ["osc_expr.c"],[("evaluator and expression copying","osc_expr.c")],["results and bundle bytes of repeated evaluation"])
p("C26","Containers behave as their abstract types",
 "After any sequence of operations the dynamic array, the linked list and the hash table hold exactly what a sequence, a list and a map subjected to the same operations would hold, with lookups, sizes, iteration order and stack/queue ends agreeing. Keys that collide or share prefixes stay distinct, growth loses nothing, and destructors run exactly once per removed element.",
 ["histories"],"all operation sequences up to a depth over small key and index sets",
 "No test exercises the containers directly.",
 ["osc_array.c","osc_linkedlist.c","osc_hashtab.c"],
 [("array","osc_array.c"),("list","osc_linkedlist.c"),("hash table","osc_hashtab.c")],["contents after each operation"])
p("C27","All memory comes from the configured allocator and is returned once",
 "Every block the library hands out or keeps comes from the allocator functions the user installed, and freeing the objects a caller owns returns every block exactly once. No sequence of creating, encoding, decoding, copying, printing, looking up, parsing, evaluating and freeing objects leaks a block or frees one twice, also when a text is not accepted or an evaluation fails.",
 ["histories"],"all short life-cycle sequences of messages, bundles, arrays, iterators, lookups and text parsing; every form of statement with every form as an operand, and every function with tuples of operands, on several bundles",
 "Tests never count allocations.",
 ["osc_mem.c","osc_message_u.c","osc_bundle_u.c","osc_bundle_s.c","osc_message_s.c","osc_atom_u.c"],
 [("allocator indirection","osc_mem.c"),("ownership","free functions of every object")],["allocator call log"])
p("C28","Threads working on separate objects do not affect each other",
 "When several threads use the library at the same time on objects they do not share (building, encoding, printing, parsing text, parsing and evaluating expressions, reporting errors), each obtains the result it would obtain alone. This holds for every interleaving.",
 ["schedules"],"all interleavings of two threads at shared-memory accesses up to a preemption bound, for pairs of library operations",
 "The tests are single-threaded.",
 ["osc_expr_scanner.l","osc_expr_parser.y","osc_expr.c","osc_error.c","osc_mem.c"],
 [("process-wide variables","osc_expr.c function bundles, osc_expr_scanner.l column counter, osc_error.c handler")],
 ["results per thread under a controlled scheduler"])
p("C29","Quoting and number-format helpers are exact and bounded",
 "Adding quotes and escapes to any string and parsing the quoted text yields the original string, and the announced lengths are exact. Quoting, escaping, padding and printing numbers, blobs and strings never write outside the buffer, whatever its size, and terminate what they write.",
 ["inputs"],"all strings up to a length over an alphabet containing every metacharacter",
 "No test covers the string helpers.",
 ["osc_strfmt.c","osc_util.c"],[("quoting helpers","osc_strfmt.c")],["strings and lengths"])
p("C30","The function catalogue and printed expressions describe what exists",
 "The documentation of every built-in function gives its name, the numbers of required and optional arguments that calls are held to, the name and types of each argument, and its categories, and unknown names are reported as such. Asking for a category (by name, prefix or pattern, of any length) lists exactly the functions in it, every category is listed, and a parsed expression of any size is printed completely, as the tree it was parsed into.",
 ["inputs"],"every function and every name near one, all category prefixes and short category patterns, all short expressions and expressions of every printed length to 1400",
 "No test asks for documentation, categories or the text of an expression.",
 ["osc_expr.c","osc_expr_func.h","osc_expr_rec.c"],[("documentation and catalogue","osc_expr.c osc_expr_getDocForFunction, osc_expr_getFunctionsForCategory, osc_expr_getCategories, osc_expr_formatTypes"),("expressions as text","osc_expr.c osc_expr_format")],
 ["documentation bundles, category bundles, printed expressions"])
p("C31","Type names, order, sizes and byte order agree with the wire format",
 "For every typetag byte the type has the name, the rank in the promotion order, the encoded size and the byte-swapping rule of the type it stands for; tags that stand for nothing are reported as unknown, without a size, and are never copied. Converting a value to network order gives exactly its wire bytes and converting back gives the value, in place or into another buffer, for every width.",
 ["inputs"],"all typetag bytes and pairs, every boundary value of every type, all 16-bit values and byte patterns of wider ones, all short mixed lists of values",
 "Tests use a handful of types and never the size and byte-order functions.",
 ["osc_typetag.c","osc_mem.c","osc_byteorder.h"],[("names and order","osc_typetag.c"),("sizes and byte order","osc_mem.c osc_sizeof, osc_mem_encodeByteorder; osc_byteorder.h")],
 ["names, comparisons, sizes, encoded bytes"])
p("C32","Error reports carry their place, code and message, and no failure is silent",
 "The report of an error consists of the file, function, line, the text of the code and the formatted message, in that order, cut off at the buffer's size and never beyond it, whatever the texts contain; the handler gets the caller's context and its answer is passed back. Every expression that fails to parse or to evaluate is reported at least once with the caller's context, and the report of one that does not parse quotes its text; one that parses is not reported, and every error code has its own text.",
 ["inputs"],"all combinations of places, codes and messages around the buffer limit, all short token sequences, every statement on every start bundle, every function with all tuples of operands",
 "No test installs a handler or looks at a report.",
 ["osc_error.c","osc_expr.c","osc_expr_parser.y"],[("reports","osc_error.c osc_error_handler, osc_error_string, osc_error_validateAddress"),("failing evaluations","osc_expr.c osc_expr_evalInLexEnv")],
 ["text, context and number of reports"])
p("C33","Expressions, function records and bindings can be built through the API",
 "An expression put together by function calls (arguments of every kind appended, prepended, replaced or copied; expressions chained, cut, nested and copied) is exactly the tree those calls describe and evaluates like the text that denotes it; a function record gives back what was set in it and a copy equals its original; a set of variable bindings answers every lookup with the latest value bound to exactly that name, copies are independent, and a text is accepted as a function exactly if it is one lambda. Whatever the order of the edits, everything is released when the objects are.",
 ["inputs","histories"],"all edit sequences up to a depth on two expressions, two records and two binding sets; all short token sequences as functions",
 "No test builds an expression other than from text.",
 ["osc_expr.c","osc_expr_rec.c","osc_expr_parser.y"],[("expression trees","osc_expr.c osc_expr_appendArg, osc_expr_prependArg, osc_expr_appendExpr, osc_expr_copy, osc_expr_arg_copy"),("function records","osc_expr_rec.c"),("bindings","osc_expr.c osc_expr_bindVarInLexenv, osc_expr_copyLexenv, osc_expr_lookupBindingInLexenv"),("functions from text","osc_expr_parser.y osc_expr_parser_parseFunction")],
 ["trees, values, names, types, bindings, live blocks"])
p("C34","The size of the data is limited by memory alone",
 "Whatever the size of strings, blobs, addresses, argument lists, bundles and numbers of messages, and in threads with a small stack too, every operation on encoded and in-memory bundles (checking, reading, decoding, copying, querying, dispatching, combining, editing, exploding, flattening, printing, parsing) and every expression on long lists and texts gives the same result as for small data, as long as there is memory for it; nothing overflows the stack or a fixed-size buffer.",
 ["inputs"],"7 kinds of large bundles x sizes on both sides of the stack and page limits x all groups of operations; every function and operator on long lists; every text function on long text",
 "Tests use bundles of a few hundred bytes.",
 ["osc_bundle_s.c","osc_bundle_u.c","osc_message_u.c","osc_query.c","osc_dispatch.c","osc_expr.c","osc_expr_parser.y"],[("bundles","osc_bundle_s.c osc_bundle_s_removeMessage, osc_query.c osc_query_select_impl, osc_dispatch.c osc_dispatch_msg, osc_message_u.c osc_message_u_explode_impl, osc_bundle_u.c osc_bundle_u_flatten_impl"),("expressions","osc_expr.c osc_expr_add, osc_expr_nonzero, osc_expr_join, osc_expr_sortidx, osc_expr_quickhull, osc_expr_match")],
 ["results of operations on large data"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
