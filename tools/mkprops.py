#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept next to the data it writes)."""
import json, os
I="include/Caitlyn/"
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,**kw):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],mechanism=[dict(name=mechanism,where=I+files[0])],**kw)))

p("C01","A result object always holds exactly one live alternative",
 "Through any sequence of construction, copy, move, assignment and destruction, a result (value-or-error) object (whose contents move without throwing) holds exactly one constructed alternative, the one its state reports, and every alternative ever constructed is destroyed exactly once. If copying the other side's content throws during copy assignment, the target keeps the content and state it had.",
 ["programs","fault_sequences"],"every element type, every pair of states (value/error) on both sides, every throwing copy constructor",
 "The tests use int and std::string payloads whose lifecycle is invisible and never throw from a copy; a double destruction or a leak passes them.",
 ["__Core/Error/Expected.h"],"a flag plus a manually managed union: constructors, both assignments and the destructor dispatch on the flag")
p("C02","Result combinators act only on the state they are meant for",
 "Mapping, chaining, filtering and unwrapping a result call the user's function exactly once on the matching state and never on the other one; the untouched side is passed through unchanged, and a fallback is used exactly when there is no value. Asking a result for the alternative it does not hold throws instead of handing out anything.",
 ["programs","inputs"],"every user functor, element type and state of the result",
 "Each combinator is tested with one functor on one state; the other state, an untouched payload and calls on the wrong side are not observed.",
 ["__Core/Error/Expected.h","__Core/Error/Unexpected.h"],"each combinator branches on the state flag and accesses one union member")
p("C03","Unique ownership destroys its object exactly once",
 "Through any sequence of construction, reset, release, move (including self-move and moving out of an object the pointer itself owns), assignment and destruction, the object owned by a unique pointer is destroyed exactly once, or handed to the caller by release and then never destroyed by the pointer. The pointer never touches an object after it was destroyed, and resetting it to the object it already owns keeps that object alive; it has let go of an object before destroying it, so that an object may own, or reset, its own owner.",
 ["programs","histories"],"every sequence of operations on one or two pointers, null and non-null, owned objects that contain pointers",
 "The tests check values, not destruction, and only the straight-line sequences they list.",
 ["__Core/Memory/Types/UniquePointer.h","__Core/Memory/Types/RawPointer.h"],"one raw pointer; delete in destructor, reset and assignment")
p("C04","Shared ownership destroys its object exactly when the last owner leaves",
 "An object held by shared pointers stays alive while any owner exists and is destroyed exactly once, together with its bookkeeping, by whichever owner leaves last, whatever the interleaving of threads dropping and copying their own owners. Copying, moving, self-assigning, resetting and assigning from an owner stored inside the owned object all preserve this.",
 ["programs","schedules","histories"],"every operation sequence over up to three owners of up to two objects; every interleaving of owners leaving in different threads",
 "A single-threaded test sees one interleaving, and a decision taken on a separate load instead of on the atomic update itself only fails under a race.",
 ["__Core/Memory/Types/SharedPointer.h","__Core/Memory/Types/WeakPointer.h"],"a heap-allocated atomic counter changed by fetch_add/fetch_sub; the owner that takes it to zero deletes")
p("C05","Dereferencing an empty smart pointer throws",
 "Every smart pointer type throws when it is dereferenced (by * or ->) while it holds nothing: default constructed, constructed from null, moved from, released or reset. When it holds an object, dereferencing yields exactly that object and does not throw.",
 ["programs","histories"],"every pointer type, both dereference operators, every way to become empty",
 "Tests cover the default-constructed case of some types only.",
 ["__Core/Memory/Types/RawPointer.h","__Core/Memory/Types/UniquePointer.h","__Core/Memory/Types/SharedPointer.h","__Core/Memory/Types/WeakPointer.h"],"null check before every dereference")
p("C06","A JSON value owns its tree",
 "A JSON value owns all of its members and elements: copies are deep, moves transfer the content and leave an empty usable value, and every node is destroyed exactly once when its owner is destroyed, overwritten, changed to another kind or removed from its parent. Assigning a value to itself, or a part of a value to the whole (and back), yields the assigned content without touching destroyed storage.",
 ["programs","histories"],"every kind of value on both sides, every alias relation between source and target",
 "Tests compare text; leaks, double destruction and use after destruction are invisible to them, and no test assigns a part to its whole.",
 ["__Serializing/Json/Types/JsonData.h","__Serializing/Json/Types/Json.h"],"a type tag plus a manually managed union holding containers of owning raw pointers")
p("C07","JSON factories, kind queries and typed getters agree",
 "A JSON value made by a factory, a constructor or an assignment has the kind that belongs to its argument, exactly one kind query is true for it, and its typed getter returns the stored content. A typed getter of another kind returns the empty default, and read-only lookup in a value of another kind, of a missing key or of a missing index throws instead of reading.",
 ["programs","inputs"],"every kind, every getter, every factory and assignment source type",
 "Tests pair each kind with its own getter and never ask a value for another kind's content.",
 ["__Serializing/Json/Types/JsonData.h"],"type tag checked before each union access")
p("C08","JSON parsing never reads outside the text",
 "Whatever the text, parsing JSON never looks at a character at or after the end of the text or before its beginning. This holds for truncated values, escapes, literals and numbers at the very end of the input.",
 ["inputs"],"all texts, including every truncation of every construct",
 "A test can feed a handful of truncated documents; an unguarded read past the end usually goes unnoticed in a run.",
 ["__Serializing/Json/Types/JsonParser.h"],"every character access is preceded by a comparison of the position with the size")
p("C09","A JSON document is either parsed completely or reported as an error",
 "Parsing succeeds only if the whole text was consumed as one object with surrounding space, every construct was closed and separated properly and every literal, escape and number was recognised in full; otherwise the document reports an error. A document with an error has a null root and a document parsed successfully has no error left from before, whether parsed by construction, assignment, streaming or a parse call.",
 ["inputs","histories"],"all texts, all previous states of the document",
 "Tests feed a few well-formed and malformed documents; acceptance of a malformed construct needs the right malformed text.",
 ["__Serializing/Json/Types/JsonParser.h","__Serializing/Json/Types/Json.h"],"recursive descent with an error field checked after each nested parse; the document copies either the error or the tree")
p("C10","Every JSON error has its own message",
 "For every error the JSON parser can report there is a non-empty message, and no two different errors share a message. A document's error text is the message of the error it reports.",
 ["inputs"],"all error codes",
 "Tests look at one or two messages.",
 ["__Serializing/Json/Utility.h","__Serializing/Json/Types/Json.h"],"a switch from code to literal")
p("C11","Serialised JSON is well-formed",
 "Serialising any JSON tree, compact or indented, yields a syntactically valid JSON text: brackets balanced, members as quoted key, colon, value, elements separated by exactly one comma, literals spelled correctly, strings quoted with quotation mark, reverse solidus and control characters escaped, and no infinities or NaN written as numbers. Every member and element is written exactly once, in its order.",
 ["inputs","programs"],"all trees, all keys and string contents, all numbers, both output modes, any indent",
 "Tests compare the text of a few small trees.",
 ["__Serializing/Json/Types/JsonData.h"],"a recursive writer that streams tokens")
p("C12","JSON string escapes are read back as the characters they denote",
 "In a JSON string the reader maps each short escape and each four-digit unicode escape (including surrogate pairs) to exactly the character it denotes and rejects every other escape. Every character the writer escapes is written as an escape that the reader maps back to that character.",
 ["inputs"],"all characters, all escapes",
 "Tests use the common escapes only, and only in one direction.",
 ["__Serializing/Json/Types/JsonParser.h","__Serializing/Json/Types/JsonData.h"],"a chain of comparisons in the reader, a table-driven escape in the writer")
p("C13","A character is always one valid UTF-8 sequence and converts exactly",
 "A non-empty character object always holds exactly one valid UTF-8 sequence of a Unicode scalar value: anything else offered to it (a stray or overlong sequence, a surrogate, a value past U+10FFFF, a lone high byte) is rejected with an exception. Converting a code point to a character and back gives the same code point, for every scalar value.",
 ["inputs"],"all code points, all byte sequences of any length",
 "Tests use a few characters per length; the boundaries between lengths and the invalid sequences are not covered.",
 ["__Core/Char/Char.h"],"length classes by code point range, bit packing of the payload, validation of lead and continuation bytes")
p("C14","Character classification and case conversion agree with Unicode",
 "A code point classified as space, digit, uppercase or lowercase has that property in Unicode; all Unicode white space, all ASCII, basic Cyrillic, basic Greek and polytonic Greek letters (upsilon with breathing excepted) and the decimal digits of every script of the basic plane (Sinhala excepted) are recognised. Case conversion maps a code point to its Unicode simple case counterpart or leaves it alone (sharp s and the deprecated n-apostrophe excepted), always converts those letters and the letters U+0100 to U+0177, and is the identity on everything without case.",
 ["inputs"],"all 1,114,112 code points",
 "Tests check a few letters; an off-by-one at a range end or a wrong offset needs that very code point.",
 ["__Core/Char/Utility.h"],"chains of range comparisons with constant offsets and small constant sets")
p("C15","Named character constants denote the character of their name",
 "Every named character constant is exactly the UTF-8 text of the Unicode character (or control code) its name spells, nothing more and nothing less. Each of the 128 ASCII characters has one.",
 ["inputs"],"every constant",
 "No test refers to more than a handful of the constants, and a wrong digit in one of them compiles.",
 ["__Core/Char/Defs.h","__Core/String/Defs.h"],"constants initialised with escape sequences")
p("C16","Relational operators are coherent",
 "For every type with comparison operators (characters, strings, big integers, smart pointers) equality holds exactly for equal content, inequality is its negation, and of less, equal and greater exactly one holds for any two operands; less-or-equal and greater-or-equal are the corresponding unions. Comparing never changes an operand.",
 ["inputs"],"all pairs of operands, including an operand compared with itself",
 "Tests compare a few pairs with one or two of the operators.",
 ["__Core/Char/Char.h","__Core/String/String.h","__Numeric/Types/BigInteger.h","__Core/Memory/Types/RawPointer.h","__Core/Memory/Types/UniquePointer.h","__Core/Memory/Types/SharedPointer.h","__Core/Memory/Types/WeakPointer.h"],"each operator is written out by hand on the stored content")
p("C17","String operations stay inside the string for every position",
 "Every string operation that takes a position or count (checked access, searching forwards and backwards, substring, insertion, prefix and suffix tests, trimming helpers) accepts any value of it: it never reads or writes outside the string, and an invalid position gives an exception or 'not found' according to the operation. A found position always denotes a complete occurrence inside the string.",
 ["inputs"],"all strings and patterns (also empty or longer than the string), all positions and counts up to the largest value of the type",
 "Tests use positions inside short strings; an out-of-range read at one boundary mostly goes unnoticed.",
 ["__Core/String/String.h","__Core/String/Utility.h"],"comparison of the position with the size before iterator arithmetic")
p("C18","A string may be an operand of its own modification",
 "Appending, inserting or assigning a string, or one of its own characters, to itself has the effect of doing so with a separate copy. No operation reads a part of the string through storage that the operation itself has replaced.",
 ["programs","inputs"],"every modifying operation whose argument may alias the string",
 "No test passes a string or its own character to its own modifier, and a stale read often returns plausible data.",
 ["__Core/String/String.h"],"alias checks and copies before the container is modified")
p("C19","Formatting never reads a missing argument or past the format string",
 "For every format string and every number of arguments formatting either succeeds, using only arguments that were passed and characters inside the format string, or throws; an index or automatic field without a matching argument always throws (a single argument matches every automatic field). Unbalanced braces always throw, and doubled braces produce a single brace.",
 ["inputs"],"all format strings and argument lists",
 "Tests format well-formed strings with matching arguments.",
 ["__Core/String/String.h"],"a scanning loop over the format string with an argument index")
p("C20","Formatted fields honour fill, alignment, width and precision",
 "A formatted field is at least as wide as requested and exactly that wide if its content is shorter; its content is kept whole and in one piece and everything else is the fill character, placed on the side(s) the alignment asks for, split evenly with the odd one after it when centred. A floating field with a precision has exactly that many digits after the point, and none and no point for precision zero.",
 ["inputs"],"all contents, widths, precisions, fills, alignments",
 "Tests check a few widths with one content.",
 ["__Core/String/String.h"],"padding computed from width minus length, digit copying loop with a limit")
p("C21","Everything written to a file reaches it or an exception is thrown",
 "Every write, append and line variant, for every argument type, opens the file if needed, adds exactly the given text (plus one line feed for the line variants) to the end of the file, whatever was read before, without touching what is already there, and flushes it before returning; a failure is reported by an exception, and a file that cannot be opened is reported when opening. Reading and writing reopen a closed file first.",
 ["programs","fault_sequences","histories"],"every overload, every stream state left by earlier operations, failures of open, write and flush",
 "Tests write to a healthy file and read it back; they see no failing device, no write after end of file and no missing flush.",
 ["__Core/File/File.h"],"begin/end helpers around stream insertion in each overload")
p("C22","Console streams write only where they should, completely and flushed",
 "Every write of the output, error and log streams inserts exactly the given text, and one line feed in the line variants, into its own standard stream and no other, and flushes it before returning. Reading prompts only on the standard output, flushed before the read blocks, and consumes exactly one line.",
 ["programs","inputs"],"every stream class, overload and argument type",
 "Console output is not captured by any test.",
 ["__Core/IO/Stream.h"],"one chain of insertions per overload")
p("C23","The test runner runs every test once and contains its failures",
 "Running the registered tests calls every one of them exactly once, whatever the others do; a test passes exactly if it returns without an exception of any type, no exception escapes the runner, and the run's exit status is zero exactly if no test of that run failed. Each failed test is named in the summary, and no other test is reported as failed; each test is announced by name before it runs and reported as passed exactly if it passed, and the numbers of tests, of passed and of failed tests that the report states are right.",
 ["programs","fault_sequences"],"any number of suites and tests, any exception type and message",
 "The repository's own suite only exercises passing tests, so wrong accounting of failures is invisible to it.",
 ["__Testing/Types/TestRegistry.h","__Testing/Macro/Test.h","__Testing/Macro/TestFixture.h"],"nested loops with a try block around each call and counters")
p("C24","An assertion throws exactly when its condition is false",
 "Each assertion macro lets execution continue if its condition holds and throws otherwise, and behaves as a single statement that does not capture a following else. Comparison assertions check exactly the relation in their name, in operand order, and string assertions treat null and content correctly. The names of the macros' own variables never capture an operand.",
 ["programs","inputs"],"all operand values and types with the operators, all statement contexts",
 "The suite only uses assertions that hold; one that never throws passes all of it.",
 ["__Testing/Macro/Assert.h","__Testing/Types/TestFailMessage.h"],"macros expanding to a test and a throw")
p("C25","A big integer is always in canonical form",
 "Every big integer produced by construction, arithmetic or assignment has no superfluous leading zero digits and never a negative zero, so that equal numbers compare equal and print identically. Its digits are always decimal digits.",
 ["inputs"],"all operands and all texts accepted by the constructor",
 "Tests use small operands; a zero result of the wrong sign or a leftover zero digit needs special operands.",
 ["__Numeric/Types/BigInteger.h"],"normalisation after every digit-level operation")
p("C26","Big integer arithmetic follows the rules of signs",
 "The sign of every sum, difference, product, quotient and remainder is the mathematically correct one for the signs of the operands and, where it matters, the order of their magnitudes; order comparison agrees with the signs. The absolute value is never negative.",
 ["inputs"],"all sign combinations, zero operands and magnitude orders",
 "Tests cover mostly positive operands.",
 ["__Numeric/Types/BigInteger.h"],"case distinctions on two sign flags and a magnitude comparison")
p("C27","Undefined arithmetic and invalid numerals are rejected",
 "Division and remainder by zero, a negative exponent, the square root of a negative number and a text that is not an optionally signed non-empty sequence of decimal digits are answered with an exception, never with a value. Valid numerals and defined operations do not throw.",
 ["inputs"],"all operands and texts",
 "Tests try one invalid case of some of them.",
 ["__Numeric/Types/BigInteger.h"],"guards at the beginning of the operations")
p("C28","Every public header works alone, in any order, in any number of files",
 "Every public header compiles on its own, after any other public header and in every supported language standard from C++11 on. A program may include the library in any number of translation units, and all of them share one instance of its global state.",
 ["configurations","programs"],"all public headers, all pairs of them, all supported standards, any number of translation units",
 "The test program is one configuration with the headers its files happen to include, in one standard.",
 ["Caitlyn","Testing","Serializing","Numeric","__Caitlyn/Application.h"],"include guards, feature macros, inline definitions")
p("C29","Type queries agree with the language",
 "Every type trait and type query of the library gives, for every type, the answer the language defines for it, with const, volatile and reference variants treated as the standard library's counterpart does. Transformations of types yield exactly the type they name.",
 ["programs"],"all type categories with all qualifiers and references",
 "Tests instantiate a trait with two or three types.",
 ["__Core/Traits/Types/Primary.h","__Core/Traits/Types/Operators.h","__Core/Traits/Types/Specifiers.h","__Core/Traits/Types/SignModifiers.h","__Core/Traits/Constraints/Primary.h","__Core/Traits/Constraints/Properties.h"],"partial specialisations and constexpr wrappers")
p("C30","Every public operation can be used with the types it is offered for",
 "Every public member of the library's class templates and every public function template can be instantiated and called with ordinary argument types (values, references, const objects, move-only where ownership is unique). Operations on unique owners never require copying the owner, and copying a unique owner does not compile. The free operators are found from every namespace, and so by the standard algorithms and containers.",
 ["programs"],"all public templates with representative value, class and move-only types, from const and non-const objects",
 "A template member that no test calls is never compiled.",
 ["__Core/Error/Expected.h","__Core/Memory/Types/UniquePointer.h","__Core/Memory/Types/SharedPointer.h","__Core/Memory/Types/WeakPointer.h","__Core/Memory/Types/RawPointer.h","__Core/String/String.h","__Core/File/File.h","__Core/IO/Stream.h","__Serializing/Json/Types/JsonData.h"],"templates")
p("C31","Mixed-sign integer comparisons are mathematically exact",
 "Comparing two integers of any built-in signed or unsigned types with the comparison helpers gives the answer of comparing their mathematical values. This includes negative numbers against unsigned ones and values not representable in the other type.",
 ["inputs","programs"],"all pairs of integer types of 8 to 64 bits, all values",
 "Tests sample a few values of int and unsigned.",
 ["__Core/Utility/Comparators.h"],"conversion to unsigned after a sign test")
p("C32","The application object is initialised once and owns its arguments",
 "The application can be initialised only once, by whichever entry point; a second initialisation throws and changes nothing. The arguments it reports are as many as were passed, in order, each a separate complete copy of the passed text that does not depend on the caller's memory.",
 ["histories","inputs"],"all orders of initialisation calls, any number and length of arguments",
 "Initialisation happens once per process, so tests cannot try the orders.",
 ["__Caitlyn/Application.h"],"a process-wide flag and a loop copying each argument")
p("C33","Random numbers are drawn from exactly the requested range",
 "Every random generator passes the caller's lower and upper bound, in this order and unchanged, to a uniform distribution of the requested type, so that no value outside the bounds is ever returned. A probability outside zero to one, or not a number, is rejected with an exception, and every valid one is accepted; without one, both results are equally likely.",
 ["inputs","programs"],"all numeric types, all bounds, all probabilities",
 "A test samples a few draws from one range; a wrong bound shows up rarely.",
 ["__Core/Utility/Random.h"],"specialisations delegating to the standard distributions")
p("C34","A string builder accumulates and copies faithfully",
 "The text of a string builder is the concatenation of everything given to its constructor and appended since, in order, with one line feed after each line append and nothing else. A copy has the same text, later appends to a copy continue after that text, and neither copy affects the other.",
 ["histories","inputs"],"all constructors and append variants, all sequences of them, copies at any point",
 "Tests append to a fresh builder; appending after a copy is not tested.",
 ["__Core/String/StringBuilder.h"],"an output string stream")
p("C35","Map helpers return every key and value in map order",
 "The keys and the values extracted from a map are exactly one per entry, in the iteration order of the map, so that the n-th key belongs to the n-th value. The map is not changed.",
 ["inputs","programs"],"all map types and contents",
 "Tests use one small map.",
 ["__Core/Collections/Utility/MapUtility.h"],"one loop appending to a vector")
p("C36","Unescaping text decodes escapes and leaves the rest alone",
 "Unescaping a string replaces each recognised escape by exactly the character it denotes and copies every other character, including unknown and incomplete escapes, exactly once and in order. It never reads outside the string.",
 ["inputs"],"all strings",
 "Tests use single escapes.",
 ["__Core/String/Utility.h"],"a scanning loop that skips the characters it has consumed")
p("C37","Fundamental type names, sizes and limits mean what they say",
 "Each fundamental type name of the library denotes a type of exactly the width, signedness and kind its name states, in every supported language standard. Size queries give the size of the type or object in bytes or bits, and the limit queries the smallest and largest value of every integer type.",
 ["configurations","programs"],"all type names, all integer types, all supported standards",
 "Tests use the names with values that fit any width.",
 ["__Caitlyn/Types.h","__Core/Memory/Utility/SizeCalculation.h","__Core/Numeric/Utility/Limits.h"],"alias declarations chosen by the preprocessor; wrappers around sizeof and numeric_limits")
p("C38","Reading a file returns exactly what it contains",
 "Reading a file as a whole returns its complete content, whatever position or end-of-file state earlier operations left. Reading line by line returns the pieces between the delimiters completely, once and in order, also when the file is closed, written or repositioned in between, and nothing after the last one.",
 ["histories","inputs"],"every content, stream state and sequence of reads, writes, closes and position changes",
 "Tests read a file from the start once.",
 ["__Core/File/File.h"],"stream state and a remembered position shared by the read operations")
p("C39","A string value is exactly the sequence of its characters",
 "A string built from a text, a C string, a range, a vector or a repeated character holds exactly the characters given, one per encoded character and in order; an incomplete or invalid encoding is rejected and leaves the string as it was. Copies are equal and independent, moves keep the characters, appending and adding give the characters of both sides in order and leave the other operand alone. Length, emptiness, byte count, text, data, iteration in both directions, output and case conversion report exactly these characters, and input reads exactly one line.",
 ["inputs","programs"],"every text, every length, every encoded length of a character, every way to build, copy, extend, walk and read a string",
 "Tests build a few short strings and mostly compare them with other strings built the same way.",
 ["__Core/String/String.h","__Core/Char/Char.h"],"a vector of characters filled by a decoder that advances by the encoded length")
p("C40","Text helpers split, repeat and classify text exactly",
 "Splitting a text yields, in order, the pieces between its delimiters (none after a delimiter at its end, none for the empty text) and leaves the text alone; repeating a text yields exactly so many copies of it; a text is a number exactly if it is non-empty and consists of digits; and the first and the last non-space position are those of the first and the last character that is no space, or the length if there is none.",
 ["inputs"],"every text, delimiter and count",
 "Tests split one text with separated words.",
 ["__Core/String/Utility.h"],"loops over stream lines and over characters")
p("C41","JSON objects and arrays keep exactly what was put into them",
 "After any history of adding, replacing, looking up and removing members, a JSON object or document has exactly one member for each key that was put in and not removed since, in the order of first insertion, each with the value stored last (null if it was only looked up for writing); exactly these keys are reported as members, looking up any other key of a constant object throws, and the size is their number. Storing at an index past the end of an array fills the gap with nulls, appending adds the values at the end in order, and nothing else changes.",
 ["histories","inputs"],"every history of operations, every equality pattern of the keys, every index",
 "Tests build one object with distinct keys and read it back; removal, replacement, gaps and repeated keys after other operations are not combined.",
 ["__Serializing/Json/Types/JsonData.h","__Serializing/Json/Types/Json.h"],"a vector of key and owned value, searched linearly; a vector of owned values extended on demand")
p("C42","The configuration describes the platform and language being compiled for",
 "For every supported operating system, architecture, compiler and language version exactly one architecture, one operating-system and one compiler macro is defined, each the one being compiled for, with its name, bit width, word size and version text; the language flags are one exactly for the versions that are available, the conditional keywords expand accordingly, the fixed-width types have their width, and no header tests a configuration macro that nothing defines.",
 ["configurations"],"every supported combination of operating system, architecture, compiler and language version",
 "Tests are built for one platform with one compiler and one language version.",
 ["__Caitlyn/Config.h","__Caitlyn/Types.h","__Core/Utility.h"],"conditional macro definitions")
p("C90","Big integer results are digit-exact",
 "Sums, differences, products, quotients, remainders, powers and square roots of big integers have exactly the digits of the mathematical result.",
 ["inputs"],"all operands",
 "Tests multiply a few numbers.",
 ["__Numeric/Types/BigInteger.h"],"schoolbook digit loops with carries")
p("C94","Searching finds exactly the occurrences",
 "Searching a string for a non-empty pattern returns the first (or last) position at which the pattern occurs in it, and 'not found' exactly if it does not occur.",
 ["inputs"],"all strings and patterns","Tests search short strings.",
 ["__Core/String/String.h"],"std::search on iterators")
p("C92","JSON documents survive a round trip",
 "Serialising a JSON tree and parsing the text yields an equal tree, including every number.",
 ["inputs"],"all trees","Tests round-trip a few trees.",
 ["__Serializing/Json/Types/JsonData.h","__Serializing/Json/Types/JsonParser.h"],"writer and reader are separate code")
# --- not applicable
p("C91","Big decimal arithmetic is exact",
 "Arithmetic and comparison of big decimals give the exact decimal result within their precision.",
 ["inputs"],"all operands","Tests use a few numbers.",
 ["__Numeric/Types/BigFloat.h"],"digit loops with an implied point")
p("C93","Random numbers are uniformly distributed and unpredictable",
 "Successive random numbers are independent and uniformly distributed over the requested range.",
 ["histories"],"all call sequences","A test cannot establish a distribution.",
 ["__Core/Utility/Random.h"],"a clock-seeded engine per call")
p("C95","Deeply nested JSON is handled without exhausting the stack",
 "Parsing, copying, serialising and destroying JSON of any nesting depth succeeds or reports an error.",
 ["inputs"],"all nesting depths","Tests nest a few levels.",
 ["__Serializing/Json/Types/JsonParser.h","__Serializing/Json/Types/JsonData.h"],"recursion without a depth limit")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
