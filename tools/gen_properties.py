#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

M = "src/main/java/io/fastprintf/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": [M + f for f in files],
         "mechanism": [{"name": n, "where": M + w} for n, w in mech],
         "observe_at": observe}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": M + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Integer conversions print exactly what C printf prints",
     "For every integer argument (8, 16, 32 or 64 bits wide, a character code, a boolean or an arbitrary-precision integer) the conversions d, i, u, o, x and X produce exactly the text C's printf produces for that value at that operand size, for every combination of flags, field width and precision. "
     "Unsigned conversions of a negative fixed-size value show its two's-complement bits at the argument's own size; a negative arbitrary-precision integer is refused by them with the library's formatting exception.",
     ["inputs"], "All integer argument types and values x all 32 flag subsets x width (absent, 0..65536, dynamic) x precision (absent, 0..65536, dynamic) x six conversions.",
     "The suite checks a fixed table of a few hundred value/flag pairs; the product of type, value, flags, width and precision is unbounded, and several combinations (zero with '#', zero with precision 0 and a sign flag) are not in any table.",
     ["appender/SeqFormatter.java", "number/IntForm.java", "number/ByteWrapper.java", "number/ShortWrapper.java", "number/IntWrapper.java", "number/LongWrapper.java", "number/BigIntegerWrapper.java"],
     [("signed rendering", "appender/SeqFormatter.java"), ("unsigned rendering with prefix and zero padding", "appender/SeqFormatter.java"), ("digits per operand size", "number/IntForm.java")],
     ["text returned by a format call"])

prop("C02", "Fixed and scientific floats show the correctly rounded shortest decimal",
     "For every float or double argument, f, F, e and E show the value's shortest round-trip decimal rounded half up to the requested precision (six digits by default), with exactly that many fraction digits, at least two exponent digits, the sign of negative values including negative zero, and the sign, alternate-form and zero-padding flags applied as in C. "
     "NaN and infinities are shown as NaN or Infinity, signed as a number would be (NaN never signed), never zero padded, and in capitals for the upper-case conversions.",
     ["inputs"], "All 2^64 double and 2^32 float bit patterns x flags x width x precision.",
     "Tests compare a few dozen values; rounding carries, ties, subnormals and very large precisions are points in a 2^64 space that examples only sample by hand.",
     ["appender/SeqFormatter.java", "number/DoubleWrapper.java", "util/internal/FormattedFPDecimal.java", "util/internal/DoubleToDecimal.java"],
     [("decimal rounding and layout", "util/internal/FormattedFPDecimal.java"), ("fraction padding and sign", "appender/SeqFormatter.java")],
     ["text returned by a format call"])

prop("C03", "General float conversion picks the right notation and digits",
     "For every float, double or arbitrary-precision decimal argument, g and G round to the requested significant digits first (six by default, zero meaning one) and then use scientific notation exactly when the rounded decimal exponent is below -4 or not below the precision. "
     "Without the alternate flag no trailing fraction zeros and no bare decimal point remain; with it the fixed-notation form keeps a decimal point and all requested significant digits.",
     ["inputs"], "All double/float bit patterns and all decimals (any scale) x flags x width x precision.",
     "The notation switch depends on the rounded value; tests hit it at a few hand-picked boundaries and only for some argument types.",
     ["appender/SeqFormatter.java", "number/DoubleWrapper.java", "number/BigDecimalWrapper.java", "util/internal/FormattedFPDecimal.java"],
     [("notation choice for doubles", "util/internal/FormattedFPDecimal.java"), ("notation choice for decimals", "number/BigDecimalWrapper.java"), ("zero stripping and padding to precision", "appender/SeqFormatter.java")],
     ["text returned by a format call"])

prop("C04", "Arbitrary-precision decimals are formatted exactly",
     "For every arbitrary-precision integer or decimal argument, f, F, e and E print the exact value rounded half up to the requested precision, whatever its number of digits and scale, with exactly the requested number of fraction digits, a single leading digit in scientific form and at least two exponent digits. "
     "Two numerically equal arguments of different scale print the same text, and zero prints as zero with exponent +00.",
     ["inputs"], "All decimals: unscaled value of any length, any scale (f-style bounded to printable sizes), all flags, width and precision.",
     "Unbounded digit counts and scales; tests use a short table of values, mostly with small positive scale.",
     ["number/BigDecimalWrapper.java", "appender/SeqFormatter.java", "traits/BigDecimalTraits.java", "traits/BigIntegerTraits.java"],
     [("scale-aware layouts", "number/BigDecimalWrapper.java"), ("fraction padding", "appender/SeqFormatter.java")],
     ["text returned by a format call"])

prop("C05", "Hexadecimal floats denote exactly the value, correctly rounded",
     "For every finite float or double, a and A without a precision print a hexadecimal literal that reads back to exactly the same number including the sign of zero, and with a precision n print exactly n (at least one) hexadecimal fraction digits of the value rounded half to even. "
     "Sign, prefix, zero padding, space padding and letter case follow the flags and the conversion as in the other float conversions, with padding zeros placed between the prefix and the digits.",
     ["inputs"], "All double and float bit patterns x precision 0..65536 x flags x width.",
     "Tests cover about twenty values; subnormals, carries into the next binade and overflow on rounding form a 2^64 x precision space.",
     ["number/DoubleWrapper.java", "appender/SeqFormatter.java", "util/internal/DoubleConsts.java"],
     [("hex rounding of the significand", "number/DoubleWrapper.java"), ("prefix and zero padding", "appender/SeqFormatter.java")],
     ["text returned by a format call"])

prop("C06", "Decimal digits identify the double and are the shortest that do",
     "For every finite double, printing with more digits than it needs yields a decimal that converts back to exactly the same double, uses the fewest significant digits (but never fewer than two) for which that is possible, and among those lies closest to the exact binary value. "
     "Printing is therefore monotone: a larger value never prints as a numerically smaller decimal at any fixed precision.",
     ["inputs"], "All 2^64 double bit patterns (and all floats widened to double).",
     "The digit generator works with table-driven 128-bit arithmetic; a wrong table entry or carry shows only for the few exponents or significands that use it, which no fixed list of values covers.",
     ["util/internal/DoubleToDecimal.java", "util/internal/MathUtils.java", "util/internal/MultiplyHigh.java", "util/internal/FormattedFPDecimal.java"],
     [("shortest decimal selection", "util/internal/DoubleToDecimal.java"), ("power-of-ten tables", "util/internal/MathUtils.java"), ("128-bit product", "util/internal/MultiplyHigh.java")],
     ["text returned by a format call, parsed back"])

prop("C07", "Text and character conversions show exactly the argument's text",
     "s prints the argument's complete text, or its first n characters when a precision n is given; S prints the same with only ASCII letters a-z upper-cased; c prints one character: the character itself, the first character of a text, or the character with the given code. "
     "Null prints as null, byte arrays as Base64, character arrays as their content, other arrays as bracketed comma-separated elements, and any other object as its own string form.",
     ["inputs"], "All texts (any length, any UTF-16 content, any character-sequence implementation, ropes), all supported argument types and array kinds x flags x width x precision.",
     "Examples use short ASCII strings; copying strategies switch on length and on the kind of character sequence, so behaviour at other lengths, slices and contents is untested.",
     ["appender/SeqFormatter.java", "traits/CharSequenceTraits.java", "traits/ObjectTraits.java", "traits/CharacterTraits.java", "seq/StrView.java", "seq/LazySeq.java", "seq/CharArray.java", "util/Utils.java"],
     [("precision cut and padding", "appender/SeqFormatter.java"), ("text view", "seq/StrView.java"), ("array rendering", "traits/ObjectTraits.java"), ("ASCII upper-casing", "util/Utils.java")],
     ["text returned by a format call"])

prop("C08", "Field width only ever adds padding on the correct side",
     "For every conversion and argument, output with a field width is the output without it plus exactly enough padding to reach the width, and is unchanged when it is already that long: spaces on the left by default, spaces on the right with '-', and with '0' zeros between sign or prefix and digits for numeric conversions only when neither '-' nor (for integers) a precision is present. "
     "A width taken from an argument, including a negative one meaning '-', behaves exactly like the same width written in the format.",
     ["inputs"], "All conversions x arguments x 32 flag subsets x widths 0..65536 given literally or dynamically.",
     "This relates pairs of calls; tests assert single outputs for a few widths, so the law across every conversion and long widths is unexamined.",
     ["appender/SeqFormatter.java", "appender/DefaultAppender.java", "FormatContext.java", "seq/Repeated.java"],
     [("space padding", "appender/SeqFormatter.java"), ("zero padding", "appender/SeqFormatter.java"), ("dynamic width", "appender/DefaultAppender.java"), ("repeated character", "seq/Repeated.java")],
     ["pairs of texts returned by format calls"])

prop("C09", "The format grammar accepts exactly the well-formed formats",
     "Every string of literal text, doubled percent signs and directives %[flags][width][.precision]conversion with an optional {pattern} after a date-time conversion compiles, however long it is and however many directives it has; flags may appear in any order but not twice, width and precision are decimal digits or '*'. "
     "Every other string is rejected while compiling with the syntax exception, which carries the whole format and an index from the start of the offending directive to the end of the format; a literal width or precision above 65536 is rejected with a formatting or syntax exception; nothing else escapes.",
     ["inputs"], "All format strings (any length and character content).",
     "Tests list about a hundred strings; truncations, stray characters, long formats and nested quoting inside patterns are an unbounded language.",
     ["Compiler.java", "Flag.java", "Specifier.java", "FormatContext.java", "PrintfSyntaxException.java"],
     [("directive parser", "Compiler.java"), ("flag and conversion tables", "Specifier.java"), ("limit on width and precision", "FormatContext.java")],
     ["result or exception of compiling", "output of the compiled formatter"])

prop("C10", "Directives consume arguments strictly left to right, exactly once",
     "Output is the format with literal text copied verbatim and each directive replaced by the rendering of the next unused argument, where '*' width consumes one integer first, then '.*' precision, then the value; %n consumes one argument and prints nothing, %% consumes none. "
     "Too few arguments raise the formatting exception instead of returning a partial result, surplus arguments are ignored, a negative dynamic precision means none was given, and a 32-bit dynamic width beyond 65536 in magnitude or precision above 65536 is refused with the formatting exception.",
     ["inputs", "programs"], "All sequences of directives and literals x all argument lists, including lists one short, exact and longer.",
     "Tests use formats with a handful of directives; ordering and off-by-one consumption depend on how '*' directives, literals and lengths combine.",
     ["Compiler.java", "FastPrintfImpl.java", "appender/DefaultAppender.java", "appender/FixedStringAppender.java", "ArgsImpl.java"],
     [("argument cursor", "appender/DefaultAppender.java"), ("literal text", "appender/FixedStringAppender.java"), ("directive loop", "FastPrintfImpl.java")],
     ["text returned by a format call", "exception raised"])

prop("C11", "Every way of calling the formatter gives the same characters",
     "For one format and one argument list, formatting to a string, into a string builder, a string buffer, a writer, a character buffer or any custom appendable gives the same characters, whether the arguments come as an array, an iterable or an argument list built by typed or generic additions. "
     "When given a destination the call returns that same destination, keeps what it already held and adds only the output, once and in order, whatever mix of append methods the destination observes.",
     ["inputs", "configurations"], "All formats and argument lists x all entry points x destination kinds x prior destination content.",
     "Each destination kind takes a different copying path per text segment type and length; tests exercise a few formats on string builders.",
     ["FastPrintf.java", "FastPrintfImpl.java", "Args.java", "ArgsImpl.java", "seq/Seq.java", "seq/StrView.java", "seq/CharArray.java", "seq/Repeated.java", "seq/LazySeq.java", "seq/AtomicSeqIterable.java"],
     [("string builder path", "FastPrintfImpl.java"), ("generic destination path", "FastPrintfImpl.java"), ("per-segment appending", "seq/Seq.java")],
     ["characters received by each destination", "returned reference"])

prop("C12", "A failing destination or argument surfaces once and poisons nothing",
     "If a destination fails at any point while being written, the call fails with an unchecked I/O exception carrying the original I/O error as cause (other runtime errors propagate unchanged), and what the destination received is a prefix of the correct output, with no further writes after the failure. "
     "If an argument fails or cannot be converted, the failure reaches the caller and anything already written is a prefix of the correct output; after any such failure the same formatter, its cached variant and the same argument list still give the correct result.",
     ["fault_sequences", "inputs"], "All formats and arguments x every write position and every argument callback at which a fault can be injected x repeated use afterwards.",
     "Tests inject at most one failing destination; enumeration of every failure position, and of state left behind in cached buffers, is not attempted.",
     ["FastPrintfImpl.java", "appender/DefaultAppender.java", "seq/AtomicSeqIterable.java", "seq/LazySeq.java"],
     [("I/O error wrapping", "FastPrintfImpl.java"), ("per-thread buffer reset", "FastPrintfImpl.java")],
     ["exception and its cause", "writes seen by the destination", "later outputs"],
     [("cached buffer", "per-thread text buffer reused between calls", "FastPrintfImpl.java")])

prop("C13", "A formatter and argument list may be shared by threads",
     "A compiled formatter, plain or with the per-thread cache enabled, may be used by any number of threads at once: every call returns exactly what it would return if it ran alone, under every interleaving. "
     "An argument list and text values that are no longer being modified may likewise be formatted and inspected by several threads at once.",
     ["schedules"], "All interleavings of concurrent calls on shared formatters (plain and cached), shared argument lists and shared text values.",
     "The suite runs on one thread except for a smoke test; interleavings inside a format call are never controlled.",
     ["FastPrintfImpl.java", "ArgsImpl.java", "appender/DefaultAppender.java", "seq/LazySeq.java", "seq/CharArray.java", "seq/Repeated.java", "FormatContext.java"],
     [("per-thread buffer", "FastPrintfImpl.java"), ("immutable directive state", "FormatContext.java"), ("lazily built text", "seq/LazySeq.java")],
     ["text returned to each thread", "uncaught exceptions in any thread"],
     [("cached buffer", "per-thread text buffer reused between calls", "FastPrintfImpl.java"), ("cached text", "text built on first use", "seq/LazySeq.java")])

prop("C14", "Results never depend on history, caching, capacity or nesting",
     "The result of a format call depends only on the format and its arguments: not on earlier calls (successful or failed, short or huge), not on whether the per-thread cache is enabled or which initial capacity is set, and not on whether the call is made from inside another call on the same formatter through an argument's own text conversion. "
     "Enabling the cache or changing the capacity leaves the original formatter usable and unchanged, and a returned string never changes afterwards.",
     ["histories", "configurations"], "All sequences of calls, failures, re-configurations and nested calls on a set of formatters, all capacities.",
     "Needs call sequences; tests make one or two calls per formatter and never nest calls.",
     ["FastPrintfImpl.java", "FastPrintf.java"],
     [("buffer reuse and reset", "FastPrintfImpl.java"), ("reconfiguration copies", "FastPrintfImpl.java")],
     ["text returned by each call of a history"],
     [("cached buffer", "per-thread text buffer reused between calls", "FastPrintfImpl.java")])

prop("C15", "Formatting memory stays proportional and cached memory stays bounded",
     "Formatting allocates memory proportional to the size of the format, the arguments and the output, never to the number of earlier calls, and width and precision limits keep one directive from producing more than about 65536 padding characters. "
     "A thread that used a cached formatter for one huge result does not keep that memory: after a later ordinary-sized call on that thread the retained buffer is no larger than the retention limit (65536 characters) or the configured capacity, and dropped formatters, argument lists and values (with their classes) become collectable.",
     ["histories", "inputs"], "All call histories with mixed result sizes, capacities and cache settings.",
     "Memory retention is invisible to output assertions and depends on call history.",
     ["FastPrintfImpl.java", "FormatContext.java", "seq/Repeated.java", "appender/SeqFormatter.java"],
     [("retention limit of the per-thread buffer", "FastPrintfImpl.java"), ("width and precision limit", "FormatContext.java")],
     ["bytes allocated by the calling thread", "reachability of weakly held probes", "heap retained after collection"],
     [("cached buffer", "per-thread text buffer reused between calls", "FastPrintfImpl.java")])

prop("C16", "Text ropes behave like the string they denote",
     "Every text value built by wrapping strings or character arrays (or implemented by the caller), slicing, repeating, deferring, concatenating, prepending, joining and upper-casing is indistinguishable from the plain string it denotes: length, characters, slices, searching, prefix test, emptiness, string form and what it appends to any destination all agree, and out-of-range access is refused with an unchecked exception. "
     "Operations never change existing values, so any value keeps denoting the same string forever.",
     ["programs", "inputs"], "All finite programs over the rope operations, to any depth, with all arguments including out-of-range ones.",
     "Tests check each operation on one or two small ropes; defects depend on compositions (slices of slices of concatenations across segment boundaries).",
     ["seq/Seq.java", "seq/AtomicSeqIterable.java", "seq/Concat.java", "seq/SeqArray.java", "seq/StrView.java", "seq/CharArray.java", "seq/Repeated.java", "seq/LazySeq.java", "seq/EmptySeq.java"],
     [("multi-segment slice", "seq/AtomicSeqIterable.java"), ("concatenation", "seq/Concat.java"), ("views", "seq/StrView.java")],
     ["every observer operation of every intermediate value"])

prop("C17", "Argument lists keep what was put in, in order, unchanged",
     "An argument list holds exactly the values added, in order of addition, however it was built; listing its values returns equal values (the very same objects for reference arguments), in an unmodifiable list that later additions do not affect, and formatting never modifies the list or its values however often it is repeated. "
     "Adding a value through a typed method, through the generic method or through a bulk factory gives the same output for every conversion except pointers, where p prints class name and identity hash for objects, null for null, and refuses primitives. "
     "The list's own text form is what its values print as text, in square brackets and separated by a comma and a space.",
     ["programs", "inputs"], "All sequences of additions of all types (typed, generic, bulk) interleaved with reads and format calls.",
     "Tests add a few values once; equivalence over all types, values and interleavings of reads and writes is not covered.",
     ["Args.java", "ArgsImpl.java", "traits/RefSlot.java", "traits/IntTraits.java", "traits/BooleanTraits.java", "traits/ObjectTraits.java", "traits/NullTraits.java"],
     [("typed additions", "ArgsImpl.java"), ("generic dispatch", "ArgsImpl.java"), ("small-value cache", "traits/IntTraits.java"), ("identity slot", "traits/RefSlot.java")],
     ["listed values", "text returned by format calls", "argument objects after formatting"])

prop("C18", "Date-time conversion prints the instant or date it was given",
     "For t and T, a date-time argument prints with the given pattern, or without one in ISO form: offset or zoned date-times with offset, local date-times and local dates without; instants, dates and calendars denote the same instant shown with the system zone's offset. "
     "Non-negative integers denote seconds since the epoch up to 4294967295 and milliseconds beyond that (32-bit integers are read as unsigned), T upper-cases ASCII letters, width and '-' pad with spaces, and arguments that are not date-times are refused with the formatting exception.",
     ["inputs", "configurations"], "All temporal argument types and values x patterns x flags x width x system zones.",
     "Tests use a handful of dates and one or two patterns in the build's time zone.",
     ["appender/SeqFormatter.java", "traits/TemporalAccessorTraits.java", "traits/ObjectTraits.java", "traits/IntTraits.java", "traits/LongTraits.java", "traits/BigIntegerTraits.java", "util/Utils.java", "Compiler.java"],
     [("default ISO formatters", "appender/SeqFormatter.java"), ("numeric epoch rule", "util/Utils.java"), ("pattern parsing", "Compiler.java")],
     ["text returned by a format call", "exception raised"])

prop("C19", "Output is the same on every Java version, locale and platform setting",
     "For every format and argument, apart from date-time conversions and the text form that the platform itself gives to an object, the output is identical on every supported Java release from 8 on, under every default locale, time zone, file encoding and just-in-time compilation state. "
     "Numbers always use ASCII digits, '.' and '-', and upper-casing is never affected by the locale.",
     ["configurations", "inputs"], "All JDK releases from 8 x default locales x time zones x execution modes (interpreted, compiled) x formats and arguments.",
     "The suite runs on one JDK, one locale and one zone, mostly in the interpreter; version-specific code paths (wide multiplication, repeated append) are selected at run time.",
     ["util/internal/MultiplyHigh.java", "seq/Repeated.java", "util/internal/DoubleToDecimal.java", "number/DoubleWrapper.java", "util/Utils.java"],
     [("run-time selection of wide multiply", "util/internal/MultiplyHigh.java"), ("run-time selection of repeat", "seq/Repeated.java")],
     ["digest of outputs per configuration", "outputs against the reference"])

prop("C20", "Arguments of any type either convert by rule or fail cleanly",
     "For every pairing of argument type and conversion the result is fixed: numbers convert between integer and float conversions (floats truncate toward zero and saturate, fixed-size integers convert to the nearest double, booleans count as 1 and 0, characters as their code), numeric text is parsed, dates give epoch milliseconds to integer and epoch seconds to float conversions. "
     "Any pairing without such a rule (null, non-numeric text or ordinary objects for numbers, empty text for a character, arbitrary-precision decimals as hexadecimal floats) fails with the library's formatting exception and returns no text, in value position as well as for a dynamic width or precision.",
     ["inputs"], "All supported and unsupported argument types and values x all conversions, flags and dynamic width/precision positions.",
     "The conversion matrix has hundreds of cells, each over all values; tests cover a fraction with one value each.",
     ["traits/FormatTraits.java", "traits/BooleanTraits.java", "traits/CharacterTraits.java", "traits/FloatTraits.java", "traits/DoubleTraits.java", "traits/CharSequenceTraits.java", "traits/ObjectTraits.java", "traits/NullTraits.java", "traits/TemporalAccessorTraits.java", "traits/BigDecimalTraits.java", "traits/BigIntegerTraits.java"],
     [("conversion rules per argument type", "traits/FormatTraits.java"), ("generic dispatch", "ArgsImpl.java")],
     ["text returned or exception raised by a format call"])

prop("C21", "Compiling and formatting take work in proportion to their size",
     "The number of steps executed to compile a format, well-formed or not, grows at most linearly with its length, and to format a call at most linearly with the length of the format, of the text form of the arguments used and of the output. "
     "It depends neither on exponents or scales that do not show in the output, nor on surplus arguments, nor on how many calls were made before.",
     ["inputs", "histories"], "All formats of any length (including malformed ones), all arguments of any size, all numbers of earlier calls.",
     "Tests use short formats and small arguments and assert only output, so repeated scanning or copying goes unnoticed.",
     ["Compiler.java", "appender/SeqFormatter.java", "seq/Concat.java", "seq/SeqArray.java", "util/Utils.java", "number/BigDecimalWrapper.java", "FastPrintfImpl.java", "ArgsImpl.java"],
     [("compilation loop", "Compiler.java"), ("copying of segments", "seq/Concat.java")],
     ["steps executed by the instrumented library per compilation, list operation and call"])

prop("C22", "Misuse is refused without effect and refusals can be read",
     "A missing (null) format, destination, argument list or iterable, a capacity below one and a negative expected size are refused with an unchecked exception before anything is written or any argument is read, and leave everything usable; a null argument array counts as one null argument, and the failure of an iterable arrives unchanged. "
     "Every refusal has a non-empty message that can be read repeatedly; that of a syntax error gives description, index and the whole format, followed, when the index lies within the format, by a line with a marker under that index. "
     "A formatting exception made from a template and values shows the template with its placeholders (%s) replaced in order and surplus values in brackets at the end; it can be made and read even if the text form of a value fails, and so can the refusal of such a value.",
     ["inputs", "histories"], "All misuses of the interface between any correct calls; all malformed formats; all refused pairings of argument and conversion.",
     "Tests try a few null arguments and a few messages, never their effect on later calls or messages over all malformed formats.",
     ["FastPrintf.java", "FastPrintfImpl.java", "Args.java", "PrintfSyntaxException.java", "PrintfException.java", "util/Preconditions.java", "util/Utils.java"],
     [("argument checks", "util/Preconditions.java"), ("syntax report", "PrintfSyntaxException.java")],
     ["exception raised and its message", "destination and arguments after a refused call", "results of later calls"])

prop("C23", "Foreign argument lists and handlers are used by their contract",
     "A format call works with any implementation of the argument list and of the per-argument handlers and prints what it prints for the library's own: it goes through the list once, takes exactly the elements its directives consume, in order, and asks each handler once and only for the form its directive needs (an integer for a dynamic width or precision, otherwise integer form, float form, text, character, date-time or reference according to the conversion). "
     "If the list or a handler fails, that failure arrives unchanged, nothing more is asked of either, and what was written is a prefix of the correct output.",
     ["programs", "fault_sequences"], "All directive programs x all mixes of foreign and own lists and handlers x every element at which a failure can occur.",
     "Tests only ever use the library's own list and handlers.",
     ["Args.java", "ArgsImpl.java", "FastPrintfImpl.java", "appender/DefaultAppender.java", "appender/SeqFormatter.java", "traits/FormatTraits.java"],
     [("consumption of arguments", "appender/DefaultAppender.java"), ("handlers placed in a list", "ArgsImpl.java")],
     ["every call made on foreign lists, iterators and handlers", "text returned or exception raised"])

prop("C24", "Directive settings are values, and directives work by themselves",
     "Settings of a directive (flags, width, precision, pattern) never change: deriving settings with another width, another precision or one more flag differs from the original in exactly that, sets of flags passed in or handed out are copies, a serialized copy (of settings without pattern) has the same settings, and a width or precision that is neither in 0 to 65536 nor one of the two markers for unset and taken-from-argument is refused with the formatting exception. "
     "A directive made from settings and a conversion, used by itself any number of times, delivers for every argument in one piece exactly what a format of that directive prints and takes as many arguments; its text form, without pattern and with a width other than zero, compiles to a format that prints the same.",
     ["histories", "inputs"], "All histories of making, deriving, handing out and serializing settings; all directives with all arguments.",
     "Tests derive settings once or twice and look at the result, not at the original; directives are hardly used outside a compiled format.",
     ["FormatContext.java", "Flag.java", "Specifier.java", "appender/DefaultAppender.java", "appender/FixedStringAppender.java", "appender/SeqFormatter.java"],
     [("derivation of settings", "FormatContext.java"), ("directive used by itself", "appender/DefaultAppender.java"), ("text form", "Specifier.java")],
     ["every observer of every settings value after every step", "texts delivered and arguments taken by a directive", "text printed by the directive's text form compiled again"])

prop("C25", "Integer and float forms handed to handlers describe their number",
     "The integer form of a number gives its sign, the digits of its absolute value in decimal, the digits of its two's complement at its own size (8, 16, 32, 64 bits) in unsigned decimal, hexadecimal and octal, and its signed decimal text; unsigned forms of a negative big integer are refused with the formatting exception. "
     "The float form of a double or decimal gives its sign, whether it is NaN or infinite, its text (that of the shortest decimal for a double), and for every precision a mantissa and exponent in fixed, scientific, general or hexadecimal notation that denote the correctly rounded absolute value with at most the digits asked for (all digits for a hexadecimal precision of zero); decimals have no hexadecimal layout and refuse it with the formatting exception. "
     "Answers do not depend on what was asked before, and texts handed out never change.",
     ["inputs", "histories"], "All integers of all sizes, all doubles and decimals x precisions x notations, in any order of questions.",
     "Tests ask each form a few questions for a few numbers.",
     ["number/IntForm.java", "number/FloatForm.java", "number/NumberForm.java", "number/ByteWrapper.java", "number/ShortWrapper.java", "number/IntWrapper.java", "number/LongWrapper.java", "number/BigIntegerWrapper.java", "number/DoubleWrapper.java", "number/BigDecimalWrapper.java", "number/FloatLayout.java"],
     [("integer digits", "number/IntForm.java"), ("float layouts", "number/DoubleWrapper.java"), ("decimal layouts", "number/BigDecimalWrapper.java")],
     ["every answer of every form", "texts handed out earlier, read again"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
