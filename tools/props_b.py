# Properties of strings, numbers, time and metaprogramming helpers (C21..C38).
def P(id, title, stmt, over, text, why, files, mech, tech, note, observe=None, level="model_checking"):
    return dict(id=id, title=title, statement=stmt, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe, level=level)

REC = "TLA+ definition evaluated by TLC on recorded calls of the real code (ASan/UBSan build)"
RECNOTE = "Every recorded call is checked by TLC against the TLA+ definition; inputs are all strings/values of small domains plus seeded larger ones, so the claim holds for everything explored, not for unexplored inputs. Trusts TLC, the recorder and the sanitizers."
S = "include/gul14/"
PROPS = [
P("C21", "Escaping is lossless, printable and undone exactly by unescape",
  "For every byte string, escape() yields only printable ASCII (0x20..0x7e) using \\\" \\\\ \\n \\r \\t and two-digit lower-case \\xHH sequences, leaves printable characters other than quote and backslash unchanged, and unescape() of the result is the original. unescape() of an arbitrary string resolves exactly the sequences escape() can produce (hexadecimal digits of either case), scanning from left to right, and passes everything else through unchanged, including incomplete or unknown sequences at any position.",
  ["inputs"], "all byte strings, including NUL, bytes >= 0x80 and truncated escape sequences", "The unit tests use a few dozen strings; truncation of a sequence at each position and every byte value in context are not sampled.",
  ["src/escape.cc", S+"escape.h"], [("escape", "src/escape.cc"), ("unescape", "src/escape.cc")], REC, RECNOTE),
P("C22", "split and join are inverse and split exactly at each delimiter occurrence",
  "For every string and non-empty delimiter string, split() and split_sv() return the pieces between the leftmost non-overlapping delimiter occurrences, keeping leading, inner and trailing empty pieces, so that the number of pieces is one more than the number of delimiters and joining them with the delimiter gives the original string back; an empty string delimiter separates every character and both ends. split() with a regular expression that matches no empty string splits in the same way at its successive matches. All overloads and container types agree, and the views returned by split_sv() lie inside the given string; join() of any sequence of strings with any glue is their concatenation with the glue between neighbours only.",
  ["inputs"], "all strings, delimiters and sequences of parts", "Tests use a handful of literal strings; overlapping delimiters, delimiter at both ends and embedded NULs are not enumerated.",
  [S+"join_split.h"], [("detail::split / join", S+"join_split.h")], REC, RECNOTE),
P("C23", "tokenize yields exactly the maximal delimiter-free runs",
  "For every string and every set of delimiter characters (by default the white-space characters), tokenize() and tokenize_sv() return, in order, exactly the maximal non-empty runs of characters that are not delimiters. All overloads and container types agree, and views lie inside the given string.",
  ["inputs"], "all strings and delimiter sets", "A few literal examples in the tests.", [S+"tokenize.h", "src/string_util.cc"], [("tokenize", S+"tokenize.h")], REC, RECNOTE),
P("C24", "replace substitutes the leftmost non-overlapping matches once each",
  "For every haystack, needle and replacement, replace() returns the haystack with the leftmost non-overlapping occurrences of the needle substituted and the inserted text never scanned again; an empty needle leaves the haystack unchanged, and the call always terminates. replace_inplace() leaves the same result in its argument and returns a reference to it.",
  ["inputs"], "all triples of strings, including needles that occur in their own replacement", "Few literal triples in the tests.", ["src/replace.cc", S+"replace.h"], [("replace / replace_inplace", "src/replace.cc")], REC, RECNOTE),
P("C25", "trim removes exactly the maximal leading/trailing runs of the given set",
  "For every string and set of characters (by default the white-space characters), trim_left/trim_right/trim and their string_view counterparts remove the longest prefix and/or suffix that consists of characters of the set and nothing else. Embedded NUL characters are treated like any other character.",
  ["inputs"], "all strings and character sets", "A few literal examples in the tests.", ["src/trim.cc", S+"trim.h"], [("trim*", "src/trim.cc")], REC, RECNOTE),
P("C26", "Substring checks and ASCII case conversion are exact for every byte",
  "contains, starts_with, ends_with and their _nocase variants, for string, view and character needles, hold exactly if the needle occurs (anywhere, at the start, at the end) in the haystack, where the nocase forms identify the 26 ASCII letters with their other case and nothing else. lowercase_ascii/uppercase_ascii (copying, in place, single character) change exactly the ASCII letters.",
  ["inputs"], "all pairs of byte strings, including needles longer than the haystack, empty needles and non-ASCII bytes", "Few literal pairs in the tests.",
  ["src/case_ascii.cc", S+"case_ascii.h", S+"substring_checks.h"], [("contains/starts_with/ends_with", S+"substring_checks.h"), ("lowercase_ascii/uppercase_ascii", S+"case_ascii.h")], REC, RECNOTE),
P("C27", "string_view behaves like the standard string view over its bytes",
  "For every byte string, needle, position and length (including npos and values near the maximum), string_view's find family, compare and relational operators, substr, copy, element access, prefix/suffix removal, iteration, conversion, stream output and concatenation (with views, std::string and C strings on either side, and for wide characters as well) give the results that the C++17 standard defines for std::string_view: substr/copy/compare with a position beyond the size throw std::out_of_range, at() likewise, lengths are clamped, comparison is by unsigned bytes and then length. No operation reads outside the viewed range.",
  ["inputs"], "all strings, needles, positions and lengths", "The repository has no unit test dedicated to the hand-written string_view backport over adversarial positions.",
  [S+"string_view.h"], [("basic_string_view", S+"string_view.h")], REC, RECNOTE),
P("C28", "cat, repeat and safe_string build exactly the text they promise",
  "cat() of any number of arguments (strings, views, C strings, characters, numbers) is the concatenation of the arguments' texts, where integers of every type and value appear in plain decimal and floating-point numbers with six decimals; a copied ConvertingStringView keeps its text. repeat(s, n) is n copies of s; safe_string(p, n) is the bytes at p up to the first NUL but at most n of them, reads no further, and is empty for a null pointer.",
  ["inputs"], "all argument lists, repetition counts and buffers with or without terminator", "Few literal examples in the tests.",
  ["src/cat.cc", S+"cat.h", "src/string_util.cc", S+"string_util.h"], [("cat", "src/cat.cc"), ("repeat, safe_string", "src/string_util.cc")], REC, RECNOTE),
P("C29", "hex_string and hexdump show every element exactly",
  "hex_string() renders every element of a sequence of integers, in order, as exactly two lower-case hexadecimal digits per byte with the separator between neighbours only. hexdump() in all its forms (string, stream, iterators, containers) prints the prompt, zero-padded offsets and the same digits, 16 elements per line, followed for single-byte data by the printable-character column with dots for non-printable bytes.",
  ["inputs"], "all element types (signed and unsigned, 1 to 8 bytes), values, lengths and prompts", "Few literal buffers in the tests.", [S+"hexdump.h"], [("hex_string, hexdump", S+"hexdump.h")], REC, RECNOTE),
P("C30", "to_number<integer/bool> accepts exactly the representable decimal texts",
  "For every string and every integer type, to_number() returns a value if and only if the string is a non-empty sequence of decimal digits, preceded by one minus sign for signed types only, whose value the type can represent, and then returns exactly that value; otherwise it returns an empty optional. to_number<bool>() accepts exactly \"1\", \"0\" and the words true/false in any letter case.",
  ["inputs"], "all strings and all integer types of 8 to 64 bits", "Tests sample some limits; leading zeros combined with overflow, sign placement and foreign characters at each position are not enumerated.",
  ["src/to_number.cc", S+"to_number.h"], [("to_unsigned_integer, to_signed_integer", S+"to_number.h")], REC, RECNOTE),
P("C31", "to_number<float> accepts exactly the documented syntax and is accurate",
  "For every string, to_number<float/double/long double>() returns a value if and only if the string is a decimal number (optional minus sign, digits with at most one point and at least one digit, optional exponent e/E with optional sign and at least one digit) or one of the special forms inf, infinity, nan, nan(chars) in any letter case with optional minus sign; exponents of ten or more digits may be refused. The value is within 3 representable steps of the exact one for float and double (24, or 32 for subnormal results, for long double), carries the sign, and becomes zero or infinity exactly when the exact value is that close to it.",
  ["inputs"], "all strings, including very long digit strings and extreme exponents", "Tests sample some dozens of texts.", ["src/to_number.cc", S+"to_number.h"], [("to_unsigned_float, strtold", S+"to_number.h"), ("pow10", "src/to_number.cc")], REC, RECNOTE + " The correctly rounded value comes from the C library's strtof/strtod/strtold."),
P("C32", "Bit manipulation touches exactly the addressed bit",
  "bit_set, bit_reset, bit_flip and bit_test, for every integer type, every value and every bit index below the type's width, set, clear, invert and read exactly the addressed bit and leave all others alone; the one-argument bit_set yields the value with only that bit. bit_set followed by bit_reset, or two flips, restore the original for the bit concerned. The result has the type of the operand without const and volatile; an index beyond the width ends the program by an assertion, and types other than integers are refused. is_little_endian and is_big_endian tell the byte order of the machine.",
  ["inputs"], "all types, values and bit indices", "Tests sample few indices.", [S+"bit_manip.h"], [("bit_*", S+"bit_manip.h")], REC, RECNOTE),
P("C33", "gcd/lcm, clamp and tolerance comparisons follow their definitions",
  "gcd and lcm are the non-negative greatest common divisor and least common multiple for operands of any signedness (gcd(0,0)=0, lcm(x,0)=0), clamp(v,lo,hi) is the nearest value in [lo,hi] also with a custom comparison (v itself, not an equivalent bound, when it is in range or not ordered), and abs is the magnitude, whenever the results are representable. within_abs(a,b,t) holds iff |a-b| <= |t|, within_orders(a,b,n) iff a = b or |a-b| < max(|a|,|b|)/10^n, within_ulp(a,b,u) iff the values differ by at most u units in the last place; all three are symmetric in a and b, reject NaN operands, treat an infinity as close only to itself, and work for unsigned types in either order.",
  ["inputs"], "all integers and floating-point values including zeros, subnormals, infinities and NaN", "Tests sample few values.", [S+"gcd_lcm.h", S+"num_util.h"], [("gcd, lcm", S+"gcd_lcm.h"), ("within_*, clamp, abs", S+"num_util.h")], REC, RECNOTE),
P("C34", "Statistics functions compute the defined quantity on every sample",
  "mean, median, standard_deviation (sample), rms, minimum, maximum, min_max and accumulate, in their container, iterator-range and accessor forms, return the mathematically defined quantity (up to rounding) for every finite sample and every order of elements, including data with a large common offset and values near the ends of the range of their type as far as sums and squares remain representable; empty and single-element samples give the documented NaN or limit values, and NaN elements are ignored by the extrema. remove_outliers removes, one after the other, k elements that are each farthest from the mean of those remaining and keeps the others in order.",
  ["inputs"], "all samples, element types and accessors", "Tests use a few fixed samples.", [S+"statistics.h"], [("mean, median, standard_deviation, min_max, remove_outliers", S+"statistics.h")], REC, RECNOTE),
P("C35", "The civil calendar maps days and dates onto each other exactly",
  "For every day in the supported years -32767..32767 the conversion between day counts (sys and local), year-month-day and year-month-weekday forms is a bijection that follows the proleptic Gregorian calendar (leap years, month lengths, weekdays, nth and last weekday of a month), and ok() holds exactly for existing dates. Comparisons order calendar values chronologically. Adding or subtracting months, years and days to dates, months and weekdays in every form (operators, compound assignments, increments, either order of operands), the differences, the composition of dates by operator/ in any order, and the splitting and rounding of durations and time points (hh_mm_ss, floor, ceil, round half to even, trunc, abs, make12, make24) obey integer calendar arithmetic in both directions across year ends and the epoch.",
  ["inputs"], "all days and dates of the supported range, all offsets", "The repository has no tests of its own for the calendar.", [S+"date.h"], [("year_month_day, weekday, year_month_weekday, time_of_day", S+"date.h")], REC, RECNOTE),
P("C37", "invoke and its traits follow the INVOKE rules for every callable and argument",
  "For every callable (functions, function objects with overloads for each value category, member functions with any const and reference qualifiers, also virtual and inherited ones, member objects) and every kind of argument (objects of the class or a derived one as lvalues and rvalues, const or not, raw and smart pointers, iterators, reference wrappers, unrelated types), gul14::invoke() calls exactly what std::invoke of C++17 would, on the same object and with perfectly forwarded arguments, and returns the same result or reference. invoke_result, is_invocable and is_invocable_r (also for void) report exactly what is possible and of which type the result is. IsContainerLike holds exactly for types with cbegin(), cend() and value_type; remove_cvref removes exactly the outermost const, volatile and reference; all monostate objects are equal and hash alike.",
  ["inputs"], "all combinations of callable kind, qualifier, object form, value category and argument form", "The tests cover a few callables; the traits must hold for every type.", [S+"traits.h", S+"utility.h"], [("invoke, invoke_result, is_invocable", S+"traits.h"), ("IsContainerLike, remove_cvref", S+"traits.h"), ("monostate", S+"utility.h")], REC, RECNOTE),
P("C38", "type_name spells exactly the given type",
  "For every type, built from fundamental, class, enumeration and template types by const, volatile, pointer, reference, array and function constructions in any nesting, type_name<T>() is exactly the compiler's spelling of T, with nothing missing or added at either end, whatever characters the spelling contains.",
  ["inputs"], "all types", "The tests look at a handful of types.", [S+"type_name.h"], [("type_name", S+"type_name.h")], REC, RECNOTE),
P("C39", "Calendar values are formatted exactly as the format says",
  "For every calendar value of gul14::date, sys or local time point and duration, existing or not, operator<< and format()/to_stream() with every format (all conversion specifications with their E and O modifiers, unknown ones and ordinary characters, in any sequence) produce exactly the text that the value and the specification determine: padding, signs, two-digit and ISO week-based years and week numbers, 12-hour clock, fractions of seconds with all digits of the precision, negative durations, offsets and zone names. A specification that asks for something the value does not have (or a date that does not exist) sets failbit; the state of the stream (flags, fill, locale) is as before. (Classic locale; years 1000..9999 for specifications that are left to the locale, years of at least four digits for operator<< of dates, non-negative durations for %R.)",
  ["inputs"], "all values, all formats", "The repository has no tests for the formatting of calendar values.", [S+"date.h"], [("to_stream, format, operator<<", S+"date.h")], REC, RECNOTE),
P("C40", "Calendar values are read back from text exactly, or not at all",
  "For every text and format, parse() and from_stream() of a year, month, day, weekday, year-month, month-day, date, sys or local time point or duration either set failbit and leave the object as it was, or deliver exactly the value that the text denotes and consume exactly the text that the format covers. They accept a text exactly if it matches the format and all fields fit together: redundant fields (weekday, day of the year, week numbers, ISO week-based year, 12-hour and 24-hour clock, century and two-digit year) that contradict each other, values out of range and dates that do not exist are rejected, also when the contradicting field is not needed. A parsed UTC offset is subtracted from sys times, not from local times, and returned like the zone name. (Classic locale; without %c and %OI.)",
  ["inputs"], "all texts, all formats", "The repository has no tests for the parsing of calendar values.", [S+"date.h"], [("from_stream, parse", S+"date.h")], REC, RECNOTE),
]
