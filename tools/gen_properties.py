import json
V='include/boost/metaparse/v1/'
def f(*xs): return [V+x for x in xs]
P=[]
def add(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or ["type P::apply<S, Pos>::type: get_result / get_remaining / get_position / get_message"],hook_needed=None)))

add("C01","Parsing never loses, invents or misplaces input",
 "Whatever parser is built from the library's parsers and combinators (also around user-defined parsers), when it accepts an input the remaining string is a suffix of that input and the reported position is exactly the line, column and previous character of that suffix, counted from the position the parse started at. When it rejects, the reported position is that of the place in the input where the rejecting sub-parser gave up, and every sub-parser is only ever applied to a suffix of the input together with the position of that suffix. Lines are counted for \\n, \\r and \\r\\n (one line each), a column is one more than the number of characters read on the line.",
 ["programs","inputs"],"for every parser expression, every input text (any bytes, any mix of line endings, any length) and every start position",
 "The tests apply single combinators to two or three short texts ('hello', '19 ') that contain no line ending and look at the position of a handful of them; composition, multi-line texts and non-default start positions are not sampled.",
 f("one_char.hpp","next_char.hpp","next_line.hpp","source_position.hpp","accept.hpp","reject.hpp","cpp11/impl/nth_of_c_skip_remaining.hpp","cpp98/impl/skip_seq.hpp","impl/apply_parser.hpp"),
 [("one_char::next_pos decides between next_line and next_char",V+"one_char.hpp"),("every combinator hands get_remaining and get_position of the previous result on",V+"cpp11/sequence.hpp"),("accept/reject carry remaining string and position",V+"accept.hpp")])

add("C02","Character parsers and predicates accept exactly their documented characters",
 "one_char, lit, lit_c, digit, letter, alphanum, space, range, range_c, one_of_c, one_char_except and one_char_except_c accept an input exactly when its first character is in their documented set; they then consume exactly that character and their result is that character, and otherwise (or on empty input) they reject at the current position with their documented error. The predicates util::is_digit, is_letter, is_lcase_letter, is_ucase_letter, is_whitespace(_c), in_range and in_range_c agree with the same sets for every character.",
 ["inputs","programs"],"for every one of the 256 character values as input, every parameter character, every range (also single-element and negative-char ranges) and every number of listed characters the configuration allows",
 "Each parser is tried with one accepted and one rejected character; boundary characters such as '/', ':', '@', '[', '`', '{', NUL and bytes >= 0x80 and lists longer than three are never tried.",
 f("one_char.hpp","lit.hpp","lit_c.hpp","digit.hpp","letter.hpp","alphanum.hpp","space.hpp","range.hpp","range_c.hpp","one_of_c.hpp","cpp11/one_of_c.hpp","cpp14/one_of_c.hpp","cpp98/one_of_c.hpp","cpp11/one_char_except_c.hpp","cpp98/one_char_except.hpp","cpp11/impl/any_of_c.hpp","cpp11/impl/is_none_c_impl.hpp","util/in_range_c.hpp","util/is_whitespace_c.hpp"),
 [("accept_when<one_char, predicate, error>",V+"accept_when.hpp"),("any_of_c / or_c / is_none_c pack evaluation",V+"cpp11/impl/any_of_c.hpp"),("range predicates",V+"util/in_range_c.hpp")])

add("C03","Sequencing runs parsers in order and selects the documented result",
 "sequence, sequence_applyN, nth_of, nth_of_c, first_of, last_of, middle_of, iterate, iterate_c, keyword, token, spaces, empty and entire_input apply their parsers in order, each to what the previous one left, and accept exactly when all of them accept. The result is the documented one (all results in order, the n-th, the first, the last, the middle, T applied to the results, the keyword's result) and everything that was matched is consumed. When one parser fails, its error is the error of the whole at that place, except that middle_of reports a missing closing part as unpaired with the position of the opening part, and an out-of-range index is reported as such.",
 ["programs","inputs"],"for every list of parsers of every length the configuration allows, every index, every iteration count, every keyword and every input",
 "The tests use two or three parsers, always accepting or failing at the first or last place, and compare single results; they never vary the failing position, the arity up to the limit, zero-width parsers or long keywords.",
 f("cpp11/sequence.hpp","cpp98/impl/sequence_impl.hpp","sequence_apply.hpp","cpp11/impl/nth_of_c.hpp","cpp11/impl/nth_of_c_skip_remaining.hpp","cpp98/impl/nth_of_c_impl.hpp","cpp98/impl/skip_seq.hpp","cpp11/first_of.hpp","cpp11/last_of.hpp","cpp98/last_of.hpp","middle_of.hpp","keyword.hpp","iterate_c.hpp","impl/iterate_impl.hpp","token.hpp","spaces.hpp","empty.hpp","entire_input.hpp"),
 [("fold over the parser list stopping at the first error",V+"impl/apply_parser.hpp"),("nth_of_c recursion and skipping of the rest",V+"cpp11/impl/nth_of_c.hpp"),("unpaired wrapping",V+"middle_of.hpp")])

add("C04","Choice picks the first accepting alternative; look-ahead consumes nothing",
 "one_of behaves exactly as the first of its parsers that accepts the input, whatever the later ones would do, and when none accepts it rejects at the furthest position any of them reached, with the error of an alternative that failed there (none_of_the_expected_cases_found when nobody got beyond the start). optional is its parser or, when that rejects, its default with nothing consumed; if_, except and look_ahead never consume input, and give the branch value, the negated verdict and the parser's result respectively. repeated_one_of and repeated_one_of1 apply that choice repeatedly.",
 ["programs","inputs"],"for every list of alternatives (0 up to the configured limit, ambiguous, failing at different depths) and every input",
 "The tests have two or three single-character alternatives, so ambiguous alternatives, alternatives with a common prefix that fail at different depths, and lists near the limit are not sampled; error positions of failing choices are not compared.",
 f("cpp11/one_of.hpp","cpp98/impl/one_of.hpp","cpp98/impl/one_of_fwd_op.hpp","cpp11/impl/eval_later_result.hpp","cpp98/impl/later_result.hpp","optional.hpp","if_.hpp","except.hpp","look_ahead.hpp","cpp11/repeated_one_of.hpp","cpp11/repeated_one_of1.hpp","cpp98/repeated_one_of.hpp","cpp98/repeated_one_of1.hpp"),
 [("first accept wins, otherwise the later of the errors",V+"cpp11/impl/eval_later_result.hpp"),("look_ahead/if_/except return S and Pos unchanged",V+"look_ahead.hpp")])

add("C05","Repetition and folds match maximally and combine results in order",
 "repeated, foldl, foldr and their 1 and _start_with_parser variants apply the parser as often as it accepts, consume exactly that text, and combine the results, in the documented direction and argument order, with the initial state (a given value or the result of the state parser, which runs first for foldl and last for foldr). The plain variants accept any input, the 1 variants reject with the parser's own error exactly when it does not match once, and the _start_with_parser variants reject exactly when the state parser does. repeated and repeated1 give the sequence of the results in order.",
 ["programs","inputs"],"for every element parser that consumes input, every state, every combining operation (uninterpreted) and every number of repetitions including zero and hundreds",
 "The tests fold one-character parsers over at most three characters with commutative or order-insensitive checks on few texts; multi-character elements, partially matching last elements and long repetitions are not covered.",
 f("foldl.hpp","foldl1.hpp","foldr.hpp","foldr1.hpp","foldl_start_with_parser.hpp","foldr_start_with_parser.hpp","repeated.hpp","repeated1.hpp","impl/back_inserter.hpp"),
 [("foldl recursion with updated state",V+"foldl.hpp"),("foldr recursion applying BackwardOp on the way back",V+"foldr_start_with_parser.hpp")])

add("C06","Reject-incomplete repetitions never swallow a half-matched element",
 "foldl_reject_incomplete, foldr_reject_incomplete, their 1 variants, foldl_reject_incomplete_start_with_parser, repeated_reject_incomplete and repeated_reject_incomplete1 agree with the plain versions as long as the element parser's final failure happens without it having consumed anything. When the last attempt fails after consuming part of an element, the whole parser rejects with exactly that error and position. fail_at_first_char_expected accepts, consuming nothing, exactly when its parser fails at once, passes a later failure on and rejects with expected_to_fail when its parser accepts.",
 ["programs","inputs"],"for every element parser (including ones with several characters, choices and nested repetitions), every number of complete elements before the incomplete one and every place at which the last element breaks off",
 "The tests use one element parser and one broken input each, breaking at one place; the combination of zero, one or many complete elements with every break-off point, and multi-line elements, are not sampled.",
 f("foldl_reject_incomplete.hpp","foldl_reject_incomplete1.hpp","foldr_reject_incomplete.hpp","foldr_reject_incomplete1.hpp","foldl_reject_incomplete_start_with_parser.hpp","repeated_reject_incomplete.hpp","repeated_reject_incomplete1.hpp","fail_at_first_char_expected.hpp"),
 [("comparison of the failure position with the start of the attempt",V+"foldl_reject_incomplete.hpp"),("fail_at_first_char_expected",V+"fail_at_first_char_expected.hpp")])

add("C07","Result and error transformers change only what they document",
 "transform, always, always_c, accept_when, change_error_message, transform_error, transform_error_message, return_ and fail change only the documented part of an outcome: transform and always change the result and nothing else, accept_when turns acceptance into its error at the start position exactly when the predicate is false, change_error_message rejects at the start position with its message exactly when its parser rejects, and the transform_error variants apply their function to the error (keeping its position) and leave acceptances alone. The functions and predicates are applied exactly to the parser's result or error message.",
 ["programs","inputs"],"for every wrapped parser (accepting or rejecting, consuming or not, nested transformers), every function and every input",
 "The tests wrap one-character parsers and look at the one field that is meant to change; that the other fields (remaining string, position, result or message) stay untouched under nesting is not compared.",
 f("transform.hpp","always.hpp","always_c.hpp","accept_when.hpp","change_error_message.hpp","transform_error.hpp","transform_error_message.hpp","return_.hpp","fail.hpp","unless_error.hpp"),
 [("unless_error / eval_if on is_error",V+"unless_error.hpp"),("accept with only the result replaced",V+"transform.hpp")])

add("C08","Numbers: digits and decimal integers get their exact value",
 "int_ accepts exactly the inputs that start with a decimal digit, consumes the maximal run of digits and its result is the decimal value of that run, for every value that fits mpl::int_ (0..INT_MAX-1) and with any number of leading zeros. digit_val gives the value of one digit, and util::digit_to_int(_c) and util::int_to_digit(_c) are exact inverses on 0..9, in all their spellings (boxed, unboxed, curried). On anything else int_ and digit_val reject with digit_expected at the current position.",
 ["inputs"],"for every digit string whose value fits int, every following text, every character and every digit",
 "The tests parse '0', '1' and '19', and convert a few digits; large values, leading zeros, 10-digit values up to INT_MAX and what follows the number are not sampled.",
 f("int_.hpp","digit_val.hpp","impl/next_digit.hpp","util/digit_to_int.hpp","util/digit_to_int_c.hpp","util/int_to_digit.hpp","util/int_to_digit_c.hpp"),
 [("next_digit",V+"impl/next_digit.hpp"),("digit tables",V+"util/digit_to_int_c.hpp")])

add("C09","Source positions are consistent, totally ordered values",
 "equal_to, not_equal_to, less, less_equal, greater and greater_equal on source positions agree with the lexicographic order of (line, column, previous character), hence are mutually consistent, and a position reached later in an input compares greater than an earlier one. next_char adds one column on the same line, next_line goes to column one of the next line, both record the given character, and get_line, get_col and get_prev_char return exactly what the position was made of; start is line 1, column 1.",
 ["inputs","histories"],"for every pair of positions (equal lines, equal columns, extreme and negative values) and every sequence of next_char/next_line steps",
 "The tests compare a few hand-picked pairs and do single steps; the comparison operators are each implemented separately, and their mutual consistency over all pairs is not tested.",
 f("source_position.hpp","next_char.hpp","next_line.hpp","start.hpp","get_line.hpp","get_col.hpp","get_prev_char.hpp","fwd/source_position.hpp"),
 [("one mpl *_impl specialisation per operator",V+"source_position.hpp"),("next_char_impl / next_line_impl",V+"fwd/next_char.hpp")],
 ["boost::mpl comparison metafunctions, get_line, get_col, get_prev_char"])

add("C10","string is a faithful compile-time sequence of characters",
 "Every history of push_front, push_back, pop_front, pop_back and clear on a string gives the string with exactly the characters a list would have, and size, empty, front, back, at, begin/end, advance, next, prior, distance, deref, iterator comparison, equal_to and c_str (zero terminated) report exactly that list. Two strings are equal, and are the same type, exactly when their characters are the same, whatever history produced them, for all character values including NUL and negative ones.",
 ["histories","inputs","configurations"],"for every string up to the configured length, every history of operations and both the fixed-arity and the variadic implementation",
 "The tests use 'Hello' and the empty string and single operations; other lengths up to the limit, histories of operations and non-ASCII or NUL characters are not sampled.",
 f("cpp11/string.hpp","cpp98/string.hpp","cpp98/impl/size.hpp","cpp98/impl/update_c.hpp","cpp98/impl/push_back_c.hpp","cpp98/impl/push_front_c.hpp","cpp98/impl/pop_front.hpp","cpp98/impl/pop_back.hpp","cpp98/impl/at_c.hpp","cpp11/impl/at_c.hpp","cpp11/impl/pop_back.hpp","cpp11/impl/push_front_c.hpp","impl/string_iterator.hpp","impl/no_char.hpp"),
 [("Boost.MPL sequence specialisations for string_tag",V+"cpp11/string.hpp"),("unused slots marked with a value no char has",V+"impl/no_char.hpp")],
 ["Boost.MPL sequence metafunctions and c_str<S>::type::value at run time"])

add("C11","String literals become exactly the same compile-time string, or an error",
 "For every string literal not longer than BOOST_METAPARSE_LIMIT_STRING_SIZE, BOOST_METAPARSE_STRING(literal) is the type string<its characters> and BOOST_METAPARSE_STRING_VALUE(literal) is a value of the string type with those characters, whatever the length (0 up to 2048), the content (embedded NUL, escapes, bytes >= 0x80) and the limit in effect, including a limit that changes between two uses in one translation unit. A literal longer than the limit is a compilation error and never a truncated string.",
 ["inputs","configurations"],"for every literal, every length 0..2048 and every limit 0..2048 (the macro expansion differs for each)",
 "The tests try a few literals with the limits 32, 64 and 128/2048; the implementation is a generated table with one entry per limit and per chunk size, of which each length and limit exercises a different path.",
 f("string.hpp","string_value.hpp","cpp11/impl/string.hpp","cpp11/impl/string_at.hpp","cpp11/impl/concat.hpp","impl/assert_string_length.hpp"),
 [("generated table of chunk sizes and index lists",V+"cpp11/impl/string.hpp"),("string_at bounds check",V+"cpp11/impl/string_at.hpp")],
 ["the type and the c_str of the resulting string; the compiler's verdict for over-long literals"])

add("C12","grammar<> parsers implement the written EBNF exactly",
 "A parser built with grammar<>, import and rule accepts exactly the texts its written rules describe (sequences, |, *, +, parentheses, quoted characters with escapes, references to other rules and imported parsers, with free white space between the tokens of a rule) starting from the start symbol, and its result is the structure of the rule with every rule's semantic action applied to it. An alternative listed first wins, and the order in which rules are listed does not matter.",
 ["programs","inputs"],"for every non-recursive grammar expressible in the rule syntax, every start symbol, every set of actions and every input",
 "The tests use one-rule grammars with inputs of up to three characters; combinations of the operators, multi-rule grammars, precedence of | against sequencing and actions in nested rules are barely sampled.",
 f("grammar.hpp"),
 [("EBNF parser built from the library's own combinators",V+"grammar.hpp"),("rule and import lookup",V+"grammar.hpp")])

add("C13","build_parser and debug_parsing_error report success and failure faithfully",
 "build_parser<P>::apply<S> is P's result on the whole of S starting at start, with no alteration, when P accepts, and when P rejects the program does not compile and the compiler's diagnostics name the line, the column and the error message of the rejection. debug_parsing_error<P, S> (also with P = build_parser<Q>) prints at run time the input text and either the remaining text or the line, column and message of the error, and then ends the program with exit status 0.",
 ["programs","inputs"],"for every parser and every input, accepting or rejecting, with errors at any line and column",
 "One test applies build_parser to a parser that accepts; failing builds and debug_parsing_error are not executed at all by the tests (it exits the process).",
 f("build_parser.hpp","debug_parsing_error.hpp"),
 [("parsing_failed / x__________________PARSING_FAILED__________________x<line, col, msg>",V+"build_parser.hpp"),("display functions and exit(0)",V+"debug_parsing_error.hpp")],
 ["result type of build_parser; compiler exit status and diagnostics; stdout and exit status of a program with debug_parsing_error"])

add("C14","Error values carry accurate, complete texts",
 "The text of every error the library reports is the documented one and mentions the actual data: literal_expected names the expected character, index_out_of_range the index and both bounds, unpaired the inner message together with the line and column of the opening part, BOOST_METAPARSE_DEFINE_ERROR exactly the given text; the predefined errors have their fixed texts. get_message and get_position return exactly the message and position a rejection was made with, however the rejection was propagated.",
 ["inputs","programs"],"for every parameter value of every error template (all characters, extreme ints, nested unpaired messages), every user-defined text and every way an error propagates",
 "The tests compare the types of error messages, the texts are compared for one user-defined error only; parametrised messages are never rendered.",
 f("define_error.hpp","error/literal_expected.hpp","error/index_out_of_range.hpp","error/unpaired.hpp","error/digit_expected.hpp","error/letter_expected.hpp","error/whitespace_expected.hpp","error/unexpected_character.hpp","error/unexpected_end_of_input.hpp","error/end_of_input_expected.hpp","error/expected_to_fail.hpp","error/none_of_the_expected_cases_found.hpp","get_message.hpp","reject.hpp"),
 [("get_value of each error class","include/boost/metaparse/v1/error/"),("reject::message",V+"reject.hpp")],
 ["get_message<R>::type::get_value() at run time"])

add("C15","The same program means the same in every supported configuration",
 "A parser and an input give the same outcome (acceptance, result, remaining text, position) with the C++98, C++11, C++14 and C++17 implementations, with g++ and clang++, with fixed-arity limits raised or at their defaults, through the versioned (v1) and unversioned names and headers, and whichever order and subset of the public headers is included. Programs made of several translation units that use the library, also with different limits for string literals, link and give the same outcomes in each unit.",
 ["configurations","programs","inputs"],"for every pair of configurations and every parser and input inside the limits of both",
 "Each test is compiled on its own, once per language mode, with g++ only, default limits and one header order, and no test compares two configurations or links two translation units.",
 ["include/boost/metaparse/config.hpp","include/boost/metaparse/string.hpp","include/boost/metaparse/limit_string_size.hpp","include/boost/metaparse/limit_sequence_size.hpp","include/boost/metaparse/limit_one_of_size.hpp"]+f("sequence.hpp","one_of.hpp","one_of_c.hpp","nth_of_c.hpp","string.hpp","cpp98/","cpp11/","cpp14/"),
 [("selection of the implementation by BOOST_METAPARSE_STD","include/boost/metaparse/config.hpp"),("using declarations of the unversioned headers","include/boost/metaparse/")],
 ["outcomes logged by the same probe program built in each configuration; the linker"])

add("C16","Lazy and curried metafunctions evaluate their arguments as documented",
 "get_result, get_remaining, get_position, get_message, get_line, get_col, get_prev_char, next_char, next_line, is_error, unless_error and the util predicates and conversions documented as lazy give the same result for an argument that is a value and for any nullary metafunction (nested to any depth) evaluating to it, and the ones documented to support currying give the same result when their arguments are supplied one at a time. accept and reject, given lazy remaining strings and positions, evaluate to the values with the evaluated ones; unless_error evaluates its second argument only when the first is not an error.",
 ["programs"],"for every documented lazy metafunction, every value and every depth of laziness, and every way of splitting curried arguments",
 "The tests use values almost everywhere; single lazy arguments are tried for a few of the functions and curried forms for some predicates with one character.",
 f("accept.hpp","reject.hpp","get_result.hpp","get_remaining.hpp","get_position.hpp","get_message.hpp","is_error.hpp","unless_error.hpp","next_char.hpp","next_line.hpp","get_line.hpp","get_col.hpp","get_prev_char.hpp","util/in_range.hpp","util/is_digit.hpp","error/unpaired.hpp"),
 [("tag dispatch on the evaluated argument",V+"get_result.hpp"),("mpl::na specialisations for currying",V+"util/in_range.hpp")],
 ["values of the metafunctions printed at run time"])
add("C17","Recursive parsers work: nothing is applied before parsing reaches it",
 "A parser may be defined in terms of itself, directly or through others, as long as every cycle consumes a character before it comes back: it can then be applied to every input, terminates, and its outcome is the one the definition describes, through whichever combinators the recursion goes and however deep the input nests. What makes this work holds in general: a parser of a sequence-like combinator is not applied when an earlier one has rejected, the element parser of a _start_with_parser fold of the foldl kind is not applied when the state parser rejects, and the functions given to transform and accept_when (transform_error and transform_error_message) are not applied to a rejection (an acceptance), so a parser or function that is ill-formed for input it never gets to see does no harm.",
 ["programs","inputs"],"for every well-founded system of mutually recursive parsers over all combinators, every input and nesting depth",
 "No test defines a recursive parser (only some examples do, with one input each), and the parsers of the tests are all well-formed for every input, so an implementation that eagerly applies what is not reached passes them.",
 f("impl/apply_parser.hpp","cpp11/sequence.hpp","cpp98/impl/sequence_impl.hpp","sequence_apply.hpp","cpp11/impl/nth_of_c.hpp","cpp11/impl/nth_of_c_skip_remaining.hpp","cpp98/impl/nth_of_c_impl.hpp","cpp98/impl/skip_seq.hpp","middle_of.hpp","unless_error.hpp","transform.hpp","accept_when.hpp","transform_error.hpp","foldl_start_with_parser.hpp","foldl_reject_incomplete_start_with_parser.hpp","foldr_start_with_parser.hpp","foldr1.hpp","foldl1.hpp"),
 [("eval_if / unless_error keep the next application unevaluated",V+"unless_error.hpp"),("the fold over a parser list stops applying at the first error",V+"impl/apply_parser.hpp")],
 ["whether the program compiles; type P::apply<S, Pos>::type"])

add("C18","tools/string_headers.py gives headers that work up to the limit asked for",
 "For every --max_length_limit M and --length_limit_step K, tools/string_headers.py writes a header with which BOOST_METAPARSE_LIMIT_STRING_SIZE can be set to any value up to M, and BOOST_METAPARSE_STRING and BOOST_METAPARSE_STRING_VALUE then give exactly the characters of every literal within the limit in effect and refuse a longer one. Without arguments the limit is 2048.",
 ["configurations","inputs"],"for every maximum and step (also a step larger than, equal to and one off the maximum), every smaller limit and every literal",
 "The tests only see the committed header; the generator is not run by any test.",
 ["tools/string_headers.py"]+f("cpp11/impl/string.hpp","cpp11/impl/string_at.hpp","cpp11/impl/concat.hpp","impl/assert_string_length.hpp"),
 [("length_limits, generate_string","tools/string_headers.py")],
 ["exit status of the tool; programs built with the generated header"])

add("C19","Parsers, outcomes, positions, strings, errors and tags evaluate to themselves",
 "Everything the library calls a template metaprogramming value can be evaluated (::type) any number of times without changing it: an evaluated parser, made with any of the library's parsers and combinators, behaves exactly like the parser; and accept and reject values, the values parsers return, their positions, remaining strings and messages, string and source_position values, start, the errors with any parameters and the tags are the same type as what they evaluate to.",
 ["programs"],"for every parser expression and input and every value with any parameters",
 "The tests look at the nested type of some parsers (that it exists) and never apply it; for values built by parsers nothing is compared.",
 f("accept.hpp","reject.hpp","source_position.hpp","start.hpp","string_tag.hpp","accept_tag.hpp","fail_tag.hpp","source_position_tag.hpp","define_error.hpp","error/unpaired.hpp","error/literal_expected.hpp","error/index_out_of_range.hpp","cpp11/string.hpp","cpp98/string.hpp","foldl.hpp","foldr.hpp","one_char.hpp","transform.hpp","look_ahead.hpp","middle_of.hpp","optional.hpp","if_.hpp","except.hpp","always.hpp"),
 [("typedef of type in every value and parser",V)],
 ["type P::type::apply<S, Pos>::type; is_same of values and their ::type"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
