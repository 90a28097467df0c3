#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/Argos/" + f if "/" not in f else f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Every command-line word is consumed exactly once, in order",
  "Parsing consumes the words strictly left to right: each word ends up as exactly one of an option, an option's value, a positional argument, a command name or an unprocessed word, and none is skipped, repeated, merged or invented. Equivalent spellings are parsed identically: in the standard style a group such as -ab means -a -b and the rest of the group is the value of the first flag in it that takes one, --name=value means --name value, and in the slash and dash styles /name=value and -name=value mean the same as the two-word form. An option that takes a value takes exactly one, which may be empty, may look like an option or a command name and may come from the next word; a lone prefix character and any word not starting with the prefix are never options.",
  ["inputs", "configurations"], "all command lines of arbitrary words, all three option styles, all parser definitions",
  "The tests try a handful of fixed command lines per style; the claim is over every sequence of words and every mix of grouped, attached and detached values.",
  ["StandardOptionIterator.cpp", "OptionIterator.cpp", "ArgumentIteratorImpl.cpp"],
  [("option iterators", "StandardOptionIterator.cpp/OptionIterator.cpp next(), next_value()"), ("parse loop", "ArgumentIteratorImpl::next")],
  ["ArgumentIterator::next", "ParsedArguments values and unprocessed_arguments"],
  [("m_args/m_pos", "unread words and the position within the current word", "StandardOptionIterator.hpp, OptionIterator.hpp")])

p("C02", "A flag on the command line selects exactly the option it names",
  "A flag selects the option with precisely that flag whenever one exists, and otherwise, only if abbreviations are enabled, the option owning the one defined flag that starts with it; if several defined flags start with it, or none does, it is an unknown option. With case-insensitive matching, flags and command names are compared ignoring the case of ASCII letters only, for every set of flags, and the outcome never depends on the order in which options were added. A flag written with a trailing = selects an option declared with that trailing =, or one declared without it provided the option takes a value.",
  ["inputs", "configurations"], "all sets of flags (any characters), all given flags, case sensitivity on/off, abbreviations on/off, all styles",
  "Tests use two or three well-separated flags; the claim is over all flag sets including ones where a flag is a prefix of another, differs only in case or contains characters between the upper- and lower-case letters.",
  ["CommandData.cpp", "StringUtilities.cpp"],
  [("sorted flag index and lower_bound lookup", "CommandData::build_option_index, find_option"), ("case-insensitive comparison", "StringUtilities.cpp compare_ci, are_equal_ci, starts_with_ci")],
  ["ArgumentIterator::next (which option was returned)", "Unknown option error"])

p("C03", "Option operations and aliases give each value its documented history",
  "At every point of a parse the values of an option or argument are exactly those produced by applying, in command-line order, the operations of all options and arguments that share its value: assigning replaces everything with the one value, appending adds at the end, clearing removes everything, and an option with operation NONE changes nothing. The starting point is the initial values of the options sharing the value, in definition order, at the top level and each time a sub-command is entered; the value stored is the option's constant if it has one, the command-line value if it takes one, and 1 otherwise. Options and arguments share a value exactly when an alias or a common alias or flag links them within the same command; values of different commands never mix, and each value reports the option or argument it came from.",
  ["inputs", "histories", "configurations"], "all sequences of options and arguments over all definitions with aliases, constants, initial values and operations",
  "Tests check single short sequences; the claim is over every interleaving of assign/append/clear/constant options on linked values, in commands and sub-commands.",
  ["ArgumentIteratorImpl.cpp", "ParsedArgumentsImpl.cpp", "CommandData.cpp", "OptionData.cpp"],
  [("value operations", "ArgumentIteratorImpl::process_option, ParsedArgumentsImpl::assign_value/append_value/clear_value"), ("value ids", "CommandData.cpp set_internal_ids"), ("defaults", "OptionData.cpp validate_and_update")],
  ["ParsedArguments::values(view)", "ArgumentValue::argument"],
  [("m_values", "values by value id in order of arrival", "ParsedArgumentsImpl.hpp")])

p("C04", "Positional arguments are distributed by minimum and maximum counts",
  "When a command receives n positional words and n is between the sum of the minimum and the sum of the maximum counts of its arguments, the words go to the arguments in definition order: every argument first gets its minimum, and the remaining words are given to the earliest arguments that still have room. No argument ever receives more than its maximum, an argument never receives a value after a later argument has, and no argument is left below its minimum when parsing succeeds. Words beyond the maximum are an error, or unprocessed if undefined arguments are ignored, and options, option values and words after a terminating option are never counted as positional words.",
  ["inputs", "configurations"], "all argument lists with arbitrary (min,max) counts, all command lines, with options interleaved anywhere",
  "Tests cover a few definitions with at most three arguments; the claim is over all count combinations, numbers of words and placements of options among them.",
  ["ArgumentCounter.cpp", "ArgumentIteratorImpl.cpp"],
  [("distribution", "ArgumentCounter.cpp make_argument_counters, next_argument"), ("look-ahead", "ArgumentIteratorImpl::count_arguments")],
  ["ArgumentIterator::next", "ParsedArguments::values"],
  [("m_argument_counter", "how many more words each argument will receive", "ArgumentIteratorImpl.hpp")])

p("C05", "Terminating options end option or argument processing as documented",
  "After a HELP, STOP or EXIT option (with auto_exit off) no further word is processed: the iteration ends, missing arguments and mandatory options are not errors, the result code of every active command is STOP, the stopping option is reported, and all later words, including the rest of a flag group, are unprocessed in their original order. LAST_ARGUMENT also ends processing but missing arguments and mandatory options are errors; in a sub-command of a parent that allows multiple sub-commands it hands control back to that parent instead. After LAST_OPTION every later word is a positional argument or command name even if it looks like an option, until a new command starts.",
  ["inputs", "configurations"], "all option types at all positions of all command lines, nested and multiple commands",
  "Tests show each option type in one or two positions; the claim is over all positions, combinations with missing arguments, flag groups and nesting.",
  ["ArgumentIteratorImpl.cpp"],
  [("option type dispatch", "ArgumentIteratorImpl::process_option"), ("remaining words", "copy_remaining_arguments_to_parser_result"), ("states", "ArgumentIteratorImpl::State")],
  ["ArgumentIterator::next", "ParsedArguments::result_code, stop_option, unprocessed_arguments"],
  [("m_state", "whether options and arguments are still accepted", "ArgumentIteratorImpl.hpp")])

p("C06", "Parsing succeeds exactly when the command line satisfies the definition",
  "The result is SUCCESS exactly when no terminating STOP-like option occurred and there was no unknown option or command, no option lacking its value, no surplus or missing positional argument, no missing mandatory option in any of the parsed commands, and no missing required sub-command; then all parsed commands report SUCCESS. Otherwise, unless parsing was stopped, every active command reports FAILURE, exactly one error message is written that names the first offending word, option, or the expected and received counts, prefixed with the full name of the command concerned, and the words after the failure point are left unprocessed. A failed iterator never resumes: another call to next throws, while a finished one keeps reporting the end.",
  ["inputs", "configurations"], "all parser definitions and command lines with auto_exit off",
  "Tests sample individual failures; the if-and-only-if over all definitions and command lines and the exact offender cannot be sampled.",
  ["ArgumentIteratorImpl.cpp", "ArgumentCounter.cpp", "HelpText.cpp"],
  [("final check", "ArgumentIteratorImpl::check_argument_and_option_counts, has_all_mandatory_options"), ("error", "ArgumentIteratorImpl::error"), ("completeness", "ArgumentCounter::is_complete")],
  ["ParsedArguments::result_code", "text written to the stream", "ArgumentIterator::next"])

p("C07", "Sub-commands form a correct tree with their own options and arguments",
  "A word in command position selects the sub-command with that name; options and arguments after it belong to that sub-command only, and the result contains one nested entry per occurrence, in order, with its own values. When some enclosing command allows multiple sub-commands, a word naming one of its sub-commands starts a new sibling of the innermost such command's children as soon as the current sub-command has all the arguments it requires, and is an ordinary argument before that. A required sub-command that is missing is an error (by default sub-commands are required when they exist), and a word that names no sub-command where one is expected is an error.",
  ["inputs", "configurations"], "all command trees (nested, multiple, required or not), all command lines",
  "Tests use two-level trees and a few lines; the claim is over arbitrary trees and interleavings of commands, options and arguments.",
  ["ArgumentIteratorImpl.cpp", "CommandData.cpp", "ParsedArgumentsImpl.cpp"],
  [("command switch", "ArgumentIteratorImpl::process_command, find_sibling_command, reactivate_multi_command_parent"), ("requirement", "CommandData.cpp update_require_command")],
  ["ParsedArguments::subcommands", "ArgumentIterator::next"],
  [("m_parsed_args", "chain of active commands", "ArgumentIteratorImpl.hpp")])

p("C08", "Callbacks run once per occurrence and their effects are in order",
  "For every processed option or argument its own callback and then the parser-wide callback run exactly once, after its value has been stored and before the next word is read, and see the value, the definition and all values parsed so far; unknown words trigger none. Values assigned, appended or cleared by a callback take effect immediately and are subject to later operations like any other. Words added by a callback are parsed immediately after the current word (before the rest of a flag group) as if they had been on the command line, and argument counts take them into account without ever exceeding an argument's maximum. An exception thrown by a callback reaches the caller unchanged.",
  ["inputs", "histories", "configurations"], "all callback scripts (assign, append, clear, insert words, report error) on all definitions and command lines",
  "Tests have one callback each and no interplay with redistribution, groups or linked values.",
  ["ArgumentIteratorImpl.cpp", "ParsedArgumentsBuilder.cpp", "ArgumentCounter.cpp", "StandardOptionIterator.cpp", "OptionIterator.cpp"],
  [("callback dispatch", "ArgumentIteratorImpl::process_option/process_argument"), ("insertion", "update_arguments, insert()")],
  ["callback invocations and the values they see", "ArgumentIterator::next", "ParsedArguments"])

p("C09", "Unprocessed words are kept verbatim and filtering leaves exactly them",
  "The unprocessed words of a result are exactly the ignored undefined options and arguments of that command plus everything after the point where processing stopped, verbatim and in command-line order, and are empty when nothing is ignored and parsing succeeded without a terminating option. filter_parsed_arguments leaves the program name followed by exactly those unprocessed words that occur in argv, in order, as the original pointers, and sets argc to match; it never drops a later word because an earlier one is not found.",
  ["inputs", "configurations"], "all command lines, all settings of the ignore options, all terminating options",
  "Tests filter two fixed command lines.",
  ["ParsedArguments.cpp", "ArgumentIteratorImpl.cpp", "ParsedArgumentsImpl.cpp"],
  [("recording", "add_unprocessed_argument, copy_remaining_arguments_to_parser_result"), ("filtering", "ParsedArguments::filter_parsed_arguments")],
  ["ParsedArguments::unprocessed_arguments", "argc/argv after filter_parsed_arguments"])

p("C10", "All ways of running a parse agree, and const parsing is repeatable",
  "For the same definition and words, parse and stepping an iterator to the end, with a word list or argc/argv, on a const or a non-const parser, give the same values, result codes, unprocessed words, callbacks and output. A const parse or write_help_text changes nothing: repeating it or doing any number of other const operations before gives identical results, including the generated help and version options. A result obtained from an iterator before the first step is live and equals the final result once the iteration has ended; and with argc/argv a program name not set explicitly is the base name of argv[0].",
  ["inputs", "histories", "configurations"], "all definitions, all command lines, all sequences of const operations",
  "Tests call one entry point each; equality of entry points over all definitions and histories of const calls is not sampled.",
  ["ArgumentParser.cpp", "ArgumentIterator.cpp", "ParserData.cpp", "CommandData.cpp"],
  [("copying", "ArgumentParser.cpp make_copy, CommandData copy constructor"), ("entry points", "ArgumentParser::parse, make_iterator")],
  ["ArgumentParser::parse", "ArgumentParser::make_iterator", "ArgumentParser::write_help_text"])

p("C11", "Invalid definitions are rejected, valid ones are accepted",
  "Building and preparing a parser throws ArgosException exactly when the definition is invalid: an argument or command without a name, an option without flags, a flag that does not fit the option style or has whitespace or a misplaced =, both a constant and an argument, an appending option with neither, a mandatory CLEAR option, a NONE option with constant or alias, argument counts of zero or with maximum below minimum, both arguments and sub-commands in one command, a required sub-command where none exists, two flags in a command that are equal (ignoring case when matching is case-insensitive), or a change of option style after options were added. It does so regardless of the position of the fault in the definition or in a nested command, and never otherwise.",
  ["inputs", "configurations"], "all sequences of definition calls with arbitrary flags, names and settings",
  "Tests check a few invalid flags; the if-and-only-if over all definitions, nested commands and flag sets cannot be enumerated by hand.",
  ["CommandData.cpp", "OptionData.cpp", "Argument.cpp", "ArgumentParser.cpp", "Option.cpp", "Command.cpp"],
  [("validation", "OptionData.cpp validate_and_update, CommandData::add, build_option_index, update_require_command")],
  ["exceptions from definition calls and from parse/make_iterator/write_help_text"])

p("C12", "Definition objects have safe value and move semantics",
  "An Argument, Option or Command that has been moved from or added, and an ArgumentParser or ArgumentIterator that has been moved from or (for the parser) parsed non-constly, throws ArgosException on use and never crashes, whereas copies are independent: changing, adding or destroying the original or the copy does not affect the other; any number of parses of one parser can be under way at the same time, in one thread or in several, without affecting each other. A copy, and copy_from, reproduce the whole definition (names, flags, counts, texts, sections, visibility, ids, callbacks, nested commands), copy_from refuses to overwrite a text that is already set, and assignment of a fresh object makes a moved-from variable usable again.",
  ["histories"], "all sequences of construct, modify, copy, move, add, copy_from, parse and use operations on a set of objects",
  "Tests exercise single transfers; the claim is over all histories of operations.",
  ["Argument.cpp", "Option.cpp", "Command.cpp", "CommandData.cpp", "ArgumentParser.cpp", "ArgumentIterator.cpp"],
  [("validity checks", "check_argument, check_option, check_command, check_data"), ("copying", "CommandData copy/move, copy_from")],
  ["exceptions", "definition read back via ParsedArguments/views and help text"])

p("C13", "Typed access converts exactly the valid texts and rejects the rest",
  "Reading a value as a number returns precisely the number the text denotes in the requested base (0 meaning C prefixes) whenever the whole text is a number that fits the requested type, and otherwise reports an error naming the text and the option or argument; it never truncates, wraps or accepts trailing characters. A missing value yields the given default; a bool is false exactly for an empty text, 0 and false; strings are returned unchanged; and the list forms convert every value, in order, under the same rules, or yield the default list when there is none.",
  ["inputs"], "all value texts, all integer and floating-point types, all bases, one or many values",
  "Tests convert a few literals; boundaries of each type in each base and malformed texts are unbounded.",
  ["ParseValue.cpp", "ArgumentValue.cpp", "ArgumentValues.cpp"],
  [("conversion", "ParseValue.cpp parse_integer, parse_floating_point"), ("defaults and errors", "ArgumentValue.cpp, ArgumentValues.cpp")],
  ["ArgumentValue::as_*", "ArgumentValues::as_*", "error output"])

p("C14", "Splitting a value yields its parts within the requested limits",
  "Splitting a value at a separator yields the substrings between separators, in order and including empty ones, with at most max_parts parts where the last part keeps any further separators, so that joining the parts with the separator gives the original text. Fewer than min_parts parts is an error naming the value; splitting several values concatenates the parts of each; splitting an absent value yields nothing. Every part reports the option or argument its value came from.",
  ["inputs"], "all texts, separators, min/max part counts, one or many values",
  "Tests split a few fixed strings.",
  ["StringUtilities.cpp", "ArgumentValue.cpp", "ArgumentValues.cpp"],
  [("split", "StringUtilities.cpp split_string; ArgumentValue::split; ArgumentValues::split")],
  ["ArgumentValue::split/split_n", "ArgumentValues::split/split_n"])

p("C15", "Help text lists exactly what is visible, where it belongs",
  "The help text of a command has, in this order, the initial text, the usage, the about text (or the command's own help text if there is none), the sections and the final text, each replaced or suppressed by its custom text if set. The usage shows one line per visible stop-like option and one with all other options, arguments (with counts) and sub-commands whose visibility includes usage; the sections list, under their own section title or the default one, in definition order and one heading per title, each argument, sub-command and option whose visibility includes text with all its flags and its help. Hidden entries appear nowhere, the full name of a nested command includes all its parents, and an error message shows the error usage text or else the usage. A text given as a function is what the function returns when the text is shown.",
  ["inputs", "configurations"], "all definitions with arbitrary visibility, sections, texts, nesting and generated options",
  "Tests compare a few complete help texts.",
  ["HelpText.cpp", "CommandData.cpp", "ParserData.cpp"],
  [("help text", "HelpText.cpp write_help_text, write_usage, write_argument_sections")],
  ["text written by write_help_text, HELP options and errors"])

p("C16", "Text layout wraps without losing text and respects the line width",
  "Written text keeps all its words in order; lines are broken only between words, or inside a word that does not fit, at places given by the word splitting rules or, failing that, at default break points; only spaces, line breaks and the hyphens at splits are added. No line is wider than the line width, counted in code points and whenever the width left after indentation exceeds two characters, line breaks in the text are kept, and runs of spaces between words on a line are preserved. Wrapped lines continue at the indentation of the text they belong to: aligned after leading spaces or tabs, or after a list marker (-, * or a number with a period).",
  ["inputs", "configurations"], "all texts (including UTF-8, tabs, line breaks, long words), all line widths, all sets of word splitting rules",
  "Tests format a few paragraphs; all combinations of words, widths, markers and split rules are unbounded.",
  ["TextFormatter.cpp", "TextWriter.cpp", "WordSplitter.cpp", "StringUtilities.cpp"],
  [("layout", "TextFormatter::write_words, append_word, alignment"), ("splitting", "WordSplitter::split, default_rule"), ("width", "TextWriter, count_code_points")],
  ["text written by help and error messages"],
  [("m_line/m_indent/m_spaces", "current line, indentation and pending spaces", "TextWriter.hpp")])

p("C17", "Output streams and process exit follow the settings",
  "With auto_exit on the process exits with the normal exit code right after a HELP or EXIT option (including the generated help and version options), and with the error exit code after any parse or reported value error; STOP options, LAST_ARGUMENT and success never exit. With auto_exit off the process never exits: parse errors give a FAILURE result and errors reported on values throw. Help and version text goes to the configured stream or else standard output, error text to the configured stream or else standard error, callbacks run before the exit, and nothing is written otherwise.",
  ["inputs", "configurations"], "all exit settings and codes, streams, option types and kinds of errors",
  "Exiting cannot be tested in-process and the tests always turn auto_exit off.",
  ["ArgumentIteratorImpl.cpp", "ParsedArgumentsImpl.cpp", "HelpText.cpp", "ParserData.cpp"],
  [("exit", "ArgumentIteratorImpl::process_option/error, ParsedArgumentsImpl::error"), ("streams", "HelpText.cpp, ParserData.cpp")],
  ["process exit status", "stdout, stderr and the configured stream"])

p("C18", "Values can be read by any name or view, and unknown names are rejected",
  "Within a parsed command, has, value and values give the same answer for every flag, name and alias of the same option or argument and for its view, and throw for a name that belongs to none (an option with operation NONE has no name); has is true exactly when there is at least one value. Reading a single value throws if there are several and is empty if there is none; lists have all values in order and indexing agrees with iteration. The views describe the definition (names, flags, texts, sections, aliases, constants, counts, ids, visibility, type) as it was given, list all arguments, options and sub-commands in definition order, and lead from each value back to the option or argument that supplied it. Printing a result shows the values of each option and argument once, under all the names that share them, then the unprocessed words and the sub-commands. Reading never changes a result, also when several threads read it, and the values and views that an iterator has returned stay readable, unchanged, as long as it lives.",
  ["inputs", "configurations"], "all definitions with aliases and shared flags, all names, all parse results",
  "Tests look up a few names.",
  ["ParsedArguments.cpp", "ParsedArgumentsImpl.cpp", "ArgumentValues.cpp", "ArgumentValueIterator.cpp", "OptionView.cpp", "ArgumentView.cpp", "CommandView.cpp"],
  [("name index", "ParsedArgumentsImpl::get_value_id, get_value, get_values, get_argument_view"), ("views", "ArgumentView.cpp, OptionView.cpp, CommandView.cpp")],
  ["ParsedArguments::has/value/values", "ArgumentValue(s)", "views", "print"])

p("C19", "Errors reported by the program look like the parser's own",
  "An error reported through a result, a value, a list of values or a callback writes one message prefixed with the full name of the command the value belongs to and, when it concerns a single option or argument, that option's flags or the argument's name, followed by the error usage text or the usage, and then throws or exits according to auto_exit. When the values come from different options or arguments no name is shown.",
  ["inputs", "configurations"], "all definitions, commands, values and messages",
  "Tests trigger a couple of errors and check only that they throw.",
  ["ParsedArgumentsImpl.cpp", "ArgumentValue.cpp", "ArgumentValues.cpp", "HelpText.cpp", "ParsedArgumentsBuilder.cpp"],
  [("error text", "HelpText.cpp write_error_message"), ("origin", "ArgumentValues.cpp get_argument_id")],
  ["text written to the stream", "exceptions"])

p("C20", "The single-file distribution behaves like the library",
  "A program built with the two files in single_src behaves exactly like one built with the library from src and include: the same public interface, parse results, exceptions, help and error texts for every definition and command line.",
  ["inputs", "configurations"], "all definitions and command lines",
  "The tests are built against the library only; the single-file version is compiled by the examples but never tested.",
  ["single_src/Argos/Argos.hpp", "single_src/Argos/Argos.cpp"],
  [("merge script", "tools/make_single_src/mergecpp.py")],
  ["everything observable through the public interface"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
