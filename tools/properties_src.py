#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))
F = "parser/fanuc/"
p("C01", "Axis rotation is exactly the chosen quarter-turn, for every block",
  "Rotating a parsed Fanuc block by X/Y/Z 90, 180 or 270 degrees renames the axis words X Y Z, the arc-centre words I J K, the plane codes G17/G18/G19 and the arc directions G2/G3, and flips the sign of a value, exactly as that rigid rotation of the coordinate system requires, and leaves every other token and every digit untouched. Consequently two 90-degree turns about an axis equal one 180-degree turn, and a 90-degree turn followed by a 270-degree turn gives the block back (an explicit plus sign may be dropped).",
  ["inputs", "configurations"], "every token sequence, every one of the nine rotation options",
  "The tests rotate one hand-written block for X90 and X270 only; the group laws over all nine options and all word/sign combinations are universally quantified.",
  [F+"AxesRotator.cpp", F+"AllAttributesParser.cpp"],
  [("rotation table and per-token visitor", F+"AxesRotator.cpp"), ("rotate_axes entry point", F+"AllAttributesParser.cpp")])
p("C02", "Length-unit conversion scales exactly the length words, by 25.4",
  "Converting a block between millimetres and inches replaces the number of every length or feed word by the original number divided (to inch) or multiplied (to mm) by exactly 25.4, rounded to the number of decimals the target unit allows, and swaps the unit code G21/G20; the sign is kept. Words of any other kind, values given by a macro or an expression, everything after a dwell G4, a skipped (/) block, and the I J K R words of a G68 coordinate rotation are left untouched.",
  ["inputs", "configurations"], "every block, every word grammar, both directions",
  "Tests convert a handful of fixed blocks; that the value denoted by the text is right for every number, precision and word table is a statement over all inputs.",
  [F+"UnitConverter.cpp", F+"AllAttributesParser.cpp"],
  [("per-token conversion visitor", F+"UnitConverter.cpp"), ("convert_length", F+"AllAttributesParser.cpp")])
p("C03", "Renumbering gives every numberable block the next number and nothing else",
  "Renumbering a program removes any old block number and puts, in front of each block that is not skipped, one new number word whose value starts at the configured start and grows by the configured increment for each numbered block, wrapping to the beginning of the range when the configured maximum would be exceeded; with a frequency above one only every frequency-th block is numbered (the blocks between lose an old number), and with leading zeros the number is padded to the width of the largest number the word allows; when only existing numbers are renumbered, blocks without one are left alone and do not count. Blocks that start with / , %, O or a comment get no number and do not consume one, and all other tokens keep their order and content.",
  ["inputs", "histories", "configurations"], "every sequence of blocks and every renumbering setting",
  "Tests renumber two short programs; the counter evolution is a property of the whole history of calls for arbitrary settings.",
  [F+"Renumberer.cpp", F+"AllAttributesParser.cpp"],
  [("numbering counter and per-token visitor", F+"Renumberer.cpp"), ("renumber / remove_numbering", F+"AllAttributesParser.cpp")])
p("C04", "Removing numbers, comments or skip marks removes those tokens only",
  "Removing block numbers deletes exactly the block-number word, removing comments deletes exactly the comments, and removing optional blocks deletes exactly the numbered skip marks (/1, /2 ...) that begin a block; every other token survives unchanged and in its original order, and applying the removal of comments or skip marks twice changes nothing more.",
  ["inputs"], "every block",
  "Tests cover one block of each kind; the frame condition (nothing else changes) is universally quantified.",
  [F+"AllAttributesParser.cpp", F+"Renumberer.cpp"],
  [("remove_comment / remove_optional_block", F+"AllAttributesParser.cpp"), ("Renumberer::remove", F+"Renumberer.cpp")])
p("C05", "Splitting a program loses and invents nothing",
  "However a program is split (by text, block count, tool change, path or time), concatenating the produced pieces in order and removing the retraction/return moves the splitter inserted at the cut points gives back exactly the input lines in order (blocks apart from their block numbers, which the splitter renumbers consecutively from 1); cuts fall only where the chosen criterion allows them, for block-count splitting every piece except the last holds at least the configured number of blocks and is cut at the first following permitted block, and a program with a line that cannot be read, or a split without a limit, is refused with a message instead of being split in part.",
  ["inputs", "histories", "configurations"], "every program text and every splitting configuration",
  "Tests split one program per mode; conservation of lines is a whole-history property over all programs.",
  [F+"FileSplitter.cpp", F+"AllAttributesParser.cpp"],
  [("per-criterion evaluation of each line", F+"FileSplitter.cpp"), ("split_file", F+"AllAttributesParser.cpp")])
p("C06", "A macro variable reads as its latest assignment at or before the line",
  "After any history of assignments, evaluating macro variable #i on line n yields the value most recently assigned to #i on a line not after n, whatever other variables or later lines assign, and a variable never assigned up to that line is reported as unset instead of being given some other variable's value.",
  ["histories", "inputs"], "every history of macro assignments and every lookup",
  "The key order and lower-bound lookup must be right for all pairs of keys; tests read a few variables back.",
  [F+"MacroDefines.h", F+"MacroEvaluator.cpp", F+"MacroEvaluatedCodeVerifier.cpp", F+"CodeGroupsVerifier.cpp"],
  [("macro key order", F+"MacroDefines.h"), ("assignment and lookup visitors", F+"MacroEvaluator.cpp")])
p("C07", "Macro expressions evaluate to their G-code arithmetic value",
  "An arithmetic macro expression that is accepted evaluates to the value of ordinary real arithmetic with brackets first, then functions, then * / MOD AND, then + - OR XOR, left to right, with angles in degrees, FIX/FUP rounding down/up in magnitude as the controller does, and BIN/BCD as mutually inverse decimal packing; no accepted expression makes the evaluator crash.",
  ["inputs"], "every expression over the supported operators and functions",
  "Operator semantics and precedence over all trees cannot be sampled; tests evaluate some dozens of strings.",
  [F+"ValueCalculator.cpp"],
  [("recursive evaluation over the parsed expression", F+"ValueCalculator.cpp"), ("decimal packing helpers", F+"ValueCalculator.cpp")])
p("C08", "Modal words are recorded in their system variables",
  "Executing a block that contains one of the words B D E F H M N O S with a number stores exactly that number (sign and decimals included) in the system variables reserved for that word (previous block, active block) on the block's line, whichever value they held before, and stores nothing for any other word; macro variables are substituted by their values first.",
  ["inputs", "histories"], "every block and line number",
  "Tests check a few words; the word-to-variable table and value conversion must hold for every number and word.",
  [F+"SystemMacroAssigner.cpp"],
  [("per-token visitor and word table", F+"SystemMacroAssigner.cpp")])
p("C09", "Two codes of one modal group in one block are always reported, others never",
  "A block is rejected for conflicting codes exactly when it contains two G (or two M) codes that belong to a common modal group, and, when codes are required to exist, when it contains a code no group lists; whether a code is written as a literal or through a macro variable makes no difference, and blocks without such a conflict are accepted.",
  ["inputs", "configurations"], "every block, every group table, every macro state",
  "Soundness and completeness of conflict detection quantify over all group tables and all token orders.",
  [F+"CodeGroupsVerifier.cpp", F+"AllAttributesParser.cpp"],
  [("group visitor", F+"CodeGroupsVerifier.cpp")])
p("C10", "Spindle speed, feed, tool and travel limits are enforced exactly",
  "A block is reported exactly when a commanded spindle speed, feed or tool number exceeds the machine's configured maximum (on a lathe the tool number is the leading half of the digits), or an axis has left its configured travel range in workpiece coordinates; the first violated limit is the one named and values on the limit are accepted.",
  ["inputs", "configurations"], "every block, every machine configuration and axis state",
  "Boundary behaviour for all limits and values; tests use one configuration.",
  [F+"RangeVerifier.cpp"],
  [("limit visitor and axis range check", F+"RangeVerifier.cpp")])
p("C11", "Machining without spindle rotation is reported at the first cutting block, once",
  "Over any sequence of blocks, the first block that cuts (G1 or a drilling cycle 81-89) is reported exactly when no spindle speed S, or else no direction M3/M4, has been commanded in that or any earlier block (the speed is named first), and no other block is ever reported for it; on machines where the operator starts the spindle nothing is reported as missing, and instead every block commanding S, M3 or M4 is rejected.",
  ["histories", "inputs"], "every sequence of blocks",
  "A property of the modal state over the whole history; tests feed a few blocks.",
  [F+"RotationVerifier.h", F+"RotationVerifier.cpp"],
  [("modal visitor state", F+"RotationVerifier.h")])
p("C12", "Repeated words in a block are reported exactly when the rules forbid them",
  "A block is rejected for a repeated word exactly when the same unique word (as the machine's word table marks it) occurs twice in it, and, for Haas machines, when a second M word occurs; blocks that are independent of each other do not influence each other's verdict.",
  ["inputs", "histories", "configurations"], "every block and every word table",
  "The verdict must depend only on the current block for all blocks; tests sample a few.",
  [F+"UniqueCode.cpp", F+"SameWordInBlockVerifier.cpp"],
  [("seen-word set", F+"UniqueCode.cpp"), ("word counter", F+"SameWordInBlockVerifier.cpp")])
p("C13", "A word's value is accepted exactly when its format and range allow it",
  "A value of a word, written literally or (line numbers and jump targets excepted) obtained from a macro variable, is accepted exactly when its integer part with sign lies in the word's configured range and its decimal part is present, absent or bounded as the word's configuration says; and the verdict on a line depends only on that line, not on the lines checked before it.",
  ["inputs", "histories", "configurations"], "every word, value and previously checked lines",
  "Independence of history and exact boundaries quantify over all lines and configurations.",
  [F+"AllAttributesParserGrammar.h", F+"AllAttributesParser.cpp"],
  [("verify_range and bracket bookkeeping", F+"AllAttributesParserGrammar.h")])
p("C14", "Motion path lengths equal the geometric length of the commanded motion",
  "The path length computed for rapid and linear moves is the Euclidean distance, for circular moves the arc length of the commanded arc in the active plane (same result in all three planes up to renaming the axes), for helical and spiral moves the helix length, and for drilling cycles the sum of the approach, plunge and retract distances; lengths are never negative and incremental and absolute programming of the same motion give the same length. Conventions: a drilling depth given as a distance counts from the start level under G98 and from the reference level under G99; peck drilling feeds a fifth of the step again on every pass; arc ends lie on the circle.",
  ["inputs"], "every start point, end point, centre or radius, and plane",
  "Geometry over the reals; tests compare about thirty fixed numbers.",
  [F+"PathCalculator.cpp", F+"PathCalculator.h", F+"MathUtils.h"],
  [("closed-form path functions", F+"PathCalculator.cpp"), ("vector helpers", F+"MathUtils.h")])
p("C15", "Path and time totals are the running sums of the per-block motion",
  "After any sequence of blocks, the total path is the sum of the per-block rapid and cutting paths, each block's rapid (cutting) time is its path divided by the active rapid (working) feed rate, the total time is the sum of block times including dwell, tool-change, pallet-change and measurement times, and per-tool totals start at zero when a tool is selected for the first time and continue when it is selected again; axis words of dwells and of setting codes are no motion, and resetting returns all totals and modal state to their initial values.",
  ["histories", "inputs"], "every sequence of blocks and every machine configuration",
  "An invariant over the whole history of blocks; tests run a few programs.",
  [F+"AttributesPathCalculator.cpp", F+"AttributesPathCalculator.h"],
  [("evaluate / modal state", F+"AttributesPathCalculator.cpp")])
p("C16", "Machine points are taken relative to the workpiece zero point",
  "When machine settings are applied, each coordinate of the tool-exchange point and of the machine base point that the path calculation uses equals the configured machine coordinate minus the zero-point offset of that axis, axes without a zero-point offset keep the configured coordinate, and no axis is dropped or added.",
  ["configurations"], "every set of machine points and zero point",
  "No test exercises non-zero zero points; the mapping must hold for every axis set and offset.",
  [F+"AllAttributesParser.cpp", "parser/heidenhain/AllAttributesParser.cpp"],
  [("set_ncsettings", F+"AllAttributesParser.cpp")])
p("C17", "Every setting value survives conversion to text and back",
  "For every enumerated setting of the machine, controller, program and conversion configuration, converting a value to its text and that text back yields the same value, distinct values have distinct texts, the texts are those used by the shipped configuration files, and any text that names no value is rejected with an error rather than mapped to some value (a rotation direction is also named by M03/CLW, M04/CCLW, M05).",
  ["inputs", "configurations"], "every enumeration, every enumerator and every string",
  "The rejection half quantifies over all strings; tests do not cover the converters.",
  ["parser/GeneralParserDefines.cpp", F+"AllAttributesParserDefines.cpp", "parser/heidenhain/AllAttributesParserDefines.cpp"],
  [("to_string / to_<Enum> pairs", "parser/GeneralParserDefines.cpp")])
p("C18", "The C interface returns each token's exact text and all of them",
  "For every parsed block, the list returned through the exported C interface has one entry per token, in order, whose word and value texts concatenate to that token's exact source characters (sign, brackets, macro mark, digits, point and decimals included), and every string is zero-terminated within its allocation.",
  ["inputs"], "every block",
  "Tests never call the exported interface.",
  [F+"AllAttributesParserWrapper.cpp", F+"AllAttributesParserWrapper.h", "parser/AllAttributesParserWrapperBase.cpp", "parser/AllAttributesParserWrapperBase.h"],
  [("marshalling visitors", F+"AllAttributesParserWrapper.h")])
p("C19", "Each rejected line yields one diagnostic, at that line",
  "When a document is opened or changed, the server publishes for it exactly one diagnostic per non-empty line the parser rejects, in document order, placed at that line (zero-based), whether its lines end with LF or CRLF, with the column and text of the parser's message, and no diagnostic for accepted or empty lines.",
  ["inputs", "histories"], "every document text and edit history",
  "The server has no tests; line bookkeeping must hold for every document.",
  ["nclangsrv/NCParser.cpp", "nclangsrv/JsonMessageHandler.cpp"],
  [("line splitting and message prefixing", "nclangsrv/NCParser.cpp"), ("publishDiagnostics", "nclangsrv/JsonMessageHandler.cpp")])
p("C20", "Hover shows the code or macro under the cursor and its value there",
  "A hover request answers with the G/M code or macro variable whose characters contain the cursor position, with the range of exactly those characters; a macro variable shows the value most recently assigned at or before that line or, where neither a value nor a description exists, says it is undefined, a code (also one given through a variable) shows its own description regardless of leading zeros, and a position on no such word, on no existing line or in no open document answers null; positions count bytes.",
  ["inputs", "histories"], "every document, position and description table",
  "The server has no tests; position arithmetic must be right for every line and column.",
  ["nclangsrv/JsonMessageHandler.cpp", "nclangsrv/MacrosDescReader.cpp", "nclangsrv/CodesReader.cpp"],
  [("pattern search, code normalisation", "nclangsrv/JsonMessageHandler.cpp"), ("description lookup", "nclangsrv/MacrosDescReader.cpp")])
p("C21", "Displayed path and time figures denote the computed values",
  "The path and time figures shown next to a block denote the calculated values: a time of t seconds is printed as hours:minutes:seconds.milliseconds (hours omitted when zero) equal to t rounded to the millisecond, with minutes and seconds below sixty, and each of the total, tool, rapid and cutting figures appears exactly when it reaches the display threshold (rapid and cutting figures show the sum up to the block and appear when the block's own share reaches it; the tool's path appears when it also differs from the total).",
  ["inputs"], "every finite duration and path result",
  "The server has no tests; carry behaviour at unit boundaries needs all values.",
  ["nclangsrv/NCParser.cpp"],
  [("time and result formatting", "nclangsrv/NCParser.cpp")])
p("C22", "Every configuration key sets exactly the setting it names",
  "Reading a machine-settings, word-grammar, code-group or code-description file stores the value under each key in exactly the setting of that name, for every key of the format, and a file lacking a required key or holding an ill-typed value is refused with a reported failure, no program being checked against it.",
  ["configurations"], "every well-formed or ill-formed configuration file",
  "No test reads configuration files; a crossed key is visible only for values that differ.",
  ["nclangsrv/NCSettingsReader.cpp", "nclangsrv/WordGrammarReader.cpp", "nclangsrv/CodeGroupsReader.cpp", "nclangsrv/CodesReader.cpp", "nclangsrv/MacrosDescReader.cpp"],
  [("read functions", "nclangsrv/NCSettingsReader.cpp")])
p("C23", "Every message exists in every language and takes its arguments in place",
  "For every message and every supported language a text exists, each argument given to a message appears in the produced text at the place the text reserves for it, and both languages reserve places for the same arguments.",
  ["inputs", "configurations"], "every message, language and argument text",
  "The test checks a single Polish message.",
  [F+"MessageText.h", F+"MessageTextImpl.h", F+"MessageText.cpp", F+"MessageText_en.cpp", F+"MessageText_pl.cpp"],
  [("message tables and formatter", F+"MessageTextImpl.h")])
p("C24", "Printing a parsed block and parsing it again gives the same block",
  "For every text line the Fanuc grammar accepts, printing its tokens and parsing the result yields the same tokens.",
  ["inputs"], "every accepted line",
  "Tests parse fixed lines only.",
  [F+"AllAttributesParserGrammar.h", "nclangsrv/NCParser.cpp"],
  [("line grammar", F+"AllAttributesParserGrammar.h")])
p("C25", "Heidenhain lines are tokenised without loss",
  "For every line the Heidenhain grammar accepts, the tokens carry every non-blank character of the line in order.",
  ["inputs"], "every accepted line",
  "Tests parse fixed lines only.",
  ["parser/heidenhain/AllAttributesParserGrammar.h"],
  [("line grammar", "parser/heidenhain/AllAttributesParserGrammar.h")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P))
