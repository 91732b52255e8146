#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Expressions follow documented precedence, associativity and IEEE arithmetic",
 "For every well-formed numeric or string expression and every operand value, the value is the one obtained by the documented precedence (^, unary minus, * /, + -, relations, NOT, AND, OR, high to low), with * / + - AND OR and string + associating to the left and ^ to the right, parentheses overriding, and each numeric operator computing the IEEE double result. Relations yield exactly -1 (true) or 0 (false), and AND, OR and NOT are the bitwise operations on the 32-bit signed integer values of their operands, a non-integral or out-of-range operand being a reported run-time error. The built-in numeric functions ABS, INT (round down), SGN and SQR return the mathematical result for every argument, and LOG of a non-positive number is a reported run-time error.",
 ["inputs","programs"], "every operator sequence of the grammar, every double operand (including negative zero, huge, tiny, non-integral), every position of an expression in a statement",
 "Regression programs sample a few operator pairs on a few small integers; the guarantee ranges over all operator combinations and all doubles.",
 ["Basic/parse.c","Basic/run.c","Basic/emit.c"],
 [("recursive-descent expression grammar","Basic/parse.c: OR_expression .. primary_expression"),("operator opcodes","Basic/run.c: execute")],
 [("stack","numeric evaluation stack","Basic/run.c struct vm")], ["PRINT output"])

prop("C02", "String functions and concatenation are exact and never truncate",
 "LEN, LEFT$, RIGHT$, MID$, + and the string relations give exactly the documented result for every string of up to 255 characters and every numeric argument: substrings are clipped to the string, MID$ with a start outside the string and negative or non-integral counts are reported run-time errors, and comparison is lexicographic by unsigned character code. A result that would exceed 255 characters is a reported run-time error that leaves all variables as they were, never a silent truncation. Assigning a string copies it: later changes to one variable or element never alter another.",
 ["inputs"], "every string content and length 0..255 and every numeric argument",
 "Tests use a handful of short literals; off-by-one and length-limit faults need particular lengths and arguments.",
 ["Basic/run.c"],[("string opcodes B_LEFT/B_MID3/B_RIGHT/B_LEN/B_CONCAT, compare_strings","Basic/run.c: execute")],
 [("strstack","string evaluation stack","Basic/run.c struct vm")],["PRINT output","error reports"])

prop("C03", "Conversions between characters, numbers and text agree with each other",
 "CHR$ and ASC are inverse on codes 1 to 255, CHR$(0) is the empty string, ASC(\"\") is 0, and any other CHR$ argument is a reported run-time error. STR$(n) is the text PRINT shows for n without the surrounding spaces, VAL accepts exactly an optionally signed decimal number (blanks around it allowed), and VAL(STR$(n)) is n for every n that six significant digits represent. A numeral denotes the same number whether it appears as a constant in the program, as a DATA item, as typed INPUT, or as the argument of VAL.",
 ["inputs"], "every character code, every number, every short numeral text",
 "Tests convert two or three values; the laws quantify over all codes, numbers and numeral spellings.",
 ["Basic/run.c","Basic/lexer.c"],[("B_ASC,B_CHR,B_STR,B_VAL, convert()","Basic/run.c"),("number lexing","Basic/lexer.c: lex_next")],[],["PRINT output","error reports"])

prop("C04", "Every array subscript within bounds is its own cell; others are refused",
 "After DIM (or automatic dimensioning to the larger of 10 and the subscript used) of a one- or two-dimensional numeric or string array, each subscript tuple from 0 to the stated maxima denotes a distinct cell that starts as 0 or \"\" and holds exactly the last value assigned to it. Any other subscript value, a wrong number of subscripts, or dimensions outside the supported size is a reported run-time error (or rejected before running) and changes no cell of any array. Executing DIM for an existing array replaces it by a cleared one.",
 ["inputs","histories"], "every dimension list, every subscript value (fractional, negative, huge), every interleaving of stores and loads",
 "Tests touch a few fixed cells; aliasing, off-by-one and overflow of the address computation need particular shapes and subscripts.",
 ["Basic/arrays.c","Basic/run.c","Basic/parse.c"],[("element address computation","Basic/arrays.c: compute_element, compute_total_elements"),("pop_indexes, dimension_*_auto","Basic/run.c")],
 [("numeric_array/string_array","base, max per dimension, elements","Basic/arrays.c")],["PRINT output","error reports"])

prop("C05", "Distinct names are distinct variables; letter case is not significant",
 "A, A$, A() and A$() are four independent objects, two names that differ other than in letter case never share a value, and two names that differ only in letter case are the same object, for every pair of legal names and however many names the program uses. A variable never assigned reads as 0 or \"\". An assignment changes the named object and no other.",
 ["inputs","programs"], "every pair of names and kinds, every number of names, every order of first use",
 "Tests use a few single-letter names; hash collisions, case folding and table growth involve particular names and counts.",
 ["Basic/symbol.c","Basic/lexer.c","Shared/hash.c","Basic/parse.c"],[("symbol table lookup keyed by name and parenthesised-ness","Basic/symbol.c: sym_lookup, sym_insert"),("hashing","Shared/hash.c")],
 [("SYMTAB","hash table and id table of symbols","Basic/symbol.c")],["PRINT output"])

prop("C06", "FOR/NEXT iterates over exactly the documented values",
 "FOR v=a TO b STEP s runs its body with v=a, a+s, a+2s, ... at least once and until the next value would pass b in the direction of s (never for s=0), evaluating a, b and s once, and leaves v at the last value used. NEXT without a name continues the most recently started active loop and NEXT with names continues those loops in order; restarting an active loop's variable makes it the innermost loop; NEXT with no matching active loop and nesting beyond the supported depth are reported run-time errors.",
 ["inputs","programs"], "every start, limit and step value, every nesting and jump pattern of FOR and NEXT within the depth limit",
 "Tests run a few loops with literal bounds; direction, limit and loop-stack order depend on values and on the history of FOR and NEXT executed.",
 ["Basic/run.c","Basic/parse.c"],[("B_FOR, B_NEXT_VAR, B_NEXT_IMP, next(), find_for()","Basic/run.c")],
 [("for_stack","active loops, innermost last","Basic/run.c struct vm")],["PRINT output","error reports"])

prop("C07", "GOTO, GOSUB/RETURN and ON transfer control exactly as written",
 "GOTO and GOSUB continue at the first statement of the line with exactly that number, and RETURN continues at the statement after the most recent unreturned GOSUB, wherever on a line either stands. ON x GOTO/GOSUB selects the x-th listed line, falls through when integer x is outside 1..n, and reports a run-time error when x is not an integer. A missing target line, RETURN without GOSUB, and GOSUB nesting beyond the supported depth are reported run-time errors at that statement, with everything before it already carried out.",
 ["inputs","programs","histories"], "every set of line numbers, every target, every selector value, every call history within the depth limit",
 "Tests use a fixed few targets and selectors; the mapping must be right for all line numbers and all selector values.",
 ["Basic/run.c","Basic/linemap.c","Basic/bcode.c","Basic/parse.c"],[("go_to_basic_line, push_return, pop_return, B_ON_GOTO/B_ON_GOSUB","Basic/run.c"),("line number to code index","Basic/linemap.c, Basic/bcode.c: bcode_index")],
 [("retstack","pending GOSUB returns","Basic/run.c struct vm")],["PRINT output","error reports"])

prop("C08", "IF/THEN/ELSE runs exactly the selected part of the line",
 "For every condition value, IF executes the THEN part when the value is non-zero and otherwise the ELSE part if there is one, else nothing more on that line; execution continues with the next line after the selected part unless it transferred control. This holds for line-number and statement forms, several statements per part, nested IFs in the THEN or ELSE part, and statements preceding the IF on the same line.",
 ["inputs","programs"], "every condition value (including fractions, negatives, -0), every combination of statement and line-number forms",
 "Tests have a few IF shapes with literal conditions.",
 ["Basic/parse.c","Basic/run.c"],[("if_statement, else_clause","Basic/parse.c"),("B_IF_THEN, B_IF_ELSE, B_ELSE, B_GOTRUE","Basic/run.c")],[],["PRINT output"])

prop("C09", "PRINT lays out items at exactly the documented columns",
 "PRINT shows each number with one space before and after, each string verbatim, moves a comma to the next 8-column field, SPC(n) by n spaces and TAB(n) to column n (starting a new line first when already past it), semicolons adding nothing, and ends the line unless the list ends with a separator. The current column carries over between PRINT statements, for every sequence of items, values and widths.",
 ["inputs","programs"], "every sequence of items and separators, every string length, number and SPC/TAB argument",
 "Tests print a few fixed layouts; column arithmetic depends on the lengths of all earlier items.",
 ["Basic/run.c","Basic/parse.c"],[("B_PRINT_* opcodes","Basic/run.c"),("print_statement","Basic/parse.c")],[("col","current output column","Basic/run.c struct vm")],["stdout"])

prop("C10", "INPUT and LINE INPUT assign exactly what was typed or ask again",
 "For every reply line of up to 127 characters, INPUT splits it at commas and assigns the items in order, numeric items being valid numbers; too few items or an invalid number is reported and the whole INPUT is repeated with its prompt, surplus input is reported and discarded, and LINE INPUT assigns the entire line. Subscripts and targets are honoured however often the input is repeated, a string item is stored verbatim, and at end of input the statement reports an error instead of assigning stale data or looping.",
 ["inputs","fault_sequences"], "every reply text and number of retries, every mix of numeric and string targets, end of file at any point",
 "The existing tests supply no terminal input except fixed prompts; replies are unbounded text.",
 ["Basic/run.c","Basic/parse.c"],[("B_INPUT_* opcodes, convert()","Basic/run.c"),("input_statement, line_input_statement","Basic/parse.c")],
 [("input,inp,input_pc","reply buffer, position, restart point","Basic/run.c struct vm")],["stdout","variables afterwards"])

prop("C11", "READ delivers the DATA items in program order, RESTORE repositions",
 "Successive READs deliver the DATA items of the program in line order and left to right, quoted items verbatim, unquoted items trimmed of surrounding blanks, numeric targets accepting exactly numbers. RESTORE starts again at the first item and RESTORE n at the first item on or after line n, which must exist; reading past the end, non-numeric data for a numeric target, or a missing line is a reported run-time error. Items are delivered independently of where the READs stand or how control reaches them.",
 ["inputs","programs","histories"], "every placement of DATA and READ, every sequence of READ and RESTORE, every item text",
 "Tests read one fixed data list.",
 ["Basic/run.c","Basic/parse.c","Basic/lexer.c"],[("find_data, B_READ_*, B_RESTORE*","Basic/run.c"),("lex_next_data","Basic/lexer.c")],
 [("program_data, immediate_data","next DATA position","Basic/run.c struct vm")],["PRINT output","error reports"])

prop("C12", "User functions compute their expression and leave variables untouched",
 "A call of a DEF function yields its expression evaluated with the parameter bound to the argument and all other variables at their current values; afterwards every variable, including one named like the parameter (whether or not it had been assigned), is as before. Redefinition takes effect for later calls, definitions made in the program work in immediate mode and vice versa, and calling an undefined function, nesting calls of user functions, or a wrong number of arguments is a reported error that leaves the parameter's variable and later calls unaffected.",
 ["inputs","programs","histories"], "every argument, every expression body, every sequence of definitions, calls and failing calls",
 "Tests call two or three functions with literals; isolation after failures and redefinition depend on history.",
 ["Basic/run.c","Basic/def.c","Basic/bcode.c","Basic/parse.c"],[("call_def, end_def, B_DEF","Basic/run.c"),("bcode_copy_def","Basic/bcode.c")],
 [("fn","saved caller state and parameter value","Basic/run.c struct vm")],["PRINT output","error reports"])

prop("C13", "Entering lines keeps the stored program sorted, unique and exact",
 "After any sequence of entered, replaced and deleted lines, the stored program consists of exactly the surviving lines, once each, in ascending line-number order and with the text as typed (one blank after the number removed); LIST with any range shows exactly the lines within it, inclusive. A refused line (for example an invalid line number) is reported and changes nothing, and running the program always reflects the latest edits.",
 ["histories","inputs"], "every sequence of line entries and deletions, every line number, every LIST range",
 "Unit tests insert a few fixed lines; order, replacement and boundaries depend on the sequence and numbers.",
 ["Basic/source.c","Monitor/interactive.c","Basic/run.c"],[("enter_source_line, delete_source_line, spread, append","Basic/source.c"),("program_line, list","Monitor/interactive.c"),("stored_program_changed","Basic/run.c")],
 [("SOURCE.lines","program lines in order","Basic/source.c")],["LIST output","RUN output"])

prop("C14", "SAVE followed by LOAD restores the program exactly",
 "For every program that can be entered, SAVE then LOAD (after any other edits or NEW) yields a program that lists and runs identically, and loading a well-formed program file yields exactly its lines, with or without a newline at the end of its last line. A failing SAVE or LOAD (file cannot be opened, malformed file) is reported and leaves the program in memory as it was.",
 ["inputs","histories","fault_sequences"], "every enterable program text, every file content, failure of the file operations",
 "No test saves or loads interactively.",
 ["Basic/source.c","Monitor/interactive.c","Basic/run.c"],[("save_source_file, load_source_file","Basic/source.c"),("vm_load_source, vm_save_source","Basic/run.c")],[],["file contents","LIST output"])

prop("C15", "RENUM renumbers lines and references consistently or changes nothing",
 "After a successful RENUM new,old,inc the lines from old onwards are numbered new, new+inc, ... in unchanged order, every reference to an existing line in GOTO, GOSUB, THEN, ELSE, RESTORE, ON..GOTO and ON..GOSUB lists refers to the same line as before, and all other text is unchanged, so the program behaves as before. If the requested numbering would collide, break the order or leave the valid range, an error is reported and the program is unchanged. The new numbers are usable immediately.",
 ["inputs","programs"], "every program, every new/old/inc triple, every mix of reference forms",
 "No test renumbers; correctness depends on all reference forms and on number-width changes within a line.",
 ["Monitor/interactive.c","Basic/source.c","Basic/linemap.c","Basic/lexer.c"],[("renumber, takes_line_number","Monitor/interactive.c"),("source_replace","Basic/source.c"),("lex_refresh","Basic/lexer.c")],[],["LIST output","RUN output"])

prop("C16", "STOP then CONT is transparent, and edits cancel CONT",
 "Running a program with STOP statements and typing CONT after each stop produces the same remaining output and final variable values as the program with those STOPs removed, wherever the STOP stands, including inside loops, subroutines and IF parts, and with variables inspected in between. Immediate assignments made while stopped are seen by the continued program. After the program has ended, or after any edit of the stored program, CONT is refused.",
 ["programs","histories"], "every position of STOP and every sequence of immediate statements between STOP and CONT",
 "Tests have one STOP in a batch run and never continue.",
 ["Basic/run.c","Monitor/interactive.c"],[("B_STOP, vm_continue, run(), reset_control_state","Basic/run.c")],
 [("stopped_program","where CONT resumes","Basic/run.c struct vm")],["stdout"])

prop("C17", "An interrupt at any moment stops the program cleanly and resumably",
 "Whenever the interrupt signal arrives while a program runs, execution stops between two operations, Break is reported, and the session accepts further commands with all variables intact; CONT then completes the program with the same output as an uninterrupted run. This holds for every point of arrival, including within user-function evaluation, the last statement of the program, and loops.",
 ["schedules"], "every point of the run at which the signal can arrive",
 "Tests never deliver a signal; the point of arrival is a schedule, not an input.",
 ["Basic/run.c","Shared/interrupt.c","Monitor/interactive.c"],[("trap_interrupt/interrupted polling in run()","Basic/run.c, Shared/interrupt.c"),("vm_continue","Basic/run.c")],
 [("interrupted","signal seen","Shared/interrupt.c")],["stdout","CONT output"])

prop("C18", "A failing statement or line never poisons the session",
 "After any run-time error, syntax error or refused command the interactive session continues with the stored program, variables, arrays and function definitions as they stood at the failing statement, and every later statement behaves exactly as if the failing one had only carried out its completed earlier parts, however many errors came before. The report is given exactly once and names the failing program line.",
 ["histories","fault_sequences"], "every kind of error, any number of repetitions, in immediate statements and in stored programs, also inside user functions",
 "Each error test is a separate process that ends at its first error.",
 ["Basic/run.c","Basic/parse.c","Basic/lexer.c","Monitor/interactive.c"],[("run_error/longjmp recovery in run()","Basic/run.c"),("parse_error recovery in parse_source","Basic/parse.c")],
 [("stack,strstack,fn","evaluation state surviving an error","Basic/run.c struct vm")],["stdout and stderr after the error"])

prop("C19", "No input makes the interpreter crash, corrupt memory or exit",
 "For every program text, immediate line, reply and command the interpreter performs only memory accesses inside live objects, never aborts, divides by zero, or executes other undefined behaviour, and an interactive session ends only at BYE or end of input. A statement the language does not allow is reported as an error.",
 ["inputs","programs"], "every byte sequence as program text, command line, DATA, reply or file",
 "Tests are well-formed programs; crashes live in malformed or extreme text.",
 ["Basic/lexer.c","Basic/parse.c","Basic/run.c","Basic/arrays.c","Monitor/interactive.c","Basic/source.c"],[("bounds checks in lexer buffers","Basic/lexer.c: append, lex_next_data"),("stack limit checks","Basic/run.c: push, push_str, push_return"),("dimension limits","Basic/arrays.c")],[],["exit status","sanitizer reports"])

prop("C20", "Spelling variants of the same statement mean the same",
 "Changing the letter case of keywords and names outside strings, adding or removing blanks between tokens, writing ? for PRINT, omitting LET, or (with --keywords-anywhere) crunching keywords together with their neighbours does not change what a program does; REM text and everything inside quotes is left exactly as written. Names that merely contain a keyword stay names when keywords are not crunched.",
 ["programs"], "every statement form and every choice of case, spacing and crunching",
 "Tests have one crunched program in one spelling.",
 ["Basic/lexer.c","Basic/token.c","Basic/parse.c"],[("lex_next, keyword_prefix, identifier_token","Basic/lexer.c, Basic/token.c")],[],["PRINT output"])

prop("C21", "Ill-formed programs are rejected as a whole before anything runs",
 "If any line of the program violates the syntax or the static typing rules (string where a number is required or the reverse, wrong argument lists, unbalanced parentheses, missing parts, misplaced ELSE, a name used both as array and function), the first offending line is reported and no statement of the program is executed; if the program is well-formed it is accepted and never fails at run time for a type reason (the numbers of array subscripts and function arguments are checked when used).",
 ["programs"], "every statement skeleton with every type and part wrong or missing",
 "Tests include a few rejected programs; the guarantee covers every statement and every defect.",
 ["Basic/parse.c"],[("parse_error, match, numeric_expression, string_expression","Basic/parse.c"),("parse_source returns NULL","Basic/parse.c")],[],["stderr","stdout is empty"])

prop("C22", "RND stays in [0,1) and RANDOMIZE n makes it repeatable",
 "Every value of RND is at least 0 and less than 1, whatever the underlying generator returns, and each use draws a fresh number. RANDOMIZE n with the same non-negative integer n reproduces the same following sequence, different n seed differently, and any other n is a reported run-time error that leaves the sequence undisturbed; RANDOMIZE alone seeds from the clock.",
 ["inputs","histories"], "every value the generator can return, every seed value",
 "The test prints a few numbers under one seed.",
 ["Basic/run.c","System/options.c"],[("B_RND, B_RAND, B_SEED","Basic/run.c")],[],["PRINT output"])

prop("C23", "RUN, CLEAR and NEW reset exactly what they are documented to reset",
 "RUN starts the program at its first line with every variable, array and function undefined, no loop or subroutine pending, and DATA at its beginning, whatever happened before; so the same program and input give the same output on every RUN. CLEAR forgets all variables, arrays and functions but keeps the program; NEW discards the program and all names. Otherwise variables persist from the program to immediate statements and across immediate statements.",
 ["histories"], "every session history before RUN, CLEAR or NEW",
 "Each test is one run in a fresh process.",
 ["Basic/run.c","Basic/symbol.c","Monitor/interactive.c"],[("vm_clear_values, vm_clear_names, reset_control_state, run_program","Basic/run.c"),("clear_symbol_table_*","Basic/symbol.c")],[],["stdout"])

prop("C24", "Batch modes and options report on the program without altering it",
 "Running a file prints exactly what RUN prints for the same program; --trace-basic, --trace-for, --trace-log, --quiet and --report-memory add their reports but leave the program's own output, input handling and final result unchanged, and --trace-basic shows each executed line's number in execution order. --list shows every line; --parse and --code execute nothing and accept exactly the programs that run accepts; --list-names shows each name once in order with its right flag; an unknown option is refused.",
 ["configurations","programs"], "every program and every combination of options",
 "Tests run almost everything with one option set.",
 ["System/lbasic.c","System/options.c","Basic/run.c","Basic/bcode.c","Shared/stringuniq.c"],[("process_file, list_file, list_names","System/lbasic.c"),("parse_options","System/options.c"),("trace flags","Basic/run.c")],[],["stdout","exit status"])

prop("C25", "Every memory block is released exactly once by the end of a session",
 "For every session or batch run that ends normally, the counts of allocated and released blocks shown by --report-memory are equal, no block is used after or released twice, and repeating a statement or an error does not accumulate memory.",
 ["histories","inputs"], "every session, including those with errors, redefinitions, redimensioning, edits and replaced programs",
 "No test looks at the memory report.",
 ["Shared/utils.c","Basic/symbol.c","Basic/def.c","Basic/arrays.c","Basic/run.c","Basic/source.c"],[("emalloc/efree counting","Shared/utils.c"),("delete_* functions","Basic/*.c")],[("malloc_count, free_count","blocks allocated and released","Shared/utils.c")],["--report-memory output"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
