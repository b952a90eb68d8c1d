"""The property catalogue: single source for properties.jsonl and MANIFEST.json
(run `python3 -m sa.catalogue` to rewrite both)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def M(name, where):
    return {"name": name, "where": where}

P = []   # (id, title, statement, over, qtext, why, files, mechanism, observe)

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[M(*m) for m in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Evaluation, GOSUB and FOR stacks are never overrun",
     "However deeply a BASIC program nests expressions, string operations, GOSUBs or FOR loops, the interpreter never reads or writes "
     "outside its numeric, string, GOSUB and FOR stacks. An instruction that would overflow or underflow one of them ends in a run-time "
     "error, leaving the stack's depth within its capacity.",
     ["programs", "inputs"], "every B-code program, every reachable or unreachable stack depth within capacity, every instruction",
     "The tests nest a handful of levels; the bound must hold at every depth on every instruction and every error path, and an off-by-one "
     "at capacity corrupts the neighbouring field silently.",
     ["Basic/run.c"], [("push/pop, push_str/pop_str guards", "Basic/run.c push, pop, push_str, pop_str"),
                       ("GOSUB and FOR depth guards", "Basic/run.c push_return, pop_return, B_FOR, next")],
     ["stderr 'Runtime error: ... stack overflow/empty', 'GOSUB is nested too deeply', 'FOR is nested too deeply'"],
     [("vm.stack/sp, vm.strstack/ssp, vm.retstack/rsp, vm.for_stack/for_sp", "the four stacks and their depths", "Basic/run.c struct vm")])

prop("C02", "String and input operations stay inside their buffers",
     "No string operation (concatenation, LEFT$, MID$, RIGHT$, CHR$, STR$, TIME$) and no INPUT or LINE INPUT step reads or writes outside "
     "the buffer or string it works on, whatever the strings, numbers and input lines are. A result that does not fit ends in a run-time error.",
     ["inputs", "programs"], "every string length, every numeric argument (including huge ones), every input line",
     "Tests use short strings; the bounds must hold for every length, start and count, including values that wrap unsigned arithmetic.",
     ["Basic/run.c"], [("size checks before copying into the 256-byte buffers", "Basic/run.c B_CONCAT, B_LEFT, B_MID3, B_RIGHT"),
                       ("input cursor advances only over non-NUL characters", "Basic/run.c B_INPUT_*, convert")],
     ["memory safety of the process; 'string too long' / 'would be too long' run-time errors"])

prop("C03", "Array subscripts select distinct in-bounds elements or are rejected",
     "For every DIM with one or two dimensions, storage is allocated for exactly the declared subscripts from 0 to each maximum. "
     "Every in-range subscript tuple selects its own element inside that storage, and every other subscript or impossible dimension is "
     "rejected without touching memory.",
     ["inputs"], "all dimension counts, all maxima representable, all subscript values",
     "Tests dimension a few small arrays; products and subtractions wrap only for extreme maxima, and two tuples colliding shows only for particular shapes.",
     ["Basic/arrays.c", "Basic/run.c"],
     [("element count with overflow rejection", "Basic/arrays.c compute_total_elements, init_array_size"),
      ("range check and row-major offset", "Basic/arrays.c compute_element_offset")],
     ["'array indexes invalid or out of range', 'invalid dimensions' run-time errors; values read back"],
     [("array_size.base/dimensions/max/elements", "shape recorded with each array", "Basic/arrays.h")])

prop("C04", "Tokenising any line stays inside the line and the word buffer",
     "For any text on a program or command line, in normal or crunched keyword mode, the tokeniser never reads before the start or beyond "
     "the terminator of the text, and never writes outside its word buffer. An over-long name, number, string or datum is reported, not stored.",
     ["inputs"], "every line text of any length, both keyword modes, any sequence of tokeniser calls",
     "Tests tokenise short well-formed lines; the buffer limits and cursor positions matter only at the extreme lengths and at the end of the text.",
     ["Basic/lexer.c", "Basic/token.c", "Basic/parse.c"],
     [("length guards before each append to the word buffer", "Basic/lexer.c append, lex_next, lex_next_data"),
      ("cursor does not pass the terminating NUL", "Basic/lexer.c lex_char, lex_char_pos, pushback")],
     ["memory safety while parsing; 'is too long' messages"],
     [("LEX.word/pos/token_pos", "token text and cursor", "Basic/lexer.h")])

prop("C05", "Every instruction is handled, printed, copied and freed by its own format",
     "Each kind of compiled instruction has one operand format, and everything that creates, executes, lists, copies or releases instructions "
     "agrees on it. Every instruction the compiler can produce has an executable implementation and a listing entry.",
     ["programs"], "every opcode, every place that emits, executes, lists, copies or frees an instruction",
     "Tests execute a subset of opcodes and list almost none; a mismatched operand format misreads memory only for that opcode.",
     ["Basic/bcode.h", "Basic/bcode.c", "Basic/emit.c", "Basic/parse.c", "Basic/run.c", "Basic/symbol.c", "Basic/builtin.c"],
     [("opcode enum and ops[] table in the same order", "Basic/bcode.h, Basic/bcode.c ops"),
      ("format-driven printing, copying, freeing", "Basic/symbol.c print_binst, Basic/bcode.c copy_inst, delete_bcode"),
      ("opcode switch", "Basic/run.c execute")],
     ["--code listing, program execution"])

prop("C06", "Compiled statements leave the evaluation stacks balanced",
     "Every statement the compiler accepts leaves the numeric and string evaluation stacks exactly as deep as it found them when it completes "
     "without error. Every expression adds exactly one value of its type, and every instruction finds as many operands of each type as it takes.",
     ["programs"], "every accepted program: all statement forms, operand types, argument counts and nesting",
     "A leaked or missing stack slot shows only after many iterations or in unusual type combinations; tests run each construct a few times.",
     ["Basic/parse.c", "Basic/run.c", "Basic/builtin.c", "Basic/emit.c"],
     [("expression functions return the type of the one value they emitted code for", "Basic/parse.c expression .. primary_expression"),
      ("stack effect of each instruction", "Basic/run.c execute")],
     ["'stack overflow' / 'stack empty' run-time errors after repeated execution"])

prop("C07", "Operators compute the documented result on operands in source order",
     "Each arithmetic, relational, logical and concatenation operator yields the documented function of its left and right operands in source "
     "order. Comparisons yield -1 for true and 0 for false, and logical operators are bitwise on integers and reject other values with a run-time error.",
     ["inputs", "programs"], "all operand values (including NaN-free doubles, infinities, any strings), all operators",
     "Tests evaluate some operators on a few values; swapped operands, wrong predicates and wrong truth values show only for particular inputs.",
     ["Basic/parse.c", "Basic/run.c"],
     [("token to opcode selection", "Basic/parse.c *_expression, add_expr, mult_expr, power_expr"),
      ("opcode implementations", "Basic/run.c execute")],
     ["values printed or assigned"])

prop("C08", "Operator precedence, associativity and parentheses follow the manual",
     "Every expression is grouped as the manual's table says: ^ binds tightest, then unary minus, * and /, + and -, relational operators, NOT, AND, OR. "
     "+ - * / AND OR group to the left, ^ groups to the right, and parentheses override grouping.",
     ["programs"], "every expression of any length and nesting, every pair of operators",
     "There are unboundedly many expressions; the tests contain a dozen and do not cover all operator pairs.",
     ["Basic/parse.c"], [("one recursive-descent function per precedence level", "Basic/parse.c OR_expression .. primary_expression")],
     ["values printed; --code listing"])

prop("C09", "Built-in functions take the documented arguments and return the documented value",
     "Each built-in function accepts exactly its documented argument types, applies them in the documented order, and returns the documented "
     "value of the documented type: the named mathematical function, or the documented part, length, code or number of a string. "
     "Arguments outside the documented domain end in a run-time error.",
     ["inputs"], "all argument values of every built-in function",
     "Tests call a few built-ins on a few values; domain edges (0, -1, 255, 256, empty strings, start beyond end) are not covered.",
     ["Basic/builtin.c", "Basic/parse.c", "Basic/run.c"],
     [("built-in table: name, result type, argument types, opcode", "Basic/builtin.c builtins"),
      ("argument parsing", "Basic/parse.c primary_expression, builtin_arg"),
      ("opcode implementations", "Basic/run.c execute B_ABS .. B_VAL")],
     ["values printed or assigned; run-time error messages"])

prop("C10", "Run-time strings have one owner: no leak, double free or use after free",
     "Every string value created while executing a BASIC program is owned by exactly one of: the string stack, a variable or array element, "
     "or the executing instruction. It is released exactly once, never used afterwards, and never forgotten by an instruction that completes.",
     ["programs", "histories"], "every instruction on every path, including the run-time error paths (no dangling or double release there)",
     "Tests do not run under a memory checker and a dangling string usually still reads back correctly.",
     ["Basic/run.c", "Basic/symbol.c", "Basic/arrays.c"],
     [("pop transfers ownership; set releases the old value", "Basic/run.c push_str, pop_str, set_string_*"),
      ("clearing variables releases strings and nulls the slot", "Basic/symbol.c undefine_value")],
     ["--report-memory counts; memory checker"])

prop("C11", "Programs, tables and files are released completely and exactly once",
     "Deleting or replacing a program, compiled code, symbol table, array, line index or function definition releases everything it owns exactly once. "
     "Every file opened is closed on every path that returns.",
     ["histories"], "every deletion and replacement routine, every element count, every return path of file routines",
     "Tests do not check for leaks, and descriptor exhaustion needs a thousand LOADs.",
     ["Basic/source.c", "Basic/bcode.c", "Basic/symbol.c", "Basic/arrays.c", "Basic/def.c", "Basic/linemap.c", "Basic/run.c", "Shared/utils.c"],
     [("delete_* routines", "Basic/*.c"), ("fopen/fclose pairing", "Basic/source.c load_source_file, save_source_file")],
     ["--report-memory counts; open descriptors"])

prop("C12", "Any change to the program discards the code compiled from it",
     "Whenever the stored program's lines change, by entering, replacing or deleting a line, NEW, LOAD or RENUM, no code, line index, CONT point, GOSUB "
     "or FOR state from before the change is used afterwards. The next execution compiles the changed program first.",
     ["histories"], "every sequence of editing and execution commands in a session",
     "The regression tests never use the interactive monitor; a stale index or compiled program shows only after a particular sequence of commands.",
     ["Basic/run.c", "Monitor/interactive.c", "Basic/source.c"],
     [("compiled code and index dropped on change", "Basic/run.c stored_program_changed and its callers"),
      ("recompile on demand and reset control state", "Basic/run.c ensure_program_compiled")],
     ["program behaviour after editing; 'Line not found' errors"],
     [("vm.stored_program.source/bcode/index", "program text and what was compiled from it", "Basic/run.c struct vm")])

prop("C13", "RUN starts every run from the same fresh state",
     "RUN behaves as in a newly started interpreter holding the same program: all variables, arrays and functions undefined, no GOSUB, FOR, function call "
     "or CONT point in progress, the DATA pointer at the start and the print position at column 1. Nothing left by an earlier run, error, "
     "STOP, interrupt or immediate statement influences it.",
     ["histories"], "every history of commands, errors and interrupts before RUN",
     "Each regression test runs one program in a fresh process; carried-over state needs a session.",
     ["Basic/run.c", "Monitor/interactive.c", "Basic/symbol.c"],
     [("reset of control state before running", "Basic/run.c reset_control_state, run_program"),
      ("variables cleared by RUN", "Monitor/interactive.c CMD_RUN, Basic/symbol.c clear_symbol_table_values")],
     ["output of the second RUN in a session"])

prop("C14", "DEF parameters never disturb the program's own variable",
     "Calling a user-defined function leaves the program variable that has the parameter's name exactly as it was, value and definedness, and "
     "resumes after the call, whether the function returns or ends in a run-time error. A function call in progress never outlives the statement that made it.",
     ["programs", "histories"], "every function body, every argument, normal return and every run-time error inside the body",
     "Tests call functions that return normally; an error inside the body followed by further use in the same session is not covered.",
     ["Basic/run.c", "Basic/parse.c"], [("parameter saved at call and restored at end", "Basic/run.c call_def, end_def"),
                                        ("error path of the run loop", "Basic/run.c run")],
     ["value of the variable after the call or error"],
     [("vm.fn", "call in progress: return point, saved parameter", "Basic/run.c struct vm")])

prop("C15", "Jumps go exactly where the program says",
     "GOTO, IF ... THEN, ON ... GOTO/GOSUB and GOSUB continue at the first statement of the named program line, or end in a run-time error if there "
     "is no such line. RETURN resumes just after the most recent unreturned GOSUB, ON picks the n-th line and falls through outside the list, "
     "and IF/ELSE executes exactly one of its branches.",
     ["programs"], "every program, line number, ON value and IF condition; stored and immediate code",
     "Tests contain a few jumps; wrong continuation points show only with particular layouts (last line, ON out of range, ELSE on the last line).",
     ["Basic/run.c", "Basic/linemap.c", "Basic/bcode.c", "Basic/parse.c"],
     [("line index built from the compiled code", "Basic/bcode.c bcode_index, Basic/linemap.c"),
      ("control-flow instructions", "Basic/run.c execute, go_to_basic_line, push_return, pop_return")],
     ["order of execution; 'Line not found'"])

prop("C16", "Ctrl-C stops any running code and never the interpreter",
     "While BASIC code runs, an interrupt makes execution stop before the next instruction (completing a call of a user-defined function first), print Break and return to the caller, with a program's position "
     "kept for CONT. The interrupt handler itself only records the request, is installed before the first instruction, and the default disposition is "
     "restored on every way out of the run, including run-time errors.",
     ["schedules"], "an interrupt arriving at any point of any run",
     "No test sends a signal.",
     ["Basic/run.c", "Shared/interrupt.c", "Monitor/interactive.c"],
     [("handler sets a flag", "Shared/interrupt.c interrupt"), ("flag polled in the run loop; trap/untrap pairing", "Basic/run.c run")],
     ["'Break' message; signal disposition"])

prop("C17", "Nothing typed at the prompt ends the session",
     "At the interactive prompt, no program line, immediate statement or command other than BYE or end of input terminates the interpreter: "
     "syntax errors, run-time errors, bad line numbers and unreadable files are reported and the prompt returns.",
     ["inputs", "histories"], "every input line in every session state",
     "The regression tests never use the interactive monitor.",
     ["Monitor/interactive.c", "Basic/run.c", "Basic/source.c", "Basic/lexer.c", "Basic/parse.c"],
     [("errors unwind to the caller instead of exiting", "Basic/run.c run_error, Basic/parse.c parse_error")],
     ["process exit status; prompt reappears"])

prop("C18", "BASIC code cannot touch files or run operating-system commands",
     "No BASIC statement or expression opens, creates, deletes or renames a file, or passes text of its choosing to the operating system. "
     "Only the LOAD, SAVE and * commands do, on exactly the text the user typed.",
     ["programs"], "every program and immediate statement",
     "Absence of an effect over all programs cannot be sampled.",
     ["Basic/run.c", "Shared/os.c", "Monitor/interactive.c", "Basic/source.c"],
     [("only CLS reaches the OS, with a constant command", "Shared/os.c clear_screen"),
      ("file access confined to load/save", "Basic/source.c load_source_file, save_source_file")],
     ["system calls made while executing BASIC code"])

prop("C19", "Tracing observes the program without changing it",
     "Switching line tracing, FOR tracing or logging on adds trace output only: variables, control flow, stacks, print position and the program's own output "
     "are the same as with tracing off, for every program.",
     ["configurations", "programs"], "every program under each trace option",
     "Tests run without trace options.",
     ["Basic/run.c"], [("trace blocks only print", "Basic/run.c B_SOURCE_LINE, B_FOR, B_NEXT_*, push, pop, next, dump_for")],
     ["program output and results with and without -t -f -g"])

prop("C20", "PRINT knows the column it is at",
     "The print position that TAB and comma work from equals the column actually reached by the text PRINT and CLS have written: numbers, strings with embedded newlines, "
     "SPC, TAB, commas and line ends. TAB(n) leaves the next character in column n, on a new line if n is behind; a comma moves to the next 8-column field.",
     ["programs", "inputs"], "every sequence of PRINT items",
     "Tests print a few items; the accounting must hold for every item after every other.",
     ["Basic/run.c"], [("column counter updated with each character written", "Basic/run.c B_PRINT_*, B_CLS")],
     ["standard output"], [("vm.col", "current print column, 1-based", "Basic/run.c struct vm")])

prop("C21", "Names and keywords are matched without regard to case, consistently",
     "Two spellings of a name that differ only in letter case always denote the same variable, array, function, built-in or keyword, and spellings that differ otherwise "
     "never do. Whatever is entered in a table is found again by every later lookup.",
     ["inputs"], "every name, every table state",
     "Tests use few names in one spelling; a hash that disagrees with the comparison loses names only for particular spellings and buckets.",
     ["Basic/symbol.c", "Basic/token.c", "Shared/hash.c", "Basic/builtin.c", "Basic/linemap.c", "Shared/stringlist.c", "Shared/stringuniq.c"],
     [("hash and comparison both fold case; insert and lookup use the same bucket", "Basic/symbol.c, Basic/token.c, Shared/hash.c")],
     ["variable identity in program results"])

prop("C22", "Keyword and command tables mean what they say",
     "Every keyword is recognised with its full spelling, in both keyword modes, as its own token; no keyword hides another by being an earlier prefix of it; every command word "
     "runs its own command, and every keyword token's printed name is that keyword.",
     ["inputs"], "every keyword and command",
     "Tests use a subset of the keywords, most only in delimited form.",
     ["Basic/token.c", "Basic/token.h", "Monitor/interactive.c", "Basic/parse.c"],
     [("keywords[] (name, length, token) and commands[] tables", "Basic/token.c, Monitor/interactive.c")],
     ["parse results; messages naming tokens"])

prop("C23", "RENUM rewrites exactly the line references the language has",
     "RENUM renumbers a program so that line numbers stay strictly ascending and every place where the language accepts a line number, including every member of an ON list, "
     "is rewritten with the new number of the line it named. A renumbering that cannot keep the order is refused before anything changes.",
     ["programs", "inputs"], "every program and every choice of new, old and increment",
     "RENUM is not tested at all.",
     ["Monitor/interactive.c", "Basic/parse.c"],
     [("token set after which numbers are rewritten", "Monitor/interactive.c takes_line_number, renumber"),
      ("places the parser accepts a line number", "Basic/parse.c line_number callers")],
     ["LIST after RENUM"])

prop("C24", "The stored program is always in strictly ascending line order",
     "After any sequence of entering, replacing and deleting lines or loading files, the program's line numbers are positive and strictly ascending, "
     "each number at most once, with the text last given for it.",
     ["histories", "inputs"], "every sequence of edits and loads",
     "Unit tests insert a few lines.",
     ["Basic/source.c", "Basic/run.c"],
     [("sorted insertion, replacement, ordered append", "Basic/source.c enter_source_line, spread, append, delete_source_line")],
     ["LIST"], [("SOURCE.lines/used", "program lines", "Basic/source.h")])

prop("C25", "READ takes DATA items in program order, RESTORE repositions exactly",
     "Successive READs yield the program's DATA items in program order, each exactly once. RESTORE returns to the first item, RESTORE n to the first item "
     "on or after line n, and reading past the end, or text into a number, is a run-time error.",
     ["programs"], "every arrangement of DATA, READ and RESTORE",
     "Tests have two DATA programs.",
     ["Basic/run.c", "Basic/bcode.c", "Basic/parse.c"],
     [("DATA pointer scan and advance", "Basic/run.c find_data, B_READ_*, B_RESTORE*")],
     ["values read; 'out of DATA'"], [("vm.program_data/immediate_data", "next DATA position", "Basic/run.c")])

prop("C26", "A SAVE that did not reach the file is reported",
     "SAVE reports success only if every line was written and the file was closed without error; otherwise the user is told. "
     "Each line is written as its number, one space and its text.",
     ["fault_sequences"], "a failure of any write or of the final close",
     "Tests never save, and never with a failing device.",
     ["Basic/source.c", "Basic/run.c", "Monitor/interactive.c"],
     [("result of writing and closing", "Basic/source.c save_source_file")],
     ["message after SAVE to a full device"])

prop("C27", "An error stops the statement, the run and the compilation",
     "After a run-time error is reported no further instruction of that run executes and the error names the line being executed. "
     "A program with a syntax error is never partly executed: compilation reports the error and yields no code.",
     ["programs"], "every error on every path",
     "Tests provoke six errors.",
     ["Basic/run.c", "Basic/parse.c"],
     [("error functions do not return", "Basic/run.c run_error, Basic/parse.c parse_error"),
      ("jump buffers set before use in a live frame", "Basic/run.c run, Basic/parse.c parse_source")],
     ["output after an error message"])

prop("C28", "Numbers are converted to integers only when they fit",
     "Wherever the interpreter needs an integer (subscripts, counts, positions, character codes, ON values, logical operands, line numbers, seeds) "
     "a BASIC number is converted only after it is known to be integral and within the target's range. Anything else is an error, never a wrapped or undefined conversion.",
     ["inputs"], "every double value, including infinities and NaN",
     "Tests use small integers.",
     ["Basic/run.c", "Basic/parse.c", "Basic/lexer.c", "Monitor/interactive.c"],
     [("range and integrality guards", "Basic/run.c pop_logic, pop_unsigned, pop_index, B_CHR, B_ON_*; Basic/parse.c line_number")],
     ["run-time error messages"])

prop("C29", "FOR/NEXT iterates exactly as documented",
     "NEXT adds the step and repeats the loop while the variable has not passed the limit in the direction of the step; otherwise the loop ends and only that loop is forgotten. "
     "The start, limit and step are evaluated once, the body runs at least once, FOR on an active variable restarts that loop as the innermost.",
     ["programs", "inputs"], "all starts, limits and steps (positive, negative, zero, fractional), all nestings",
     "Tests run a few loops with small integers.",
     ["Basic/run.c", "Basic/parse.c"], [("loop record and exit test", "Basic/run.c B_FOR, B_NEXT_*, next, find_for")],
     ["number of iterations, variable values"])

prop("C30", "INPUT assigns what was typed or asks again from the start",
     "INPUT assigns each item the corresponding comma-separated field of one input line; a missing or non-numeric field makes the whole statement ask again, with evaluation stacks "
     "as they were, and end of input is a run-time error rather than an endless retry. LINE INPUT assigns the whole line without its newline.",
     ["inputs"], "every input line and every item list",
     "Tests run INPUT only at end of file.",
     ["Basic/run.c", "Basic/parse.c"], [("input buffer, cursor and retry position", "Basic/run.c B_INPUT_*")],
     ["values assigned; prompts"], [("vm.input/inp/input_pc", "input line, cursor, retry point", "Basic/run.c")])

prop("C31", "Variables read back what was last assigned, or zero and empty",
     "A numeric or string variable or array element reads back the value last assigned to it, and 0 or the empty string if none was assigned since start, RUN, CLEAR or DIM. "
     "Assigning one variable never changes another, and undimensioned arrays act as dimensioned to 10 or the first subscript used, whichever is greater.",
     ["programs", "histories"], "every assignment, read, DIM and CLEAR",
     "Tests assign and read a few variables.",
     ["Basic/run.c", "Basic/symbol.c", "Basic/arrays.c"],
     [("get/set of simple variables and elements", "Basic/run.c get_*, set_*, dimension_*"), ("clearing", "Basic/symbol.c undefine_value")],
     ["values printed"])

prop("C32", "Compiled code uses every symbol according to its kind and type",
     "Each name has one type, string if it ends in $ and numeric otherwise, and one kind; the compiler emits only instructions of that type and kind for it and rejects any other use "
     "with a syntax error. A built-in function's name is never used as a variable, array or user-defined function.",
     ["programs"], "every program text and every order in which names are first used",
     "Tests use names consistently; a confused kind reads a number as a pointer only in particular orders of use.",
     ["Basic/parse.c", "Basic/symbol.c", "Basic/run.c"],
     [("symbol kind and type checks at each use", "Basic/parse.c identifier, def_statement, dim_array, simple_variable")],
     ["syntax errors; absence of crashes"])

prop("C33", "RND is uniform-range and reproducible",
     "RND always yields x with 0 <= x < 1. The random sequence is changed only by RANDOMIZE and the --randomize option, and RANDOMIZE n makes the following sequence a function of n alone.",
     ["programs", "inputs"], "every state of the generator, every program",
     "A test can only sample the generator.",
     ["Basic/run.c", "System/options.c"], [("rejection of 1, seeding sites", "Basic/run.c B_RND, B_RAND, B_SEED; System/options.c")],
     ["values of RND"])

prop("C34", "A program always terminates or can be shown to loop",
     "Every BASIC program that has no infinite loop ends in bounded time and memory.",
     ["programs"], "every program", "Termination is undecidable in general and performance is not tested.",
     ["Basic/run.c"], [("run loop", "Basic/run.c run")], ["run time"])

prop("C35", "SAVE, LOAD and LIST round-trip every program text",
     "A program saved and loaded again has the same lines, character for character, and LIST shows each line so that entering it again yields the same program.",
     ["inputs", "histories"], "every program text", "No test saves or lists from the monitor.",
     ["Basic/source.c", "Monitor/interactive.c"], [("writer and reader of lines", "Basic/source.c save_source_file, load_source_file")], ["files, LIST output"])

prop("C36", "Numbers print and convert back accurately",
     "A number printed, or turned to a string with STR$, shows its value to six significant digits, and VAL and READ give the nearest representable number to the text.",
     ["inputs"], "every double", "Tests print a few numbers.",
     ["Basic/run.c"], [("%g formatting and strtod", "Basic/run.c B_PRINT_NUM, B_STR, convert")], ["printed numbers"])

prop("C37", "LIST shows exactly the requested lines, as entered, in order",
     "LIST prints each stored line whose number lies in the requested range, and no other, in ascending order, as its number, one space and its text, character for character. "
     "It accepts a start, an end, both or neither, shows every line when paged, and changes nothing.",
     ["inputs", "histories"], "every stored program, every range",
     "LIST is available only at the interactive prompt, which no test uses.",
     ["Monitor/interactive.c", "Basic/run.c", "Basic/source.c"],
     [("range and page loop of LIST", "Monitor/interactive.c list command"), ("line printer", "Basic/source.c print_source_line")],
     ["standard output of LIST"])
prop("C38", "Text is divided into tokens exactly as the language spells them",
     "Every line is read as the tokens the language defines: the longest name, keyword, number, string or operator at the cursor, with its own text and value, skipping blanks between tokens "
     "and nothing else, so that the next token starts where this one ended. In crunched mode a keyword is recognised wherever its letters start. "
     "Anything that is no token is reported as an error.",
     ["inputs"], "every line of text, both keyword modes, every token class at every length and with every following character",
     "Tests read a handful of short tokens; endings, limits and neighbouring characters are endless.",
     ["Basic/lexer.c", "Basic/token.c"],
     [("one scanner for all token classes", "Basic/lexer.c scan, lex_next, lex_next_data"),
      ("keyword lookup", "Basic/token.c identifier_token, keyword_prefix")],
     ["parse results, DATA values, error messages"],
     [("LEX.token/num/word/token_pos/pos", "current token and cursor", "Basic/lexer.h")])

prop("C39", "Command-line options do what they document and nothing else",
     "Each command-line option, in its short and long form, alone or combined, before or after the file name, sets exactly the setting it documents, and every setting reaches the program run and the interactive "
     "session alike. The modes that list or check a program never execute it; --list prints every line once in order, --list-names every name of the program once with its flag, --code every instruction once. "
     "An unknown option, a surplus argument or a mode without a file is refused with a message and a failure status, with nothing loaded. A file that cannot be loaded for running or checking, "
     "or that a check finds wrong, gives a failure exit status and is not executed.",
     ["inputs"], "every command line and every program file",
     "Tests use a few options one at a time.",
     ["System/options.c", "System/lbasic.c", "Monitor/interactive.c", "Basic/run.c", "Shared/stringuniq.c"],
     [("option table and parser", "System/options.c parse_options"), ("modes", "System/lbasic.c main, process_file"), ("settings reach the machine", "Basic/run.c new_vm, Monitor/interactive.c interact")],
     ["behaviour with each option, exit status"])

def write_properties():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")

if __name__ == "__main__":
    write_properties()
    try:
        from sa.manifest import write_manifest
        write_manifest()
    except ImportError:
        pass
