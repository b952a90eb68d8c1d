"""Which properties are claimed, how, and with what assumptions; writes MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

AI_TECH = 'abstract interpretation of the LLVM IR (trace partitioning, value numbering, loop fixpoints) per instruction'
# property -> (technique, level note)
CHECKS = {}
EXPLAIN = {}
ASSUME = {'*': [
    'clang -O1-free LLVM IR of the current sources with the UNIT_TEST sections removed represents the program',
    'C library functions behave as the C standard says; malloc failure is outside the properties',
]}
NA = {
    'C34': 'termination and running time of arbitrary BASIC programs are undecidable; no static argument over the interpreter can bound them',
    'C35': 'character-for-character round trip is equality of runtime strings through printf and two readers; its decidable clauses '
           '(format written, stop on failure, ascending order) are claimed under C24 and C26, the equality itself is not static',
    'C36': 'accuracy of decimal conversion is the C library\'s and quantifies over all doubles; no structural clause beyond the calls made, which C07/C09 cover',
}


def claim(pid, technique, note, explain, assume=None):
    CHECKS[pid] = (technique, note)
    EXPLAIN[pid] = explain
    if assume:
        ASSUME[pid] = ASSUME['*'] + assume


OPC = ('Every instruction the property concerns is analysed by abstract interpretation of execute() and all functions it calls, '
       'from abstract machine states (symbolic stack depths, operands, strings, program counter) partitioned by the facts the '
       'specification distinguishes. Each resulting partition is judged against the specified post-state: proved when entailed by '
       'its facts, refuted when the partition is inhabited and the post-state differs, otherwise undecided and listed. ')


def opc(pid, extra='', note=''):
    claim(pid, AI_TECH, 'Proves the listed obligations for all values covered by the abstract states; obligations it cannot decide are '
          'counted as undecided, not as violations. ' + note, OPC + extra)


opc('C01', 'Obligations: every access to the four stacks is inside its array at every depth; overflow and underflow end in a run-time error; '
    'depths stay within capacity after errors.')
opc('C02', 'Obligations: bounds of every memory access made by string and input instructions, at all lengths.')
opc('C03', 'Obligations: DIM allocation, subscript checks, element addresses.')
opc('C05')
opc('C06', 'Obligations: operands taken and results left by each instruction.')
opc('C07', 'Obligations: result of each operator as an expression over the operands in source order.')
opc('C09', 'Obligations: result of each built-in function as an expression over its arguments; domain errors.')
opc('C10', 'Obligations: every string popped, replaced or allocated is released or stored exactly once on every completing partition.')
opc('C14')
opc('C15', 'Obligations: program counter, line and return stack after each jump instruction.')
opc('C19', 'The same specification is required with each trace switch on; only differences from the untraced result count.')
opc('C20', 'A ghost column follows every character written to standard output and must agree with the recorded print position.')
opc('C25')
opc('C28', 'Obligations: every floating to integer conversion reached has its operand in the range of the target type.')
opc('C29')
opc('C30')
opc('C31')
opc('C33')

CMP = ('The compiler (parse.c, emit.c, bcode.c) is analysed by abstract interpretation over token strings of every statement form: each token has '
       'its class, while names, numbers and texts are unknown values. The instructions in the resulting code object are compared with the '
       'instructions the language definition prescribes, or the form must be rejected with a reported error and no code. ')
CMP_TECH = 'abstract interpretation of the compiler over token classes (LLVM IR), result compared with a reference translation'
claim('C08', CMP_TECH, 'All operator pairs with parentheses and unary operators (quick) and all triples (thorough); grouping beyond that follows '
      'from the recursive structure, which the analysis does not prove by induction.', CMP + 'Reference: precedence table of the manual.')
claim('C32', CMP_TECH, 'Every use form of a name x every known kind and type of it.', CMP)
STO = ('The functions of source.c are analysed by abstract interpretation on stored programs of every small shape with unknown line numbers and texts '
       '(loops by fixpoint), and judged against the specified stored program. ')
claim('C24', AI_TECH.replace(' per instruction', ''), 'Proves the listed obligations on the abstract program states.', STO)
claim('C26', AI_TECH.replace(' per instruction', ''), 'Every output call and the close are followed on success and failure.', STO)


TAB = ('The table modules (symbol, linemap, bcode, builtin, token, def, arrays) are analysed by abstract interpretation on tables with entries of '
       'unknown names, numbers and texts, in the same and in different hash cells, and judged against the contract every other analysis relies on. ')
claim('C11', AI_TECH.replace(' per instruction', ''), 'Ownership of every allocation of the functions that build, replace and release programs, code and tables; '
      'includes the compiler on accepted and rejected forms and LOAD/SAVE with every outcome of opening and reading.',
      TAB + 'Ownership: at every return each allocation is released exactly once or held by exactly one owner.')
claim('C21', AI_TECH.replace(' per instruction', ''), 'Lookups after insertions with names in equal and different hash cells; the hash is shown to fold case; '
      'keyword recognition is decided for every keyword spelling.', TAB)


LEXI = ('The tokeniser is analysed by abstract interpretation on texts whose characters are unknown within their class: every token class, at lengths up to, '
        'at and beyond the size of the word buffer, before the end of the text and before each kind of following character, at different cursors, in normal '
        'and crunched mode. Token, value, word, cursor and every memory access are judged. ')
LEX_TECH = 'abstract interpretation of the tokeniser over character classes (LLVM IR), result compared with the lexical definition'
claim('C04', LEX_TECH, 'Every token class up to 20 characters past the size of the word buffer; longer tokens behave as those (the buffer guard is reached first), '
      'which is not proved by induction.', LEXI)
claim('C38', LEX_TECH, 'One token per case, from an arbitrary cursor; sequences follow because each token starts where the last one ended.', LEXI)


MON = ('Whole interactive sessions are analysed by abstract interpretation of interact(): the typed lines are a script whose characters may be unknown, '
       'the machine starts in an arbitrary state, and the interpreter loop, command handling, interrupt handling and program editing are the real code. '
       'The execution of single instructions, the compiler and file input are replaced by the contracts the other units establish, with every '
       'effect they may have (step, end, stop, error, interrupt, function call). ')
MON_TECH = 'abstract interpretation of the interactive monitor over symbolic command scripts (LLVM IR), rules over the events of each session'
claim('C12', MON_TECH, 'Every editing command followed by every way of executing; longer histories are covered by the arbitrary initial machine state.', MON +
      'Obligation: code executed was compiled from the lines then stored, with no GOSUB, FOR or CONT state from before.')
claim('C13', MON_TECH, 'RUN from an arbitrary machine state.', MON + 'Obligation: the state in which the first instruction executes is the fresh one.')
claim('C16', MON_TECH, 'Interrupts at every point the run loop can observe them.', MON + OPC +
      'Obligations: handler installed around every execution, no instruction after the interrupt, Break reported, default disposition back at the prompt.')
claim('C17', MON_TECH, 'Every command word, editing form, malformed line and outcome of execution; the abstract program is of small shape.', MON +
      'Obligation: the session reaches the next prompt, and ends exactly once on BYE or end of input.')
claim('C18', MON_TECH + '; effect analysis over the call graph', 'Effects are those of the C library functions called.', MON + OPC)
claim('C22', MON_TECH, 'Keyword table entries and command words, in every case spelling and abbreviation analysed.', TAB + MON)
claim('C27', MON_TECH, 'Errors at any instruction of a run or in any compilation.', MON + CMP)
claim('C23', MON_TECH, 'Programs of up to three lines with unknown numbers; every token form in which a line number can or cannot occur; lines are rewritten one by one, '
      'so the result for a line does not depend on how many others there are.', MON +
      'The tokeniser, the line index and the text replacement are contracts established by their own units. Obligations: numbers of the lines, the set of texts replaced, '
      'refusal before any change.')
claim('C37', MON_TECH, 'All forms of range on programs of small shape with unknown numbers and texts.', MON)


def write_manifest():
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sa.check"',
         'checks': [], 'not_applicable': [],
         'notes': 'Static analysis only: the checks compile /repo to LLVM IR and never run it. python3 -m sa.catalogue rewrites this file.'}
    from sa.catalogue import P
    for p in P:
        pid = p['id']
        if pid in CHECKS:
            t, n = CHECKS[pid]
            m['checks'].append({'property': pid, 'quick_cmd': 'python3 -m sa.check ' + pid,
                                'thorough_cmd': 'python3 -m sa.check %s --thorough' % pid,
                                'technique': t, 'level': 'other', 'level_note': n})
        else:
            m['not_applicable'].append({'property': pid, 'reason': NA.get(pid, 'not yet decided by this framework (in progress)')})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

claim('C39', 'abstract interpretation of main() over argument vectors (LLVM IR), rules over the events of each run',
      'Every option alone, every pair of settings, every setting with every mode, near misses of every option; combinations of three or more settings only all together.',
      'main(), option parsing, mode selection, the start of the monitor and the creation of the machine are analysed by abstract interpretation on argument vectors; '
      'loading, compiling, running and printing an instruction are contracts established by the other units. Judged: which of them happen, on which file, with which '
      'settings in the machine, what is printed, and the exit status.')
