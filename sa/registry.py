"""The checks: property id -> what to extract, how to decide, how to describe."""
import signal, traceback
import extract, specs, effects, parser_specs, ast_run, eval_run, print_run, play_run, order_run, misc_run
from interp import Program

TB = ['rustc front end and MIR construction (the analysed representation)',
      'transfer functions of sa/models.py for the called num / std operations (taken from their documented contracts)',
      'the abstract interpreter itself (sa/terms.py, interp.py, loops.py)']
AS = ['num-bigint, num-integer and std behave as documented (integers are mathematical integers; gcd >= 0; Bezout identity)',
      'memory exhaustion and running time of huge results are out of scope']

CHECKS = {}


NOTE = ('Decides the property for all inputs from the MIR of the current tree: every path of the anchored functions must provably '
        'meet the specification, and what cannot be shown is reported. Trusts rustc front end and MIR, the transfer functions for num/std '
        'operations and the analyser; excludes memory exhaustion and running time.')


def add(pid, fn, crates=('alg',), level='proof', rule='', assumptions=None, tb=None, profiles=('dev', 'release'),
        technique='abstract interpretation of MIR (polynomial equalities, linear inequalities, loop summaries)', note=NOTE):
    CHECKS[pid] = dict(fn=fn, crates=crates, level=level, rule=rule, assumptions=assumptions or AS, tb=tb or TB, profiles=profiles,
                       technique=technique, note=note)


ABS = ('abstract interpretation of the monomorphised MIR of every path (integers as polynomials over symbolic atoms, '
       'trace partitioning on branch facts, loops and recursion replaced by inductively verified closed forms); '
       'each outcome must entail the specification')
for _p in ('A01', 'A02', 'A03', 'A04', 'A05', 'A06', 'A07', 'A08', 'A09', 'A10', 'A11'):
    add(_p, specs.SPECS[_p], rule=ABS)


ALL = ('canary', 'alg', 'parser', 'ast', 'play')
TBE = ['rustc front end, name resolution and the unsafe_code lint', 'the query code in sa/effects.py']
ASE = ['dependencies (num, itertools, pest, std) have no effects beyond their documented ones',
       'bigdecimal, text-utils and wolfram_wxf, absent offline, are API stand-ins']
add('A12', effects.a12, crates=ALL, profiles=('dev',), rule='no body of any crate contains user-written unsafe code (rustc unsafe_code lint forced on)',
    assumptions=ASE, tb=TBE, technique='forced unsafe_code lint over every crate, canary-checked', note=(
        'Decides that the four crates contain no user-written unsafe code, so undefined behaviour can only come from dependencies or the compiler. '
        'Positive canary on every run. Dependencies are not analysed.'))
add('A13', effects.a13, crates=ALL, profiles=('dev',), rule='on no path that can return does a body use I/O, clock, environment, threads, randomness or '
    'interior-mutable statics, except functions reachable only from the entry points whose purpose that is',
    assumptions=ASE, tb=TBE, technique='effect analysis over the resolved MIR call graph, canary-checked', note=(
        'Decides from resolved callees and statics of every body that results depend on arguments only. Effects inside dependencies are taken from '
        'their documentation; output printed just before a panic is not an effect.'))


TBP = ['rustc front end and MIR construction', 'pest\'s run-time library (ParserState combinators) behaves as documented',
       'the PEG extraction, normal forms and grammar analyses of sa/peg.py and sa/parser_specs.py']
ASP = ['the text fits into memory and its nesting into the call stack', 'Unicode property tables are those of the Unicode standard']
NOTEP = ('Decides the property for all texts from the parser\'s MIR: the generated functions are interpreted into the parsing expression grammar they '
         'implement, and the rule is decided on that grammar. Trusts pest\'s run-time library and the grammar algebra; running time is out of scope.')


def addp(pid, fn, rule, technique, crates=('parser',), level='proof', note=NOTEP):
    add(pid, fn, crates=crates, level=level, profiles=('dev',), rule=rule, assumptions=ASP, tb=TBP, technique=technique, note=note)


addp('B01', parser_specs.b01, 'the normal form of the PEG recovered from each generated function equals the normal form of the rule in simple-math.pest '
     '(pest\'s implicit skipping, atomicity, token wrapping and stack restoration applied)',
     'translation validation by abstract interpretation: PEG recovered from MIR, compared with the grammar file by normal forms')
addp('B02', parser_specs.b02, 'every token that can stand between two operands of rule expr has an entry in the evaluated operator table, and the entries are '
     'ordered and associate as documented', 'constant evaluation of the operator table, compared with the token automaton of the recovered PEG', crates=('parser', 'ast'))
addp('B03', parser_specs.b03, 'no text of an alternative is cut short by an earlier alternative of the same ordered choice, and no alternative begins with a rule '
     'that an earlier alternative accepts alone', 'reachability of ordered-choice alternatives in the PEG recovered from MIR', note=NOTEP + (
         ' Alternatives with infinitely many texts are decided by their leading rule and by the texts with at most one round per repetition.'))
addp('B04', parser_specs.b04, 'after a keyword, name or decimal numeral the recovered PEG guarantees that the next character cannot continue it',
     'FIRST/boundary analysis of the PEG recovered from MIR')
addp('B05', parser_specs.b05, 'the recovered PEG has no left recursion and no repetition of something that can match nothing, and keeps the match stack balanced',
     'well-formedness and stack-effect analysis of the PEG recovered from MIR')


TBT = ['rustc front end and MIR construction', 'pest\'s run-time library (Pairs, Span, PrecClimber) and std behave as documented',
       'the PEG extraction (sa/peg.py), token languages (sa/text.py) and the tree interpreter (sa/flow.py, flowlib.py)',
       'the table of what each rule denotes (sa/ast_sem.py)', 'bigdecimal, text-utils and wolfram_wxf, absent offline, are API stand-ins']
NOTET = ('Decides the property for every token of every rule: each builder function is interpreted from its MIR on an arbitrary token whose children and text '
         'range over what the recovered grammar allows; calls on child tokens are taken by contract, which is the obligation of the function they call. '
         'Trusts pest\'s run-time library, the stand-ins for absent crates, and the table of denotations; stack depth and memory are out of scope.')
TREE = 'abstract interpretation of the tree builder\'s MIR over arbitrary tokens (children and text as regular languages of the recovered grammar), assume-guarantee over rules'
for _p, _f, _r in (
        ('B06', ast_run.b06, 'no path of a builder function, on any token its callers can give it, ends in a panic'),
        ('B07', ast_run.b07, 'on every path of a builder function the resulting value is the tree the rule denotes: the documented symbol applied to the trees of '
         'the operand tokens, all of them, in order'),
        ('B08', ast_run.b08, 'on every path of a literal\'s builder function the resulting value is the number, text, symbol or history reference written'),
        ('B09', ast_run.b09, 'the position in every argument list built is computed from the span of the token it stands for and the settings\' file name')):
    addp(_p, _f, _r, TREE, crates=('parser', 'ast'), note=NOTET)
    CHECKS[_p]['tb'] = TBT


NOTEE = ('Decides the property for all trees and sessions: the evaluator is interpreted from its MIR on symbolic trees, every path must give the prescribed '
         'outcome. The parser (B properties) and the number functions (A properties) are taken by contract. Memory exhaustion, running time and sessions of '
         '2^62 inputs are out of scope.')
EVAL = 'abstract interpretation of the evaluator\'s MIR over symbolic trees and session states (path-sensitive; texts as regular languages, integers as polynomials)'
TBV = ['rustc front end and MIR construction', 'num, std and the stand-ins for absent crates behave as documented', 'the interpreter (sa/flow.py, flowlib.py, eval_run.py)']
for _p, _f, _r in (
        ('C01', eval_run.c01, 'on every path AST::forward gives the prescribed value: sum, product and power of two integers, literals themselves, nothing else'),
        ('C02', eval_run.c02, 'no path of Runner::evaluate, Runner::last or AST::forward ends in a panic'),
        ('C03', eval_run.c03, 'every conversion into SMError keeps the kind and the text of the error'),
        ('C04', eval_run.c04, 'on every path of Runner::evaluate exactly the new number\'s entries are added, and answer and last agree with them'),
        ('C05', eval_run.c05, 'on every path first, last, length and head give the prescribed part of their operand'),
        ('C06', eval_run.c06, 'on every path factorial and fibonacci give what the algorithm gives, value or error')):
    addp(_p, _f, _r, EVAL, crates=('parser', 'ast'), note=NOTEE)
    CHECKS[_p]['tb'] = TBV


NOTED = ('Decides the property for all trees: the printing functions are interpreted from their MIR on one node with operands of every form, the text of an '
         'operand being a hole (induction over trees); lists of arguments of any length where the reader of a list is a plain traversal, up to 3 arguments '
         'elsewhere. Memory exhaustion and running time are out of scope.')
PRINT = 'abstract interpretation of the MIR of the printing functions with symbolic operands (texts with holes), compared with the reading levels of the operators in the grammar'
for _p, _f, _r, _t in (
        ('D01', print_run.d01, 'for every operator and every form of each operand the printed text has the operator, the operands in order, and parentheses '
         'wherever the reading levels would regroup the text; every atom and call prints its value, name, arguments and options', PRINT),
        ('D02', print_run.d02, 'for every kind of node the Wolfram form is the head of the node applied to the forms of its arguments, then Rule of every option, once per list', PRINT),
        ('D03', print_run.d03, 'on every path of parse_file the effects on files are a prefix of read source, create target, write the form of the tree; a failing '
         'step is the last one and its error is returned', 'effect and path analysis of the MIR of parse_file (file operations as effects with both outcomes)'),
        ('D04', print_run.d04, 'for every node the TeX form has every operand once and in order, its delimiters are paired, and no path panics', PRINT)):
    addp(_p, _f, _r, _t, crates=('parser', 'ast'), note=NOTED)
    CHECKS[_p]['tb'] = TBV


add('E01', order_run.e01, crates=('ast',), profiles=('dev',), rule='for every pair of kinds of every type of the tree: the decision table of eq over the comparisons of '
    'corresponding parts is "same kind and all equal", cmp is lexicographic over all parts within a kind and a fixed order of the kinds across, the other comparisons agree '
    'with cmp, clone returns the value', assumptions=['comparison and clone of library types are as documented (lists lexicographically, numbers by value)'], tb=TBV,
    technique='abstract interpretation of the MIR of the comparison and clone implementations into decision tables over three-way comparisons of parts', note=(
        'Decides the property for all trees by induction over their height; every assignment of less/equal/greater to the parts is examined. Stack depth is out of scope.'))
add('E02', misc_run.e02, crates=('alg', 'ast'), profiles=('dev',), rule='for every kind of error the text written by its formatting implementation has the name of that kind, of '
    'no other, and the message as a whole', assumptions=['the debug form of a text shows the whole text (std)'], tb=TBV,
    technique='abstract interpretation of the MIR of the formatting implementations with the message as a hole', note='Decides the property for every message.')
add('E03', misc_run.e03, crates=('ast',), profiles=('dev',), rule='every constructor, interpreted in its generic form, returns the node of its name holding the converted argument; the defaults are '
    'the empty values', assumptions=['Into, From and AsRef conversions of library types are value preserving'], tb=TBV,
    technique='abstract interpretation of the generic MIR of the constructors', note='Decides the property for every argument of every convertible type; Symbol::from a text is taken by contract (B08).')
add('C07', play_run.c07, crates=('play',), profiles=('dev',), rule='on every path result evaluates exactly its text once in the shared session and answers with that '
    'answer or error, result_tex answers with the TeX form of the last value or its error; the lock is taken once and free again at every return',
    assumptions=ASP + ['Runner::evaluate, Runner::last and to_tex return (C02, C04, D04)'], tb=TBV,
    technique='abstract interpretation of the MIR of the wasm entry points: lock typestate and session history as symbolic terms', note=(
        'Decides the property for every state of the session and every text; the session\'s own operations are taken by contract. The code wasm-bindgen '
        'generates around the entry points is not analysed.'))


def trace():
    ls = [l for l in traceback.format_exc().splitlines() if l.strip() and set(l.strip()) - set('^~')]
    return ' / '.join(l.strip() for l in [ls[-1][:600]] + ls[-7:-1])


class Budget(BaseException):
    pass


def _alarm(*_):
    raise Budget()


BUDGET = 300


def run(pid, tier):
    signal.signal(signal.SIGALRM, _alarm)
    spec = CHECKS[pid]
    rep = specs.Rep()
    profiles = spec['profiles'] if tier == 'thorough' else spec['profiles'][:1]
    for prof in profiles:
        dumps = extract.extract(spec['crates'], prof)
        progs = {k: Program(d) for k, d in dumps.items()}
        signal.alarm(BUDGET)
        try:
            if spec['crates'] == ('alg',):
                spec['fn'](progs['alg'], rep)
            else:
                spec['fn'](progs, rep)
        except Budget:
            rep.bad('undecided', 'the analysis did not finish within its time budget of %d s' % BUDGET)
        except RecursionError:
            rep.bad('undecided', 'the analysis did not terminate within its depth bound')
        except extract.ExtractError:
            raise
        except Exception:
            rep.bad('undecided', 'the analysis met a construct it cannot interpret: ' + trace())
        finally:
            signal.alarm(0)
        rep.info.setdefault('profiles', []).append(prof)
        rep.info.setdefault('bodies', {})[prof] = sum(len(p.bodies) for p in progs.values())
    return rep


def coverage(pid, spec, rep, here):
    ok = sum(1 for _, o in rep.obl if o)
    c = {
        'obligations': len(rep.obl), 'discharged': ok,
        'checker_cmd': 'python3 check.py %s' % pid,
        'trusted_base': spec['tb'], 'rule': spec['rule'],
        'explanation': spec['rule'],
        'functions_analysed': sorted(rep.funcs), 'paths': rep.paths,
        'samples': [t for t, _ in rep.obl[:12]],
    }
    c.update({k: v for k, v in rep.info.items()})
    return c
