"""Abstract interpretation of execute(), one instruction at a time, from abstract machine states that between them cover
every state the instruction can meet; judged against the specification in sa/opspec.py."""
from .. import opspec
from ..units import Unit, Result
from ..vmx import Rec

PROPS = ['C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C09', 'C10', 'C11', 'C14', 'C15', 'C16', 'C20', 'C25', 'C27', 'C28', 'C29',
         'C30', 'C31', 'C33', 'C17', 'C18']
TRACES = ('trace_basic', 'trace_for', 'trace_log')


def run(prog, arg):
    op, trace = arg
    b = opspec.Bench(prog, op, trace)
    notes = []
    for fn in opspec.SPECS[op]:
        b.attempt(fn, notes)
    return Result(b.recs, {f.qname for f in b.visited}, b.cases, b.paths, notes)


def traced(prog, op):
    """same specification with a trace switch on; a failure counts only if it is absent with tracing off"""
    base = run(prog, (op, None))
    bad0 = {(r.case, r.rule) for r in base.recs if r.status == 'refuted'}
    out = Result(functions=base.functions, cases=base.cases, paths=base.paths)
    for t in TRACES:
        r = run(prog, (op, t))
        out.functions |= r.functions
        out.cases += r.cases
        out.paths += r.paths
        out.notes += r.notes
        for x in r.recs:
            if x.status == 'refuted' and (x.case.replace(' +' + t, ''), x.rule) in bad0:
                continue
            out.recs.append(x)
    return out


def units(prog):
    prog.func('execute')
    out = []
    for op in opspec.ORDER:
        out.append(Unit('instruction ' + op, PROPS, run, (op, None)))
    for op in opspec.ORDER:
        out.append(Unit('instruction %s with tracing' % op, ['C19'], traced, op))
    return out
