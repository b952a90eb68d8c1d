"""Decide one property on /repo's current tree:  python3 -m sa.check C07 [--thorough]

Exit 0: no obligation of the property is refuted.  Exit 1: at least one is, with a VIOLATION line.  Exit 2: no answer
(the sources do not compile)."""
import sys, os, time, json, signal, traceback, collections
from multiprocessing import Pool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(6000)
from sa import ir, units            # noqa: E402
from sa.vmx import Rec              # noqa: E402

EVID = os.environ.get('SA_EVIDENCE') or os.path.join(ROOT, 'evidence')
PROG = None
UNITS = None
LIMIT = 240
BUDGET = 700
T0 = time.time()


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def work(i):
    u = UNITS[i]
    signal.signal(signal.SIGALRM, _alarm)
    # units that do not finish in time are undecided; the whole check answers within its 900 s
    signal.alarm(max(2, min(LIMIT, int(BUDGET - (time.time() - T0)))))
    try:
        r = u.fn(PROG, u.arg)
    except Timeout:
        r = units.Result([Rec(u.props, 'undecided', 'analysis', 'time limit', u.name, u.name)], notes=['%s: time limit' % u.name])
    except ir.Anchor as e:
        r = units.Result([Rec(u.props, 'undecided', 'anchor', str(e), u.name, u.name)], notes=['%s: %s' % (u.name, e)])
    except Exception as e:
        r = units.Result([Rec(u.props, 'undecided', 'analysis', '%s: %s' % (type(e).__name__, str(e)[:200]), u.name, u.name)],
                         notes=['%s: %s' % (u.name, traceback.format_exc()[-600:])])
    finally:
        signal.alarm(0)
    return i, r


def known(pid):
    """entries 'known: property=<id> rule=<rule> where=<function> case=<text> | <what fails>'"""
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                head, _, what = l[len('known: property=%s ' % pid):].partition(' | ')
                out.append((head, what))
    return out


def main(argv):
    global PROG, UNITS
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = T0
    from sa.manifest import CHECKS, EXPLAIN, ASSUME
    try:
        PROG = ir.program()
        UNITS = [u for u in units.all_units(PROG, tier == 'thorough') if pid in u.props]
    except Exception as e:
        print('no answer: %s: %s' % (type(e).__name__, e))
        return 2
    order = sorted(range(len(UNITS)), key=lambda i: -UNITS[i].cost)
    recs, funcs, cases, paths, notes = [], set(), 0, 0, []
    if len(UNITS) > 1:
        with Pool(min(8, len(UNITS))) as pool:
            res = list(pool.imap_unordered(work, order, chunksize=1))
    else:
        res = [work(i) for i in order]
    res.sort(key=lambda x: x[0])
    for i, r in res:
        recs += [x for x in r.recs if pid in x.props]
        funcs |= r.functions
        cases += r.cases
        paths += r.paths
        notes += r.notes
    st = collections.Counter(r.status for r in recs)
    rules = collections.Counter((r.rule.split(' of ')[0], r.status) for r in recs)
    bad, seen = [], set()
    for r in recs:
        if r.status == 'refuted':
            k = (r.case, r.rule, r.where, r.detail)
            if k not in seen:
                seen.add(k)
                bad.append(r)
    kn = known(pid)
    fresh = []
    said = set()
    for r in bad:
        for head, what in kn:
            f = dict(x.split('=', 1) for x in head.split('; ') if '=' in x)
            if all(v in getattr(r, k, '') for k, v in f.items()):
                if head not in said:
                    print('KNOWN-FINDING: property=%s %s' % (pid, what))
                    said.add(head)
                break
        else:
            fresh.append(r)
    und = [r for r in recs if r.status == 'undecided']
    seen = set()
    ulist = []
    for r in und:
        k = (r.case, r.rule, r.detail[:60])
        if k not in seen:
            seen.add(k)
            ulist.append('%s: %s (%s) %s' % (r.case, r.rule, r.where, r.detail[:120]))
    samples = []
    seen = set()
    for r in recs:
        if r.status == 'proved' and (r.rule, r.case) not in seen and len(samples) < 12:
            if any(s.startswith(r.rule) for s in samples) and len(samples) > 6:
                continue
            seen.add((r.rule, r.case))
            samples.append('%s: %s at %s' % (r.rule, r.case, r.where))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': EXPLAIN.get(pid, ''),
            'source_files': len(PROG.mods), 'functions_in_program': len(PROG.all),
            'functions_analysed': len(funcs), 'functions': sorted(funcs)[:120],
            'units_of_analysis': len(UNITS), 'abstract_cases': cases, 'partitions_judged': paths,
            'obligations': len(recs), 'discharged': st['proved'], 'undecided': st['undecided'], 'refuted': st['refuted'],
            'by_rule': {'%s / %s' % k: v for k, v in sorted(rules.items())[:150]},
            'undecided_obligations': ulist[:30], 'samples': samples, 'notes': [n[:300] for n in notes[:10]],
        },
        'assumptions': ASSUME.get(pid, ASSUME['*']),
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d units, %d abstract cases, %d partitions; %d obligations: %d proved, %d undecided, %d refuted (%.1f s)' %
          (pid, len(UNITS), cases, paths, len(recs), st['proved'], st['undecided'], st['refuted'], time.time() - t0))
    if fresh:
        rp = os.path.join(EVID, '%s.violation.txt' % pid)
        with open(rp, 'w') as f:
            for r in fresh:
                f.write('property  %s\nwhere     %s\nrule      %s\ncase      %s\nfinding   %s\n' % (pid, r.where, r.rule, r.case, r.detail))
                if r.example:
                    f.write('state     %s\n' % r.example)
                f.write('\n')
        for r in fresh[:8]:
            print('%s: %s: %s: %s' % (r.where, r.case, r.rule, r.detail))
        if len(fresh) > 8:
            print('... and %d more, see %s' % (len(fresh) - 8, rp))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, ROOT)))
        return 1
    if not st['proved']:
        for n in notes[:5]:
            print(n)
        print('nothing could be decided for %s: all obligations are undecided' % pid)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
