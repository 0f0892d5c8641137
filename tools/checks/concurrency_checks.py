"""Checks of several operations at the same time: schedules of JsonConcurrentMC replayed into the real library, free running threads."""
import json, math, re
from common import *
from driver import check
from jsoncheck import *
from bincheck import BinLab, Z8
import checks.json_checks as JC, checks.binary_checks as BC
import rrtypes

PROBED = ['MIn', 'MOut', 'MVar', 'MMap', 'MMul', 'PLeaf', 'PNest']
PLAIN = ['Nest', 'Conts', 'Vars', 'Tups', 'Deflt', 'Chrono', 'Nums', 'Enums', 'Tree', 'Ptrs', 'Custom', 'MultiInh', 'HasThird', 'Spaced', 'vec<i32>', 'map<str>', 'i64', 'f64', 'str', 'mmap<str>', 'set<str>']
BTYPES = ['Nest', 'Conts', 'Vars', 'Deflt', 'Chrono', 'BNums', 'Ptrs', 'Tree', 'Net', 'Node', 'BConts', 'VExample', 'VDeep', 'VDer', 'MultiInh', 'HasThird', 'vec<sptr<str>>', 'map<str>', 'vec<i32>', 'str', 'u64', 'vec<bool>']


def pulls(ty, d, structs):
    """how often custom code is invoked when reading d"""
    k = ty['k']
    if k == 'probe': return 1
    if k in ('seq', 'set'): return sum(pulls(ty['of'], e, structs) for e in d['e']) if d['t'] == 'arr' else 0
    if k == 'map':
        if d['t'] != 'obj': return 0
        return sum(sum(pulls(ty['of'], e, structs) for e in m['v']['e']) if ty['multi'] and m['v']['t'] == 'arr' else pulls(ty['of'], m['v'], structs) for m in d['m'])
    if k == 'tup': return sum(pulls(t, e, structs) for t, e in zip(ty['of'], d['e'])) if d['t'] == 'arr' and len(d['e']) == len(ty['of']) else 0
    if k == 'opt': return 0 if d['t'] == 'null' else pulls(ty['of'], d, structs)
    if k == 'var':
        m = {bytes(m['k']): m['v'] for m in reversed(d['m'])} if d['t'] == 'obj' else {}
        i = m.get(b'index')
        if not i or b'data' not in m or i['t'] != 'int' or i['n'] or i['m'][7] >= len(ty['of']) or any(i['m'][:7]): return 0
        return pulls(ty['of'][i['m'][7]], m[b'data'], structs)
    if k == 'rec':
        if d['t'] != 'obj': return 0
        m = {bytes(m['k']): m['v'] for m in reversed(d['m'])}
        return sum(pulls(f['t'], m[bytes(f['nb'])], structs) for f in flat(structs, ty['n']) if bytes(f['nb']) in m)
    return 0


def runs(rng, n, total):
    """schedule of n operations which changes after runs of different lengths"""
    out, scale = [], rng.choice([1, 2, 4, 8, 16, 40])
    while len(out) < total: out += [rng.randint(1, n)] * rng.randint(1, 2 * scale)
    return out


def schedules(counts):
    n = math.factorial(sum(counts))
    for c in counts: n //= math.factorial(c)
    return n


def job(x, lab, lo, hi, size, maxd=10**9):
    """several documents to be read at the same time"""
    while True:
        parts = []
        for _ in range(size):
            t = x.rng.choice(PROBED)
            parts.append((t, rand_doc(x.rng, lab.desc[t], lab.structs, x.rng.choice([0, .1, .3]))))
        if lo <= schedules([1 + pulls(lab.desc[t], d, lab.structs) for t, d in parts]) <= hi and all(len(json.dumps(d)) < maxd for _, d in parts):
            return [dict(t=t, ty=lab.desc[t], d=d, we=x.rng.random() < .9, thr=x.rng.choice([0, 0, 0, 1, 4, 63])) for t, d in parts]


def concurrent(x, lab, jobs, name, grain, leak='none', live=False):
    w = x.path('lab', name)
    json.dump({'structs': lab.structs, 'defaults': lab.defaults, 'jobs': [[{k: v for k, v in p.items() if k != 't'} for p in j] for j in jobs]}, open(os.path.join(w, 'schema.json'), 'w'))
    return tlc('JsonConcurrentMC', 'CONSTANTS\n Structs <- StructsIn\n Defaults <- DefaultsIn\n Jobs <- JobsIn\n Grain = "%s"\n Leak = "%s"\nSPECIFICATION Spec\nINVARIANTS NonInterference Export\n%s' %
               (grain, leak, 'PROPERTIES Isolated%s\n' % (' Terminates' if live else '') if leak == 'none' else ''), w)


@check('P23', 'model_checking', 'TLA+/TLC: interleavings of several deserialization machines (NonInterference, Isolated) + replay of the exported schedules into the real library (threads handing over a baton, nested operations) + free running threads',
       'TLC explores all interleavings of up to three machines; the schedules are replayed deterministically, all observations (also those of freely running threads, monitored by ThreadSanitizer) are decided by TLC as if each operation was alone.')
def p23(x):
    lab = JsonLab(PROBED + PLAIN, x.path('lab'), par=True)
    # the specification
    big = [job(x, lab, 20, 10**9, 2, 1500) for _ in range(x.n(10, 40))] + [job(x, lab, 20, 10**9, 3, 260) for _ in range(x.n(3, 12))]
    r = concurrent(x, lab, big, 'micro', 'micro', live=x.thorough)
    if not r.ok: raise CheckError('model checking of JsonConcurrentMC failed:\n' + r.out[-3000:])
    x.add_tlc(r)
    for leak in ['context', 'errors', 'result', 'stack'] if x.thorough else [x.rng.choice(['context', 'errors', 'result', 'stack'])]:
        if 'NonInterference' not in concurrent(x, lab, big, 'leak', 'micro', leak).violated: raise CheckError('state which is shared (%s) has not been refuted' % leak)
        x.count('refuted_variants')
    # its schedules
    small = [job(x, lab, 3, 130, 2) for _ in range(x.n(25, 80))] + [job(x, lab, 6, 900, 3) for _ in range(x.n(6, 20))] + [job(x, lab, 200, 2600, 4) for _ in range(x.n(1, 4))]
    r = concurrent(x, lab, small, 'macro', 'macro')
    if not r.ok: raise CheckError('model checking of JsonConcurrentMC failed:\n' + r.out[-3000:])
    x.add_tlc(r)
    scheds = [json.loads(json.loads(l)[6:]) for l in r.out.splitlines() if l.startswith('"SCHED ')]
    x.count('schedules', len(scheds))
    if len(scheds) < len(small): raise CheckError('no schedules')
    by = {}
    for s in scheds: by.setdefault((s['job'], s['nested']), []).append(s)
    pick = []
    for k in sorted(by): pick += x.rng.sample(by[k], min(len(by[k]), x.n(30, 80)))
    cases = []
    for s in pick:
        parts = [dict(type=p['t'], op='de', text=list(write_json(p['d'], x.rng if x.rng.random() < .3 else None)), we=p['we'], thr=p['thr'], api=x.rng.choice(JC.APIS2)) for p in small[s['job'] - 1]]
        for mode in ['threads'] + ['nested'] * s['nested']:
            cases.append({'type': '$par', 'op': 'par', 'mode': mode, 'sched': s['sched'], 'strict': True, 'cases': parts})
    x.count('replayed_schedules', len(cases))
    JC.decide_cases(x, lab, cases, JC.ALL_CLAUSES, 'schedules')
    # writing as well, schedules which are not known in advance
    def one(types):
        t = x.rng.choice(types)
        if x.rng.random() < .5: return JC.rt_case(x, lab, t, rand_value(x.rng, lab.desc[t], lab.defaults, lab.structs), cur=True)
        if x.rng.random() < .3: return JC.des_cases(x, lab, [t], 1, lambda: x.rng.choice([0, 0, 1, 63]))[0]
        return JC.de_case(x, lab, t, rand_doc(x.rng, lab.desc[t], lab.structs, x.rng.choice([0, .05, .2])), thr=x.rng.choice([0, 0, 0, 4, 63]))
    def usable(c): return len(json.dumps(c)) < 15000 and all(JC.usable(s['text']) for s in c.get('steps', [c] if 'text' in c else []))
    def some(types, n, **kw):
        cs = []
        while len(cs) < n:
            c = one(types)
            if usable(c): cs.append(c)
        return dict({'type': '$par', 'op': 'par', 'strict': False, 'cases': cs}, **kw)
    cases = []
    for _ in range(x.n(150, 800)):
        n = x.rng.choice([2, 2, 3])
        cases.append(some(PROBED, n, mode=x.rng.choice(['threads', 'nested']), sched=runs(x.rng, n, 60)))
    JC.decide_cases(x, lab, cases, JC.ALL_CLAUSES, 'mixed')
    # running freely
    def free(l, n):
        cases = [some(PROBED + PLAIN, 4, mode='free', reps=x.n(6, 20)) for _ in range(n)]
        for c in list(cases):       # the same operation several times
            if x.rng.random() < .3: cases.append(dict(c, cases=[c['cases'][0]] * 4))
        for t in PLAIN * x.n(1, 4):
            cases.append({'type': t, 'op': 'shared', 'threads': 4, 'val': rand_value(x.rng, l.desc[t], l.defaults, l.structs), 'api': x.rng.choice(JC.APIS)})
        return cases
    JC.decide_cases(x, lab, free(lab, x.n(40, 300)), JC.ALL_CLAUSES, 'free')
    lab = JsonLab(PROBED + PLAIN, x.path('tsan'), par=True, tsan=True)
    JC.decide_cases(x, lab, free(lab, x.n(100, 400)), JC.ALL_CLAUSES, 'races')

    # binary: other operations are continued before each access to the streams
    def bsome(n, **kw):
        cs = []
        while len(cs) < n:
            t = x.rng.choice(BTYPES)
            c = BC.rt(x, blab, t, blab.value(x.rng, t), x.rng.choice([0, 0, 1, 3, 5]) if t[0] == 'V' else 0)
            if len(json.dumps(c)) < 6000 and t != 'vec<bool>': cs.append(dict(c, op='prt'))
        return dict({'type': '$par', 'op': 'par', 'cases': cs}, **kw)
    def bshared():
        t = x.rng.choice(BTYPES)
        return {'type': t, 'op': 'shared', 'threads': 4, 'val': blab.value(x.rng, t), 'wapi': x.rng.choice(['plain', 'ser', 'member']), 'wver': BC.be8(0)}
    def bfree(n): return [bsome(4, mode='free', reps=x.n(6, 20)) for _ in range(n)] + [bshared() for _ in range(n)]
    cl = ['wire', 'const', 'rt', 'ret']
    blab = BinLab(BTYPES, x.path('blab'), par=True)
    cases = []
    for _ in range(x.n(120, 800)):
        n = x.rng.choice([2, 2, 3])
        cases.append(bsome(n, mode=x.rng.choice(['threads', 'threads', 'nested']), sched=runs(x.rng, n, 600)))
    done, _, raw = BC.decide_cases(x, blab, cases, cl, 'streams')
    # equal data (so the same numbers are used for objects) is read by several operations
    cases, data = [], []
    for c, r in zip(done, raw):
        if 'outs' in r: data += [(q, p['bytes']) for q, o in zip(c['cases'], r['outs']) for p in o if p['bytes'] and q['rapi'] != 'static']
    data = [d for d in data if 'ref' in json.dumps(d[0]['val'])] * 3 + x.rng.sample(data, len(data) // 4)
    for q, b in data[:x.n(300, 2000)]:
        n = x.rng.choice([2, 2, 3])
        cases.append({'type': '$par', 'op': 'par', 'mode': x.rng.choice(['threads', 'nested', 'nested']), 'sched': runs(x.rng, n, 400),
                      'cases': [dict(type=q['type'], op='pdec', rapi=q['rapi'], rver=q['rver'], bytes=b if x.rng.random() < .9 else b[:x.rng.randrange(len(b))]) for _ in range(n)]})
    BC.decide_cases(x, blab, cases, ['pos', 'val'], 'equal')
    blab = BinLab(BTYPES, x.path('btsan'), par=True, tsan=True)
    BC.decide_cases(x, blab, bfree(x.n(60, 250)), cl, 'bin-races')
