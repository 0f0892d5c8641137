"""Checks P18-P22: the code generator, Boost.Hana and date/time types."""
import copy, json, os, re
from common import *
from driver import check
import gencheck, rrtypes


def units_of(x, tus, first=1000):
    out, v = [], first
    for tu in tus:
        u = gencheck.Unit(tu, x.rng if x.rng.random() < .8 else None, v)
        v += len(u.value)
        out.append(u)
    return out


def gen_canaries(rng, obs, clauses, limit=6):
    out = []
    for o in rng.sample(obs, len(obs)):
        if len(out) >= limit: break
        c = copy.deepcopy(o)
        k = rng.randrange(len(c['tu'])); f = rng.choice(gencheck.FORMATS); d = rng.choice(['out', 'in'])
        e = c['obs'][k][f][d]
        if 'members' in clauses:
            if not e['defined'] or not e['seq']: continue
            if f == 'json' and d == 'in': e['seq'] = e['seq'][1:]
            else: e['seq'] = rng.choice([e['seq'] + e['seq'][:1], e['seq'][1:], e['seq'][:-1] + ['?']])
        else: e['defined'] = not e['defined']
        out.append(c)
    return out


def decide_units(x, tus, clauses, name, members, canaries=True, finding=None):
    """replays units with the real generator and lets the specification decide"""
    units = units_of(x, tus)
    n = JOBS if len(units) >= 2 * JOBS else 1
    parts = [units[i::n] for i in range(n)]
    seeds = [x.rng.randrange(1 << 30) for _ in parts]
    import random
    res = parallel(lambda a: gencheck.observe_batch(parts[a], x.path(name, str(a)), random.Random(seeds[a]), members), list(range(n)))
    obs = []
    for p, (o, unknown) in zip(parts, res):
        for k, v in unknown.items():
            if v: x.violation('code has been generated for classes which are not part of the main file: %s' % sorted(v)[:5], {'functions': k})
        x.count('invalid_units_dropped', sum(e is None for e in o))
        for u, e in zip(p, o):
            if e is not None: obs.append({'tu': gencheck.spec_tu(u.tu), 'obs': e})
    can = gen_canaries(x.rng, obs, clauses) if canaries else []
    w = x.path(name, 'tlc')
    with open(os.path.join(w, 'obs.ndjson'), 'w') as f:
        for k, o in enumerate(obs + can): f.write(json.dumps(dict(o, num=k + 1), separators=(',', ':')) + '\n')
    rej, r = decide_obs('GeneratorObs', 'CONSTANTS\n Clauses = {%s}\nINIT Init\nNEXT Next\nINVARIANT Accepted\n' % ', '.join('"%s"' % c for c in clauses), w, len(obs) + len(can), 800)
    missing = set(range(len(obs), len(obs) + len(can))) - set(rej)
    rej = [k for k in rej if k < len(obs)]
    if missing and not rej: raise CheckError('corrupted observation was accepted: %s' % json.dumps((obs + can)[min(missing)])[:2000])
    x.add_tlc(r)
    x.count('traces_validated_against_impl', len(obs)); x.count('classes', sum(len(o['tu']) for o in obs)); x.count('corrupted_observations_rejected', len(can))
    for k in range(0, len(obs), max(1, len(obs) // 2)): x.sample({'unit': obs[k]['tu'][:2], 'observed': obs[k]['obs'][:2]})
    for k in rej:
        if finding and x.finding(finding): continue
        m = re.search(r'<<\s*"REJECT",\s*%d,.*?>>\n(?=\S)' % (k + 1), r.out, re.S)
        x.violation('%s: %s' % (name, (m.group(0) if m else json.dumps(obs[k]))[:1500]), obs[k])


def enumerate_units(x, shape, n, name, limit):
    r = tlc('GeneratorMC', 'CONSTANTS\n Shape="%s"\n MaxRecords=%d\nINIT Init\nNEXT Next\nINVARIANTS Complete BasesFirst ReadIsWritten NoCodeForForeign Emit\nPROPERTY Local\n' % (shape, n), x.path('mc-' + name))
    if not r.ok: raise CheckError('GeneratorMC: ' + r.out[-3000:])
    x.add_tlc(r)
    tus = [json.loads(json.loads(l)[2:]) for l in r.out.split('\n') if l.startswith('"TU')]
    x.count('enumerated_units', len(tus))
    tus.sort(key=json.dumps)
    if len(tus) > limit: tus = x.rng.sample(tus, limit)
    return [gencheck.for_both(tu, k) for k, tu in enumerate(tus)]


@check('P18', 'model_checking', 'TLA+/TLC: relevant classes of all enumerated translation units (GeneratorMC) + the functions defined by code of the real generator decided by TLC',
       'TLC enumerates translation units (files, definitions, bases, adaptions, classes listed via command line) and proves that foreign classes get no code and that further classes have no influence; the same and random units are passed to the real generator, its output is compiled and the functions which are defined are decided by TLC.')
def p18(x):
    tus = enumerate_units(x, 'classes', 2, 'two', 10**9 if x.thorough else 220)
    decide_units(x, tus, ['defined'], 'two', False)
    tus = enumerate_units(x, 'classes', 3, 'three', x.n(260, 3000))
    decide_units(x, tus, ['defined'], 'three', False)
    for rnd in range(x.n(1, 6)):
        decide_units(x, [gencheck.random_tu(x.rng, k) for k in range(x.n(160, 300))], ['defined'], 'random%d' % rnd, False)


@check('P19', 'model_checking', 'TLA+/TLC: members used per class (GeneratorMC: each member of the class and its relevant bases exactly once, bases first) + members (de)serialized by code of the real generator decided by TLC',
       'TLC enumerates records (access, friends, constant and static members, default constructor, derived classes) and proves completeness and order; the same and random class hierarchies are passed to the real generator and the members which are actually written and read by the compiled code are decided by TLC.')
def p19(x):
    tus = enumerate_units(x, 'members', 2, 'members', x.n(300, 4000))
    decide_units(x, tus, ['defined', 'members'], 'members', True)
    tus = enumerate_units(x, 'classes', 3, 'three', x.n(120, 2000))
    decide_units(x, tus, ['members'], 'three', True)
    for rnd in range(x.n(1, 6)):
        decide_units(x, [gencheck.random_tu(x.rng, k) for k in range(x.n(130, 300))], ['members'], 'random%d' % rnd, True)
    # base classes which are serializable but defined within an included header
    R = lambda q, file, bases, ser, n: dict(q=q, file=file, complete=True, bases=bases, ser=ser, adapt=[], listed=[], friends=[], ctor=True, nest=0, members=[{'n': n, 'acc': 'public', 'const': False, 'static': False}])
    inc = [[R('Inc%d::B' % k, 'inc', [], list(f), 'b%d' % k), R('Inc%d::D' % k, 'main', [1], list(f), 'd%d' % k)] for k, f in enumerate((gencheck.FORMATS, ('json',), ('binary',)))]
    decide_units(x, inc, ['inherited'], 'inherited', True, False, 'base-in-included-header')
    decide_units(x, inc, ['defined', 'members'], 'included', True)
    # serializable class nested within another one within a linkage specification
    link = [dict(R('Link::O', 'main', [], [], 'o'), link=True), dict(R('Link::O::N', 'main', [], ['binary'], 'n'), nest=1)]
    try: decide_units(x, [link], ['defined', 'members'], 'linkage', True, False)
    except BuildFailure as e:
        if 'BinarySerializable<O::N' not in str(e) or not x.finding('nested-within-linkage-specification'): raise


@check('P20', 'model_checking', 'TLA+/TLC: the specifications of both formats (JsonMap, BinMap), decided on observations of the real library using Boost.Hana instead of generated code',
       'the structs of the harness are reflected via BOOST_HANA_DEFINE_STRUCT/BOOST_HANA_ADAPT_STRUCT (some holding versioned records with generated code, for arbitrary versions); enumerated and random objects, documents and bytes are passed to the library and decided by TLC with the same specification as generated code.')
def p20(x):
    from checks import json_checks as jc, binary_checks as bc
    jt = [s for s in jc.RT_TYPES if rrtypes.hana_ok(s)]
    jt += ['vec<Leaf>', 'umap<Leaf>', 'mmap<Nest>', 'opt<Leaf>'] + ['opt<Nums>', 'var<Leaf,i32>', 'tup<Leaf,i32>']
    lab = jc.JsonLab(jt, x.path('json'), hana=True)
    vals, r = lab.values([(t, 3 if x.thorough else 2) for t in jt])
    x.add_tlc(r); x.count('enumerated_objects', len(vals))
    if not x.thorough: vals = x.rng.sample(vals, min(len(vals), 900))
    jc.decide_cases(x, lab, [jc.rt_case(x, lab, t, v, cur=True) for t, v in vals], ['doc', 'rt'], 'json-enumerated')
    for rnd in range(x.n(1, 8)):
        cases = []
        for _ in range(x.n(300, 1200)):
            t = x.rng.choice(jt); cases.append(jc.rt_case(x, lab, t, jc.rand_value(x.rng, rrtypes.parse(t), lab.defaults, lab.structs), cur=True))
        jc.decide_cases(x, lab, cases, ['doc', 'rt'], 'json-random%d' % rnd)
        de = [jc.de_case(x, lab, t, d) for t, d in jc.rand_docs(x, lab, jt, x.n(500, 1500))]
        de += [jc.de_case(x, lab, t, d, we=True, thr=x.rng.choice([1, 2, 4, 8, 16, 31])) for t, d in jc.rand_docs(x, lab, jt, x.n(150, 400))]
        jc.decide_cases(x, lab, de, jc.ALL_CLAUSES, 'json-documents%d' % rnd)
    bt = [s for s in bc.BT if rrtypes.hana_ok(s)] + ['vec<Leaf>', 'opt<Nest>', 'kmap<i32,Leaf>', 'vec<sptr<HNode>>', 'uptr<Leaf>', 'var<mono,Leaf,str>']
    lab = bc.BinLab(bt, x.path('binary'), hana=True)
    roots = [(t, 3 if x.thorough else 2, {'vers': [0]}) for t in bt]
    vals, r = lab.mc('BinValuesMC', roots, 'mc', 'INIT Init\nNEXT NextRt\nINVARIANT RoundTrip\nINVARIANT BytesOk\nPOSTCONDITION Export\n', export='vals.ndjson')
    x.add_tlc(r); x.count('enumerated_objects', len(vals))
    if not x.thorough: vals = x.rng.sample(vals, min(len(vals), 900))
    def version(t): return x.rng.choice([0, 0, 1, 2, 3, 4, 5, 7]) if t.startswith('Hv') else x.rng.choice([0, 0, 0, 1, 5])   # handed through to members
    bc.decide_cases(x, lab, [bc.rt(x, lab, roots[v['r'] - 1][0], v['v'], version(roots[v['r'] - 1][0]), cur=False) for v in vals], ['wire', 'rt', 'const'], 'binary-enumerated')
    for rnd in range(x.n(1, 8)):
        cases, dec = [], []
        for _ in range(x.n(500, 1500)):
            t = x.rng.choice(bt + ['HvOut', 'HvDeep'] * 3); cases.append(bc.rt(x, lab, t, lab.value(x.rng, t), version(t)))
        ran = bc.decide_cases(x, lab, cases, ['wire', 'rt', 'const'], 'binary-random%d' % rnd)
        if not ran: continue
        for c, o, raw in zip(*ran):
            if x.rng.random() > .7 or not raw.get('bytes') or c['type'] == 'BEnum': continue
            b = list(raw['bytes'])
            for _ in range(x.rng.randrange(3)):
                k = x.rng.randrange(len(b))
                w = x.rng.randrange(3)
                if w == 0: b[k] = x.rng.choice([0, 1, 255, x.rng.randrange(256)])
                elif w == 1: b = b[:k] or b
                else: b[k] ^= 1 << x.rng.randrange(8)
            dec.append({'type': c['type'], 'op': 'dec', 'bytes': b, 'rapi': x.rng.choice(['plain', 'des', 'member', 'static'])})
        bc.decide_cases(x, lab, dec, ['exc', 'pos', 'val'], 'binary-bytes%d' % rnd)


@check('P21', 'model_checking', 'TLA+/TLC: command line tool as transition system (GenCliMC: SuccessIsComplete, Determined, FailureReported, Independent) + calls of the real generator decided by TLC',
       'TLC enumerates calls (formats, inputs with errors, kinds of output, options, storage limits) and sequences of calls using the same file; all of them (quick: a sample of the sequences) are performed with the real code generator and exit code, output and messages are decided by TLC.')
def p21(x):
    import clicheck
    cli = clicheck.Cli(x.path('calls'))
    cfg = 'CONSTANTS\n Calls=%d\n Full=%s\nSPECIFICATION Spec\nINVARIANTS SuccessIsComplete Determined FailureReported StdoutOnlyCode FileOnlyIfRequested Independent Emit\nPROPERTY Terminates\n'
    seqs = []
    for calls, full, limit in ((1, x.thorough, 10**9), (2, False, x.n(100, 10**9)), (3, False, x.n(100, 2500))):
        r = tlc('GenCliMC', cfg % (calls, 'TRUE' if full else 'FALSE'), x.path('mc%d' % calls))
        if not r.ok: raise CheckError('GenCliMC: ' + r.out[-3000:])
        x.add_tlc(r)
        found = sorted({json.loads(l)[4:] for l in r.out.split('\n') if l.startswith('"CALL')})
        x.count('enumerated_call_sequences', len(found))
        if len(found) > limit: found = x.rng.sample(found, limit)
        seqs += [json.loads(s)['calls'] for s in found]
    if x.thorough and len(seqs) > 12000: seqs = x.rng.sample(seqs, 12000)
    for c in ('both', 'json', 'binary', 'none', 'cond'):
        for g in ('json', 'binary'): cli.reference(c, g)
    # storage limits: number of bytes instead of units
    enumerated = len(seqs)
    for gens in (['json'], ['json', 'binary'], ['binary'], []):
        for out in ('file', 'stdout'):
            c = dict(gens=gens, file=True, cls='both', errs=[], out=out, cap=-1, res=False, log=False, vj='', vb='', opts=[['-w']])
            n = cli.complete(c)
            ks = {0, 1, n - 1, n, n + 1, 4096} | {x.rng.randrange(n + 2) for _ in range(x.n(6, 60))}
            seqs += [[dict(c, cap=k)] for k in sorted(k for k in ks if k >= 0)]
    modes = [x.rng.choice([True, False, None]) for _ in seqs]
    def one(k):
        out = []
        for j, c in enumerate(seqs[k]):
            cap = c['cap'] if c['cap'] >= 0 else None
            if cap is not None and k < enumerated:   # the model divides each section into two units
                n, units = cli.complete(c), 2 * len(c['gens'])
                cap = n * cap // units if cap <= units else n + cap
            out.append(cli.call(c, x.path('calls', str(k)), cap, modes[k]))
        return out
    res = parallel(one, list(range(len(seqs))))
    obs = [o for r in res for o in r]
    can = []
    for o in x.rng.sample(obs, len(obs)):
        if len(can) >= 12: break
        c = copy.deepcopy(o)
        if c['exit'] == 0 and c['code'] and c['call']['out'] != 'full': c['code'] = x.rng.choice([c['code'][1:], c['code'] + c['code'][:1], [dict(c['code'][0], vis='?')] + c['code'][1:]])
        else: c['exit'] = 1 - c['exit']
        can.append(c)
    w = x.path('tlc')
    with open(os.path.join(w, 'obs.ndjson'), 'w') as f:
        for k, o in enumerate(obs + can): f.write(json.dumps(dict(o, num=k + 1), separators=(',', ':')) + '\n')
    rej, r = decide_obs('GenCliObs', 'INIT Init\nNEXT Next\nINVARIANT Accepted\n', w, len(obs) + len(can), 800)
    missing = set(range(len(obs), len(obs) + len(can))) - set(rej)
    rej = [k for k in rej if k < len(obs)]
    if missing and not rej: raise CheckError('corrupted observation was accepted: %s' % json.dumps((obs + can)[min(missing)])[:2000])
    x.add_tlc(r)
    x.count('traces_validated_against_impl', len(seqs)); x.count('calls', len(obs)); x.count('corrupted_observations_rejected', len(can))
    for k in range(0, len(obs), max(1, len(obs) // 3)): x.sample(obs[k])
    for k in rej: x.violation('call of the code generator: %s' % json.dumps(obs[k])[:1500], obs[k])

@check('P22', 'model_checking', 'TLA+/TLC: calendar as transition system (ChronoMC: arithmetic, texts, rejected texts) + (de)serialization of date/time values decided with JsonMap/BinMap',
       'TLC lets a calendar advance day by day and proves the arithmetic, the texts and what is rejected; the resulting points in time, random ones and random valid and invalid texts are passed to the real library and decided by TLC. Conversions from text of the underlying library have a precision of one tick.')
def p22(x):
    from checks import json_checks as jc, binary_checks as bc
    years = [1, 4, 100, 400, 1900, 2000, 9998] if not x.thorough else list(range(1, 10000, 40)) + [9998]
    r = tlc('ChronoMC', 'CONSTANTS\n Years = {%s}\n Span = %d\nSPECIFICATION Spec\nINVARIANTS CalendarAgrees SplitJoin RoundTrip Zoned Rejected SpanRoundTrip SpanDistinct Emit\nPROPERTY Ordered\n'
            % (', '.join(map(str, years)), 760 if not x.thorough else 14700), x.path('mc'))
    if not r.ok: raise CheckError('ChronoMC: ' + r.out[-3000:])
    x.add_tlc(r)
    days = [json.loads(json.loads(l)[2:]) for l in r.out.split('\n') if l.startswith('"DT')]
    x.count('calendar_edges', len(days))
    types = ['Chrono', 'vec<dt>', 'vec<ts>', 'map<dt>', 'map<ts>', 'vec<Chrono>', 'opt<dt>', 'var<dt,ts>', 'tup<dt,ts,str>', 'dt', 'ts', 'uptr<ts>']
    lab = jc.JsonLab(types, x.path('json'))
    I = lambda m: {'t': 'int', 'n': False, 'm': m}
    at = [I(m) for e in days if e['y'] < 10000 for m in e['at']]
    if len(at) > x.n(600, 8000): at = x.rng.sample(at, x.n(600, 8000))
    cases = [jc.rt_case(x, lab, 'vec<dt>', {'t': 'seq', 'e': at[k:k + 6]}) for k in range(0, len(at), 6)]
    vals, r = lab.values([(t, 2) for t in types])
    x.add_tlc(r); x.count('enumerated_objects', len(vals))
    cases += [jc.rt_case(x, lab, t, v, cur=True) for t, v in vals]
    jc.decide_cases(x, lab, cases, ['doc', 'rt'], 'enumerated')
    docs, r = lab.machine([('Chrono', 2), ('vec<dt>', 1), ('var<dt,ts>', 1)])
    x.add_tlc(r); x.count('enumerated_documents', len(docs))
    if len(docs) > x.n(800, 8000): docs = x.rng.sample(docs, x.n(800, 8000))
    jc.decide_cases(x, lab, [jc.de_case(x, lab, t, d, thr=x.rng.choice([0, 0, 1, 4, 255])) for t, d in docs], jc.ALL_CLAUSES, 'documents')
    for rnd in range(x.n(1, 8)):
        cases = []
        for _ in range(x.n(500, 1500)):
            t = x.rng.choice(types); cases.append(jc.rt_case(x, lab, t, jc.rand_value(x.rng, rrtypes.parse(t), lab.defaults, lab.structs), cur=True))
        for _ in range(x.n(60, 400)):    # the text is also determined for years after 9999 and for negative time spans
            y = x.rng.random() < .5
            v = jc.vint(x.rng.randrange(3155378976000000000, 1 << 64) if y else -x.rng.choice([1, 10, 10**7, x.rng.randrange(1, 36 * 10**15)]))
            cases.append({'type': 'vec<dt>' if y else 'vec<ts>', 'op': 'ser', 'val': {'t': 'seq', 'e': [v]}, 'api': x.rng.choice(jc.APIS)})
        jc.decide_cases(x, lab, cases, ['doc', 'rt'], 'random%d' % rnd)
        de = [jc.de_case(x, lab, t, d, thr=x.rng.choice([0, 0, 0, 1, 4, 255])) for t, d in jc.rand_docs(x, lab, types, x.n(900, 2500))]
        jc.decide_cases(x, lab, de, jc.ALL_CLAUSES, 'documents-random%d' % rnd)
    # known finding: the sign of negative time spans is only applied to the first part when reading
    v = {'t': 'seq', 'e': [jc.vint(-37230000000)]}
    obs, raw = lab.observe([{'type': 'vec<ts>', 'op': 'rt', 'val': v, 'api': 'push', 'api2': 'push'}], 'negative')
    rej, r = lab.decide(obs, ['doc', 'rt'], 'tlc-negative')
    if rej and not x.finding('negative-time-span'): x.violation('negative time span is not preserved', {'observed': obs})
    # binary format
    types = ['Chrono', 'vec<dt>', 'vec<ts>', 'dt', 'ts', 'opt<dt>', 'map<ts>', 'kmap<i32,dt>', 'uptr<dt>', 'vec<sptr<ts>>', 'var<dt,ts>']
    lab = bc.BinLab(types, x.path('binary'))
    roots = [(t, 3 if x.thorough else 2, {'vers': [0]}) for t in types]
    vals, r = lab.mc('BinValuesMC', roots, 'mc', 'INIT Init\nNEXT NextRt\nINVARIANT RoundTrip\nINVARIANT BytesOk\nPOSTCONDITION Export\n', export='vals.ndjson')
    x.add_tlc(r); x.count('enumerated_objects', len(vals))
    cases = [bc.rt(x, lab, roots[v['r'] - 1][0], v['v'], cur=False) for v in vals]
    cases += [bc.rt(x, lab, 'vec<dt>', {'t': 'seq', 'e': at[k:k + 6]}, cur=False) for k in range(0, min(len(at), 300), 6)]
    cases += [bc.rt(x, lab, t, lab.value(x.rng, t), cur=False) for t in types for _ in range(x.n(30, 300))]
    bc.decide_cases(x, lab, cases, ['wire', 'rt', 'const', 'ret'], 'binary')
    dec = [{'type': t, 'op': 'dec', 'bytes': [x.rng.choice([0, 1, 127, 128, 255, x.rng.randrange(256)]) for _ in range(x.rng.choice([0, 1, 7, 8, 8, 9, 17]))], 'rapi': 'plain', 'rver': bc.be8(0)} for t in types for _ in range(x.n(20, 200))]
    bc.decide_cases(x, lab, dec, ['pos', 'val'], 'binary-bytes')
