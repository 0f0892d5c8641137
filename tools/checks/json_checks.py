"""Checks of the JSON side: every observation of the real code is decided by TLC with JsonMap.tla/JsonObs.tla."""
import copy, json, math, re, struct
from common import *
from driver import check
from jsoncheck import *
import rrtypes

ALL_CLAUSES = ['doc', 'rt', 'exc', 'val', 'errs', 'fmt', 'ctx', 'probes']


def leaves(v, path=()):
    if isinstance(v, dict):
        if v.get('t') in ('int', 'str', 'bool'): yield v
        else:
            for x in v.values(): yield from leaves(x)
    elif isinstance(v, list):
        for x in v: yield from leaves(x)


def flip(rng, v):
    ls = list(leaves(v))
    if not ls: return False
    l = rng.choice(ls)
    if l['t'] == 'bool': l['b'] = not l['b']
    elif l['t'] == 'str': l['s'] = l['s'] + [33]
    else: l['m'][7] ^= 4; l['n'] = l['n'] and any(l['m'])
    return True


UNSAFE = ('ConstM', 'PrivNo', 'cstr', 'sv')


def canaries(rng, obs, clauses, limit=8):
    """corrupted copies of accepted observations; every one of them has to be rejected (binds the oracle: it is not vacuous)"""
    out = []
    for o in rng.sample(obs, len(obs)):
        if len(out) >= limit: break
        if o['crash'] or any(u in o['type'] for u in UNSAFE): continue
        c = copy.deepcopy(o)
        if o['op'] == 'par':
            k = rng.randrange(len(c['parts']))
            bad = canaries(rng, [c['parts'][k]], clauses, 1)
            if o['strict'] and rng.random() < .3: c['ran'].append(1)
            elif bad: c['parts'][k] = bad[0]
            else: continue
            out.append(c)
            continue
        ways = []
        if o['op'] == 'rt' and 'rt' in clauses: ways += ['res', 'exc']
        if o['op'] in ('rt', 'ser') and 'doc' in clauses: ways += ['d']
        if o['op'] == 'life': ways += ['docs']
        if o['op'] == 'des':
            if 'errs' in clauses and o['steps'][-1]['errs']: ways += ['dropn']
            if 'exc' in clauses: ways += ['excn']
        if o['op'] == 'de':
            if 'val' in clauses and o['exc'] == 'none' and not any(x['t'] == 'flt' for x in allnodes(o['d'])): ways += ['res']
            if 'exc' in clauses: ways += ['exc']
            if 'errs' in clauses and o['errs']: ways += ['drop', 'ek', 'em']
            if 'probes' in clauses and o['probes']: ways += ['probe']
        if not ways: continue
        w = rng.choice(ways)
        if w in ('res', 'd', 'docs'):
            if not flip(rng, c[w]): continue
        elif w == 'exc': c['exc'] = 'parse' if c['exc'] != 'parse' else 'none'
        elif w == 'dropn': c['steps'][-1]['errs'].pop(rng.randrange(len(c['steps'][-1]['errs'])))
        elif w == 'excn': c['steps'][-1]['exc'] = 'parse' if c['steps'][-1]['exc'] != 'parse' else 'none'
        elif w == 'drop': c['errs'] = c['errs'][:-1]
        elif w == 'ek': c['errs'][0]['k'] = 'ConversionError' if c['errs'][0]['k'] != 'ConversionError' else 'TypeMismatch'
        elif w == 'em': c['errs'][-1]['m'] += 'x'
        elif w == 'probe': rng.choice(c['probes'])['i'] += 1
        out.append(c)
    return out


def allnodes(v):
    if isinstance(v, dict):
        if 't' in v: yield v
        for x in v.values(): yield from allnodes(x)
    elif isinstance(v, list):
        for x in v: yield from allnodes(x)


def show(case, raw):
    c = dict(case)
    if c['op'] == 'par': return {'mode': c['mode'], 'sched': c.get('sched'), 'ran': (raw or {}).get('ran'), 'crash': (raw or {}).get('crash', ''), 'cases': [show(q, None) for q in c['cases']]}
    s = {k: c.get(k) for k in ('type', 'op', 'api', 'api2', 'we', 'thr') if k in c}
    if 'text' in c: s['json'] = bytes(c['text']).decode(errors='backslashreplace')[:400]
    if raw and 'text' in raw: s['written'] = bytes(raw['text']).decode(errors='backslashreplace')[:400]
    if raw: s['errors'] = ['%s %s/%s in %s.%s[%s]' % (e['k'], e['e'], e['a'], e['r'], e['m'], e['i']) for e in raw.get('errs', [])][:4]; s['exc'] = raw.get('exc', raw.get('crash', ''))
    return s


def decide_cases(x, lab, cases, clauses, name):
    """runs the cases with the real code and lets the specification decide; reports violations"""
    if not cases: return
    # keep single observations small
    if name != 'big': cases = [c for c in cases if len(json.dumps(c)) < 600000]
    obs, raw = lab.observe(cases, name)
    can = canaries(x.rng, obs, clauses)
    rej, r = lab.decide(obs + can, clauses, 'tlc-' + name)
    missing = set(range(len(obs), len(obs) + len(can))) - set(rej)
    rej = [k for k in rej if k < len(obs)]
    if missing and not rej:
        raise CheckError('corrupted observation was accepted: %s' % json.dumps((obs + can)[min(missing)])[:2000])
    x.add_tlc(r)
    x.count('traces_validated_against_impl', len(obs)); x.count('corrupted_observations_rejected', len(can))
    for k, c in enumerate(cases):
        if k % max(1, len(cases) // 2) == 0: x.sample(show(c, raw[k]))
    for k in rej[:5]:
        m = re.search(r'<<\s*"REJECT",\s*%d,.*?>>\n(?=\S)' % (k + 1), r.out, re.S)
        x.violation('%s: %s' % (name, json.dumps(show(cases[k], raw[k]))), {'case': cases[k], 'observed': raw[k], 'allowed': m.group(0)[:6000] if m else ''})
    for k in rej[5:]: x.violation('%s: %s' % (name, json.dumps(show(cases[k], raw[k]))))


RT_TYPES = [s for s in rrtypes.STRUCTS if not rrtypes.STRUCTS[s].get('json_only') and not rrtypes.STRUCTS[s].get('bin_only') and s != 'Chrono']
TOP = ['vec<i32>', 'map<i32>', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'str', 'bool', 'mmap<str>', 'vec<vec<str>>', 'umap<Leaf>', 'vec<Leaf>']
TOP = [t for t in TOP]
APIS = ['push', 'toJson', 'member', 'doc', 'arr', 'obj']
APIS2 = ['push', 'push', 'fromJson', 'member', 'memberc', 'membersz', 'iter']


def rt_case(x, lab, ty, v, cur=False):
    c = {'type': ty, 'op': 'rt', 'val': v, 'api': x.rng.choice(APIS), 'api2': x.rng.choice(APIS2)}
    if cur and c['api2'] in ('push', 'iter'): c['cur'] = rand_value(x.rng, lab.desc.get(ty) or rrtypes.parse(ty), lab.defaults, lab.structs)
    return c


def de_case(x, lab, ty, doc, we=None, thr=0, api=None, cur=None):
    text = list(write_json(doc, x.rng if x.rng.random() < .5 else None))
    c = {'type': ty, 'op': 'de', 'text': text, 'we': x.rng.random() < .8 if we is None else we, 'thr': thr, 'api': api or x.rng.choice(APIS2)}
    if cur is None: cur = x.rng.random() < .4
    if cur and c['api'] in ('push', 'iter'): c['cur'] = rand_value(x.rng, rrtypes.parse(ty), lab.defaults, lab.structs)
    return c


def big_values(x, lab=None):
    """(type, value): containers with many elements, long strings"""
    sizes = [255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]
    if x.thorough: sizes += [2047, 2048, 2049]
    num = lambda k: vint(k % 251)
    key = lambda k: list(b'key %d' % k)
    leaf = lambda k: vstr(b'%d' % k)
    for t, mk in [('vec<i32>', lambda n: {'t': 'seq', 'e': [num(k) for k in range(n)]}), ('vec<str>', lambda n: {'t': 'seq', 'e': [leaf(k) for k in range(n)]}),
                  ('list<str>', lambda n: {'t': 'seq', 'e': [leaf(k) for k in range(n)]}), ('deque<i32>', lambda n: {'t': 'seq', 'e': [num(k) for k in range(n)]}),
                  ('set<i32>', lambda n: {'t': 'set', 'e': [vint(k) for k in range(n)]}), ('uset<str>', lambda n: {'t': 'set', 'e': [leaf(k) for k in range(n)]}), ('mset<i32>', lambda n: {'t': 'set', 'e': [num(k // 3) for k in range(n)]}),
                  ('map<i32>', lambda n: {'t': 'map', 'e': [{'k': key(k), 'v': num(k)} for k in range(n)]}), ('umap<str>', lambda n: {'t': 'map', 'e': [{'k': key(k), 'v': leaf(k)} for k in range(n)]}),
                  ('mmap<i32>', lambda n: {'t': 'map', 'e': [{'k': key(k // 50), 'v': num(k)} for k in range(n)]}), ('ummap<str>', lambda n: {'t': 'map', 'e': [{'k': key(k // 290), 'v': leaf(k)} for k in range(n)]})]:
        quad = t.split('<')[0] not in ('vec', 'list', 'deque')
        for n in x.rng.sample([n for n in sizes if n < 600 or not quad], x.n(2, 6)): yield t, mk(n)
        if not quad and x.rng.random() < x.n(.4, 1): yield t, mk(x.rng.choice([4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 70000]))
    yield 'vec<i32>', {'t': 'seq', 'e': [num(k) for k in range(x.rng.randrange(65537, 70000))]}
    for t in x.rng.sample(BIG2, x.n(8, len(BIG2))) if lab else []:
        ty = rrtypes.parse(t)
        pool = [rand_value(x.rng, ty['of'], lab.defaults, lab.structs, 4) for _ in range(6)]
        yield t, {'t': ty['k'], 'e': [x.rng.choice(pool) for _ in range(x.rng.choice(sizes))]}
    if lab:
        for n in [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384] + x.rng.sample([30000, 32767, 32768, 65535, 65536, 65537, 70000], x.n(2, 7)):
            yield 'str', vstr(bytes(97 + k % 26 for k in range(n)))
            if n < 20000: yield 'map<str>', {'t': 'map', 'e': [{'k': [65 + k % 23 for k in range(n)], 'v': vstr(b'v')}]}


BIG2 = ['vec<uptr<i32>>', 'vec<opt<str>>', 'vec<var<mono,i32,str>>', 'vec<pair<i32,str>>', 'vec<EnU8>', 'vec<map<i32>>', 'list<set<i32>>', 'vec<f64>', 'vec<sptr<vec<i32>>>', 'deque<Leaf>', 'vec<PLeaf>', 'vec<tup<i32,str,bool>>', 'vec<mmap<i32>>']
BIG = BIG2 + ['vec<i32>', 'vec<str>', 'list<str>', 'deque<i32>', 'set<i32>', 'uset<str>', 'mset<i32>', 'map<i32>', 'umap<str>', 'mmap<i32>', 'ummap<str>', 'str', 'map<str>']


def big_docs(x, lab):
    """(type, document): big documents with some errors"""
    for t, v in big_values(x):
        ty = lab.desc[t]
        if ty['k'] in ('seq', 'set'):
            e = [vint(n['m'][6] * 256 + n['m'][7]) if n['t'] == 'int' else n for n in v['e']]
            for _ in range(x.rng.choice([0, 1, 3])): e[-x.rng.randrange(1, 40)] = x.rng.choice([vbool(True), e[0], darr([]), NULL])
            yield t, darr(e)
        else: yield t, dobj([(bytes(n['k']).decode(), x.rng.choice([n['v']] * 30 + [vbool(True), darr([n['v'], NULL])])) for n in v['e']])
    for t in x.rng.sample(BIG2, x.n(6, len(BIG2))):
        pool = [rand_doc(x.rng, rrtypes.parse(t)['of'], lab.structs, x.rng.choice([0, 0, .2])) for _ in range(8)]
        yield t, darr([x.rng.choice(pool[:4]) for _ in range(x.rng.randrange(100, 600))] + [x.rng.choice(pool) for _ in range(40)])
    n = x.rng.randrange(65540, 70000)
    e = [vint(k % 251) for k in range(n)]
    for k in (255, 256, 1000, 32768, 65535, 65536, n - 1): e[k] = x.rng.choice([vbool(True), darr([]), NULL])
    yield x.rng.choice(['vec<i32>', 'deque<i32>']), darr(e)
    n = x.rng.randrange(260, 1100)
    yield 'vec<i32>', darr([vbool(True)] * n)      # many errors
    yield 'PNest', dobj([('x%d' % k, vint(k)) for k in range(300)])      # many unknown members


def usable(text):
    """not left out: null characters and byte order marks, numbers read imprecisely or which are too big for a double"""
    return 0 not in text and list(text[:3]) != [0xef, 0xbb, 0xbf] and not imprecise_numbers(text) and not re.search(rb'[0-9]{300}|[eE]\+?0*[1-9][0-9]{2}', bytes(text))


def des_case(x, lab, ty, docs, thr=0):
    """several documents are read one after another with one list of errors"""
    steps = []
    for d in docs:
        text = list(write_json(d, x.rng if x.rng.random() < .5 else None))
        if x.rng.random() < .05:
            m = list(mutate_text(x.rng, bytes(text)))
            if usable(m): text = m
        steps.append({'text': text, 'api': x.rng.choice(APIS2), 'we': x.rng.random() < .85})
    return {'type': ty, 'op': 'des', 'thr': thr, 'ctx0': x.rng.random() < .6, 'steps': steps}


def des_cases(x, lab, types, n, thr=lambda: 0):
    out = []
    for _ in range(n):
        ty = x.rng.choice(types)
        out.append(des_case(x, lab, ty, [rand_doc(x.rng, rrtypes.parse(ty), lab.structs, x.rng.choice([0, .05, .15, .4])) for _ in range(x.rng.randint(2, 4))], thr()))
    return out


def rand_docs(x, lab, types, n, ps=(0, .05, .15)):
    for _ in range(n):
        ty = x.rng.choice(types)
        yield ty, rand_doc(x.rng, rrtypes.parse(ty), lab.structs, x.rng.choice(ps))


def gen_types(x, quick=20):
    """sequences of all kinds of scalars and random compositions of types"""
    g = ['vec<%s>' % t for t in rrtypes.JSON_SCALARS] + rrtypes.rand_types(x.rng, x.n(quick, 60))
    x.count('random_types', len(g))
    return [t for t in dict.fromkeys(g) if t not in RT_TYPES + TOP]


@check('P01', 'model_checking', 'TLA+/TLC: round-trip invariant over enumerated objects + conformance of the real library on enumerated and random objects',
       'TLC proves the round trip on the specification for all enumerated objects; the real library is bound to it by deciding every replayed object with TLC. Trusted: harness projection, independent JSON parser. Finite floating point numbers only.')
def p01(x):
    gen = gen_types(x)
    types = RT_TYPES + TOP + gen
    lab = JsonLab(types + BIG, x.path('lab'))
    depth = 3 if x.thorough else 2
    vals, r = lab.values([(t, depth) for t in RT_TYPES + TOP] + [(t, 1) for t in gen])
    x.add_tlc(r); x.count('enumerated_objects', len(vals))
    decide_cases(x, lab, [rt_case(x, lab, t, v, cur=True) for t, v in vals], ['rt'], 'enumerated')
    for rnd in range(x.n(2, 12)):
        cases = []
        for _ in range(x.n(700, 1500)):
            t = x.rng.choice(types)
            cases.append(rt_case(x, lab, t, rand_value(x.rng, rrtypes.parse(t), lab.defaults, lab.structs), cur=True))
        decide_cases(x, lab, cases, ['rt'], 'random%d' % rnd)
    decide_cases(x, lab, [rt_case(x, lab, t, v, cur=True) for t, v in big_values(x, lab)] + [rt_case(x, lab, 'Tree', deep_tree(x.rng, n), cur=True) for n in deep_sizes(x.rng, x.n(4, 14))], ['rt'], 'big')
    # known finding: the parser is off by up to 3 ULP for numbers with many digits or a big exponent; everything beyond is rejected above
    lab.observe([{'type': 'f64', 'op': 'rt', 'val': vflt(9223372036854774784.0), 'api': 'toJson', 'api2': 'fromJson'}], 'imprecise')
    x.count('imprecise_doubles', lab.imprecise)
    if lab.imprecise and not x.finding('imprecise-double'): x.violation('doubles differ after a round trip', {'example': '9223372036854774784.0'})


VIEWS = ['cstr', 'sv', 'vec<cstr>', 'map<sv>', 'vec<sv>', 'opt<cstr>', 'mmap<sv>']
WRITE_ONLY = ['vec<bool>', 'arr3<i32>', 'arr3<Leaf>', 'arr0<str>', 'flist<str>', 'flist<i64>', 'vec<arr3<sv>>', 'map<flist<Leaf>>', 'pair<vec<bool>,arr3<EnS8>>', 'mmap<vec<bool>>']


@check('P02', 'model_checking', 'TLA+/TLC: documented object-to-JSON mapping as a function, decided on documents written by the real library',
       'every JSON text written by the real library is parsed by an independent strict parser and compared by TLC with the mapping ToDoc of the specification, for enumerated and random objects of every supported type.')
def p02(x):
    gen = gen_types(x)
    types = RT_TYPES + TOP + VIEWS + WRITE_ONLY + gen
    lab = JsonLab(types + BIG, x.path('lab'))
    depth = 3 if x.thorough else 2
    vals, r = lab.values([(t, 1 if t in gen else depth) for t in types])
    x.add_tlc(r); x.count('enumerated_objects', len(vals))
    mk = lambda t, v: {'type': t, 'op': 'ser', 'val': v, 'api': x.rng.choice(APIS + ['member'])}
    decide_cases(x, lab, [mk(t, v) for t, v in vals], ['doc'], 'enumerated')
    for rnd in range(x.n(2, 12)):
        cases = []
        for _ in range(x.n(700, 1500)):
            t = x.rng.choice(types)
            cases.append(mk(t, rand_value(x.rng, rrtypes.parse(t), lab.defaults, lab.structs)))
        decide_cases(x, lab, cases, ['doc'], 'random%d' % rnd)
    decide_cases(x, lab, [mk(t, v) for t, v in big_values(x, lab)] + [mk('Tree', deep_tree(x.rng, n)) for n in deep_sizes(x.rng, x.n(4, 14))], ['doc'], 'big')
    # known finding: numbers which JSON cannot represent
    special = [{'t': 'flt', 'x': list(struct.pack('>d', f))} for f in (float('nan'), float('inf'), float('-inf'))]
    cases = [{'type': 'f64', 'op': 'ser', 'val': v, 'api': 'toJson'} for v in special]
    obs, raw = lab.observe(cases, 'nonfinite')
    for c, o in zip(cases, obs):
        if o['crash'] or o['d']['t'] == 'invalid':
            if not x.finding('nonfinite-number'): x.violation('number which is not finite leads to invalid JSON', {'case': c, 'observed': o})


@check('P03', 'model_checking', 'TLA+/TLC: all object/document life histories, replayed with ASan; documents decided by TLC',
       'TLC enumerates all histories up to the bound and proves that a copying document is unaffected (and that a borrowing one is not); every history is replayed with the real library under AddressSanitizer.')
def p03(x):
    types = ['Leaf', 'Nest', 'Conts', 'Custom', 'Tups', 'Vars', 'Ptrs', 'Spaced', 'Third', 'Inh2', 'HasThird', 'map<str>', 'umap<str>', 'mmap<str>', 'ummap<str>', 'vec<str>', 'str', 'set<str>'] + VIEWS
    lab = JsonLab(types, x.path('lab'))
    w = x.path('life')
    cfg = 'CONSTANTS\n Leaves = {"str", "key", "view"}\n Borrowed = %s\n MaxSteps = %d\nINIT InitCollect\nNEXT Next\nINVARIANTS Owned Collect\n' 
    r = tlc('DocLife', cfg % ('{}', x.n(4, 5)) + 'POSTCONDITION Export\n', w, workers=1)
    if not r.ok: raise CheckError('DocLife: ' + r.out[-2000:])
    hists = [json.loads(l)['h'] for l in open(os.path.join(w, 'hist.ndjson'))]
    x.add_tlc(r); x.count('histories', len(hists))
    r = tlc('DocLife', cfg % ('{"key"}', 3), x.path('life2'), workers=1)
    if r.ok or 'Owned' not in r.violated: raise CheckError('DocLife does not notice a borrowing document')
    x.count('borrowing_model_rejected')
    cases = []
    for t in types:
        ty = rrtypes.parse(t)
        for h in (hists if x.thorough else x.rng.sample(hists, min(len(hists), 24))):
            v = rand_value(x.rng, ty, lab.defaults, lab.structs)
            for _ in range(8):
                if any(n['t'] == 'str' and n['s'] for n in allnodes(v)) or any('k' in n for n in allmaps(v)): break
                v = rand_value(x.rng, ty, lab.defaults, lab.structs)
            # mutation: an object of the same shape whose characters are different, so storage is re-used
            cases.append({'type': t, 'op': 'life', 'val': v, 'api': x.rng.choice(['push', 'doc']), 'steps': [{'a': a, 'v': scramble(v)} if a == 'mutate' else {'a': a} for a in h]})
    # strings of all sizes, in particular those at which memory is managed differently
    for t in ('str', 'map<str>', 'vec<sv>', 'cstr', 'Leaf', 'set<str>'):
        for n in (0, 1, 7, 8, 13, 14, 15, 16, 21, 22, 23, 24, 32, 255, 256, 1023, 1024, 4095, 4096, 5000):
            if n > 300 and x.rng.random() < (.6 if not x.thorough else 0): continue
            v = rand_value(x.rng, rrtypes.parse(t), lab.defaults, lab.structs)
            s = [97 + (k + n) % 26 for k in range(n)]
            for node in allnodes(v):
                if node['t'] == 'str': node['s'] = list(s)
            if t == 'map<str>': v = {'t': 'map', 'e': [{'k': list(s), 'v': vstr(b'v')}]}
            elif t == 'vec<sv>': v = {'t': 'seq', 'e': [{'t': 'str', 's': list(s)}]}
            elif t == 'set<str>': v = {'t': 'set', 'e': [{'t': 'str', 's': list(s)}]}
            elif t == 'cstr': v = {'t': 'str', 's': list(s)}
            h = x.rng.choice([h for h in hists if 'mutate' in h] if n > 300 else hists)
            cases.append({'type': t, 'op': 'life', 'val': v, 'api': x.rng.choice(['push', 'doc']), 'steps': [{'a': a, 'v': scramble(v)} if a == 'mutate' else {'a': a} for a in h]})
    decide_cases(x, lab, cases, ['doc'], 'life')


def allmaps(v):
    if isinstance(v, dict):
        if 'k' in v: yield v
        for y in v.values(): yield from allmaps(y)
    elif isinstance(v, list):
        for y in v: yield from allmaps(y)


def scramble(v):
    v = copy.deepcopy(v)
    def go(n):
        if isinstance(n, dict):
            if n.get('t') == 'str': n['s'] = [0x7a if c != 0x7a else 0x79 for c in n['s']]
            elif n.get('t') == 'int' and n['m'][7] < 100: n['m'][7] ^= 1
            if 'k' in n and isinstance(n['k'], list): n['k'] = [0x71 if c != 0x71 else 0x72 for c in n['k']]
            if n.get('t') == 'int' and not any(n['m']): n['n'] = False
            for y in n.values(): go(y)
        elif isinstance(n, list):
            for y in n: go(y)
    go(v)
    return v


MACHINE = ['MIn', 'MOut', 'MVar', 'MMap', 'MMul']
P_TYPES = ['PLeaf', 'PNest', 'PDeep']


def machine_docs(x, lab, quick, thorough):
    docs, r = lab.machine(thorough if x.thorough else quick)
    x.add_tlc(r); x.count('enumerated_documents', len(docs))
    return docs


@check('P04', 'model_checking', 'TLA+/TLC: deserialization machine over all enumerated documents (Untouched, Robust, Agrees) + conformance of the real result',
       'TLC checks on the stack machine that absent, unknown and mismatching members leave everything else as specified for all enumerated documents; the same documents and random ones are replayed and the resulting objects decided by TLC.')
def p04(x):
    types = RT_TYPES + P_TYPES + MACHINE + TOP + gen_types(x)
    lab = JsonLab(types, x.path('lab'))
    docs = machine_docs(x, lab, [('MIn', 3), ('MOut', 1), ('MVar', 1), ('MMap', 2), ('MMul', 1)], [('MIn', 3), ('MOut', 3), ('MVar', 1), ('MMap', 3), ('MMul', 2)])
    decide_cases(x, lab, [de_case(x, lab, t, d, cur=x.rng.random() < .5) for t, d in docs], ['exc', 'val'], 'enumerated')
    for rnd in range(x.n(2, 10)):
        cases = [de_case(x, lab, t, d) for t, d in rand_docs(x, lab, types, x.n(1000, 2000))] + des_cases(x, lab, types, x.n(200, 600))
        cases += [de_case(x, lab, 'Tree', deep_doc(x.rng, n, x.rng.choice([0, .05, .3]))) for n in deep_sizes(x.rng, x.n(3, 8))]
        decide_cases(x, lab, cases, ['exc', 'val'], 'random%d' % rnd)


@check('P05', 'model_checking', 'TLA+/TLC: error context as explicit state of the deserialization machine (ContextOk, ContextRestored, ErrorsOnlyGrow) + conformance of all reported errors and probed contexts',
       'TLC proves that the context always is the path on the machine; errors (kind, types, record, member, index, order, formatted text) reported by the real library and the contexts seen by probe members are decided by TLC.')
def p05(x):
    types = RT_TYPES + P_TYPES + MACHINE + TOP + gen_types(x)
    lab = JsonLab(types + BIG, x.path('lab'))
    docs = machine_docs(x, lab, [('MIn', 3), ('MOut', 1), ('MVar', 1), ('MMap', 2), ('MMul', 1)], [('MIn', 3), ('MOut', 3), ('MVar', 1), ('MMap', 3), ('MMul', 2)])
    cl = ['errs', 'fmt', 'ctx', 'probes']
    decide_cases(x, lab, [de_case(x, lab, t, d, we=True) for t, d in docs], cl, 'enumerated')
    for rnd in range(x.n(2, 10)):
        cases = [de_case(x, lab, t, d, we=True) for t, d in rand_docs(x, lab, types, x.n(900, 1500), (.03, .1, .25))]
        cases += [de_case(x, lab, t, d, we=True) for t, d in rand_docs(x, lab, P_TYPES, x.n(150, 500), (.03, .1))]
        cases += des_cases(x, lab, types + P_TYPES, x.n(200, 600), lambda: x.rng.choice([0, x.rng.randrange(64)]))
        decide_cases(x, lab, cases, cl, 'random%d' % rnd)
    decide_cases(x, lab, [de_case(x, lab, t, d, we=True) for t, d in big_docs(x, lab)] + [de_case(x, lab, 'Tree', deep_doc(x.rng, n, x.rng.choice([.05, .3])), we=True) for n in deep_sizes(x.rng, x.n(5, 14))], cl, 'big')


def mutate_text(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        p = rng.randrange(len(b) + 1)
        if r < .25: b = b[:p]
        elif r < .5 and b: del b[min(p, len(b) - 1)]
        elif r < .8: b[p:p] = bytes([rng.choice(b'{}[]",:\\0123456789.eE+-truefalsnx \t\x01')])
        elif b: b[min(p, len(b) - 1)] = rng.choice(b'{}[]",:\\019.e-t \x1f')
    return bytes(b)


@check('P06', 'model_checking', 'TLA+/TLC: fatal errors in the deserialization machine (FatalIsLast) for all flag combinations + conformance on valid and malformed texts',
       'TLC checks that exactly the first fatal error ends deserialization; the real library is driven with every combination of flags and with malformed JSON and the exception and the collected errors are decided by TLC.')
def p06(x):
    types = RT_TYPES + MACHINE + ['vec<i32>', 'map<i32>', 'i32', 'u64', 'str', 'bool', 'f64', 'mmap<str>']
    lab = JsonLab(types, x.path('lab'))
    docs = machine_docs(x, lab, [('MIn', 3), ('MOut', 1), ('MVar', 1), ('MMap', 2), ('MMul', 1)], [('MIn', 3), ('MOut', 2), ('MVar', 1), ('MMap', 3), ('MMul', 2)])
    if not x.thorough: docs = x.rng.sample(docs, 900)
    cl = ['exc', 'val', 'errs', 'ctx']
    decide_cases(x, lab, [de_case(x, lab, t, d, we=x.rng.random() < .9, thr=x.rng.choice([1, 2, 4, 8, 16, 32, 63, 255, x.rng.randrange(64)])) for t, d in docs], cl, 'enumerated')
    for rnd in range(x.n(2, 10)):
        cases = [de_case(x, lab, t, d, we=x.rng.random() < .9, thr=x.rng.randrange(64)) for t, d in rand_docs(x, lab, types, x.n(700, 1500), (.05, .1, .2))]
        # text which is (mostly) not valid JSON
        n = 0
        for t, d in rand_docs(x, lab, types, x.n(500, 1500), (0, .1)):
            c = de_case(x, lab, t, d, thr=x.rng.choice([0, 63]))
            c['text'] = list(mutate_text(x.rng, bytes(c['text'])))
            if not usable(c['text']): continue
            n += safe_parse(c['text'])['t'] == 'invalid'
            cases.append(c)
        x.count('malformed_texts', n)
        cases += des_cases(x, lab, types, x.n(200, 600), lambda: x.rng.randrange(64))
        decide_cases(x, lab, cases, cl, 'random%d' % rnd)


NUM_TYPES = ['vec<i8>', 'vec<u8>', 'i32', 'u32', 'i64', 'u64', 'vec<i32>', 'vec<u32>', 'vec<i64>', 'vec<u64>', 'f32', 'f64', 'vec<f32>', 'vec<f64>', 'set<u8>', 'vec<EnS32>', 'vec<EnU8>', 'vec<EnS8>', 'vec<EnU64>', 'vec<EnS64>',
             'opt<u8>', 'map<i8>', 'pair<i8,u64>', 'bool']


NUM_TEXTS = ['0e-32', '0e5', '0.0e-5', '-0e-300', '0e-400', '0e300', '0.000e-310', '1E5', '1e0', '10e-1', '100E-2', '123.000', '1.5e3', '-0', '-0.0', '1e-400', '1e22', '1e23', '-1e-5', '-0.0e2', '1e+5', '1e-05', '0.1e1',
             '4.9e-324', '2.5e-324', '1e308', '17976931348623157e292', '1e307', '123456789012345678901234567890', '18446744073709551615', '18446744073709551616', '-9223372036854775808', '-9223372036854775809',
             '9007199254740993', '9007199254740993.0', '4294967295', '4294967296', '-2147483648', '-2147483649', '2147483648', '0.30000000000000004', '2.2250738585072011e-308', '1' + '0' * 306, '0.' + '0' * 320 + '1',
             '0.' + '0' * 400 + '1', '0.' + '0' * 900, '0.' + '0' * 20 + 'e-100', '3.4028235677973366e38', '3.5e38', '1e-46', '255.9999', '-0.9', '0.' + '9' * 30, '127.' + '9' * 12, '5' * 25 + '.5', '1e2', '25e1', '2550e-1',
             # not numbers
             '00', '01', '-01', '1.', '.5', '-.5', '1e', '+1', '0x10', '1e+', '1E-', '-', '--1', '1.e5', '1_0', '1,,0', 'NaN', 'Infinity', '-Infinity', 'inf', '1f', '0b1', '1e5.5', '1..2', '1 2', '\uff11']


def same_number(ty, a, b):
    """whether two doubles are the same for a target of the type"""
    if ty['k'] == 'flt' and ty['w'] == 64: return a == b
    f32 = lambda f: struct.pack('>f', f) if abs(f) < 3.4028235677973366e38 else f > 0
    if ty['k'] == 'flt': return f32(a) == f32(b)
    return a == b or math.isfinite(a) and math.isfinite(b) and math.trunc(a) == math.trunc(b)


def precise_for(t, text):
    """whether all numbers of the text are read precisely as far as it matters for targets of the type"""
    ty = rrtypes.parse(t)
    while isinstance(ty.get('of'), dict): ty = ty['of']
    return all(ty['k'] in ('flt', 'int', 'enum') and same_number(ty, a, b) for a, b in imprecise_numbers(text, True))


def num_docs(x):
    out = []
    for w in (8, 16, 31, 32, 53, 62, 63, 64):
        for b in (1 << w, 1 << (w - 1)):
            for dlt in (-2, -1, 0, 1, 2):
                for s in (1, -1):
                    v = s * (b + dlt)
                    if -(1 << 63) <= v < (1 << 64): out.append(vint(v))
                    f = float(v)
                    out += [vflt(f), vflt(f + .5), vflt(math.nextafter(f, math.inf)), vflt(math.nextafter(f, -math.inf))]
    out += [vflt(f) for f in FEDGE] + [vint(0), vint(1), vint(-1)]
    uniq = {json.dumps(v): v for v in out}
    return list(uniq.values())


@check('P07', 'model_checking', 'TLA+/TLC: byte-exact arithmetic (range, truncation, rounding) in Num.tla, its lemmas checked by NumMC; conformance at every representability boundary',
       'TLC checks the arithmetic lemmas of the specification and decides every conversion of the real library, run under UBSan, for all number types at all boundaries.')
def p07(x):
    lab = JsonLab(NUM_TYPES + ['Nums', 'Leaf'], x.path('lab'))
    nums = num_docs(x)
    r = num_lemmas(x, nums)
    cases = []
    for t in NUM_TYPES:
        ty = rrtypes.parse(t)
        if t == 'bool': wrap = lambda d: d
        elif t in ('i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'opt<u8>'): wrap = lambda d: d
        elif t.startswith('map'): wrap = lambda d: dobj([('a', vint(3)), ('b', d), ('c', vint(4))])
        elif t.startswith('pair'): wrap = lambda d: darr([d, d])
        else: wrap = lambda d: darr([vint(3), d, vint(4)])
        for d in (nums if x.thorough else nums[x.rng.randrange(2)::2]):
            if precise_for(t, write_json(d)): cases.append(de_case(x, lab, t, wrap(d), we=x.rng.random() < .8, thr=x.rng.choice([0, 0, 0, 4, 1])))
        if t in ('i32', 'u32', 'i64', 'u64', 'f32', 'f64') or t.startswith('vec'):
            for b in (s.encode() for s in NUM_TEXTS):
                if precise_for(t, b): cases.append({'type': t, 'op': 'de', 'text': list(b'[%s]' % b if t.startswith('vec') else b), 'we': True, 'thr': 0, 'api': x.rng.choice(APIS2)})
    for _ in range(x.n(300, 4000)):
        cases.append(de_case(x, lab, 'Nums', rand_doc(x.rng, rrtypes.parse('Nums'), lab.structs, .2)))
    decide_cases(x, lab, cases, ['exc', 'val', 'errs'], 'numbers')


def num_lemmas(x, nums):
    w = x.path('num')
    ints = [n for n in nums if n['t'] == 'int']
    flts = [n for n in nums if n['t'] == 'flt']
    json.dump({'ints': ints, 'flts': flts}, open(os.path.join(w, 'nums.json'), 'w'))
    r = tlc('NumMC', 'INIT Init\nNEXT Next\nINVARIANTS FitsIffCastIsIdentity TwoCInjective IntDblInt TruncWithin F32Idempotent Monotone\n', w)
    if not r.ok: raise CheckError('NumMC: ' + r.out[-3000:])
    x.add_tlc(r)
    return r


CONT_TYPES = ['Deflt', 'Conts', 'Custom', 'vec<i32>', 'list<str>', 'deque<i32>', 'set<i32>', 'mset<i32>', 'uset<str>', 'umset<i32>', 'map<i32>', 'umap<str>', 'mmap<i32>', 'ummap<str>', 'CMap', 'CMulti', 'CSet', 'CMSet', 'CUMap',
              'vec<set<i32>>', 'set<vec<i32>>', 'map<vec<i32>>', 'mmap<vec<i32>>', 'map<map<i32>>', 'vec<mmap<i32>>', 'map<set<str>>', 'MMap', 'MMul']


@check('P08', 'model_checking', 'TLA+/TLC: container contents as a function of the document (duplicates, order, previous contents) + conformance incl. pre-filled targets',
       'TLC decides, for enumerated and random documents and for targets which already hold elements, that the containers of the real library hold exactly the specified elements and that duplicates are reported.')
def p08(x):
    gen = [t for t in gen_types(x, 18) if any(k in t for k in ('vec', 'list', 'deque', 'set', 'map'))]
    lab = JsonLab(CONT_TYPES + gen + BIG, x.path('lab'))
    docs = machine_docs(x, lab, [('MMul', 1), ('MMap', 2)] + [(t, 2) for t in CONT_TYPES if t not in ('Deflt', 'Conts', 'Custom', 'MMap', 'MMul')], [('MMul', 2), ('MMap', 3), ('Custom', 1)] + [(t, 3) for t in CONT_TYPES if t not in ('Deflt', 'Conts', 'Custom', 'MMap', 'MMul')])
    cases = [de_case(x, lab, t, d, we=k != 0, cur=k != 1) for t, d in docs for k in ((0, 1, 2) if len(docs) < 1500 else (2,))]
    decide_cases(x, lab, cases, ['exc', 'val', 'errs'], 'enumerated')
    for rnd in range(x.n(2, 10)):
        cases = [de_case(x, lab, t, d, cur=x.rng.random() < .6) for t, d in rand_docs(x, lab, CONT_TYPES + gen, x.n(1100, 1500), (0, .05, .15))]
        vals = [x.rng.choice(CONT_TYPES + gen) for _ in range(x.n(200, 500))]
        cases += [rt_case(x, lab, t, rand_value(x.rng, rrtypes.parse(t), lab.defaults, lab.structs), cur=True) for t in vals]
        decide_cases(x, lab, cases, ['exc', 'val', 'errs', 'doc', 'rt'], 'random%d' % rnd)
    decide_cases(x, lab, [de_case(x, lab, t, d) for t, d in big_docs(x, lab) if t != 'PNest'], ['exc', 'val', 'errs'], 'big')


ALT_TYPES = ['Vars', 'Ptrs', 'Tups', 'Tree', 'MVar', 'var<i32,str>', 'var<mono,bool>', 'var<vec<i32>,Leaf>', 'opt<i32>', 'opt<Leaf>', 'uptr<vec<i32>>', 'sptr<str>', 'opt<vec<opt<i32>>>', 'vec<var<i32,str>>', 'pair<i32,str>', 'tup<i32>', 'tup<str,vec<i32>,bool>',
             'vec<pair<i32,opt<str>>>', 'opt<pair<str,i32>>', 'vec<sptr<Leaf>>', 'var<pair<i32,str>,opt<str>>']


@check('P09', 'model_checking', 'TLA+/TLC: meaning of optionals, pointers, tuples and variants + conformance on enumerated valid and malformed documents',
       'TLC decides, for enumerated and random documents and pre-filled targets, the value, the errors and the exception of the real library.')
def p09(x):
    gen = [t for t in gen_types(x, 18) if any(k in t for k in ('opt', 'uptr', 'sptr', 'pair', 'tup', 'var'))]
    lab = JsonLab(ALT_TYPES + gen, x.path('lab'))
    enum = [t for t in ALT_TYPES if t not in ('Vars', 'Ptrs', 'Tups', 'Tree', 'MVar') and not re.match(r'tup<(i32>|str,)', t)]
    docs = machine_docs(x, lab, [('MVar', 1)] + [(t, 2) for t in enum], [('MVar', 2)] + [(t, 3) for t in enum])
    cases = [de_case(x, lab, t, d, we=k != 0, cur=k != 1) for t, d in docs for k in ((0, 1, 2) if t != 'MVar' else (2,))]
    if not x.thorough and len(cases) > 2500: cases = x.rng.sample(cases, 2500)
    decide_cases(x, lab, cases, ['exc', 'val', 'errs'], 'enumerated')
    for rnd in range(x.n(2, 10)):
        cases = [de_case(x, lab, t, d, cur=x.rng.random() < .6, thr=x.rng.choice([0, 0, 0, 16, 32, 2])) for t, d in rand_docs(x, lab, ALT_TYPES + gen, x.n(1100, 1500), (0, .05, .15))]
        vals = [x.rng.choice(ALT_TYPES + gen) for _ in range(x.n(200, 500))]
        cases += [rt_case(x, lab, t, rand_value(x.rng, rrtypes.parse(t), lab.defaults, lab.structs), cur=True) for t in vals]
        decide_cases(x, lab, cases, ['exc', 'val', 'errs', 'doc', 'rt'], 'random%d' % rnd)
