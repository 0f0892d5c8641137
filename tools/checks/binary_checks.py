"""Checks of the binary side: every observation of the real code is decided by TLC with BinMap.tla/BinObs.tla."""
import copy, json, struct
from common import *
from driver import check
from bincheck import *
from checks.json_checks import leaves, flip, allnodes
import rrtypes

BT = [s for s in rrtypes.STRUCTS if rrtypes.bin_ok(s) and s != 'HNode' and s not in rrtypes.WALKS]
VT = ['VNested', 'VExample', 'VDeep', 'VRange', 'VBase', 'VDer', 'VUBase', 'VUDer', 'VMix', 'VOuter', 'VSpaced', 'VTwo', 'VThree', 'VHold'] + ['VGen%d' % k for k in range(6)] + ['Evo1', 'Evo2', 'Evo3', 'Evo4']
PT = ['vec<sptr<i32>>', 'Net', 'Node', 'Ptrs', 'Tree', 'VDeep', 'sptr<HNode>', 'vec<sptr<HNode>>', 'sptr<i32>', 'vec<sptr<str>>']
TOPB = ['vec<i32>', 'map<str>', 'kmap<i32,str>', 'opt<str>', 'u8', 'str', 'f32', 'f64', 'i32', 'i64', 'u64', 'u16', 'bool', 'vec<str>', 'set<str>', 'mset<str>', 'umset<i32>', 'uset<str>', 'list<u8>', 'deque<str>',
        'mmap<str>', 'ummap<u8>', 'umap<Leaf>', 'vec<Leaf>', 'var<mono,u8,str>', 'pair<i32,str>', 'uptr<Leaf>', 'map<vec<opt<i32>>>', 'vec<vec<str>>', 'EnU8', 'EnS32']
WRITE_ONLY = ['vec<bool>', 'arr3<i32>', 'arr3<Leaf>', 'arr0<str>', 'vec<arr3<u16>>', 'map<vec<bool>>', 'pair<vec<bool>,arr3<EnU8>>']
VERS = list(range(0, 8)) + [100, 1 << 40]


def gen_types(x, quick=14, sized=False):
    """sequences of all kinds of scalars and random compositions of types"""
    g = ['vec<%s>' % t for t in rrtypes.BIN_SCALARS] + rrtypes.rand_types(x.rng, x.n(quick, 60), True)
    x.count('random_types', len(g))
    return [t for t in dict.fromkeys(g) if t not in BT + TOPB and not (sized and 'Empty' in t)]


def varlen(n):
    k = next(k for k in range(1, 9) if n < 1 << (7 * k))
    return list((n | 1 << (7 * k)).to_bytes(k, 'big'))


def be8(n): return list(n.to_bytes(8, 'big'))


def allfields(v):
    if isinstance(v, dict):
        if 'n' in v and 'v' in v: yield v
        for y in v.values(): yield from allfields(y)
    elif isinstance(v, list):
        for y in v: yield from allfields(y)


def canaries(rng, obs, clauses, limit=8):
    """corrupted copies of observations; every one of them has to be rejected (the oracle is not vacuous)"""
    out = []
    for o in rng.sample(obs, len(obs)):
        if len(out) >= limit: break
        if o['crash'] or any(u in o['type'] for u in ('ConstM', 'PrivNo')): continue
        c = copy.deepcopy(o)
        if o['op'] == 'par':
            k = rng.randrange(len(c['parts']))
            bad = canaries(rng, [c['parts'][k]], clauses, 1)
            if bad:
                c['parts'][k] = bad[0]
                out.append(c)
            continue
        ways = []
        if o['op'] == 'rt':
            if 'rt' in clauses: ways += ['res', 'exc', 'pos']
            if 'wire' in clauses and not any(n['t'] == 'flt' for n in allnodes(o['val2'])): ways += ['byte', 'more', 'less']
        elif o['op'] == 'dec':
            ways += ['exc']
            if o['exc'] == 'none' and 'pos' in clauses: ways += ['pos']
            if o['exc'] == 'none' and 'val' in clauses and not any(n['t'] == 'flt' for n in allnodes(o['res'])): ways += ['res']
        elif o['op'] == 'wfault': ways += ['fout', 'fexc', 'fless']
        elif o['op'] == 'rfault': ways += ['fexc']
        elif o['op'] == 'seq': ways += ['seqbyte'] if any('raw' in u for u in o['writes']) else ['seqbyte', 'seqpos', 'seqres']
        elif o['op'] == 'hist': ways += ['histres', 'histbyte']
        # members which are not part of a version might have any value
        if any(u in o['type'] for u in VT) or any(f['n'] == 'bar' for f in allfields(o)): ways = [w for w in ways if w != 'res']
        if not ways: continue
        w = rng.choice(ways)
        if w == 'res':
            if not flip(rng, c['res']): continue
        elif w == 'exc': c['exc'] = 'version' if c['exc'] != 'version' else 'none'
        elif w == 'pos': c['pos'] += 1
        elif w == 'byte':
            if not c['bytes']: continue
            c['bytes'][rng.randrange(len(c['bytes']))] ^= 1 << rng.randrange(8)
            if 'sptr' in json.dumps(c['ty']) or any(n['t'] == 'ref' for n in allnodes(c['val2'])): continue
        elif w == 'more': c['bytes'].append(0)
        elif w == 'less':
            if not c['bytes']: continue
            c['bytes'].pop()
        elif w == 'fout': rng.choice(c['faults'])['out'].append(1)
        elif w == 'fless': c['faults'].pop()
        elif w == 'fexc':
            f = rng.choice(c['faults']); f['exc'] = 'io' if f['exc'] != 'io' else 'none'
            if o['op'] == 'wfault' and o['mode'] == 2: f['exc'] = 'conv'
        elif w == 'seqbyte': c['bytes'].append(0)
        elif w in ('seqpos', 'seqres'):
            ok = [k for k, q in enumerate(c['reads']) if all(p['exc'] == 'none' for p in c['reads'][:k + 1])]
            if w == 'seqpos' and ok: c['reads'][rng.choice(ok)]['pos'] += 1
            else:   # members which are not part of a version might have any value
                ok = [k for k in ok if not re.match(r'V|Evo|.*<V', c['writes'][k]['ty']['x']) and not any(n['t'] == 'flt' for n in allnodes(c['reads'][k]['res']))]
                if not ok or not flip(rng, c['reads'][rng.choice(ok)]['res']): continue
        elif w == 'histbyte': rng.choice(c['sbytes']).append(0)
        elif w == 'histres':
            s = [r for r in c['sreads'] if r]
            if not s or not flip(rng, rng.choice(rng.choice(s))['res']): continue
        out.append(c)
    return out


def show(case, raw):
    if case['op'] == 'par': return {'mode': case['mode'], 'sched': case.get('sched', [])[:60], 'crash': (raw or {}).get('crash', ''), 'cases': [show(q, None) for q in case['cases']]}
    s = {k: case[k] for k in ('type', 'op', 'wapi', 'rapi', 'mode', 'steps') if k in case}
    for k in ('wver', 'rver'):
        if k in case: s[k] = int.from_bytes(bytes(case[k]), 'big')
    if 'bytes' in case: s['input'] = bytes(case['bytes']).hex()[:300]
    if raw:
        if 'bytes' in raw: s['written'] = bytes(raw['bytes']).hex()[:300]
        for k in ('exc', 'pos', 'crash', 'rec'):
            if k in raw: s[k] = raw[k]
    return s


def decide_cases(x, lab, cases, clauses, name, chunk=4000, corrupt=True):
    if not cases: return
    if len(cases) > chunk:
        for k in range(0, len(cases), chunk): decide_cases(x, lab, cases[k:k + chunk], clauses, '%s-%d' % (name, k // chunk), chunk, corrupt)
        return
    cases = [c for c in cases if 'big' in c or len(json.dumps(c)) < 40000]
    t0 = time.time()
    obs, raw = lab.observe(cases, name)
    t1 = time.time()
    keep = [k for k, o in enumerate(obs) if 'big' in cases[k] or len(json.dumps(o)) < 120000]
    if len(keep) < len(obs): obs = [obs[k] for k in keep]; raw = [raw[k] for k in keep]; cases = [cases[k] for k in keep]
    can = canaries(x.rng, obs, clauses) if corrupt else []
    rej, r = lab.decide(obs + can, clauses, 'tlc-' + name)
    if os.environ.get('VERIF_TIMES'): print('%s: %d cases, %.1f s running, %.1f s deciding' % (name, len(cases), t1 - t0, time.time() - t1))
    missing = set(range(len(obs), len(obs) + len(can))) - set(rej)
    rej = [k for k in rej if k < len(obs)]
    if missing and not rej: raise CheckError('corrupted observation was accepted: %s' % json.dumps((obs + can)[min(missing)])[:2000])
    x.add_tlc(r)
    x.count('traces_validated_against_impl', len(obs)); x.count('corrupted_observations_rejected', len(can))
    for k, c in enumerate(cases):
        if k % max(1, len(cases) // 2) == 0: x.sample(show(c, raw[k]))
    for k in rej[:5]:
        m = re.search(r'<<\s*"REJECT",\s*%d,.*?>>\n(?=\S)' % (k + 1), r.out, re.S)
        x.violation('%s: %s' % (name, json.dumps(show(cases[k], raw[k]))), {'case': cases[k], 'observed': raw[k], 'allowed': m.group(0)[:6000] if m else ''})
    for k in rej[5:]: x.violation('%s: %s' % (name, json.dumps(show(cases[k], raw[k]))))
    return cases, obs, raw


def rt(x, lab, t, v, ver=0, cur=None, tail=True):
    """case which writes and reads a value"""
    rng = x.rng
    vers = be8(ver)
    wapi = rng.choice(['plain', 'ser', 'member'])
    rapi = rng.choice(['plain', 'des', 'des'] if ver else ['plain', 'des', 'member', 'static'])
    c = {'type': t, 'op': 'rt', 'val': v, 'wapi': wapi, 'rapi': rapi, 'wver': vers, 'rver': vers, 'tail': [rng.randrange(256) for _ in range(rng.randrange(4))] if tail else []}
    if cur or (cur is None and rapi != 'static' and rng.random() < .4): c['cur'] = lab.value(rng, t)
    return c


BIG = ['str', 'vec<u8>', 'vec<i32>', 'vec<str>', 'list<u8>', 'deque<str>', 'set<str>', 'set<i32>', 'mset<str>', 'uset<str>', 'umset<i32>', 'map<str>', 'kmap<i32,str>', 'umap<Leaf>', 'mmap<str>', 'ummap<u8>', 'vec<Leaf>', 'vec<vec<str>>', 'vec<sptr<str>>']


BIG2 = ['vec<uptr<i32>>', 'vec<opt<str>>', 'vec<var<mono,u8,str>>', 'vec<pair<u8,str>>', 'vec<EnU8>', 'vec<map<u8>>', 'list<set<u8>>', 'vec<f64>', 'vec<opt<vec<u8>>>', 'deque<BNums>', 'vec<VSpaced>']


def big_values(x, lab):
    """(type, value): long strings, containers with many elements"""
    sizes = [126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025] + ([2047, 2048, 2049, 4096] if x.thorough else [])
    lens = [127, 128, 254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16382, 16383, 16384, 16385]
    for n in x.rng.sample(lens, x.n(10, len(lens))) + x.rng.sample([32767, 32768, 65535, 65536, 65537, 70000], x.n(1, 4)):
        yield 'str', vstr(bytes(k % 256 for k in range(n)))
    for n in x.rng.sample(lens, x.n(3, 8)):
        yield 'vec<u8>', {'t': 'seq', 'e': [vint(k % 256) for k in range(min(n, 2049))]}
    for n in [x.rng.randrange(65537, 70000)] + x.rng.sample([65535, 65536, 65537, 70000], x.n(0, 4)):
        yield x.rng.choice(['vec<u8>', 'vec<i32>']), {'t': 'seq', 'e': [vint((k * 7 + k // 256) % 256) for k in range(n)]}
    num = lambda k: vint(k % 251)
    leaf = lambda k: vstr(b'%04d' % k)
    rec = lambda k: {'t': 'rec', 'f': [{'n': 'i', 'v': vint(k)}, {'n': 's', 'v': leaf(k)}, {'n': 'b', 'v': vbool(k % 2)}, {'n': 'd', 'v': vflt(k / 2)}]}
    for t in BIG[2:]:
        ty = lab.ty(t); k = ty['k']
        el = {'int': vint if k in ('set',) and not ty.get('multi') else num, 'str': leaf, 'rec': rec, 'seq': lambda k: {'t': 'seq', 'e': [leaf(k)] * (k % 3)}, 'opt': lambda k: {'t': 'ref', 'id': k // 2 + 1, 'v': leaf(k)} if k % 2 == 0 else {'t': 'ref', 'id': k // 2 + 1}}[ty['of']['k']]
        for n in x.rng.sample([n for n in sizes if n < (600 if k != 'seq' or 'sptr' in t else 5000)], x.n(2, 6)):
            if k == 'map':
                div = 40 if ty['multi'] else 1
                keys = [vint(j // div) if 'key' in ty else list(b'%04d' % (j // div)) for j in range(n)]
                yield t, {'t': 'map', 'e': [{'k': keys[j], 'v': el(j)} for j in range(n)]}
            else: yield t, {'t': k, 'e': [el(j) for j in range(n)]}
    for t in x.rng.sample(BIG2, x.n(8, len(BIG2))):
        ty = lab.ty(t)
        pool = [rand_bin_value(x.rng, ty['of'], lab.structs, None, 4) for _ in range(6)]
        yield t, {'t': ty['k'], 'e': [x.rng.choice(pool) for _ in range(x.rng.choice([n for n in sizes if n > 250]))]}


def big_rt(x, lab, cur):
    cases = [rt(x, lab, t, v, cur=cur) for t, v in list(big_values(x, lab)) + [('Tree', deep_tree(x.rng, n, [0])) for n in deep_sizes(x.rng, x.n(4, 14))]]
    for c in cases: c['big'] = 1
    return cases


PLACED = ['vec<sptr<Empty>>', 'pair<sptr<Empty>,sptr<Empty>>', 'map<sptr<Empty>>', 'vec<pair<sptr<Empty>,sptr<i32>>>', 'opt<vec<sptr<Empty>>>']


def placed(x, lab, n, **kw):
    """objects at all kinds of addresses (those between 2^55 and 2^56 might be written either way)"""
    rng = x.rng
    def place(v, at):
        if isinstance(v, list):
            for e in v: place(e, at)
        elif isinstance(v, dict):
            if v.get('t') == 'ref' and v.get('v', {}).get('t') == 'rec':
                while True:
                    a = rng.choice([1, 1 << rng.randrange(64), (1 << rng.randrange(1, 65)) - 1, rng.getrandbits(64), rng.getrandbits(rng.randrange(1, 65)), (1 << 55) - 1, 1 << 54, 1 << 56, 1 << 63, (1 << 64) - 1, (1 << 56) + 255])
                    if at and rng.random() < .5: a = rng.choice(sorted(at)) ^ 1 << rng.randrange(rng.choice([8, 64]))     # neighbours, the same apart from one bit
                    if a and not 1 << 55 <= a < 1 << 56 and a not in at: break
                at.add(a); v['a'] = be8(a)
            for e in v.values(): place(e, at)
    out = []
    for _ in range(n):
        t = rng.choice(PLACED)
        v = lab.value(rng, t); place(v, set())
        out.append(rt(x, lab, t, v, **kw))
    return out


def emitted(r, key='BYTES'):
    out = []
    for l in r.out.split('\n'):
        if l.startswith('"' + key): out.append(json.loads(json.loads(l)[len(key):]))
    return out


@check('P10', 'model_checking', 'TLA+/TLC: round trip and exact consumption over enumerated objects + conformance of the real library on enumerated and random objects',
       'TLC proves Decode(Encode(x)) = x and exact consumption on the specification for all enumerated objects; the real library is bound to it by deciding every replayed object (fresh and pre-filled targets, all entry points, arbitrary trailing bytes) with TLC.')
def p10(x):
    gen = gen_types(x)
    types = BT + TOPB + gen
    lab = BinLab(types + BIG + BIG2 + PLACED, x.path('lab'))
    roots = [(t, 1 if t in gen else 3 if x.thorough else 2, {'vers': [0]}) for t in types]
    vals, r = lab.mc('BinValuesMC', roots, 'mc', 'INIT Init\nNEXT NextRt\nINVARIANT RoundTrip\nINVARIANT BytesOk\nPOSTCONDITION Export\n', export='vals.ndjson')
    x.add_tlc(r); x.count('enumerated_objects', len(vals))
    decide_cases(x, lab, [rt(x, lab, roots[v['r'] - 1][0], v['v']) for v in vals], ['rt', 'const', 'ret'], 'enumerated')
    for rnd in range(x.n(1, 12)):
        cases = []
        for _ in range(x.n(1200, 2500)):
            t = x.rng.choice(types); cases.append(rt(x, lab, t, lab.value(x.rng, t)))
        decide_cases(x, lab, cases, ['rt', 'const', 'ret'], 'random%d' % rnd)
    decide_cases(x, lab, big_rt(x, lab, None), ['rt', 'const', 'ret'], 'big')
    decide_cases(x, lab, placed(x, lab, x.n(150, 1500)), ['rt', 'const', 'ret'], 'placed')


@check('P11', 'model_checking', 'TLA+/TLC: wire format as a function (BinMap!Encode), decided on bytes written by the real library',
       'the bytes written by the real library for enumerated and random objects of every supported type are compared by TLC with the specification of the format; identifiers of shared objects may be any distinct numbers.')
def p11(x):
    gen = gen_types(x)
    types = BT + TOPB + WRITE_ONLY + gen
    lab = BinLab(types + BIG + BIG2 + PLACED, x.path('lab'))
    roots = [(t, 1 if t in gen else 3 if x.thorough else 2, {'vers': [0]}) for t in types]
    vals, r = lab.mc('BinValuesMC', roots, 'mc', 'INIT Init\nNEXT NextRt\nINVARIANT RoundTrip\nINVARIANT BytesOk\nPOSTCONDITION Export\n', export='vals.ndjson')
    x.add_tlc(r); x.count('enumerated_objects', len(vals))
    decide_cases(x, lab, [rt(x, lab, roots[v['r'] - 1][0], v['v'], cur=False) for v in vals], ['wire'], 'enumerated')
    for rnd in range(x.n(1, 12)):
        cases = []
        for _ in range(x.n(1200, 2500)):
            t = x.rng.choice(types); cases.append(rt(x, lab, t, lab.value(x.rng, t), cur=False))
        decide_cases(x, lab, cases, ['wire'], 'random%d' % rnd)
    decide_cases(x, lab, big_rt(x, lab, False), ['wire'], 'big')
    decide_cases(x, lab, placed(x, lab, x.n(150, 1500), cur=False), ['wire'], 'placed')


def hist_cases(hists):
    out = []
    for h in hists:
        steps = [dict(s, x=k * 7 + 1) for k, s in enumerate(h)]
        out.append({'type': '$hist', 'op': 'hist', 'steps': [{'a': s['a'], 'v': s['v'] - 1 if s['v'] else 0, 'w': s['w'] - 1 if s['w'] else 0, 'x': s['x']} for s in steps]})
    return out


@check('P12', 'model_checking', 'TLA+/TLC: histories of shared objects and serializers (BinHistMC) exhaustively explored, every history replayed into the real library; random object graphs decided by TLC',
       'TLC proves identity and content of shared objects for all histories up to the bound, with addresses being re-used (and refutes them for a serializer which does not retain objects); the same histories are replayed with the real library using an allocator which re-uses addresses at once, and random graphs incl. cycles are decided by TLC.')
def p12(x):
    lab = BinLab(PT, x.path('lab'))
    cfg = 'CONSTANTS\n NSlots=%d\n NVars=%d\n MaxWrites=3\n MaxLen=%d\n Retain=%s\nINIT Init\nNEXT Next\nVIEW View\nINVARIANT Faithful\nINVARIANT Identity\nINVARIANT NoDangling\nINVARIANT Shared\n'
    r = tlc('BinHistMC', cfg % (3, 2, x.n(7, 8), 'TRUE') + 'INVARIANT Emit\n', x.path('hist'))
    if not r.ok: raise CheckError('BinHistMC: ' + r.out[-2500:])
    hists = emitted(r, 'HIST')
    x.add_tlc(r); x.count('histories', len(hists))
    r2 = tlc('BinHistMC', cfg % (3, 2, 6, 'FALSE'), x.path('hist2'))
    if r2.ok or 'Faithful' not in r2.violated: raise CheckError('BinHistMC does not notice a serializer which does not retain objects')
    x.count('not_retaining_model_rejected')
    key = lambda h: (-sum(s['a'] == 'write' for s in h), json.dumps(h))
    hists.sort(key=key)
    many = x.n(1800, 20000)
    sel = hists if len(hists) <= many else [h for h in x.rng.sample(hists, many)]
    decide_cases(x, lab, hist_cases(sel), [], 'hist')
    # longer histories than those explored exhaustively
    rnd = []
    for _ in range(x.n(300, 4000)):
        steps = []
        for k in range(x.rng.randrange(4, 25)):
            a = x.rng.choice(['new', 'new', 'link', 'link', 'copy', 'drop', 'write', 'write', 'write', 'newser' if x.rng.random() < .3 else 'set'])
            steps.append({'a': a, 'v': x.rng.randrange(4), 'w': x.rng.randrange(4), 'x': x.rng.randrange(1000)})
        rnd.append({'type': '$hist', 'op': 'hist', 'steps': steps})
    decide_cases(x, lab, rnd, [], 'longhist')
    cases = []
    for _ in range(x.n(900, 8000)):
        t = x.rng.choice(PT); cases.append(rt(x, lab, t, lab.value(x.rng, t, p_ref=x.rng.choice([.2, .5, .8]))))
    decide_cases(x, lab, cases, ['rt', 'wire', 'const'], 'graphs')
    # many objects
    n = x.n(1100, 2500)
    order = list(range(1, n + 1)) + [x.rng.randrange(1, n + 1) for _ in range(300)] + list(range(1, 5))
    refs = [{'t': 'ref', 'id': k, 'v': vint(k % 251)} if j < n else {'t': 'ref', 'id': k} for j, k in enumerate(order)]
    many = rt(x, lab, 'vec<sptr<i32>>', {'t': 'seq', 'e': refs}); many['big'] = 1
    decide_cases(x, lab, [many], ['rt', 'wire', 'const'], 'many', corrupt=False)
    # known finding: pointers of different types referring to the same address
    fid = 'aliased-address'
    res = lab.run_raw([{'type': '$alias', 'op': 'alias'}])[0]
    x.count('aliasing_pointers')
    if res.get('exc') != 'none' or not res.get('same'):
        if not x.finding(fid): x.violation('pointers of different types which refer to the same address are not restored: %s' % json.dumps(res), {'observed': res})


SKIPPED = ['vec<VExample>', 'vec<VUDer>', 'VOuter', 'map<VExample>', 'opt<VExample>', 'BVars', 'BConts', 'VDer', 'VMix', 'VExample', 'vec<VMix>', 'pair<VMix,VExample>']


@check('P13', 'model_checking', 'TLA+/TLC: sequences of objects on one stream decided by folding the format over one (de)serializer state',
       'random sequences of objects of different types and versions are written to and read from one stream by the real library using one serializer for all or one per object; TLC decides bytes, positions, identities and values.')
def p13(x):
    types = ['Leaf', 'Net', 'Node', 'Ptrs', 'VExample', 'VDer', 'VOuter', 'VDeep', 'BVars', 'BNums', 'Conts', 'str', 'vec<i32>', 'sptr<HNode>', 'vec<sptr<HNode>>', 'u8', 'map<str>', 'Tree', 'sptr<i32>', 'Evo4', 'VUDer', 'Empty', 'vec<sptr<str>>', 'VMix', 'VUBase']
    lab = BinLab(types + SKIPPED, x.path('lab'))
    for rnd in range(x.n(1, 10)):
        cases = []
        for _ in range(x.n(700, 1500)):
            one = x.rng.random() < .7
            rone = one if x.rng.random() < .7 else not one
            pool, nid, steps = {}, [0], []
            for _ in range(x.rng.randrange(1, 6)):
                t = x.rng.choice(types if x.rng.random() < .6 else ['Node', 'sptr<HNode>', 'Net', 'vec<sptr<HNode>>', 'sptr<i32>', 'VDeep'])
                v = lab.value(x.rng, t, pool=pool, nextid=nid) if one else lab.value(x.rng, t)
                ver = x.rng.choice([0, 0, 0, 1, 2, 3, 4, 9])
                steps.append({'type': t, 'w': {'op': '$w', 'val': v, 'wapi': x.rng.choice(['plain', 'ser']), 'wver': be8(ver)}, 'r': {'op': '$r', 'rapi': 'des', 'rver': be8(ver)}})
            cases.append({'type': '$seq', 'op': 'seq', 'one': one, 'rone': rone, 'steps': steps})
        decide_cases(x, lab, cases, [], 'seq%d' % rnd)
        # objects which can not be read (or are read differently) are skipped
        vers = [0, 0, 0, 1, 2, 3, 4, 9]
        good = [{'type': t, 'op': 'rt', 'val': lab.value(x.rng, t), 'wapi': 'ser', 'rapi': 'des', 'wver': be8(v), 'rver': be8(v), 'tail': []}
                for t in SKIPPED for v in vers for _ in range(x.n(2, 6)) for v in [x.rng.choice(vers)]]
        enc = [(c['type'], r['bytes'], c['wver']) for c, r in zip(good, lab.run_raw(good)) if len(r.get('bytes', [])) in range(1, 600)]
        cases = []
        for _ in range(x.n(700, 1500)):
            pool, nid, steps = {}, [0], []
            for k in range(x.rng.randrange(2, 7)):
                if x.rng.random() < .45 and k < 5:
                    t, b, ver = x.rng.choice(enc); b = list(b)
                    how = x.rng.randrange(4)
                    if how == 0: b = b[:x.rng.randrange(len(b))]
                    elif how == 1: b[x.rng.randrange(len(b))] ^= 1 << x.rng.randrange(8)
                    elif how == 2:
                        at = [i for i, y in enumerate(b) if 0x81 <= y <= 0x86]
                        if at: b[x.rng.choice(at)] = x.rng.choice([0x87, 0x88, 0x90, 0xff])
                    else: b[x.rng.randrange(len(b))] = x.rng.choice([0, 1, 2, 127, 128, 255])
                    steps.append({'type': t, 'w': {'raw': b, 'wver': ver}, 'r': {'op': '$r', 'rapi': 'des', 'rver': ver}})
                    continue
                t = x.rng.choice(types)
                ver = x.rng.choice(vers)
                steps.append({'type': t, 'w': {'op': '$w', 'val': lab.value(x.rng, t, pool=pool, nextid=nid), 'wapi': x.rng.choice(['plain', 'ser']), 'wver': be8(ver)}, 'r': {'op': '$r', 'rapi': 'des', 'rver': be8(ver)}})
            if not any('raw' in s['w'] for s in steps): continue
            cases.append({'type': '$seq', 'op': 'seq', 'one': True, 'rone': True, 'steps': steps})
        x.count('sequences_with_skipped_objects', len(cases))
        decide_cases(x, lab, cases, [], 'skip%d' % rnd)


GRAPHS = ['Net', 'Node', 'vec<sptr<HNode>>', 'vec<sptr<str>>', 'vec<sptr<i32>>', 'vec<pair<sptr<i32>,sptr<str>>>']
SMALL = [('str', 3, [0, 1, 128, 129, 130, 65, 64, 255]), ('vec<u8>', 3, [0, 1, 2, 128, 129, 130, 64, 32]), ('vec<str>', 4, [0, 128, 129, 130, 131, 65]), ('map<u8>', 4, [0, 128, 129, 130, 7]),
         ('kmap<u8,u8>', 4, [0, 128, 129, 130, 7]), ('set<u8>', 4, [0, 128, 129, 130, 7]), ('opt<u8>', 3, [0, 1, 2, 128, 255]), ('opt<opt<u8>>', 3, [0, 1, 2, 255]), ('uptr<str>', 3, [0, 1, 128, 129, 5]),
         ('vec<sptr<u8>>', 7, [1, 2, 129, 130]), ('vec<sptr<bool>>', 5, [0, 1, 2, 5, 129, 130]), ('sptr<sptr<u8>>', 5, [0, 1, 2, 3, 129, 130]), ('var<mono,u8,str>', 4, [0, 1, 2, 3, 128, 129, 255]), ('VSpaced', 3, [0, 1, 128, 129, 135, 136, 64, 255]),
         ('bool', 2, [0, 1, 2, 255]), ('u16', 3, [0, 1, 255]), ('i64', 3, [0, 255]), ('pair<u8,str>', 4, [0, 128, 129, 1]), ('mset<u8>', 4, [0, 128, 129, 130]), ('EnU8', 2, [0, 1, 255]),
         ('vec<var<u8,bool>>', 5, [0, 1, 2, 129, 130]), ('kmmap<u8,str>', 5, [0, 128, 129, 130])]


@check('P14', 'model_checking', 'TLA+/TLC: reader fed with arbitrary bytes and with damaged data (BinFeedMC, BinMutMC), every byte string replayed into the real library with sanitizers',
       'TLC explores the reader of the specification on all byte strings up to a bound over type-specific alphabets, on truncated data and on all single alterations of valid data, proves that verdicts are final, and decides the outcome (value, position, kind of exception) of the real library on each of these byte strings; built with AddressSanitizer and UndefinedBehaviorSanitizer and limited memory.')
def p14(x):
    small = [s[0] for s in SMALL]
    gen = gen_types(x, 10, sized=True)
    muts = [t for t in BT if t not in ('BEnum', 'Deflt')] + gen
    lab = BinLab(small + muts + TOPB + GRAPHS, x.path('lab'))
    roots = [(t, d + (1 if x.thorough else 0), {'alpha': al}) for t, d, al in SMALL]
    _, r = lab.mc('BinFeedMC', roots, 'feed', 'INIT Init\nNEXT Next\nINVARIANT Verdicts\nINVARIANT Sane\nINVARIANT Emit\nPROPERTY Final\n')
    x.add_tlc(r)
    em = emitted(r)
    x.count('fed_byte_strings', len(em))
    em = em if len(em) <= x.n(6000, 60000) else x.rng.sample(em, x.n(6000, 60000))
    dec = lambda t, b, **kw: dict({'type': t, 'op': 'dec', 'bytes': b, 'rapi': x.rng.choice(['plain', 'des', 'member']), 'rver': be8(0)}, **kw)
    decide_cases(x, lab, [dec(roots[e['r'] - 1][0], e['b']) for e in em], ['pos', 'val'], 'fed', 8000)
    # truncation
    roots = [(t, 1, {'vers': [0]}) for t in muts]
    _, r = lab.mc('BinValuesMC', roots, 'cut', 'INIT Init\nNEXT Next\nINVARIANT RoundTrip\nINVARIANT CutDetected\n')
    x.add_tlc(r)
    # alterations
    roots = []
    for t in muts:
        for _ in range(8):
            v = lab.value(x.rng, t)
            if len(json.dumps(v)) < (1500 if not x.thorough else 6000): break
        else: continue
        roots.append((t, 0, {'vals': [lab.numbered(v)], 'alpha': [0, 1, 128, 255] if not x.thorough else [0, 1, 2, 3, 4, 5, 64, 127, 128, 129, 255]}))
    _, r = lab.mc('BinMutMC', roots, 'mut', 'INIT Init\nNEXT Next\nINVARIANT Verdicts\nINVARIANT Emit\n')
    x.add_tlc(r)
    em = emitted(r)
    x.count('damaged_byte_strings', len(em))
    em = em if len(em) <= x.n(6000, 60000) else x.rng.sample(em, x.n(6000, 60000))
    decide_cases(x, lab, [dec(roots[e['r'] - 1][0], e['b'], **({'cur': lab.value(x.rng, roots[e['r'] - 1][0])} if x.rng.random() < .3 else {})) for e in em], ['pos', 'val'], 'damaged', 8000)
    # graphs whose identifiers are mixed up
    cases = []
    base = [rt(x, lab, t, lab.value(x.rng, t, p_ref=.5), cur=False, tail=False) for t in [x.rng.choice(GRAPHS) for _ in range(x.n(160, 1500))]]
    for c, o in zip(base, lab.observe(base, 'graphs')[0]):
        if o['crash'] or len(o['bytes']) > 500: continue
        b = bytes(o['bytes'])
        ms = list(re.finditer(rb'[\x01\x02](\x02[\x50-\x7f].{5})', b, re.S))
        for _ in range(4 if len(ms) > 1 else 0):
            d = bytearray(b)
            for _ in range(x.rng.choice([1, 1, 2])):
                m, n = x.rng.sample(ms, 2)
                if x.rng.random() < .7: d[m.start(1):m.end(1)] = n.group(1)
                else: d[m.start()] = x.rng.choice([1, 2, 3])
            cases.append(dec(c['type'], list(d)))
    decide_cases(x, lab, cases, ['pos', 'val'], 'mixed')
    # random bytes
    cases = []
    for _ in range(x.n(1500, 15000)):
        t = x.rng.choice(muts + TOPB)
        n = x.rng.randrange(0, 60)
        cases.append(dec(t, [x.rng.choice([0, 1, 2, 5, 128, 129, 130, 131, x.rng.randrange(256)]) for _ in range(n)]))
    decide_cases(x, lab, cases, ['pos', 'val'], 'random')


@check('P15', 'fault_enumeration', 'TLA+/TLC: bytes and exception for every point of failure decided by the specification',
       'for random objects, the stream is made to fail after every single number of bytes, when writing (buffer reporting failure, buffer throwing, stream without exceptions) and when reading (end of stream, buffer throwing); TLC decides what has been written, the state of the stream and the exception; the object written is unaltered.')
def p15(x):
    types = [t for t in BT if t not in ('Deflt', 'BEnum')] + ['vec<str>', 'str', 'sptr<HNode>', 'map<str>', 'var<mono,u8,str>'] + gen_types(x, 12)
    lab = BinLab(types, x.path('lab'))
    cases = []
    for k in range(x.n(320, 3000)):
        t = types[k] if k < len(types) else x.rng.choice(types)   # every type is used
        v = None
        for _ in range(12):
            v2 = lab.value(x.rng, t)
            if len(json.dumps(v2)) < 1800 and (v is None or len(json.dumps(v2)) > len(json.dumps(v))): v = v2
            if v is not None and len(json.dumps(v)) > 150: break
        if v is None: continue
        cases.append({'type': t, 'op': 'wfault', 'val': v, 'wapi': x.rng.choice(['plain', 'ser', 'member']), 'wver': be8(0), 'mode': x.rng.randrange(3)})
    cases, obs, raw = decide_cases(x, lab, cases, [], 'write')
    for o in obs:
        if not o['crash']:
            x.count('points', len(o['faults'])); x.seen([o['type'], o['bytes'], o['mode']])
    rc = [{'type': c['type'], 'op': 'rfault', 'bytes': o['bytes'], 'rapi': x.rng.choice(['plain', 'des', 'member']), 'rver': be8(0), 'mode': x.rng.randrange(2)} for c, o in zip(cases, obs) if not o['crash']]
    for c in rc:
        if x.rng.random() < .4: c['cur'] = lab.value(x.rng, c['type'])
    rc, obs, raw = decide_cases(x, lab, rc, [], 'read')
    for o in obs:
        if not o['crash']: x.count('points', len(o['faults'])); x.seen([o['type'], o['bytes'], 'read'])
    x.cov['evaluations'] = x.cov.get('points', 0)


@check('P16', 'model_checking', 'TLA+/TLC: version markers, defaults and nesting enumerated over all versions; bytes, results and returned versions of the real library decided by TLC',
       'TLC enumerates objects of versioned, unversioned, nested and derived records together with every version and proves the round trip restricted to the members of that version; the real library is decided on all of them and on random ones.')
def p16(x):
    lab = BinLab(VT + rrtypes.WALKS + ['VLarge', 'vec<VNested>', 'map<VDer>', 'opt<VExample>', 'vec<VUDer>', 'sptr<VExample>', 'pair<VDer,VNested>', 'var<VNested,VRange>'], x.path('lab'))
    roots = [(t, 2 if not x.thorough else 3, {'vers': VERS[:8]}) for t in VT if t not in ('VDeep', 'VOuter', 'VMix', 'VTwo', 'VThree', 'VHold')] + [(t, 1, {'vers': [0, 1, 2, 3, 4]}) for t in ('VTwo', 'VHold')] + [('VDeep', 1, {'vers': [0, 2, 3, 5]}), ('VOuter', 1, {'vers': [0, 1, 3, 4]})]
    vals, r = lab.mc('BinValuesMC', roots, 'mc', 'INIT Init\nNEXT NextRt\nINVARIANT RoundTrip\nINVARIANT BytesOk\nPOSTCONDITION Export\n', export='vals.ndjson')
    x.add_tlc(r); x.count('enumerated_objects_and_versions', len(vals))
    if len(vals) > x.n(4000, 40000): vals = x.rng.sample(vals, x.n(4000, 40000))
    cl = ['wire', 'rt', 'ret']
    decide_cases(x, lab, [rt(x, lab, roots[v['r'] - 1][0], v['v'], v['ver']) for v in vals], cl, 'enumerated')
    # records with all sequences of three markers
    decide_cases(x, lab, [rt(x, lab, t, lab.value(x.rng, t), v) for t in rrtypes.WALKS for v in range(7) for _ in range(x.n(1, 8))] +
                 [rt(x, lab, 'VLarge', lab.value(x.rng, 'VLarge'), v) for v in rrtypes.LARGE for _ in range(x.n(2, 8))], cl, 'walks')
    types = [t for t in lab.types if t not in ('VMix', 'VThree') and t not in rrtypes.WALKS]
    for rnd in range(x.n(1, 10)):
        cases = []
        for _ in range(x.n(1200, 2500)):
            t = x.rng.choice(types); cases.append(rt(x, lab, t, lab.value(x.rng, t), x.rng.choice(VERS)))
        decide_cases(x, lab, cases, cl, 'random%d' % rnd)


@check('P17', 'model_checking', 'TLA+/TLC: evolution of a record over program versions (BinEvoMC), replayed into the real library',
       'TLC proves that data written by any older program (at any version it supports) is read by any newer one, that newer data is rejected with the version found, the supported one and the record, and the real library is decided on all pairs, all versions and nesting (within containers, bases and members).')
def p17(x):
    evo = ['Evo1', 'Evo2', 'Evo3', 'Evo4']
    lab = BinLab(VT + ['vec<VExample>', 'opt<VDer>', 'map<VRange>', 'sptr<VExample>', 'pair<VDer,VSpaced>', 'var<VNested,VRange>'] + evo, x.path('lab'))
    roots = [(t, 2, {'vers': [0, 1, 2, 3, 4]}) for t in evo]
    vals, r = lab.mc('BinEvoMC', roots, 'mc', 'INIT Init\nNEXT Next\nINVARIANT Compatible\nINVARIANT Rejected\nINVARIANT AllPairs\nPOSTCONDITION Export\n', export='vals.ndjson')
    x.add_tlc(r); x.count('data_and_readers', len(vals))
    dec = lambda t, b, cur=False: dict({'type': t, 'op': 'dec', 'bytes': b, 'rapi': x.rng.choice(['plain', 'des', 'member']), 'rver': be8(0)}, **({'cur': lab.value(x.rng, t)} if cur else {}))
    cases = [dec(evo[v['reader'] - 1], v['b'], x.rng.random() < .4) for v in vals]
    if len(cases) > x.n(2500, 50000): cases = x.rng.sample(cases, x.n(2500, 50000))
    decide_cases(x, lab, cases, ['pos', 'val'], 'evolution')
    # data written by the real library with the version altered: every versioned record within it
    types = [t for t in lab.types if t not in ('VNested', 'VUBase', 'VUDer', 'VMix', 'VThree', 'VTwo', 'VGen0', 'VGen3')]
    for rnd in range(x.n(1, 8)):
        base = []
        for _ in range(x.n(350, 1200)):
            t = x.rng.choice(types); base.append(rt(x, lab, t, lab.value(x.rng, t), x.rng.choice([0, 1, 2, 3, 4, 6]), cur=False, tail=False))
        obs, raw = lab.observe(base, 'base%d' % rnd)
        cases = []
        for c, o in zip(base, obs):
            if o['crash'] or len(o['bytes']) > 400 or not o['bytes']: continue
            for _ in range(3):
                b = list(o['bytes'])
                # positions which denote a version or a size: altered to a higher version
                ks = [k for k, v in enumerate(b) if 129 <= v <= 136]
                if ks and x.rng.random() < .8:
                    k = x.rng.choice(ks); b[k:k + 1] = x.rng.choice([[b[k] + 1], [b[k] + x.rng.randrange(1, 30)], [64, b[k] - 128], [1, 0, 0, 0, 0, 0, 0, 9], [255]] + [varlen((1 << e) + x.rng.choice([0, b[k] - 128])) for e in (7, 8, 15, 16, 24, 31, 32, 40, 48, 55)])
                cases.append(dec(c['type'], b, x.rng.random() < .3))
        decide_cases(x, lab, cases, ['pos', 'val'], 'altered%d' % rnd)
    # known finding
    fid = 'unversioned-base-of-versioned'
    c = {'type': 'VMix', 'op': 'rt', 'val': lab.value(x.rng, 'VMix'), 'wapi': 'ser', 'rapi': 'des', 'wver': be8(4), 'rver': be8(0), 'tail': []}
    obs, raw = lab.observe([c], 'vmix')
    rej, r = lab.decide(obs, ['rt'], 'tlc-vmix')
    if rej and not x.finding(fid): x.violation('versioned record with an unversioned base written with an explicit version is not restored', {'case': c, 'observed': raw[0]})
