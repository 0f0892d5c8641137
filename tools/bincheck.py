"""Conformance of the real binary (de)serialization with BinMap.tla."""
import json, os, random
from common import *
import harness, rrtypes
import jsondoc as J
from jsondoc import *

Z8 = [0] * 8


def rand_bin_value(rng, ty, structs, pool=None, depth=0, nextid=None, p_ref=.5):
    """random abstract value; objects referred to by shared pointers are numbered (pool: type -> [ids])"""
    pool = {} if pool is None else pool
    nextid = [0] if nextid is None else nextid
    k = ty['k']
    sub = lambda t: rand_bin_value(rng, t, structs, pool, depth + 1, nextid, p_ref)
    ln = lambda: rng.choice([0, 0, 1, 1, 2, 2, 3, 5] if depth < 3 else [0, 0, 1, 2]) if rng.random() < .97 or depth > 1 else rng.choice([10, 40, 127, 128, 130])
    if k in ('dt',): return vint(rng.choice([0, 1, (1 << 64) - 1, rng.getrandbits(64), rng.getrandbits(60)]))
    if k in ('ts',): return vint(rng.choice([0, -1, -(1 << 63), (1 << 63) - 1, rng.getrandbits(64) - (1 << 63)]))
    if k == 'flt' and rng.random() < .06: return vflt(rng.choice([float('inf'), float('-inf')]))
    if k == 'str' and rng.random() < .03: return vstr(bytes(rng.randrange(256) for _ in range(rng.choice([126, 127, 128, 129, 300]))))
    if k == 'seq':
        n = ln() if depth < 6 else 0
        if ty['of']['k'] in ('int',) and rng.random() < .02: n = rng.choice([127, 128, 200])
        return {'t': 'seq', 'e': [sub(ty['of']) for _ in range(n)]}
    if k == 'set': return {'t': 'set', 'e': [sub(ty['of']) for _ in range(ln())]}
    if k == 'map':
        n = ln()
        keys = [sub(ty['key']) if 'key' in ty else list(rand_str(rng)) for _ in range(n)]
        if ty['multi'] and n > 1:
            for i in range(1, n):
                if rng.random() < .5: keys[i] = keys[rng.randrange(i)]
        if not ty['multi']:   # values which are dropped would be created nevertheless
            uniq, seen = [], set()
            for key in keys:
                s = json.dumps(key)
                if s not in seen: seen.add(s); uniq.append(key)
            keys = uniq
        # visited in the order of the keys
        if ty['ord'] and 'key' not in ty: keys.sort()
        return {'t': 'map', 'e': [{'k': key, 'v': sub(ty['of'])} for key in keys]}
    if k == 'tup': return {'t': 'tup', 'e': [sub(t) for t in ty['of']]}
    if k == 'opt':
        if rng.random() < (.3 if depth < 5 else .9): return dict(NULL)
        if ty['p'] != 'sptr': return {'t': 'some', 'v': sub(ty['of'])}
        ids = pool.setdefault(ty['of']['x'], [])
        if ids and rng.random() < p_ref: return {'t': 'ref', 'id': rng.choice(ids)}
        if depth > 7: return dict(NULL)
        nextid[0] += 1
        i = nextid[0]
        ids.append(i)          # already known while its content is made: cycles
        return {'t': 'ref', 'id': i, 'v': sub(ty['of'])}
    if k == 'var':
        i = rng.randrange(len(ty['of']))
        return {'t': 'var', 'i': i, 'v': sub(ty['of'][i])}
    if k == 'rec': return {'t': 'rec', 'f': [{'n': f['n'], 'v': sub(f['t'])} for f in flat(structs, ty['n'])]}
    return rand_value(rng, ty, {}, structs, depth)


class BinLab:
    def __init__(self, types, work, hana=False, par=False, tsan=False):
        self.types = sorted(set(types)); self.work = work
        os.makedirs(work, exist_ok=True)
        self.desc = {t: rrtypes.parse(t) for t in self.types}
        acc = set()
        for d in self.desc.values(): rrtypes.used_structs(d, acc)
        acc |= {'HNode'}
        self.structs_used = sorted(acc)
        self.exe = harness.bin_harness(self.types + self.structs_used, hana=hana, par=par, tsan=tsan)
        self.structs = rrtypes.hana_schema(rrtypes.bin_schema(acc), True) if hana else rrtypes.bin_schema(acc)
        res = run_cases(self.exe, [{'type': s, 'op': 'default'} for s in self.structs_used], os.path.join(work, 'dflt'))
        self.defaults = {}
        for s, r in zip(self.structs_used, res):
            if 'crash' in r: raise BuildFailure('default construction of %s failed: %s' % (s, r['crash']))
            self.defaults[s] = r['res']

    def ty(self, t): return self.desc.get(t) or rrtypes.parse(t)
    def value(self, rng, t, **kw): return rand_bin_value(rng, self.ty(t), self.structs, **kw)

    def observe(self, cases, name='obs'):
        raw = run_cases(self.exe, cases, os.path.join(self.work, name))
        return [self.observation(c, r) for c, r in zip(cases, raw)], raw

    def observation(self, c, r):
        if c['op'] == 'par':
            o = {'op': 'par', 'crash': r.get('crash', ''), 'type': '$par'}
            if not o['crash']: o['parts'] = [self.observation(q, s) for q, p in zip(c['cases'], r['outs']) for s in p]
            return o
        o = {'op': {'prt': 'rt', 'pdec': 'dec'}.get(c['op'], c['op']), 'crash': r.get('crash', ''), 'type': c['type']}
        if c['op'] not in ('seq', 'hist'): o['ty'] = self.ty(c['type'])
        if o['crash']: return o
        for k in ('val2', 'val3', 'cur2', 'bytes', 'exc', 'pres', 'max', 'rec', 'pos', 'ret', 'res', 'faults', 'written'):
            if k in r: o[k] = r[k]
        if c['op'] in ('dec', 'pdec', 'rfault'): o['bytes'] = c['bytes']
        if c['op'] in ('rt', 'prt', 'wfault', 'shared'): o['wver'] = c.get('wver', Z8)
        if c['op'] in ('rt', 'prt', 'dec', 'pdec', 'rfault'): o['rver'] = c.get('rver', Z8)
        if c['op'] in ('rt', 'prt'): o['rapi'] = c.get('rapi', 'plain')
        if c['op'] == 'wfault': o['mode'] = c['mode']
        if c['op'] == 'seq':
            o.update(one=c['one'], rone=c['rone'], bytes=r['bytes'], writes=[dict(w, ty=self.ty(s['type']), wver=s['w'].get('wver', Z8)) for w, s in zip(r['writes'], c['steps'])],
                     reads=[dict(q, rver=s['r'].get('rver', Z8)) for q, s in zip(r['reads'], c['steps'])])
        if c['op'] == 'hist':
            ty = rrtypes.parse('sptr<HNode>')
            o.update(sbytes=r['sbytes'], segs=[{'writes': [dict(w, ty=ty, wver=Z8) for w in s['writes']]} for s in r['segs']],
                     sreads=[[dict(q, rver=Z8) for q in s] for s in r['sreads']])
        return o

    def run_raw(self, cases): return run_cases(self.exe, cases, os.path.join(self.work, 'raw'))

    @staticmethod
    def numbered(v):
        """random values may refer to an object before its content is stated (cycles): this is fine as they are numbered in order of occurrence"""
        return v

    def decide(self, obs, clauses, name='tlc', timeout=800):
        w = os.path.join(self.work, name)
        os.makedirs(w, exist_ok=True)
        json.dump({'structs': self.structs, 'defaults': self.defaults}, open(os.path.join(w, 'schema.json'), 'w'))
        with open(os.path.join(w, 'obs.ndjson'), 'w') as f:
            for k, o in enumerate(obs): f.write(json.dumps(dict(shallow(o), num=k + 1), separators=(',', ':')) + '\n')
        cfg = 'CONSTANTS\n Structs <- StructsIn\n Defaults <- DefaultsIn\n Clauses = {%s}\nINIT Init\nNEXT Next\nINVARIANT Accepted\n' % ', '.join('"%s"' % c for c in clauses)
        return decide_obs('BinObsRun', cfg, w, len(obs), timeout)

    def mc(self, module, roots, name, cfg, timeout=800, workers=None, export=None):
        w = os.path.join(self.work, name)
        os.makedirs(w, exist_ok=True)
        json.dump({'structs': self.structs, 'defaults': self.defaults, 'roots': [dict({'ty': self.ty(r[0]), 'depth': r[1]}, **(r[2] if len(r) > 2 else {})) for r in roots]}, open(os.path.join(w, 'schema.json'), 'w'))
        r = tlc(module, 'CONSTANTS\n Structs <- StructsIn\n Defaults <- DefaultsIn\n Roots <- RootsIn\n' + cfg, w, timeout=timeout, workers=workers)
        if not r.ok: raise CheckError('model checking of %s failed:\n' % module + r.out[-4000:])
        return ([json.loads(l) for l in open(os.path.join(w, export))] if export else []), r
