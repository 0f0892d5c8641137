"""Conformance of the real JSON (de)serialization with JsonMap.tla."""
import json, os, random
from common import *
import harness, rrtypes, jsondoc as J
from jsondoc import *


def can_from_json(d):
    """types the fromJson() functions exist for"""
    return d['k'] in ('rec', 'bool', 'flt', 'str', 'seq', 'map') or d['x'] in ('i32', 'u32', 'i64', 'u64')


TOP_APIS = ('fromJson', 'member', 'memberc', 'membersz')


class JsonLab:
    """harness for a set of types + schema for the specification"""
    def __init__(self, types, work, flags=(), hana=False, par=False, tsan=False):
        self.types = sorted(set(types)); self.work = work; self.imprecise = 0
        os.makedirs(work, exist_ok=True)
        self.desc = {t: rrtypes.parse(t) for t in self.types}
        acc = set()
        for d in self.desc.values(): rrtypes.used_structs(d, acc)
        self.structs_used = sorted(acc)
        self.exe = harness.json_harness(self.types + self.structs_used, flags=flags, hana=hana, par=par, tsan=tsan)
        self.structs = rrtypes.hana_schema(rrtypes.schema_json(acc), False) if hana else rrtypes.schema_json(acc)
        res = run_cases(self.exe, [{'type': s, 'op': 'default'} for s in self.structs_used], os.path.join(work, 'dflt'))
        self.defaults = {}
        for s, r in zip(self.structs_used, res):
            if 'crash' in r: raise BuildFailure('default construction of %s failed: %s' % (s, r['crash']))
            self.defaults[s] = r['res']

    def observe(self, cases, name='obs'):
        """runs the cases; returns the observations as the specification expects them"""
        raw = run_cases(self.exe, [{k: v for k, v in c.items() if k not in ('_d',)} for c in cases], os.path.join(self.work, name))
        return [self.observation(c, r) for c, r in zip(cases, raw)], raw

    def observation(self, c, r):
        if c['op'] == 'par':
            o = {'op': 'par', 'ty': {'k': 'mono'}, 'crash': r.get('crash', ''), 'type': '$par'}
            if not o['crash']: o.update(sched=c.get('sched', []), ran=r['ran'], strict=c['strict'], parts=[self.observation(q, s) for q, p in zip(c['cases'], r['outs']) for s in p])
            return o
        o = {'op': c['op'], 'ty': self.desc[c['type']], 'crash': r.get('crash', ''), 'type': c['type']}
        if o['crash']: return o
        if c['op'] in ('ser', 'rt'):
            o.update(val2=r['val2'], d=J.safe_parse(r['text']))
            if c['op'] == 'rt':
                exact = J.imprecise_numbers(r['text'])      # known finding: imprecise-double
                if exact: r['res'], n = J.restore_precision(r['res'], exact); self.imprecise += n
                o.update(res=r['res'], exc=r['exc'], errs=r['errs'], ctx=r['ctx'])
        elif c['op'] == 'shared':

            o.update(parts=[dict(op='rt', type=c['type'], ty=o['ty'], crash='', val2=r['val2'], d=J.safe_parse(q['text']), res=q['res'], exc=q['exc'], errs=q['errs'], ctx=q['ctx']) for q in r['outs']], op='par', sched=[], ran=[], strict=False)
        elif c['op'] == 'life':
            o.update(val2=r['val2'], docs=[J.safe_parse(t) for t in r['texts']])
        elif c['op'] == 'des':
            o.update(ctx0=c['ctx0'], steps=[dict(ty=o['ty'], d=J.safe_parse(i['text']), we=i['we'], thr=c['thr'], top=i['api'] in TOP_APIS and can_from_json(o['ty']), cur2=q['cur2'], res=q['res'], exc=q['exc'],
                                                 errs=q['errs'], ctx=q['ctx'], probes=[dict(p, v=vint(p['v'])) for p in q['probes']]) for i, q in zip(c['steps'], r['steps'])])
        elif c['op'] == 'de':
            top = c.get('api') in TOP_APIS and can_from_json(o['ty'])
            o.update(d=J.safe_parse(c['text']), we=c['we'], thr=c['thr'], top=top, cur2=r['cur2'], res=r['res'], exc=r['exc'], errs=r['errs'], ctx=r['ctx'],
                     probes=[dict(p, v=vint(p['v'])) for p in r['probes']])
        return o

    def decide(self, obs, clauses, name='tlc', timeout=800):
        """lets TLC decide the observations; returns (indices of rejected ones, TlcResult)"""
        w = os.path.join(self.work, name)
        os.makedirs(w, exist_ok=True)
        json.dump({'structs': self.structs, 'defaults': self.defaults}, open(os.path.join(w, 'schema.json'), 'w'))
        with open(os.path.join(w, 'obs.ndjson'), 'w') as f:
            for k, o in enumerate(obs): f.write(json.dumps(dict(J.shallow(o), num=k + 1), separators=(',', ':')) + '\n')
        cfg = 'CONSTANTS\n Structs <- StructsIn\n Defaults <- DefaultsIn\n Clauses = {%s}\nINIT Init\nNEXT Next\nINVARIANT Accepted\n' % ', '.join('"%s"' % c for c in clauses)
        return decide_obs('JsonObsRun', cfg, w, len(obs), timeout)

    def _mc(self, module, roots, name, cfg, export, timeout, workers):
        w = os.path.join(self.work, name)
        os.makedirs(w, exist_ok=True)
        json.dump({'structs': self.structs, 'defaults': self.defaults, 'roots': [{'ty': self.desc.get(t) or rrtypes.parse(t), 'depth': n} for t, n in roots]}, open(os.path.join(w, 'schema.json'), 'w'))
        r = tlc(module, 'CONSTANTS\n Structs <- StructsIn\n Defaults <- DefaultsIn\n Roots <- RootsIn\n' + cfg, w, timeout=timeout, workers=workers)
        if not r.ok: raise CheckError('model checking of %s failed:\n' % module + r.out[-4000:])
        out = []
        for l in open(os.path.join(w, export)):
            o = json.loads(l)
            out.append((roots[o['r'] - 1][0], o['d' if 'd' in o else 'v']))
        return out, r

    def machine(self, roots, name='machine', timeout=800, live=False, workers=None):
        """model checks the deserialization machine over all documents; roots: [(type, richness)]; returns ([(type, doc)], TlcResult)"""
        return self._mc('JsonMachineMC', roots, name, 'SPECIFICATION Spec\nINVARIANTS ContextOk ContextRestored FatalIsLast Agrees Robust Untouched\n'
                        'PROPERTY ErrorsOnlyGrow%s\nPOSTCONDITION Export\n' % (' Terminates' if live else ''), 'docs.ndjson', timeout, workers)

    def values(self, roots, name='values', timeout=800, workers=None):
        """model checks the round trip over all values; roots: [(type, depth)]; returns ([(type, value)], TlcResult)"""
        return self._mc('JsonValuesMC', roots, name, ' Clauses <- AllClauses\nINIT Init2\nNEXT Next2\n'
                        'INVARIANTS RoundTrip DocDetermines NamesUnique\nPOSTCONDITION Export\n', 'vals.ndjson', timeout, workers)
