"""Calls of the real code generator as specified by GenCli: builds the command line and the input for a call and records what happens."""
import os, re, resource, signal, subprocess
from common import *

STUB = '''#pragma once
namespace ReflectiveRapidJSON {
template <typename T> struct JsonSerializable {};
template <typename T> struct BinarySerializable {};
}
'''
ERRS = {'sem': 'inline int broken%(k)d() { return undeclared%(k)d; }\n',
        'many': ''.join('inline int broken%%(k)d_%d() { return undeclared%%(k)d_%d; }\n' % (i, i) for i in range(70)),
        'lex': 'int syntax%(k)d error%(k)d here;\n', 'inc': '#include "does-not-exist-%(k)d.h"\n', 'fatal': '#error error %(k)d\n'}
JS, BS = 'public ReflectiveRapidJSON::JsonSerializable<%s>', 'public ReflectiveRapidJSON::BinarySerializable<%s>'


def source(c, before=True):
    """the input file of a call (the errors are placed around the classes if before is not set)"""
    if c['cls'] == 'empty': return ''
    e = [ERRS[n] % {'k': k} for k, n in enumerate(c['errs'])]
    base = {'both': JS + ', ' + BS, 'cond': JS + ', ' + BS, 'json': JS, 'binary': BS, 'none': ''}[c['cls']]
    out = ''
    for n in ('First', 'Second'):
        b = base.replace('%s', 'Some::' + n)
        out += 'namespace Some { struct %s%s { int a; int b_%s; }; }\n' % (n, ' : ' + b.replace('Some::', '') if b else '', n.lower())
    if c['cls'] == 'cond': out = '#ifdef EXTRA\n%s#endif\n' % out
    half = 0 if before else len(e) if before is None else (len(e) + 1) // 2
    return '#include "stub.h"\n' + ''.join(e[half:] if not before else e) + out + ('' if before else ''.join(e[:half]))


def norm(text):
    return re.sub(r'\s+', ' ', text).strip()


class Cli:
    def __init__(self, work):
        self.gen, self.work = generator(), work
        os.makedirs(work, exist_ok=True)
        self.refs = {}

    def run(self, args, cwd, stdout=subprocess.PIPE, cap=-1):
        def limit():
            if cap >= 0:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (cap, cap))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([self.gen] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, preexec_fn=limit)
        out, err = p.communicate(timeout=120)
        return p.returncode, out, err

    def reference(self, cls, gen):
        """the code for one format obtained by a plain call"""
        if (cls, gen) in self.refs: return self.refs[cls, gen]
        d = os.path.join(self.work, 'ref-%s-%s' % (cls, gen)); os.makedirs(d, exist_ok=True)
        open(d + '/stub.h', 'w').write(STUB)
        open(d + '/in.h', 'w').write(source({'cls': cls, 'errs': []}))
        rc, out, err = self.run(['--input-file', 'in.h', '--generators', gen, '--clang-opt', '-DEXTRA'], d)
        self.refs[cls, gen] = out.decode(errors='replace')
        if rc: self.refs[cls, gen] = '?' + self.refs[cls, gen]
        return self.refs[cls, gen]

    def sections(self, text, cls):
        """divides the output into the sections it consists of"""
        cand = []
        for g in ('json', 'binary'):
            ref = self.reference(cls, g)
            for v in ('', 'VJ', 'VB'):
                t = norm(re.sub(r'^template <>\s', 'template <> %s ' % v, ref, flags=re.M))
                if t: cand.append((t, {'g': g, 'vis': v}))
        t, out = norm(text), []
        while t:
            for p, s in cand:
                if t == p or t.startswith(p + ' '):
                    t = t[len(p):].strip(); out.append(s)
                    break
            else:
                return out + [{'g': '?', 'vis': ''}]
        return out

    def complete(self, c):
        """size of the complete code in byte (as far as the arguments allow determining it)"""
        if c['cls'] == 'empty': return 0
        vis = {'json': len(c['vj']), 'binary': len(c['vb'])}
        gens = ['json'] if c['gens'] == ['default'] else c['gens']
        n = 0
        for g in gens:
            if g not in vis: continue
            ref = self.reference(c['cls'], g)
            if c['cls'] == 'cond' and '-DEXTRA' not in [o for v in c['opts'] for o in v]: continue
            n += len(ref.encode()) + vis[g] * len(re.findall(r'^template <>', ref, flags=re.M))
        return n

    def call(self, c, d, capbytes=None, before=True):
        """performs call c within directory d and returns the observation"""
        os.makedirs(d, exist_ok=True)
        open(d + '/stub.h', 'w').write(STUB)
        if os.path.exists(d + '/in.h'): os.unlink(d + '/in.h')
        if c['file']: open(d + '/in.h', 'w').write(source(c, before))
        args = ['--input-file', 'in.h']
        if c['gens'] != ['default']: args += ['--generators'] + c['gens']
        tofile = c['out'] in ('file', 'full', 'unopenable')
        path = {'file': 'out.h', 'full': '/dev/full', 'unopenable': 'missing-directory/out.h'}.get(c['out'])
        if tofile: args += ['--output-file', path]
        if c['vj']: args += ['--json-visibility', c['vj']]
        if c['vb']: args += ['--binary-visibility', c['vb']]
        if c['res']: args += ['--error-resilient']
        if c['log']: args += ['--log-clang-opt']
        if c['opts']: args += ['--clang-opt'] + [';'.join(o) for o in c['opts']]
        stdout, obs = subprocess.PIPE, dict(c)
        if c['out'] == 'stdfull':
            stdout = open('/dev/full', 'wb'); obs['out'] = 'full'
        elif c['out'] == 'stdout': stdout = open(d + '/std.h', 'wb')
        rc, out, err = self.run(args, d, stdout, -1 if capbytes is None else capbytes)
        if capbytes is not None: obs['cap'] = capbytes
        text = ''
        if c['out'] == 'stdout':
            stdout.close(); text = open(d + '/std.h', 'rb').read().decode(errors='replace')
        elif c['out'] == 'stdfull': stdout.close()
        elif c['out'] == 'file' and os.path.exists(d + '/out.h'): text = open(d + '/out.h', 'rb').read().decode(errors='replace')
        err = re.sub(r'\x1b\[[0-9;]*m', '', err.decode(errors='replace'))
        logged = []
        if c['log']:
            for l in err.split('Options passed to clang:')[-1].split('\n')[1:]:
                if not l.startswith('-'): break
                logged.append(l)
        left = sorted(set(os.listdir(d)) - {'in.h', 'stub.h', 'out.h', 'std.h'})
        return {'call': obs, 'exit': -1 if rc < 0 or rc in (134, 139) else min(rc, 1), 'msg': bool(err.strip()), 'code': self.sections(text, c['cls']), 'len': self.complete(c),
                'logged': logged, 'other': bool(tofile and out) or bool(left) or (not tofile and os.path.exists(d + '/out.h'))}
