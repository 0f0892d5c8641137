"""Builds the harness programs from /repo's working tree."""
import os
from common import *
import rrtypes


PAR = [os.path.join(HARNESS, 'par.cpp')]
TSAN = ['-fsanitize=thread', '-fno-omit-frame-pointer']


def emit_part(types, ops):
    o = ['#include "structs.h"', '#include "%s_ops.h"' % ops, 'namespace {', 'const bool registered = [] {']
    for t in types:
        o.append('    vf::registry()["%s"] = &vf::%sOps<%s>::run;' % (t, ops.capitalize(), rrtypes.cpp(t)))
    o += ['    return true;', '}();', '}']
    return '\n'.join(o) + '\n'


def json_harness(types, per_part=None, flags=(), hana=False, par=False, tsan=False):
    """executable which runs JSON cases for the specified types (type expressions)"""
    types = sorted(set(types))
    hs = rrtypes.emit_structs(False, hana)
    key = 'jh-' + sha(open(__file__).read(), lib_hash(), tree_hash(HARNESS), tree_hash(os.path.join(REPO, 'generator')), hs, types, flags, par, tsan)

    san = TSAN if tsan else SAN

    def build(d):
        if not hana: generator()
        open(os.path.join(d, 'structs.h'), 'w').write(hs)
        per = per_part or max(4, (len(types) + JOBS - 2) // (JOBS - 1))
        srcs = []
        # spread the types so that similar (expensive) ones do not end up in the same part
        n = max(1, (len(types) + per - 1) // per)
        for i in range(n):
            p = os.path.join(d, 'part%d.cpp' % i)
            open(p, 'w').write(emit_part(types[i::n], 'json'))
            srcs.append(p)
        refl = os.path.join(d, 'refl.cpp')
        fl = BASE_FLAGS + san + ['-O0', '-I' + d] + includes() + list(flags)

        def one(src):
            if src == refl:
                if hana: open(os.path.join(d, 'refl.h'), 'w').close()
                else: run_generator(os.path.join(d, 'structs.h'), os.path.join(d, 'refl.h'), ('json',), ['-I' + d])
                open(refl, 'w').write('#include "structs.h"\n#include "refl.h"\n')
            return compile_objects([src], d, fl, 'code using the reflection of the harness types')[0]
        objs = parallel(one, [refl, os.path.join(HARNESS, 'main.cpp')] + PAR * par + srcs)
        r = run(['g++'] + san + objs + ['-o', os.path.join(d, 'h'), '-lmartchus-c++utilities'])
        if r.returncode: raise BuildFailure('harness does not link:\n' + r.stdout.decode(errors='replace')[-4000:])
        for ob in objs: os.unlink(ob)
    return os.path.join(cached(key, build), 'h')


def bin_harness(types, flags=(), hana=False, par=False, tsan=False):
    """executable which runs binary cases for the specified types"""
    types = sorted(set(types))
    hs = rrtypes.emit_structs(True, hana)
    key = 'bh-' + sha(open(__file__).read(), lib_hash(), tree_hash(HARNESS), tree_hash(os.path.join(REPO, 'generator')), hs, types, flags, par, tsan)

    san = TSAN if tsan else SAN

    def build(d):
        generator()
        open(os.path.join(d, 'structs.h'), 'w').write(hs)
        per = max(4, (len(types) + JOBS - 2) // (JOBS - 1))
        n = max(1, (len(types) + per - 1) // per)
        srcs = []
        for i in range(n):
            p = os.path.join(d, 'part%d.cpp' % i)
            open(p, 'w').write(emit_part(types[i::n], 'bin'))
            srcs.append(p)
        refl = os.path.join(d, 'refl.cpp')
        # c++utilities shifts negative numbers
        fl = BASE_FLAGS + san + (['-fno-sanitize=shift'] if not tsan else []) + ['-O0', '-I' + d]  + includes() + list(flags)

        def one(src):
            if src == refl:
                open(os.path.join(d, 'gen.h'), 'w').write(rrtypes.emit_structs(True, only=lambda st: st.get('gen')) if hana else hs)
                run_generator(os.path.join(d, 'gen.h'), os.path.join(d, 'refl.h'), ('binary',), ['-I' + d])
                open(refl, 'w').write('#include "structs.h"\n#include "refl.h"\n')
            return compile_objects([src], d, fl, 'code using the reflection of the harness types')[0]
        objs = parallel(one, [refl, os.path.join(HARNESS, 'main.cpp'), os.path.join(HARNESS, 'bin_new.cpp'), os.path.join(HARNESS, 'bin_seq.cpp')][:None if not hana else 3] + PAR * par + srcs)
        r = run(['g++'] + san + objs + ['-o', os.path.join(d, 'h'), '-lmartchus-c++utilities'])
        if r.returncode: raise BuildFailure('harness does not link:\n' + r.stdout.decode(errors='replace')[-4000:])
        for ob in objs: os.unlink(ob)
    return os.path.join(cached(key, build), 'h')
