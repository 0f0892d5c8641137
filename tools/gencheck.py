"""Translation units: C++ code for units described as in spec/Generator.tla, and observation of the code generated for them."""
import json, os, random, re
from common import *

PEEK = '''#pragma once
#include <reflective_rapidjson/json/serializable.h>
#include <reflective_rapidjson/binary/serializable.h>
#include <cstdint>
#include <type_traits>
struct Peek;
namespace Other {
template <typename T> struct JsonSerializable { };
template <typename T> struct BinarySerializable { };
template <typename T> struct AdaptedJsonSerializable;
template <typename T> void push(const T &);
template <typename T> void pull(T &);
template <typename T> void writeCustomType(const T &);
template <typename T> void readCustomType(T &);
}
namespace RR = ReflectiveRapidJSON;
typedef int Int_;
using ConstInt_ = const std::int32_t;
template <typename T> using volatile_ = T;
#define MAKE_STRUCT(...) __VA_ARGS__
#define MAKE_RECORD(name, ...) struct name __VA_ARGS__
'''
FRIENDS = {
    'push': 'friend void ::ReflectiveRapidJSON::JsonReflector::push<%(n)s>(const %(n)s &reflectable, ::RAPIDJSON_NAMESPACE::Value::Object &value, ::RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);',
    'pull': 'friend void ::ReflectiveRapidJSON::JsonReflector::pull<%(n)s>(%(n)s & reflectable, const ::RAPIDJSON_NAMESPACE::GenericValue<::RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value, ::ReflectiveRapidJSON::JsonDeserializationErrors *errors);',
    'write': 'friend void ::ReflectiveRapidJSON::BinaryReflector::writeCustomType<%(n)s>(::ReflectiveRapidJSON::BinaryReflector::BinarySerializer &, const %(n)s &, ::ReflectiveRapidJSON::BinaryVersion);',
    'read': 'friend ::ReflectiveRapidJSON::BinaryVersion ReflectiveRapidJSON::BinaryReflector::readCustomType<%(n)s>(::ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer &, %(n)s &, ::ReflectiveRapidJSON::BinaryVersion);',
}
FORMATS = ('json', 'binary')


def ancestors(tu, k):
    out = set()
    for b in tu[k - 1]['bases']: out |= {b} | ancestors(tu, b)
    return out


class Unit:
    """C++ code for a translation unit; noise: random number generator for variations which must not matter"""
    def __init__(self, tu, noise, first):
        self.tu, self.rng, self.first = tu, noise and random.Random(noise.randrange(1 << 30)), first
        self.text = {}
        self.value = {}     # member -> initial value
        for k, r in enumerate(tu):
            for m in r['members']: self.value[(k, m['n'])] = first + len(self.value)

    def chance(self, p): return self.rng is not None and self.rng.random() < p

    def cls(self, k):
        r, name = self.tu[k], self.tu[k]['q'].split('::')[-1]
        rng, o = self.rng, []
        bases = ['%s::%s' % ('public ' if 1 else '', self.tu[b - 1]['q']) for b in r['bases']]
        pre = []
        for f in r['ser']:
            t = {'json': 'JsonSerializable', 'binary': 'BinarySerializable'}[f]
            ns = 'RR' if self.chance(.15) else '::ReflectiveRapidJSON'
            if self.chance(.15):
                pre += ['struct %s;' % name, 'using %s_%s = %s::%s<%s>;' % (name, f, ns, t, name)]
                bases.append('public %s_%s' % (name, f))
            else: bases.append('public %s::%s<%s>' % (ns, t, name))
        if self.chance(.15): bases.append('public ::Other::JsonSerializable<%s>' % name)
        if self.chance(.15): bases.append('public ::Other::BinarySerializable<%s>' % name)
        if rng: rng.shuffle(bases)
        # the order of bases has no influence on the order of definition; initialisation is done by name
        kw = 'class' if self.chance(.3) else 'struct'
        if self.chance(.2): pre.insert(0, '%s %s;' % (kw, name))
        o.append('%s %s%s%s {' % (kw, name, ' final' if self.chance(.05) and not any(k + 1 in x['bases'] for x in self.tu) else '', ' : ' + ', '.join(bases) if bases else ''))
        o.append('    friend struct ::Peek;')
        fr = [FRIENDS[f] % {'n': name} for f in r['friends']]
        if self.chance(.3): fr.append('friend void ::Other::%s<%s>(%s%s &);' % (lambda f: (f, name, 'const ' if f in ('push', 'writeCustomType') else '', name))(rng.choice(['push', 'pull', 'writeCustomType', 'readCustomType'])))
        if rng: rng.shuffle(fr)
        o += ['    ' + f for f in fr]
        o.append('public:')
        inner = [j for j, x in enumerate(self.tu) if x.get('nest') == k + 1]
        for j in inner: o += self.cls(j)
        if self.chance(.2): o.append('    enum class SomeEnum { A, B };')
        if self.chance(.2): o.append('    static int f() { return 1; }\n    int g() const { return 2; }')
        if self.chance(.1): o.append('    template <typename X> struct Tmpl { int x = 0; };')
        init = ['%s(0)' % ('::' + self.tu[b - 1]['q']) for b in r['bases'] if not self.tu[b - 1]['ctor']]
        init = ' : ' + ', '.join(init) if init else ''
        if not r['ctor']: o.append('    explicit %s(int)%s {}' % (name, init))
        elif init or self.chance(.3): o.append('    %s%s {}' % (name + ('()' if not self.chance(.5) else '(int = 0)'), init))
        elif self.chance(.2): o.append('    %s() = default;' % name)
        prev = None
        for m in r['members']:
            key, init = (m['acc'], m['const'], m['static']), '%s%s' % (m['n'], (' = %d' if not self.chance(.15) else '{ %d }') % self.value[(k, m['n'])])
            if prev == key and self.chance(.3):     # several declarators
                o[-1] = o[-1].rstrip(';') + ', ' + init + ';'
                continue
            prev = key
            o.append('%s:' % m['acc'])
            t = 'std::int32_t'
            if not m['const'] and self.chance(.15): t = rng.choice(['::std::int32_t', 'int', 'signed', 'Int_', 'decltype(0)', 'std::common_type_t<int, short>', 'volatile_<std::int32_t>'])
            if m['const']: t = rng.choice(['const std::int32_t', 'std::int32_t const', 'ConstInt_', 'std::add_const_t<int>']) if rng else 'const std::int32_t'
            pre_ = rng.choice(['[[maybe_unused]] ', 'alignas(4) ', '/* int x; */ ', 'mutable ']) if self.chance(.2) else ''
            if pre_ == 'mutable ' and (m['const'] or m['static']): pre_ = ''
            if pre_.startswith('alignas') and m['static']: pre_ = ''
            o.append('    %s%s%s %s;' % (pre_, 'static inline ' if m['static'] else '', t, init))
        o.append('};')
        if self.chance(.15) and not any('template' in l or '#' in l for l in o):
            o = ['MAKE_STRUCT(%s)' % ' '.join(o)] if kw == 'class' or self.chance(.5) else ['MAKE_RECORD(%s, %s)' % (name, ' '.join(o)[len('struct ') + len(name):])]
        return pre + o

    def code(self, file):
        if file not in self.text: self.text[file] = self.make(file)
        return self.text[file]

    def make(self, file):
        o = []
        for k, r in enumerate(self.tu):
            ns = r['q'].split('::')[:-1]
            name = r['q'].split('::')[-1]
            adapt = ['REFLECTIVE_RAPIDJSON_MAKE_%s_SERIALIZABLE(%s);' % (a['f'].upper(), '::' + r['q'] if 0 else r['q']) for a in r['adapt'] if a['file'] == file]
            if r['file'] == file and not r.get('nest'):
                if ns: o.append('namespace %s {' % '::'.join(ns) if not self.chance(.3) else ' '.join('namespace %s {' % n for n in ns))
                n = len(ns) if o and ns and o[-1].count('{') > 1 else 1
                if adapt and self.chance(.3) and r['complete']:   # adapted before being defined
                    o += ['struct %s;' % name] + (['}' * n] if ns else []) + adapt + (['namespace %s {' % '::'.join(ns)] if ns else [])
                    adapt, n = [], 1
                link = r.get('link') or self.chance(.1) and not any(x.get('nest') == k + 1 for x in self.tu)      # linkage specification (nested classes: known finding)
                if link: o.append('extern "C++" {')
                o += self.cls(k) if r['complete'] else ['struct %s;' % name]
                if link: o.append('}')
                if r['complete'] and self.chance(.1): o.append('struct %s;' % name)
                if ns: o.append('}' * n)
            if not (r['file'] == file and r.get('nest')): o += adapt
            else: self.late = adapt; self.latefor = r['nest']
            # adaptions of nested classes follow the outermost class
        for k, r in enumerate(self.tu):
            if r.get('nest') and r['file'] == file:
                o += ['REFLECTIVE_RAPIDJSON_MAKE_%s_SERIALIZABLE(%s);' % (a['f'].upper(), r['q']) for a in r['adapt'] if a['file'] == file]
        return o

    def peek(self):
        o = []
        for k, r in enumerate(self.tu):
            if not r['complete']: continue
            o.append('    template <typename F> static void visit(::%s &r, F f) { (void)r; (void)f;' % r['q'])
            for b in r['bases']: o.append('        visit(static_cast<::%s &>(r), f);' % self.tu[b - 1]['q'])
            for m in r['members']:
                o.append('        f("%s", %s, %d);' % (m['n'], 'r.' + m['n'], self.value[(k, m['n'])]))
            o.append('    }')
        return o


OBS = r'''
#include "main.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
using namespace ReflectiveRapidJSON;
template <typename T> T make() { if constexpr (std::is_default_constructible_v<T>) return T(); else return T(0); }
struct Peek {
%(peek)s
};
%(decl)s
static std::ofstream out;
static void list(const std::vector<std::string> &l) { out << '['; for (std::size_t i = 0; i != l.size(); ++i) out << (i ? "," : "") << '"' << l[i] << '"'; out << ']'; }
template <typename T> struct Names { std::map<int, std::string> byValue; std::map<std::string, int> byName; Names() { auto r = make<T>(); Peek::visit(r, [this](const char *n, const int &, int v) { byValue[v] = n; byName[n] = v; }); } };
template <typename T> void jsonOut() {
    Names<T> n; auto r = make<T>(); RAPIDJSON_NAMESPACE::Document d(RAPIDJSON_NAMESPACE::kObjectType); auto o = d.GetObject();
    JsonReflector::push<T>(r, o, d.GetAllocator());
    std::vector<std::string> l;
    for (auto &m : d.GetObject()) { std::string s(m.name.GetString(), m.name.GetStringLength()); auto i = n.byName.find(s); l.push_back(i != n.byName.end() && m.value.IsInt() && m.value.GetInt() == i->second ? s : "?" + s); }
    list(l);
}
template <typename T> void jsonIn() {
    Names<T> n; auto r = make<T>(); RAPIDJSON_NAMESPACE::Document d(RAPIDJSON_NAMESPACE::kObjectType);
    for (auto &m : n.byName) d.AddMember(RAPIDJSON_NAMESPACE::StringRef(m.first.data(), m.first.size()), m.second + 1000000, d.GetAllocator());
    JsonDeserializationErrors e;
    JsonReflector::pull<T>(r, const_cast<const RAPIDJSON_NAMESPACE::Document &>(d).GetObject(), &e);
    std::vector<std::string> l;
    Peek::visit(r, [&l](const char *name, const int &v, int i) { if (v != i) l.push_back(v == i + 1000000 ? name : std::string("?") + name); });
    if (!e.empty()) l.push_back("?errors");
    list(l);
}
template <typename T> void binOut() {
    Names<T> n; auto r = make<T>(); std::ostringstream s(std::ios::out | std::ios::binary); s.exceptions(std::ios::badbit | std::ios::failbit);
    BinaryReflector::BinarySerializer ser(&s);
    BinaryReflector::writeCustomType<T>(ser, r, 0);
    std::vector<std::string> l; const auto b = s.str();
    for (std::size_t i = 0; i + 4 <= b.size(); i += 4) { int v = 0; for (int k = 0; k != 4; ++k) v = (v << 8) | (unsigned char)b[i + k]; auto it = n.byValue.find(v); l.push_back(it != n.byValue.end() ? it->second : "?"); }
    if (b.size() %% 4) l.push_back("?size");
    list(l);
}
template <typename T> void binIn() {
    auto r = make<T>(); std::string b; for (int i = 0; i != 100; ++i) { const int v = 2000000 + i; for (int k = 3; k >= 0; --k) b += (char)(v >> (8 * k)); }
    std::istringstream s(b, std::ios::in | std::ios::binary); s.exceptions(std::ios::badbit | std::ios::failbit);
    BinaryReflector::BinaryDeserializer des(&s);
    BinaryReflector::readCustomType<T>(des, r, 0);
    std::map<int, std::string> got; std::vector<std::string> l;
    Peek::visit(r, [&](const char *name, const int &v, int i) { if (v != i) got[v] = name; });
    for (auto &g : got) l.push_back(g.second);
    if (static_cast<std::size_t>(s.tellg()) != got.size() * 4 || (!got.empty() && got.rbegin()->first != 2000000 + (int)got.size() - 1)) l.push_back("?consumed");
    list(l);
}
int main(int, char **argv) {
    out.open(argv[1]);
%(calls)s
    return 0;
}
'''
FN = {('json', 'out'): 'jsonOut', ('json', 'in'): 'jsonIn', ('binary', 'out'): 'binOut', ('binary', 'in'): 'binIn'}
DECL = {('json', 'out'): 'namespace JsonReflector { template <> void push<::%s>(const ::%s &, ::RAPIDJSON_NAMESPACE::Value::Object &, ::RAPIDJSON_NAMESPACE::Document::AllocatorType &); }',
        ('json', 'in'): 'namespace JsonReflector { template <> void pull<::%s>(::%s &, const ::RAPIDJSON_NAMESPACE::GenericValue<::RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &, JsonDeserializationErrors *); }',
        ('binary', 'out'): 'namespace BinaryReflector { template <> void writeCustomType<::%s>(BinarySerializer &, const ::%s &, BinaryVersion); }',
        ('binary', 'in'): 'namespace BinaryReflector { template <> BinaryVersion readCustomType<::%s>(BinaryDeserializer &, ::%s &, BinaryVersion); }'}
SYM = {('json', 'out'): 'JsonReflector::push', ('json', 'in'): 'JsonReflector::pull', ('binary', 'out'): 'BinaryReflector::writeCustomType', ('binary', 'in'): 'BinaryReflector::readCustomType'}


def defined_symbols(obj):
    """(format, direction) -> names of the classes the functions are defined for"""
    r = run(['nm', '-C', '--defined-only', obj])
    out = {k: set() for k in SYM}
    for l in r.stdout.decode(errors='replace').split('\n'):
        m = re.match(r'^[0-9a-f]+ T (.*)$', l)
        if not m: continue
        for k, s in SYM.items():
            m2 = re.match(r'(?:.* )?ReflectiveRapidJSON::%s<(?:::)?([\w:]+)' % s, m.group(1))
            if m2: out[k].add(m2.group(1))
    return out


def flags(d): return BASE_FLAGS + ['-O0', '-I' + d] + includes()


def valid(unit, d):
    """is the unit accepted by the compiler (without using the code generator)?"""
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'peek.h'), 'w').write(PEEK)
    for n, inc in (('inc', 'peek.h'), ('main', 'inc.h')):
        open(os.path.join(d, n + '.h'), 'w').write('\n'.join(['#pragma once', '#include "%s"' % inc] + unit.code(n)) + '\n')
    return run(['clang++', '-fsyntax-only', '-x', 'c++', '-w'] + flags(d) + [os.path.join(d, 'main.h')]).returncode == 0


def observe_batch(units, d, rng=None, members=True):
    """units: list of Unit; returns for each unit the observations per class"""
    os.makedirs(d, exist_ok=True)
    W = lambda n, s: open(os.path.join(d, n), 'w').write(s)
    W('peek.h', PEEK)
    W('inc.h', '\n'.join(['#pragma once', '#include "peek.h"'] + [l for u in units for l in u.code('inc')]) + '\n')
    W('main.h', '\n'.join(['#pragma once', '#include "inc.h"'] + [l for u in units for l in u.code('main')]) + '\n')
    args = []
    for f in FORMATS:
        names = [r['q'] for u in units for r in u.tu if f in r['listed']]
        if rng: rng.shuffle(names)
        if names: args += ['--%s-classes' % f] + names
    gens = list(FORMATS)
    if rng: rng.shuffle(gens)
    try: run_generator(os.path.join(d, 'main.h'), os.path.join(d, 'gen.h'), gens, ['-I' + d], args)
    except BuildFailure:
        # the units must be valid C++ for the result to mean anything
        ok = [valid(u, os.path.join(d, 'valid')) for u in units]
        if all(ok) or not any(ok): raise
        obs, unknown = observe_batch([u for u, k in zip(units, ok) if k], d, rng, members)
        it = iter(obs)
        return [next(it) if k else None for k in ok], unknown
    W('gen.cpp', '#include "main.h"\n#include "gen.h"\n')
    o = compile_objects([os.path.join(d, 'gen.cpp')], d, flags(d), 'generated code')[0]
    syms = defined_symbols(o)
    obs = [[{f: {dr: {'defined': r['q'] in syms[(f, dr)], 'seq': []} for dr in ('out', 'in')} for f in FORMATS} for r in u.tu] for u in units]
    unknown = {k: v - {r['q'] for u in units for r in u.tu} for k, v in syms.items()}
    if members:
        decl, calls = [], []
        for i, u in enumerate(units):
            for k, r in enumerate(u.tu):
                for f in FORMATS:
                    for dr in ('out', 'in'):
                        if obs[i][k][f][dr]['defined'] and r['complete']:
                            decl.append(DECL[(f, dr)] % (r['q'], r['q']))
                            calls.append('    out << "[%d,%d,\\"%s\\",\\"%s\\","; %s<::%s>(); out << "]\\n";' % (i, k, f, dr, FN[(f, dr)], r['q']))
        # only what is needed
        W('obs.cpp', OBS % {'peek': '\n'.join(l for u in units for l in u.peek()), 'decl': 'namespace ReflectiveRapidJSON {\n' + '\n'.join(decl) + '\n}', 'calls': '\n'.join(calls)})
        ob = compile_objects([os.path.join(d, 'obs.cpp')], d, flags(d), 'code using generated code')[0]
        r = run(['g++', o, ob, '-o', os.path.join(d, 'obs'), '-lmartchus-c++utilities'])
        if r.returncode: raise BuildFailure('code using generated code does not link:\n' + r.stdout.decode(errors='replace')[-4000:])
        r = run([os.path.join(d, 'obs'), os.path.join(d, 'obs.out')], timeout=120)
        if r.returncode: raise BuildFailure('generated code does not run:\n' + r.stdout.decode(errors='replace')[-2000:])
        for l in open(os.path.join(d, 'obs.out')):
            i, k, f, dr, seq = json.loads(l)
            obs[i][k][f][dr]['seq'] = seq
    for fn in os.listdir(d):
        if fn.endswith('.o') or fn == 'obs': os.unlink(os.path.join(d, fn))
    return obs, unknown


def spec_tu(tu):
    return [{k: r[k] for k in ('q', 'file', 'complete', 'bases', 'ser', 'adapt', 'listed', 'friends', 'ctor', 'members')} for r in tu]


def for_both(tu, i):
    """unit enumerated by TLC (one format) for both formats"""
    out = []
    for r in tu:
        r = json.loads(json.dumps(r))
        r['q'] = 'T%d::%s' % (i, r['q'])
        if r['ser']: r['ser'] = list(FORMATS)
        if r['listed']: r['listed'] = list(FORMATS)
        r['adapt'] = [{'f': f, 'file': a['file']} for a in r['adapt'] for f in FORMATS]
        r['friends'] = [g for f in r['friends'] for g in {'push': ('push', 'write'), 'pull': ('pull', 'read')}[f]]
        out.append(r)
    return out


def relevant(tu, f, k):
    r = tu[k - 1]
    return r['complete'] and ({'f': f, 'file': 'main'} in r['adapt'] or (r['file'] == 'main' and (f in r['ser'] or f in r['listed'])))


def random_tu(rng, i):
    """random unit; names of classes may be equal within different namespaces"""
    n = rng.randrange(2, 9)
    ninc = rng.choice([0, 0, 1, 2, 3]); tu = []
    used = set()
    for k in range(n):
        inc = k < min(ninc, n - 1)
        complete = rng.random() < .92
        for _ in range(50):
            # names are unique in terms of the unit; in terms of a unit, they might be equal (within different namespaces) or prefix/suffix of each other
            q = rng.choice(['', '', 'a::', 'b::', 'a::b::', 'b::a::', 'json::', 'T%d::' % i]) + rng.choice(['A', 'B', 'XA', 'BA', 'Rec', 'Node', 'X%d' % k]) + 'u%d' % i + rng.choice(['', '', '', '_', 'A'])
            if q not in used and not any(u.startswith(q + '::') or q.startswith(u + '::') for u in used): break
        else: q = 'T%d::U%du%d' % (i, k, i)
        nest = 0
        if complete and k and rng.random() < .15:
            c = [j for j in range(k) if tu[j]['complete'] and (tu[j]['file'] == 'inc') == inc and not tu[j]['nest']]
            if c:
                nest = rng.choice(c) + 1
                q = tu[nest - 1]['q'] + '::N%d' % k
        used.add(q)
        r = dict(q=q, file='inc' if inc else 'main', complete=complete, bases=[], ser=[], adapt=[], listed=[], friends=[], ctor=True, members=[], nest=nest)
        tu.append(r)
        for f in FORMATS:
            x = rng.random()
            if x < .45 and complete: r['ser'].append(f)
            elif x < .6: r['adapt'].append({'f': f, 'file': 'main' if not inc or rng.random() < .6 else 'inc'})
            elif x < .75: r['listed'].append(f)
            if rng.random() < .1 and f not in r['listed']: r['listed'].append(f)
        if not complete: continue
        if rng.random() < .6:
            cand = list(range(1, (nest or k + 1)))   # nested classes are defined before the outer one is complete
            rng.shuffle(cand)
            for b in cand[:rng.choice([1, 1, 1, 2, 3])]:
                if not tu[b - 1]['complete'] or tu[b - 1]['nest'] and nest and tu[b - 1]['nest'] == nest and False: continue
                if tu[b - 1]['nest'] and any(tu[b - 1]['nest'] == x for x in r['bases']): continue
                have = set(r['bases']) | {a for x in r['bases'] for a in ancestors(tu, x)}
                mine = {b} | ancestors(tu, b)
                if have & mine: continue
                r['bases'].append(b)
            r['bases'].sort()
        # bases from other files whose code comes from elsewhere: known finding
        bad = lambda j: tu[j - 1]['file'] == 'inc' and not inc and any((f in tu[j - 1]['ser'] or {'f': f, 'file': 'inc'} in tu[j - 1]['adapt']) and not relevant(tu, f, j) for f in FORMATS)
        r['bases'] = [b for b in r['bases'] if not any(bad(j) for j in {b} | ancestors(tu, b))]
        for m in range(rng.choice([0, 1, 2, 2, 3, 5])):
            r['members'].append({'n': 'm%d_%d' % (k, m), 'acc': rng.choice(['public', 'public', 'public', 'protected', 'private']), 'const': rng.random() < .15, 'static': rng.random() < .12})
        for g in ('push', 'pull', 'write', 'read'):
            if rng.random() < .3: r['friends'].append(g)
        r['ctor'] = rng.random() < .85
        if r['ctor'] and any(not tu[a - 1]['ctor'] and any(relevant(tu, f, a) for f in FORMATS) for a in ancestors(tu, k + 1)): r['ctor'] = False
    # a class which is nested within another one can only be used as base of later classes; the order of definition is the one of the beginnings
    order, pos = [], {}
    for k in range(n):
        if not tu[k]['nest']:
            order.append(k)
            order += [j for j in range(n) if tu[j]['nest'] == k + 1]
    pos = {k + 1: p + 1 for p, k in enumerate(order)}
    out = []
    for k in order:
        r = dict(tu[k]); r['bases'] = sorted(pos[b] for b in r['bases']); r['nest'] = pos[r['nest']] if r['nest'] else 0
        out.append(r)
    # the beginning of a class precedes everything it derives from within the sequence
    for p, r in enumerate(out):
        if any(b > p for b in r['bases']): return random_tu(rng, i)
    return out
