"""Catalogue of C++ types: one table from which the C++ code of the harness (declarations fed through the real code
generator, reflection used by the harness itself) and the type descriptors used by the TLA+ specification are made."""
import json, random, re

ENUMS = {  # name -> (underlying C++ type, width, signed)
    'EnS32': ('std::int32_t', 32, True), 'EnU8': ('std::uint8_t', 8, False), 'EnS8': ('std::int8_t', 8, True),
    'EnU64': ('std::uint64_t', 64, False), 'EnS64': ('std::int64_t', 64, True), 'EnPlain': (None, 32, False), 'EnS16': ('std::int16_t', 16, True),
}
INTS = {'i8': ('std::int8_t', 8, True), 'u8': ('std::uint8_t', 8, False), 'i16': ('std::int16_t', 16, True), 'u16': ('std::uint16_t', 16, False),
        'i32': ('std::int32_t', 32, True), 'u32': ('std::uint32_t', 32, False), 'i64': ('std::int64_t', 64, True), 'u64': ('std::uint64_t', 64, False),
        'char': ('char', 8, True)}
CUSTOM = {  # treated-as containers: name -> (base, kind, CustomKind, macro)
    'CMap': ('std::map<std::string, std::int32_t>', 'map<i32>', 1, 'MAP_OR_HASH'),
    'CMulti': ('std::multimap<std::string, std::int32_t>', 'mmap<i32>', 2, 'MULTI_MAP_OR_HASH'),
    'CSet': ('std::set<std::int32_t>', 'set<i32>', 3, 'SET'),
    'CMSet': ('std::multiset<std::string>', 'mset<str>', 4, 'MULTI_SET'),
    'CUMap': ('std::unordered_map<std::string, std::string>', 'umap<str>', 1, 'MAP_OR_HASH'),
}
SEQ = {'vec': 'std::vector', 'list': 'std::list', 'deque': 'std::deque',
       'arr0': 'vf::Arr0', 'arr3': 'vf::Arr3', 'flist': 'std::forward_list'}   # only supported when serializing (like vec<bool>)
SETS = {'set': ('std::set', False, True), 'uset': ('std::unordered_set', False, False), 'mset': ('std::multiset', True, True), 'umset': ('std::unordered_multiset', True, False)}
MAPS = {'map': ('std::map', False, True), 'umap': ('std::unordered_map', False, False), 'mmap': ('std::multimap', True, True), 'ummap': ('std::unordered_multimap', True, False)}
KMAPS = {'kmap': ('std::map', False, True), 'kumap': ('std::unordered_map', False, False), 'kmmap': ('std::multimap', True, True), 'kummap': ('std::unordered_multimap', True, False)}
PTR = {'opt': 'std::optional', 'uptr': 'std::unique_ptr', 'sptr': 'std::shared_ptr'}


def split_args(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c == '<': depth += 1
        if c == '>': depth -= 1
        if c == ',' and depth == 0:
            out.append(cur); cur = ''
        else:
            cur += c
    if cur: out.append(cur)
    return [x.strip() for x in out]


def parse(expr):
    """type expression -> descriptor (also the one seen by TLA+)"""
    expr = expr.strip()
    m = re.match(r'^(\w+)(?:<(.*)>)?$', expr)
    if not m: raise ValueError(expr)
    name, args = m.group(1), split_args(m.group(2)) if m.group(2) else []
    if name == 'bool': return {'k': 'bool', 'x': expr}
    if name in INTS: return {'k': 'int', 'w': INTS[name][1], 's': INTS[name][2], 'x': expr}
    if name in ('f32', 'f64'): return {'k': 'flt', 'w': int(name[1:]), 'x': expr}
    if name in ENUMS: return {'k': 'enum', 'w': ENUMS[name][1], 's': ENUMS[name][2], 'x': expr}
    if name == 'str': return {'k': 'str', 'x': expr}
    if name in ('cstr', 'sv'): return {'k': 'view', 'x': expr}
    if name == 'probe': return {'k': 'probe', 'x': expr}
    if name in ('dt', 'ts'): return {'k': name, 'x': expr}
    if name == 'mono': return {'k': 'mono', 'x': expr}
    if name in SEQ: return {'k': 'seq', 'of': parse(args[0]), 'x': expr}
    if name in SETS: return {'k': 'set', 'multi': SETS[name][1], 'ord': SETS[name][2], 'of': parse(args[0]), 'x': expr}
    if name in MAPS: return {'k': 'map', 'multi': MAPS[name][1], 'ord': MAPS[name][2], 'of': parse(args[0]), 'x': expr}
    if name in KMAPS:   # keys which are strings are stated as bytes
        return dict({'k': 'map', 'multi': KMAPS[name][1], 'ord': KMAPS[name][2], 'of': parse(args[1]), 'x': expr}, **({} if args[0] == 'str' else {'key': parse(args[0])}))
    if name in ('pair', 'tup'): return {'k': 'tup', 'of': [parse(a) for a in args], 'x': expr}
    if name in PTR: return {'k': 'opt', 'p': name, 'of': parse(args[0]), 'x': expr}
    if name == 'var': return {'k': 'var', 'of': [parse(a) for a in args], 'x': expr}
    if name in CUSTOM:
        d = parse(CUSTOM[name][1]); d['x'] = expr; return d
    if name in STRUCTS: return {'k': 'rec', 'n': name, 'x': expr}
    raise ValueError(expr)


def cpp(expr):
    expr = expr.strip()
    m = re.match(r'^(\w+)(?:<(.*)>)?$', expr)
    name, args = m.group(1), split_args(m.group(2)) if m.group(2) else []
    if name in INTS: return INTS[name][0]
    if name in SEQ: return '%s<%s>' % (SEQ[name], cpp(args[0]))
    if name in SETS: return '%s<%s>' % (SETS[name][0], cpp(args[0]))
    if name in MAPS: return '%s<std::string, %s>' % (MAPS[name][0], cpp(args[0]))
    if name in KMAPS: return '%s<%s, %s>' % (KMAPS[name][0], cpp(args[0]), cpp(args[1]))
    if name in PTR: return '%s<%s>' % (PTR[name], cpp(args[0]))
    if name in ('pair', 'tup', 'var'):
        return 'std::%s<%s>' % ({'pair': 'pair', 'tup': 'tuple', 'var': 'variant'}[name], ', '.join(cpp(a) for a in args))
    simple = {'bool': 'bool', 'f32': 'float', 'f64': 'double', 'str': 'std::string', 'cstr': 'const char *', 'sv': 'std::string_view', 'probe': 'vf::Probe',
              'dt': 'CppUtilities::DateTime', 'ts': 'CppUtilities::TimeSpan', 'mono': 'std::monostate'}
    if name in simple: return simple[name]
    if name in STRUCTS: return STRUCTS[name].get('q', name)
    return name


# ---- structs -----------------------------------------------------------------------------------------------------------
# fields: (name, type, {opts}); opts: init (C++ initialiser), dv (abstract default value if not the usual one), priv, const
def F(name, t, **kw):
    return dict(name=name, t=t, **kw)


STRUCTS = {}


def S(_name, fields, bases=(), **kw):
    STRUCTS[_name] = dict(name=_name, fields=fields, bases=list(bases), **kw)


S('Leaf', [F('i', 'i32'), F('s', 'str'), F('b', 'bool'), F('d', 'f64')])
S('Other', [F('u', 'u64'), F('f', 'f32'), F('e', 'EnS32')])
S('Empty', [])
S('Nums', [F('a', 'i8'), F('b', 'u8'), F('c', 'i32'), F('d', 'u32'), F('e', 'i64'), F('f', 'u64'), F('g', 'f32'), F('h', 'f64'), F('en', 'EnU8'), F('es', 'EnS64')])
S('Enums', [F('a', 'EnS32'), F('b', 'EnU8'), F('c', 'EnS8'), F('d', 'EnU64'), F('e', 'EnS64'), F('f', 'EnS16'), F('v', 'vec<EnU64>'), F('m', 'map<EnS8>'), F('o', 'opt<EnS64>')])
S('Nest', [F('name', 'str'), F('leaf', 'Leaf'), F('leaves', 'vec<Leaf>'), F('leafMap', 'map<Leaf>'), F('optLeaf', 'opt<Leaf>'), F('after', 'i32')])
S('Inh', [F('own', 'str'), F('more', 'vec<i32>')], bases=['Leaf'])
S('Inh2', [F('deep', 'u32')], bases=['Inh'])
S('MultiInh', [F('z', 'bool')], bases=['Leaf', 'Other'])
S('Deflt', [F('m', 'map<i32>', init='{ { "a", 1 }, { "z", 26 } }'), F('v', 'vec<i32>', init='{ 1, 2, 3 }'), F('st', 'set<i32>', init='{ 7, 8 }'),
            F('mm', 'mmap<i32>', init='{ { "a", 1 }, { "a", 2 } }'), F('ms', 'mset<i32>', init='{ 5, 5 }'), F('um', 'umap<i32>', init='{ { "q", 4 } }'),
            F('us', 'uset<i32>', init='{ 9 }'), F('ups', 'ummap<i32>', init='{ { "w", 4 } }'),
            F('o', 'opt<i32>', init='42'), F('s', 'str', init='"default"'), F('n', 'i32', init='-5'), F('p', 'pair<i32,str>', init='{ 3, "three" }'),
            F('var', 'var<i32,str>', init='std::string("alt")')])
S('Priv', [F('pub', 'i32'), F('hid', 'str', priv=True), F('hidv', 'vec<i32>', priv=True)], friend=True)
S('PrivNo', [F('pub', 'i32'), F('hid', 'str', priv=True, init='"hidden"')])
S('ConstM', [F('a', 'i32'), F('c', 'i32', const=True, init='77'), F('z', 'str')])
S('Ptrs', [F('up', 'uptr<Leaf>'), F('sp', 'sptr<str>'), F('oi', 'opt<i32>'), F('ov', 'opt<vec<i32>>'), F('vp', 'vec<uptr<i32>>')])
S('Tree', [F('val', 'i32'), F('kids', 'vec<sptr<Tree>>'), F('left', 'uptr<Tree>')])
S('Tups', [F('t', 'tup<i32,str,bool>'), F('p', 'pair<str,f64>'), F('vt', 'vec<tup<i32,Leaf>>'), F('tt', 'tup<tup<i32>,vec<i32>>')])
S('Vars', [F('v', 'var<mono,i32,str,Leaf,vec<i32>>'), F('vv', 'vec<var<i32,str>>'), F('w', 'i32')])
S('Conts', [F('l', 'list<str>'), F('dq', 'deque<i32>'), F('st', 'set<str>'), F('us', 'uset<i32>'), F('ms', 'mset<i32>'), F('ums', 'umset<str>'), F('um', 'umap<str>'),
            F('mm', 'mmap<str>'), F('umm', 'ummap<i32>'), F('vv', 'vec<vec<i32>>'), F('vs', 'vec<set<i32>>'), F('sv', 'set<vec<i32>>'), F('mv', 'mmap<vec<i32>>')])
S('Third', [F('x', 'i32'), F('y', 'str')], adapted=True)
S('HasThird', [F('t', 'Third'), F('ts', 'vec<Third>')])
S('Spaced', [F('k', 'str'), F('v', 'Leaf')], q='Space::Inner::Spaced', ns='Space::Inner')
S('Custom', [F('cm', 'CMap'), F('cmm', 'CMulti'), F('cs', 'CSet'), F('cms', 'CMSet'), F('cum', 'CUMap'), F('t', 'i32')])
S('PLeaf', [F('p', 'probe'), F('i', 'i32'), F('q', 'probe')], json_only=True)
S('PBase', [F('b1', 'probe'), F('bs', 'str')], json_only=True)
S('PNest', [F('p0', 'probe'), F('vp', 'vec<probe>'), F('p1', 'probe'), F('leaf', 'PLeaf'), F('p2', 'probe'), F('vl', 'vec<PLeaf>'), F('p3', 'probe'),
            F('vvp', 'vec<vec<probe>>'), F('p4', 'probe'), F('t', 'tup<probe,PLeaf,vec<probe>>'), F('m', 'map<PLeaf>'), F('o', 'opt<PLeaf>'), F('v', 'var<probe,PLeaf>'),
            F('sp', 'set<probe>'), F('msp', 'mset<probe>'), F('mmp', 'mmap<probe>'), F('p5', 'probe')], bases=['PBase'], json_only=True)
S('PDeep', [F('n', 'vec<PNest>'), F('e', 'probe')], json_only=True)
S('MIn', [F('p', 'probe'), F('n', 'i8')], json_only=True)
S('MBase', [F('q', 'probe'), F('w', 'i32')], json_only=True)
S('MOut', [F('a', 'probe'), F('l', 'vec<MIn>'), F('b', 'probe'), F('s', 'set<i32>'), F('z', 'probe')], bases=['MBase'], json_only=True)
S('MVar', [F('v', 'var<mono,i32,MIn>'), F('p', 'probe'), F('o', 'opt<vec<i32>>'), F('q', 'probe'), F('t', 'pair<i32,probe>'), F('r', 'probe')], json_only=True)
S('MMap', [F('m', 'map<MIn>'), F('p', 'probe'), F('q', 'i32')], json_only=True)
S('MMul', [F('mm', 'mmap<i8>'), F('q', 'probe'), F('ll', 'vec<vec<probe>>'), F('r', 'probe')], json_only=True)
S('Chrono', [F('d', 'dt'), F('t', 'ts'), F('vd', 'vec<dt>'), F('ot', 'opt<ts>'), F('n', 'i32')])
# ---- only for the binary (de)serializer
S('BNums', [F('a', 'u8'), F('b', 'i16'), F('c', 'u16'), F('d', 'i32'), F('e', 'u32'), F('f', 'i64'), F('g', 'u64'), F('h', 'f32'), F('i', 'f64'), F('j', 'bool'), F('k', 'char'),
            F('l', 'EnS32'), F('m', 'EnU8'), F('n', 'EnU64'), F('o', 'EnS64'), F('q', 'EnS16')], bin_only=True)
S('BEnum', [F('p', 'EnPlain'), F('v', 'vec<EnPlain>')], bin_only=True)
S('BConts', [F('a', 'kmap<i32,str>'), F('b', 'kmmap<u16,vec<i32>>'), F('c', 'kumap<i64,Leaf>'), F('d', 'vec<pair<i32,str>>'), F('e', 'pair<Leaf,opt<i32>>'), F('f', 'vec<opt<i32>>'),
             F('g', 'list<map<vec<str>>>'), F('h', 'map<opt<i32>>'), F('i', 'map<var<i32,str>>'), F('j', 'set<pair<i32,str>>'), F('k', 'deque<set<u8>>'), F('l', 'kummap<str,u8>'), F('m', 'opt<map<Leaf>>')], bin_only=True)
S('BVars', [F('a', 'var<mono,u8,str>'), F('b', 'var<vec<str>,Leaf,opt<i32>,pair<i32,i32>>'), F('c', 'vec<var<mono,i32,f64,bool>>'), F('d', 'opt<var<i32,str>>'), F('e', 'u8')], bin_only=True)
S('Node', [F('val', 'i32'), F('next', 'sptr<Node>'), F('other', 'sptr<Node>')], bin_only=True)
S('Net', [F('nodes', 'vec<sptr<Node>>'), F('l1', 'sptr<Leaf>'), F('l2', 'sptr<Leaf>'), F('named', 'map<sptr<Leaf>>'), F('o', 'opt<sptr<i32>>'), F('v', 'var<mono,sptr<Node>,sptr<str>>'),
            F('p', 'pair<sptr<i32>,sptr<str>>'), F('u', 'uptr<sptr<Node>>'), F('b', 'sptr<vec<sptr<Node>>>'), F('e', 'sptr<Empty>')], bin_only=True)
S('HNode', [F('val', 'i32'), F('next', 'sptr<HNode>')], bin_only=True)
S('VNested', [F('foo', 'u32'), F('bar', 'u32', mark=[('a', 3)])], bin_only=True)
S('VExample', [F('nested', 'VNested'), F('a', 'u32'), F('b', 'u32'), F('c', 'u32', mark=[('u', 2)]), F('d', 'u32'), F('e', 'u32', mark=[('a', 3)]), F('f', 'u32'), F('g', 'u32', mark=[('a', 4)])], ver=3, bin_only=True)
S('VDeep', [F('one', 'VNested'), F('vec', 'vec<VNested>'), F('map', 'map<VNested>'), F('opt', 'opt<VNested>'), F('up', 'uptr<VNested>'), F('sp', 'sptr<VNested>'), F('var', 'var<i32,VNested>'), F('pr', 'pair<VNested,i32>'),
            F('ex', 'VExample'), F('exs', 'vec<VExample>'), F('after', 'vec<VNested>'), F('last', 'u8', mark=[('a', 5)])], ver=5, bin_only=True)
S('VRange', [F('x0', 'u8'), F('x1', 'u8', mark=[('a', 2)]), F('x2', 'u8', mark=[('u', 4)]), F('x3', 'u8', mark=[('a', 5)]), F('x4', 'u8', mark=[('u', 3)]), F('x5', 'u8', mark=[('a', 2), ('u', 2)]), F('x6', 'u8'),
             F('x7', 'u8', mark=[('u', 5), ('a', 4)]), F('x8', 'u8', mark=[('a', 0), ('u', 1)]), F('x9', 'u8', mark=[('a', 3)])], ver=6, bin_only=True)
S('VBase', [F('ba', 'u8'), F('bb', 'u16', mark=[('a', 2)])], ver=2, bin_only=True)
S('VDer', [F('da', 'u8'), F('db', 'u16', mark=[('u', 3)]), F('dc', 'str', mark=[('a', 4)])], bases=['VBase'], ver=4, bin_only=True)
S('VUBase', [F('ua', 'u8'), F('ub', 'u16', mark=[('a', 2)]), F('uc', 'vec<VNested>')], bin_only=True)
S('VUDer', [F('ud', 'u8'), F('ue', 'u16', mark=[('u', 3)])], bases=['VUBase'], bin_only=True)
S('VMix', [F('m', 'u8', mark=[('a', 2)])], bases=['VUBase'], ver=4, bin_only=True)
S('VOuter', [F('d', 'VUDer'), F('ds', 'vec<VDer>'), F('m', 'map<VUDer>'), F('r', 'opt<VRange>'), F('z', 'VNested')], ver=4, bin_only=True)
S('VSpaced', [F('a', 'u8')], ver=7, bin_only=True, q='Space::Inner::VSpaced', ns='Space::Inner')
S('VTwo', [F('ta', 'u8', mark=[('u', 2)]), F('tb', 'u16', mark=[('a', 4)]), F('tc', 'VNested')], bases=['VBase', 'VUBase', 'VSpaced'], bin_only=True)
S('VThree', [F('xa', 'u8', mark=[('a', 3)]), F('xb', 'VTwo')], bases=['VTwo'], ver=6, bin_only=True)
S('VHold', [F('h0', 'VUBase'), F('h1', 'VTwo'), F('h2', 'VThree'), F('h3', 'opt<VTwo>'), F('h4', 'vec<VBase>'), F('h5', 'VUBase', mark=[('a', 2)])], ver=5, bin_only=True)
S('HvA', [F('a', 'u8'), F('b', 'u16', mark=[('a', 2)]), F('c', 'u8', mark=[('u', 3)])], bin_only=True, gen=True)   # generated code also when using Boost.Hana for the other ones
S('HvB', [F('x', 'u8'), F('n', 'HvA'), F('y', 'u16', mark=[('a', 3)]), F('z', 'vec<HvA>', mark=[('u', 5)])], ver=4, bin_only=True, gen=True)
S('HvOut', [F('first', 'HvA'), F('k', 'u8'), F('all', 'vec<HvA>'), F('maybe', 'opt<HvB>'), F('named', 'map<HvA>'), F('b', 'HvB'), F('last', 'HvA')], bin_only=True)
S('HvDeep', [F('o', 'HvOut'), F('os', 'list<HvOut>'), F('p', 'uptr<HvA>'), F('s', 'sptr<HvOut>'), F('v', 'var<mono,HvA,HvOut>')], bin_only=True)
_r = random.Random(7)   # records with arbitrary sequences of markers
for _k in range(6):
    S('VGen%d' % _k, [F('g%d' % i, _r.choice(['u8', 'u16', 'u32']), mark=[(_r.choice('au'), _r.randrange(0, 6)) for _ in range(_r.choice([0, 1, 1, 1, 2]))]) for i in range(16)], bin_only=True, **({'ver': _k + 1} if _k % 3 else {}))
# records whose members visit every sequence of three markers (or none) with versions 0 to 3; other declarations in between do not matter
def _walk(symbols, order):
    k, a, seq = len(symbols), [0] * len(symbols) * order, []
    def db(t, p):   # de Bruijn sequence
        if t > order:
            if order % p == 0: seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]; db(t + 1, p)
            for j in range(a[t - p] + 1, k): a[t] = j; db(t + 1, t)
    db(1, 1)
    return [symbols[i] for i in seq + seq[:order - 1]]


NOISE = ['struct %(n)sNested { REFLECTIVE_RAPIDJSON_AS_OF_VERSION(3): int x; REFLECTIVE_RAPIDJSON_UNTIL_VERSION(1): int y; };',
         'static constexpr int %(n)sStatic = 4;', 'enum class %(n)sEnum { rrjAsOfVersion9, Other = 2 };', 'using %(n)sAlias = int;', 'int %(n)sMethod() const { return 3; }',
         'static int %(n)sStaticMethod() { static constexpr int rrjUntilVersion0 = 1; return rrjUntilVersion0; }', 'static_assert(sizeof(int) == 4);', 'friend struct %(n)sFriend;',
         'protected: void %(n)sHidden() {} public:', 'template <typename X> struct %(n)sTpl { static constexpr int rrjAsOfVersion77 = 2; };']
_walked = _walk([None] + [(m, v) for m in 'au' for v in range(4)], 3)
WALKS = []
for _k in range(0, len(_walked) - 2, 60):
    _part = _walked[_k:_k + 62]
    WALKS.append('VWalk%d' % (_k // 60))
    _fs = [F('w%d' % i, 'u8', mark=[m] if m else []) for i, m in enumerate(_part)]
    for _i in range(3, len(_fs), 5): _fs[_i]['pre'] = _r.choice(NOISE) % {'n': 'n%d' % _i}
    for _i in range(7, len(_fs), 9): _fs[_i].update(const=True, init='%d' % _i)
    S(WALKS[-1], _fs, ver=4 + _k // 60 % 2, bin_only=True)
# versions beyond 8 and 16 bits
S('VLarge', [F('a', 'u8'), F('b', 'u8', mark=[('a', 44)]), F('c', 'u8', mark=[('u', 299)]), F('d', 'u8', mark=[('a', 300)]), F('e', 'u8', mark=[('u', 65535)]), F('f', 'u8', mark=[('a', 65535)]), F('g', 'u8', mark=[('a', 65536), ('u', 65792)]),
             F('h', 'u8', mark=[('a', 65792)]), F('i', 'u8', mark=[('u', 0)]), F('j', 'u8', mark=[('a', 16777216)])], ver=100000000, bin_only=True)
LARGE = [0, 1, 43, 44, 45, 255, 256, 257, 299, 300, 301, 511, 512, 65534, 65535, 65536, 65537, 65791, 65792, 65793, 65836, 131072, 16777215, 16777216, 16777217, 99999999, 100000000, 100000001, 200000000]
S('Evo1', [F('a', 'i32'), F('b', 'str')], ver=1, bin_only=True)
S('Evo2', [F('a', 'i32'), F('b', 'str'), F('c', 'vec<i32>', mark=[('a', 2)])], ver=2, bin_only=True)
S('Evo3', [F('a', 'i32'), F('b', 'str'), F('c', 'vec<i32>', mark=[('a', 2)]), F('d', 'opt<Leaf>', mark=[('a', 3)])], ver=3, bin_only=True)
S('Evo4', [F('a', 'i32'), F('b', 'str'), F('c', 'vec<i32>', mark=[('a', 2)]), F('d', 'opt<Leaf>', mark=[('a', 3), ('u', 3)]), F('e', 'u64', mark=[('a', 4)])], ver=4, bin_only=True)


def bin_ok(t):
    """is the type supported by the binary (de)serializer?"""
    def ok(d):
        if isinstance(d, list): return all(ok(x) for x in d)
        if d['k'] in ('view', 'probe') or (d['k'] == 'tup' and not d['x'].startswith('pair')): return False
        if d['k'] in ('int', 'enum') and d['w'] == 8 and d['s'] and d['x'] != 'char': return False
        if d['k'] == 'rec':
            st = STRUCTS[d['n']]
            if st.get('json_only'): return False
            if d['n'] in seen: return True
            seen.add(d['n'])
            return all(ok(parse(b)) for b in st['bases']) and all(ok(parse(f['t'])) for f in st['fields'])
        return ok(d.get('of', [])) and ok(d.get('key', []))
    seen = set()
    return ok(parse(t))


def rand_type(rng, binary=False, depth=3, used=(), key=False):
    """random supported type expression; used: kinds which must not be used by the enclosing one"""
    ints = ['u8', 'i32', 'u32', 'i64', 'u64'] + (['i16', 'u16', 'char'] if binary else ['i8'])
    scal = ints + ['str', 'str', 'str']
    if key == 'hash': return rng.choice(scal)
    if key:
        if rng.random() < .7 or not depth: return rng.choice(scal)
        t = rng.choice(['vec<%s>', 'list<%s>', 'set<%s>', 'opt<%s>'] if binary else ['vec<%s>', 'list<%s>', 'set<%s>'])
        return t % rand_type(rng, binary, depth - 1, key=True) if rng.random() < .7 else 'pair<%s,%s>' % (rand_type(rng, binary, depth - 1, key=True), rand_type(rng, binary, 0, key=True))
    scal = scal + ['bool', 'f32', 'f64', 'EnU8', 'EnS32', 'EnU64', 'EnS64', 'EnS16'] + ([] if binary else ['EnS8'])
    recs = ['Leaf', 'Leaf', 'Other', 'Empty', 'Nest', 'Inh2', 'Third', 'Spaced']
    sub = lambda u=(), **kw: rand_type(rng, binary, depth - 1, u, **kw)
    if depth <= 0: return rng.choice(scal)
    # kinds which are not usable as values of JSON objects/optionals as they are declared later
    r = rng.random()
    if r < .12: return rng.choice(scal)
    if r < .22: return rng.choice(recs)
    while True:
        k = rng.choice(['seq', 'seq', 'map', 'set', 'kmap', 'opt', 'opt', 'pair', 'tup', 'var'])
        if k in used or (k == 'tup' and binary) or (k == 'kmap' and not binary): continue
        break
    inmap = ('opt', 'pair', 'tup', 'var', 'mmap')
    if k == 'seq':
        c = rng.choice(['vec', 'vec', 'list', 'deque'])
        while True:
            t = sub()
            if (c == 'vec' and t == 'bool') or (binary and t == 'Empty'): continue   # vector<bool> and elements without size
            return '%s<%s>' % (c, t)
    if k == 'set':
        c = rng.choice(['set', 'set', 'mset', 'uset', 'umset'])
        return '%s<%s>' % (c, sub(key='hash' if c.startswith('u') else True))
    if k == 'map':
        c = rng.choice([m for m in ('map', 'umap', 'mmap', 'ummap') if m[-4:] not in used])
        if not binary: return '%s<%s>' % (c, sub(inmap if 'mm' not in c else ()))
        return '%s<%s>' % (c, sub())
    if k == 'kmap':
        c = rng.choice(['kmap', 'kumap', 'kmmap', 'kummap'])
        return '%s<%s,%s>' % (c, sub(key='hash' if 'u' in c else True), sub())
    if k == 'opt': return '%s<%s>' % (rng.choice(['opt', 'opt', 'uptr', 'sptr']), sub(() if binary else ('var',)))
    if k == 'pair': return 'pair<%s,%s>' % (sub(), sub())
    if k == 'tup': return 'tup<%s>' % ','.join(sub() for _ in range(rng.randrange(1, 4)))
    ts = [sub() for _ in range(rng.randrange(1, 5))]
    return 'var<%s>' % ','.join((['mono'] if rng.random() < .3 else []) + ts)


def rand_types(rng, n, binary=False):
    """n different types of several levels"""
    out = []
    while len(out) < n:
        t = rand_type(rng, binary, rng.choice([2, 3, 3, 4]))
        if t not in out and '<' in t and (not binary or bin_ok(t)): out.append(t)
    return out


BIN_SCALARS = ['u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'char', 'f32', 'f64', 'EnU8', 'EnS16', 'EnS32', 'EnU64', 'EnS64', 'str']
JSON_SCALARS = ['i8', 'u8', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'EnU8', 'EnS8', 'EnS16', 'EnS32', 'EnU64', 'EnS64', 'str']


def hana_ok(n):
    """is the struct supported when Boost.Hana is used instead of the code generator?"""
    def ok(d):
        if isinstance(d, list): return all(ok(x) for x in d)
        if d['k'] == 'rec':
            st = STRUCTS[d['n']]
            if d['n'] in seen: return True
            seen.add(d['n'])
            if st.get('gen'): return True
            if st.get('ver') or any(f.get('priv') or f.get('const') or f.get('mark') for f in st['fields']): return False
            return all(ok(parse(b)) for b in st['bases']) and all(ok(parse(f['t'])) for f in st['fields'])
        return ok(d.get('of', [])) and ok(d.get('key', []))
    seen = set()
    return ok(parse(n))


def hana_define(st):
    """whether BOOST_HANA_DEFINE_STRUCT is used (and not BOOST_HANA_ADAPT_STRUCT)"""
    return st['name'] in ('Leaf', 'Other', 'Tree', 'PLeaf', 'BNums', 'Ptrs', 'HvDeep')


def hana_schema(schema, binary):
    """what is different when using Boost.Hana: members of base classes are not considered, errors do not state the record"""
    out = {}
    for n, s in schema.items():
        if not hana_ok(n): continue
        if STRUCTS[n].get('gen'): out[n] = s; continue
        def base_fields(b): return [dict(f, push=False, pull=False, **({'w': False, 'r': False} if binary else {})) for x in b for f in base_fields(schema[x]['bases']) + schema[x]['fields']]
        out[n] = dict(s, q=s['q'] if binary else '', bases=[], fields=base_fields(s['bases']) + s['fields'])
    return out


def bin_schema(structs=None):
    """struct table for the specification of the binary format"""
    out = {}
    for n, st in STRUCTS.items():
        if not bin_ok(n) or (structs is not None and n not in structs): continue
        acc = [not f.get('priv') or bool(st.get('friend')) for f in st['fields']]
        out[n] = {'q': st.get('q', n), 'ver': st.get('ver', 0), 'bases': st['bases'],
                  'fields': [{'n': f['name'], 't': parse(f['t']), 'w': a and not f.get('const'), 'r': a and not f.get('const'),
                              'push': a, 'pull': a and not f.get('const'),
                              'mark': [{'a': m == 'a', 'n': v} for m, v in f.get('mark', [])]} for f, a in zip(st['fields'], acc)]}
    return out


def all_fields(name):
    """Fields in documented member order: those of base classes first."""
    st, out = STRUCTS[name], []
    for b in st['bases']:
        out += all_fields(b)
    return out + [dict(f, owner=name) for f in st['fields']]


def schema_json(structs=None):
    """struct table for the specification (JSON view)"""
    out = {}
    for n, st in STRUCTS.items():
        if structs is not None and n not in structs: continue
        out[n] = {
            'q': st.get('q', n),
            'bases': st['bases'],
            'fields': [{'n': f['name'], 'nb': list(f['name'].encode()), 't': parse(f['t']), 'push': (not f.get('priv')) or bool(st.get('friend')),
                        'pull': ((not f.get('priv')) or bool(st.get('friend'))) and not f.get('const')} for f in st['fields']],
        }
    return out


def used_structs(desc, acc):
    if isinstance(desc, list):
        for d in desc: used_structs(d, acc)
    elif isinstance(desc, dict):
        if desc.get('k') == 'rec' and desc['n'] not in acc:
            acc.add(desc['n'])
            st = STRUCTS[desc['n']]
            for b in st['bases']: used_structs({'k': 'rec', 'n': b}, acc)
            for f in st['fields']: used_structs(parse(f['t']), acc)
        elif 'of' in desc:
            used_structs(desc['of'], acc)
            if 'key' in desc: used_structs(desc['key'], acc)
    return acc


# ---- C++ emission ---------------------------------------------------------------------------------------------------------
def emit_structs(with_binary=False, hana=False, only=None):
    o = ['// generated by /verif/tools/rrtypes.py', '#ifndef VERIF_STRUCTS_H', '#define VERIF_STRUCTS_H', '#include "codec.h"']
    if with_binary:
        o.append('#include <reflective_rapidjson/binary/serializable.h>\n#include <reflective_rapidjson/binary/reflector-chronoutilities.h>')
    if hana: o.append('#include <reflective_rapidjson/%s/reflector-boosthana.h>' % ('binary' if with_binary else 'json'))
    o.append('using namespace ReflectiveRapidJSON;')
    for n, (u, w, s) in ENUMS.items():
        o.append('enum%s %s%s { %s_A, %s_B, %s_C = 100 };' % ('' if u is None else ' class', n, ' : ' + u if u else '', n, n, n))
    for n, (base, _, kind, macro) in CUSTOM.items():
        o.append('struct %s : public %s { using %s::%s; };' % (n, base, base, re.match(r'std::(\w+)', base).group(1)))
        o.append('namespace ReflectiveRapidJSON { REFLECTIVE_RAPIDJSON_TREAT_AS_%s(%s); }' % (macro, n))
        o.append('namespace vf { template <> struct CustomKind<%s> { static constexpr int value = %d; }; }' % (n, kind))
    for n, st in STRUCTS.items():
        if (not bin_ok(n)) if with_binary else st.get('bin_only'): continue
        if hana and not hana_ok(n) or only and not only(st): continue
        ns = st.get('ns')
        q = st.get('q', n)
        if ns: o.append('namespace %s {' % ns)
        bases = [STRUCTS[b].get('q', b) for b in st['bases']]
        if not st.get('adapted'):
            bases.append('ReflectiveRapidJSON::BinarySerializable<%s%s>' % (n, ', %d' % st['ver'] if st.get('ver') else '') if with_binary else 'ReflectiveRapidJSON::JsonSerializable<%s>' % n)
        o.append('struct %s%s {' % (n, ' : ' + ', '.join('public ' + b for b in bases) if bases else ''))
        if any(f.get('priv') for f in st['fields']):
            o.append('    friend struct vf::Fields<%s>;' % q)
        if st.get('friend'):
            o.append('    REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS(%s);' % n)
            if with_binary:
                o.append('    friend void ::ReflectiveRapidJSON::BinaryReflector::writeCustomType<%s>(::ReflectiveRapidJSON::BinaryReflector::BinarySerializer &, const %s &, ::ReflectiveRapidJSON::BinaryVersion);' % (n, n))
                o.append('    friend ::ReflectiveRapidJSON::BinaryVersion ReflectiveRapidJSON::BinaryReflector::readCustomType<%s>(::ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer &, %s &, ::ReflectiveRapidJSON::BinaryVersion);' % (n, n))
        priv = False
        if hana and not st.get('gen') and hana_define(st): o.append('    BOOST_HANA_DEFINE_STRUCT(%s, %s);' % (n, ', '.join('(%s, %s)' % (cpp(f['t']), f['name']) for f in st['fields'])) + '\n    %s() : %s {}' % (n, ', '.join('%s(%s)' % (f['name'], f.get('init', '')) for f in st['fields'])))
        for f in ([] if hana and not st.get('gen') and hana_define(st) else st['fields']):
            if bool(f.get('priv')) != priv:
                priv = bool(f.get('priv'))
                o.append('private:' if priv else 'public:')
            t = cpp(f['t'])
            if f.get('pre'): o.append('    ' + f['pre'])
            for m, v in f.get('mark', []): o.append('REFLECTIVE_RAPIDJSON_%s_VERSION(%d):' % ('AS_OF' if m == 'a' else 'UNTIL', v))
            o.append('    %s%s %s%s;' % ('const ' if f.get('const') else '', t, f['name'], (' = ' + f['init']) if f.get('init') else ('{}')))
        o.append('};')
        if ns: o.append('}')
        if hana and st.get('gen'): o.append('namespace ReflectiveRapidJSON { namespace BinaryReflector {\ntemplate <> void writeCustomType<::%s>(BinarySerializer &, const ::%s &, BinaryVersion);\ntemplate <> BinaryVersion readCustomType<::%s>(BinaryDeserializer &, ::%s &, BinaryVersion);\n} }' % (q, q, q, q))
        elif hana and not hana_define(st): o.append('BOOST_HANA_ADAPT_STRUCT(%s);' % ', '.join([q] + [f['name'] for f in st['fields']]))
        if st.get('adapted'):
            o.append('REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(%s);' % q)
            if with_binary: o.append('REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(%s);' % q)
        o.append('namespace vf { template <> struct Fields<%s> { static constexpr bool known = true; template <class T, class FN> static void visit(T &s, FN &&f) {' % q)
        o.append('    (void)s; (void)f;')
        for b in st['bases']:
            bq = STRUCTS[b].get('q', b)
            o.append('    Fields<%s>::visit(static_cast<%s &>(s), f);' % (bq, bq))
        for f in st['fields']:
            o.append('    f("%s", s.%s);' % (f['name'], f['name']))
        o.append('} }; }')
    o.append('#endif')
    return '\n'.join(o) + '\n'
