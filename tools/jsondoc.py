"""Documents (D-trees): independent strict JSON parser/writer working on bytes, random documents and values."""
import math, random, re, struct

NULL = {'t': 'null'}


def be8(u): return list(u.to_bytes(8, 'big'))
def unbe8(b): return int.from_bytes(bytes(b), 'big')
def vint(i): return {'t': 'int', 'n': i < 0, 'm': be8(abs(i))}
def intof(v): return -unbe8(v['m']) if v['n'] else unbe8(v['m'])
def vflt(f): return {'t': 'flt', 'x': list(struct.pack('>d', f))}
def fltof(v): return struct.unpack('>d', bytes(v['x']))[0]
def vbool(b): return {'t': 'bool', 'b': bool(b)}
def vstr(b): return {'t': 'str', 's': list(b if isinstance(b, bytes) else b.encode())}
def darr(e): return {'t': 'arr', 'e': list(e)}
def dobj(m): return {'t': 'obj', 'm': [{'k': list(k if isinstance(k, bytes) else k.encode()), 'v': v} for k, v in m]}


class Bad(Exception): pass


def parse_json(b):
    """bytes -> D-tree; raises Bad if it is not valid JSON (RFC 8259, at most 64-bit integers are kept as integers)"""
    n, pos = len(b), 0

    def ws():
        nonlocal pos
        while pos < n and b[pos] in b' \t\n\r': pos += 1

    def value(depth):
        nonlocal pos
        ws()
        if pos >= n: raise Bad('eof')
        c = b[pos:pos + 1]
        if c == b'{':
            pos += 1; m = []; ws()
            if b[pos:pos + 1] == b'}': pos += 1; return {'t': 'obj', 'm': m}
            while True:
                ws()
                if b[pos:pos + 1] != b'"': raise Bad('key')
                k = string(); ws()
                if b[pos:pos + 1] != b':': raise Bad('colon')
                pos += 1
                m.append({'k': list(k), 'v': value(depth + 1)}); ws()
                s = b[pos:pos + 1]; pos += 1
                if s == b'}': return {'t': 'obj', 'm': m}
                if s != b',': raise Bad('obj')
        if c == b'[':
            pos += 1; e = []; ws()
            if b[pos:pos + 1] == b']': pos += 1; return {'t': 'arr', 'e': e}
            while True:
                e.append(value(depth + 1)); ws()
                s = b[pos:pos + 1]; pos += 1
                if s == b']': return {'t': 'arr', 'e': e}
                if s != b',': raise Bad('arr')
        if c == b'"': return {'t': 'str', 's': list(string())}
        for lit, v in ((b'null', NULL), (b'true', {'t': 'bool', 'b': True}), (b'false', {'t': 'bool', 'b': False})):
            if b.startswith(lit, pos): pos += len(lit); return dict(v)
        return number()

    def string():
        nonlocal pos
        pos += 1; out = bytearray()
        while True:
            if pos >= n: raise Bad('string')
            c = b[pos]
            if c == 0x22: pos += 1; return bytes(out)
            if c < 0x20: raise Bad('control')
            if c == 0x5c:
                e = b[pos + 1:pos + 2]; pos += 2
                mp = {b'"': 0x22, b'\\': 0x5c, b'/': 0x2f, b'b': 8, b'f': 12, b'n': 10, b'r': 13, b't': 9}
                if e in mp: out.append(mp[e]); continue
                if e != b'u': raise Bad('escape')
                cp = hex4()
                if 0xdc00 <= cp <= 0xdfff: raise Bad('surrogate')
                if 0xd800 <= cp <= 0xdbff:
                    if b[pos:pos + 2] != b'\\u': raise Bad('surrogate')
                    pos += 2; lo = hex4()
                    if not 0xdc00 <= lo <= 0xdfff: raise Bad('surrogate')
                    cp = 0x10000 + ((cp - 0xd800) << 10) + (lo - 0xdc00)
                out += chr(cp).encode('utf-8'); continue
            out.append(c); pos += 1

    def hex4():
        nonlocal pos
        h = b[pos:pos + 4]; pos += 4
        if len(h) != 4 or any(x not in b'0123456789abcdefABCDEF' for x in h): raise Bad('hex')
        return int(h, 16)

    def number():
        nonlocal pos
        m = re.compile(rb'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?').match(b, pos)
        if not m: raise Bad('token')
        pos = m.end(); s = m.group(0)
        if not m.group(2) and not m.group(3):
            i = int(s)
            if -(1 << 63) <= i < (1 << 64): return vint(i)
        f = float(s)
        if math.isinf(f): raise Bad('number too big')
        return vflt(f)
    v = value(0); ws()
    if pos != n: raise Bad('trailing')
    return v


def safe_parse(b):
    try: return parse_json(bytes(b))
    except (Bad, RecursionError): return {'t': 'invalid'}


def write_json(d, rng=None):
    """D-tree -> bytes; with rng: random whitespace and escaping"""
    def sp(): return rng.choice(['', '', '', ' ', '\n', '\t ', '\r\n']).encode() if rng else b''

    def s(bs):
        out = b'"'
        for c in bs:
            if c in (0x22, 0x5c): out += b'\\' + bytes([c])
            elif c < 0x20 or (rng and c < 0x7f and rng.random() < .03): out += b'\\u%04x' % c if not (rng and rng.random() < .5) else b'\\u%04X' % c
            else: out += bytes([c])
        return out + b'"'
    t = d['t']
    if t == 'null': return b'null'
    if t == 'bool': return b'true' if d['b'] else b'false'
    if t == 'int': return str(intof(d)).encode()
    if t == 'flt':
        r = repr(fltof(d))
        if '.' not in r and 'e' not in r: r += '.0'
        return r.encode()
    if t == 'str': return s(d['s'])
    if t == 'arr': return b'[' + sp() + (sp() + b',' + sp()).join(write_json(x, rng) for x in d['e']) + sp() + b']'
    return b'{' + sp() + (sp() + b',' + sp()).join(s(x['k']) + sp() + b':' + sp() + write_json(x['v'], rng) for x in d['m']) + sp() + b'}'


# ---- precision of the parser ---------------------------------------------------------------------------------------------
# RapidJSON parses numbers with "normal precision" (by design): a number with many digits or a big exponent is off by up to 3 ULP.
NUM = re.compile(rb'-?(?:0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?')


def normal_precision(s):
    """the number RapidJSON reads with normal precision (reader.h, strtod.h), for tokens with fraction, exponent or too many digits"""
    s = s.decode().lower(); neg = s[0] == '-'; s = s.lstrip('-')
    m, _, e = s.partition('e'); i, _, fr = m.partition('.')
    lim = (1 << 63) if neg else (1 << 64) - 1
    n = 0; k = 0
    for k in range(len(i) + 1):
        if k == len(i) or n * 10 + int(i[k]) > lim: break
        n = n * 10 + int(i[k])
    sig = 0 if i[0] == '0' else k - 1
    d = float(n); dbl = k < len(i); exp = 0
    for c in i[k:]: d = d * 10 + int(c)
    if fr:
        k = 0
        if not dbl:
            while k < len(fr) and n <= (1 << 53) - 1:
                n = n * 10 + int(fr[k]); k += 1; exp -= 1; sig += n != 0
            d = float(n)
        for c in fr[k:]:
            if sig < 17: d = d * 10 + int(c); exp -= 1; sig += d > 0
    def fast(d, p): return 0. if p < -308 else d * float('1e%d' % p) if p >= 0 else d / float('1e%d' % -p)
    p = int(e or 0) + exp
    try: d = fast(fast(d, -308), p + 308) if p < -308 else math.inf if p > 308 else fast(d, p)
    except OverflowError: d = math.inf
    return -d if neg else d


def imprecise(s):
    """whether the token is not read as the nearest number"""
    m = NUM.match(s)
    if not (m.group(1) or m.group(2)) and -(1 << 63) <= int(s) < (1 << 64): return False
    return struct.pack('>d', normal_precision(s)) != struct.pack('>d', float(s))


def imprecise_numbers(text, both=False):
    """numbers within the JSON text which are not read as nearest number (strings left out); both: also what is read instead"""
    t = re.sub(rb'"(?:[^"\\]|\\.)*"', b'""', bytes(text), flags=re.S)
    out = []
    for m in NUM.finditer(t):
        try:
            if imprecise(m.group(0)): out.append((float(m.group(0)), normal_precision(m.group(0))) if both else float(m.group(0)))
        except (OverflowError, ValueError): pass
    return out


def order(f):
    b = struct.unpack('>q', struct.pack('>d', f))[0]
    return b if b >= 0 else -(b & ((1 << 63) - 1))


def restore_precision(v, exact):
    """replaces doubles within the value which are off by at most 3 ULP by the exact number; returns the value and their number"""
    if isinstance(v, list):
        r = [restore_precision(e, exact) for e in v]
        return [e[0] for e in r], sum(e[1] for e in r)
    if not isinstance(v, dict): return v, 0
    if v.get('t') == 'flt':
        f = fltof(v)
        for e in exact:
            if 0 < abs(order(f) - order(e)) <= 3: return vflt(e), 1
        return v, 0
    r = {k: restore_precision(e, exact) for k, e in v.items()}
    return {k: e[0] for k, e in r.items()}, sum(e[1] for e in r.values())


# ---- random values -------------------------------------------------------------------------------------------------------
EDGE = [0, 1, 2, 5, 42, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 2**24, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1]
FEDGE = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.75, 3.0, 127.9, 128.0, -128.9, -129.0, 255.5, 256.0, 1e10, 2147483647.0, 2147483647.5, 2147483648.0, -2147483648.9, -2147483649.0, 4294967295.5, 4294967296.0,
         9007199254740993.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709549568.0, 18446744073709551616.0, 1e19, 1e20, -1e20, 1e300, -1e300, 5e-324, 2.2250738585072014e-308,
         1.7976931348623157e308, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, 1e-40, 0.1, 0.3, 1 / 3, 123456.789, 1e-5, 1e21, 1.401298464324817e-45, 16777217.0]
STRS = [b'', b'a', b'foo', b'bar', b'\x00', b'a\x00b', b'"', b'\\', b'/', b'\n\t\r\x08\x0c', b'\x1f\x01', b'\x7f', 'äöü'.encode(), '\u2028\u20ac'.encode(), '\U0001f600'.encode(), b'null', b'1', b'index', b'data', b' sp ace ', b'x' * 40,
        b'long' * 30, b'{"a":1}', b'\xc3\x28', b'\xff\xfe', b'\\u0000', b'</script>']


def rand_str(rng, ascii_only=False):
    if rng.random() < .5:
        s = rng.choice(STRS)
        if ascii_only and (b'\0' in s): s = b'cstr'
        return s
    if rng.random() < .06:   # around the sizes at which strings are stored differently
        return bytes(rng.choice(b'abcdefgh') for _ in range(rng.choice([7, 8, 13, 14, 15, 16, 21, 22, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 257, 600])))
    s = bytes(rng.choice(b'abcxyz019 _-"\\/\n') for _ in range(rng.randint(0, 12)))
    return s


def rand_int(rng, w, s):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    while True:
        r = rng.random()
        if r < .35: v = rng.choice(EDGE) * (rng.choice([1, -1]) if s else 1)
        elif r < .5: v = rng.choice([lo, hi, lo + 1, hi - 1])
        elif r < .8: v = rng.randint(lo, hi)
        else: v = rng.randint(-20, 20)
        if lo <= v <= hi: return v


def rand_f64(rng, exact=True):
    """exact: only numbers which are precisely read"""
    while True:
        f = rand_f64_any(rng)
        if not exact or not imprecise_numbers(write_json(vflt(f))): return f


def rand_f64_any(rng):
    r = rng.random()
    if r < .4: return rng.choice(FEDGE)
    if r < .6: return rng.uniform(-1000, 1000)
    if r < .7: return float(rng.randint(-10**6, 10**6))
    while True:
        f = struct.unpack('>d', rng.getrandbits(64).to_bytes(8, 'big'))[0]
        if math.isfinite(f): return f


def rand_f32(rng, exact=False):
    while True:
        if rng.random() < .5:
            try: f = struct.unpack('>f', struct.pack('>f', rand_f64(rng)))[0]
            except OverflowError: continue
        else: f = struct.unpack('>f', rng.getrandbits(32).to_bytes(4, 'big'))[0]
        if math.isfinite(f) and not (exact and imprecise_numbers(write_json(vflt(f)))): return f


def rand_value(rng, ty, defaults, structs, depth=0):
    """random abstract value of type ty"""
    k = ty['k']
    if k == 'bool': return vbool(rng.random() < .5)
    if k == 'int': return vint(rand_int(rng, ty['w'], ty['s']))
    if k == 'enum': return vint(rng.choice([0, 1, 100]) if ty['x'] == 'EnPlain' else rand_int(rng, ty['w'], ty['s']))
    if k == 'probe': return vint(rng.randint(0, 999))
    if k == 'flt': return vflt(rand_f32(rng) if ty['w'] == 32 else rand_f64(rng, False))
    if k == 'str': return vstr(rand_str(rng))
    if k == 'view': return NULL if rng.random() < .3 else vstr(rand_str(rng, ascii_only=ty['x'] == 'cstr'))
    if k == 'mono': return NULL
    if k == 'dt': return vint(rand_dt(rng))
    if k == 'ts': return vint(rand_ts(rng))
    ln = lambda: rng.choice([0, 0, 1, 1, 2, 2, 3, 5] if depth < 3 else [0, 0, 1, 2]) if rng.random() < .97 or depth > 1 else rng.randint(10, 40)
    sub = lambda t: rand_value(rng, t, defaults, structs, depth + 1)
    if k == 'seq': return {'t': 'seq', 'e': [sub(ty['of']) for _ in range(ln() if depth < 6 else 0)]}
    if k == 'set': return {'t': 'set', 'e': [sub(ty['of']) for _ in range(ln())]}
    if k == 'map':
        n = ln()
        keys = [list(rand_str(rng)) for _ in range(n)]
        if ty['multi'] and n > 1:
            for i in range(1, n):
                if rng.random() < .5: keys[i] = keys[rng.randrange(i)]
        return {'t': 'map', 'e': [{'k': key, 'v': sub(ty['of'])} for key in keys]}
    if k == 'tup': return {'t': 'tup', 'e': [sub(t) for t in ty['of']]}
    if k == 'opt':
        if rng.random() < (.35 if depth < 4 else .9): return NULL
        return {'t': 'some', 'v': sub(ty['of'])}
    if k == 'var':
        i = rng.randrange(len(ty['of']))
        return {'t': 'var', 'i': i, 'v': sub(ty['of'][i])}
    if k == 'rec':
        return {'t': 'rec', 'f': [{'n': f['n'], 'v': sub(f['t'])} for f in flat(structs, ty['n'])]}
    raise ValueError(k)


def deep_tree(rng, n, nextid=None):
    """Tree of n levels (nextid: with numbered objects as used for the binary format)"""
    def node(k):
        f = {'val': vint(k), 'kids': {'t': 'seq', 'e': []}, 'left': NULL}
        return {'t': 'rec', 'f': [{'n': m, 'v': v} for m, v in f.items()]}
    top = v = node(0)
    way = rng.choice([0, 1, .5])
    for k in range(1, n):
        w = node(k)
        if rng.random() < way:
            if nextid is not None: nextid[0] += 1
            some = lambda v: {'t': 'some', 'v': v} if nextid is None else {'t': 'ref', 'id': nextid[0], 'v': v}
            v['f'][1]['v']['e'] += ([NULL] if rng.random() < .3 else []) + [some(w)]
        else: v['f'][2]['v'] = {'t': 'some', 'v': w}
        v = w
    return top


def deep_doc(rng, n, p):
    """document for such a tree; members have the wrong type with probability p"""
    d = dobj([('val', vint(n))])
    for k in range(n):
        val = [('val', vint(k) if rng.random() >= p else rng.choice([vbool(True), vstr(b'x'), darr([]), NULL]))]
        sub = rng.choice([[('left', d)], [('left', d)], [('kids', darr([NULL] * rng.randrange(3) + [d] + ([vbool(True)] if rng.random() < p else [])))]])
        bad = [('left', vint(3))] if sub[0][0] == 'kids' and rng.random() < p else []
        parts = [val, sub, bad, [('other', darr([vint(1)]))] if rng.random() < .1 else []]
        rng.shuffle(parts)
        d = dobj(sum(parts, []))
    return d


def shallow(o, limit=100):
    """replaces what is nested too deep for TLC's JSON reader by references into a table (see Nested.tla)"""
    def depth(v):
        return 1 + max((depth(x) for x in (v.values() if isinstance(v, dict) else v)), default=0) if isinstance(v, (dict, list)) else 0
    if depth(o) < 200: return o
    tab = []
    def cut(v, d):
        if isinstance(v, dict):
            if d > limit and 't' in v:
                tab.append(None); k = len(tab) - 1
                tab[k] = {n: cut(x, 2) for n, x in v.items()}
                return {'t': '@', 'i': k + 1}
            return {n: cut(x, d + 1) for n, x in v.items()}
        return [cut(x, d + 1) for x in v] if isinstance(v, list) else v
    return dict(cut(o, 0), tab=tab)


def deep_sizes(rng, n):
    return rng.sample([31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 150, 180, 200], n)


def flat(structs, name):
    st = structs[name]
    out = []
    for b in st['bases']: out += flat(structs, b)
    return out + st['fields']


def rand_dt(rng):
    """ticks from 0001-01-01 to 9999-12-31"""
    top = 3155378976000000000
    r = rng.random()
    if r < .1: return rng.choice([0, 1, 10, 9999999, 10**7, 864 * 10**9 - 1, 864 * 10**9, top - 1, 621355968000000000])
    x = rng.randrange(top) if r < .7 else 621355968000000000 + rng.randrange(2 * 10**16)
    return x - x % rng.choice([1, 1, 10, 10000, 10**7, 864 * 10**9])


def rand_ts(rng):
    """ticks of a non-negative time span of less than a million hours"""
    x = rng.choice([0, 1, 10**7, 5 * 10**6, 864 * 10**9, rng.randrange(0, 10**13), rng.randrange(0, 36 * 10**15), rng.randrange(0, 10**9)])
    return x - x % rng.choice([1, 1, 10, 10000, 10**7])


def rand_time_text(rng, k):
    """text which denotes a point in time/time span or which is definitely invalid"""
    fr = '' if rng.random() < .5 else '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 7)))
    r = rng.random()
    if k == 'dt':
        t = '%04d-%02d-%02d' % (rng.choice([1, 2, 100, 400, 1900, 1970, 2000, 2024, 9999, rng.randint(1, 9999)]), rng.randint(1, 12), rng.choice([1, 28, 29, 30, 31, rng.randint(1, 28)]))
        if r < .15: return t
        t += 'T%02d:%02d' % (rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]))
        if r > .3: t += ':%02d' % rng.choice([0, 59, rng.randint(0, 59)]) + fr
        if rng.random() < .4: t += rng.choice(['Z', '%s%02d:%02d' % (rng.choice('+-'), rng.choice([0, 1, 2, 12, 23]), rng.choice([0, 30, 45, 59]))])
    else:
        t = ':'.join(rng.choice(['%02d', '%d']) % rng.choice([0, 1, 5, 23, 24, 59, 60, 100, rng.randint(0, 999), rng.randint(0, 9999)]) for _ in range(rng.randint(1, 4))) + fr
        if rng.random() < .05 and ':' not in t: t = '-' + t
    r = rng.random()
    if r < .12:
        i = rng.randrange(len(t) + 1); t = t[:i] + rng.choice(['#', '\0', '/', '"', ',', ';', '\u00e4', '?'] + (['x', ' ', 'e', 't', 'z', '_'] if k == 'dt' else [])) + t[i:]
    elif r < .2 and k == 'dt':
        t = rng.choice(['2000-13-01', '2000-00-10', '2000-01-32', '2000-01-00', '0000-01-01', '2001-02-29', '1900-02-29', '2000-02-30', '2023-04-31', '2000-01-01T24:00:00', '2000-01-01T23:60:00', '2000-01-01T23:59:60', '2000-01-01T99:00:00Z'])
    elif r < .16: t = '1:2:3:4:5'
    return t


# ---- random documents for a type ---------------------------------------------------------------------------------------------
def rand_any_doc(rng, depth=0):
    r = rng.random()
    if r < .12: return NULL
    if r < .24: return vbool(rng.random() < .5)
    if r < .42: return vint(rng.choice([rng.randint(-300, 300), rng.choice(EDGE), -rng.choice([e for e in EDGE if e <= 2**63])]))
    if r < .52: return vflt(rand_f64(rng))
    if r < .68: return vstr(rand_str(rng))
    n = rng.choice([0, 0, 1, 2, 3]) if depth < 3 else 0
    if r < .84: return darr([rand_any_doc(rng, depth + 1) for _ in range(n)])
    return dobj([(rand_str(rng), rand_any_doc(rng, depth + 1)) for _ in range(n)])


def rand_doc(rng, ty, structs, p=.1, depth=0):
    """random document for the type which deviates from what is expected with probability p at each node"""
    k = ty['k']
    if rng.random() < p: return rand_any_doc(rng, 1)
    sub = lambda t: rand_doc(rng, t, structs, p, depth + 1)
    if k == 'bool': return vbool(rng.random() < .5)
    if k in ('int', 'enum', 'probe'):
        if k == 'probe': return vint(rng.randint(0, 999))
        if ty['x'] == 'EnPlain': return vint(rng.choice([0, 1, 100]))
        if rng.random() < p * 2: return rng.choice([vint(rng.choice(EDGE)), vint(-rng.choice([e for e in EDGE if e <= 2**63])), vflt(rand_f64(rng))])
        return vint(rand_int(rng, ty['w'], ty['s']))
    if k == 'flt': return rng.choice([vflt(rand_f64(rng)), vflt(rand_f32(rng, True)), vint(rng.choice(EDGE)), vint(rng.randint(-2**63, 2**64 - 1))])
    if k in ('str', 'view'): return vstr(rand_str(rng))
    if k in ('dt', 'ts'): return vstr(rand_time_text(rng, k))
    if k == 'mono': return NULL
    ln = lambda: rng.choice([0, 1, 2, 3]) if depth < 5 else 0
    if k in ('seq', 'set'):
        es = [sub(ty['of']) for _ in range(ln())]
        if k == 'set' and es and rng.random() < .3 + p: es.insert(rng.randrange(len(es) + 1), rng.choice(es))
        return darr(es)
    if k == 'map':
        m = []
        for _ in range(ln()):
            key = rng.choice(m)[0] if m and rng.random() < p else rand_str(rng)
            if ty['multi']: m.append((key, darr([sub(ty['of']) for _ in range(ln())]) if rng.random() < .8 else sub(ty['of'])))
            else: m.append((key, sub(ty['of'])))
        return dobj(m)
    if k == 'tup':
        es = [sub(t) for t in ty['of']]
        if rng.random() < p: es = es[:-1] if rng.random() < .5 else es + [rand_any_doc(rng, 2)]
        return darr(es)
    if k == 'opt':
        if rng.random() < (.3 if depth < 4 else .9): return NULL
        return sub(ty['of'])
    if k == 'var':
        i = rng.randrange(len(ty['of']))
        m = [('index', vint(i)), ('data', sub(ty['of'][i]))]
        if rng.random() < p: m[0] = ('index', rng.choice([vint(len(ty['of'])), vint(-1), vflt(1.0), vint(2**32), vint(2**32 + i), vint(2**63), vstr('0'), NULL, vint(i + 256), darr([vint(0)])]))
        if rng.random() < p: del m[rng.randrange(2)]
        if rng.random() < p: m.append((rng.choice(['x', 'index', 'data']), rand_any_doc(rng, 2)))
        if rng.random() < .3: m.reverse()
        return dobj(m)
    if k == 'rec':
        m = []
        for f in flat(structs, ty['n']):
            if rng.random() < .75 if depth < 6 else rng.random() < .2: m.append((f['n'], sub(f['t'])))
        if rng.random() < p: m.append((rng.choice([b'unknown', b'', b'\0', b'i\0', b'I']), rand_any_doc(rng, 1)))
        if m and rng.random() < p: m.insert(rng.randrange(len(m) + 1), (rng.choice(m)[0], rand_any_doc(rng, 2)))
        if rng.random() < .5: rng.shuffle(m)
        return dobj(m)
    raise ValueError(k)
