"""Prints a function body of /repo (as dumped by astdump) in Verus syntax.

What is rewritten (everything else is printed as it stands):
  * C-like enums are carried as `E { d: <code> }`; a variant becomes that literal, a match on variants
    a match on `.d`;  `x as uN` on anything but a literal becomes cast_uN(x)
  * for loops become while loops with an index; loops get the invariant of their shape
  * calls of functions without a contract are replaced by their bodies (inline)
  * LENGTH-like associated constants become their defining expression
  * std idioms without a Verus specification (iter().map().sum(), map_or, unwrap_or_default, ...) become
    calls of the helper of that name in spec/prelude.rs
  * texts and sources of error values (format!, String fields of DISError) are dropped
"""
from model import Unsupported, tname, INTS
ATOMIC = {f'Atomic{t[0].upper()}{t[1:]}': t for t in list(INTS) + ['bool']}
SIZES = dict({k: v // 8 for k, v in INTS.items()}, f32=4, f64=8, bool=1, char=4)
import norm

PRIM = {'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'usize', 'isize', 'bool'}
FOPS = {'+': 'v_fadd', '-': 'v_fsub', '*': 'v_fmul', '/': 'v_fdiv', '==': 'v_feq', '+=': 'v_fadd', '-=': 'v_fsub', '*=': 'v_fmul', '/=': 'v_fdiv'}
OPTR = {'+': ('Add', 'add'), '-': ('Sub', 'sub'), '*': ('Mul', 'mul'), '/': ('Div', 'div')}
FLOATM = ('mul_add', 'sqrt', 'abs', 'powi', 'recip', 'hypot')
PUTGET = {p + '_' + t for p in ('put', 'get') for t in PRIM}

def strip_ref(t):
    while t and t.get('k') == 'ref': t = t['t']
    return t

CLOCK = ('hour', 'minute', 'second', 'nanosecond', 'num_seconds_from_midnight', 'timestamp_subsec_nanos', 'timestamp_subsec_micros', 'timestamp_subsec_millis', 'timestamp', 'timestamp_millis', 'timestamp_micros', 'time')

class Lower:
    def __init__(self, g, owner, sig, rename=None):
        self.g, self.m, self.owner, self.sig = g, g.m, owner, sig
        self.clocked = sig.get('name') == 'calculate_dis_timestamp'     # the clock is a ghost parameter here
        self.mod = sig.get('_mod')
        self.lconsts, self.lstatics, self.lfns = {}, {}, {}
        self.env = {}     # local -> type node
        self.refs = set() # names bound by reference in a pattern
        self.ren = rename or {}
        self.bufs = {}
        self.tparams = {}   # type parameters of an inlined helper -> bounds
        self.placeref, self.selfplace = {}, None   # reference parameters (self) of an inlined helper that stand for a place
        self.byref = {i['p']['id'] for i in sig['ins'] if i['p']['k'] == 'ident' and i['t'].get('k') == 'ref'}
        self.n = 0
        self.untemplated = []
        self.depth = 0
        self.selfexpr = 'self'
        self.selftype = {'k': 'path', 'segs': [{'id': owner, 'args': [{'k': 'path', 'segs': [{'id': 'T', 'args': []}]}] if owner in ('Vec', 'Option') else []}]}
        for i in sig['ins']:
            if i['p']['k'] == 'ident':
                self.env[i['p']['id']] = i['t']
                st = strip_ref(i['t'])
                if i['t'].get('k') == 'ref' and i['t']['mut']:
                    self.bufs[i['p']['id']] = 'ser' if tname(st) == 'BytesMut' else 'de'

    def fresh(self, s):
        self.n += 1
        return f'{s}{self.n}_'

    # ------------------------------------------------------------ types
    def ty(self, t):
        if t is None: return '()'
        k = t['k']
        if k == 'path':
            if t.get('qself'):
                if t['segs'][-1]['id'] == 'Header': return 'PduHeader'
                raise Unsupported('qualified type')
            ids = [s['id'] for s in t['segs']]
            last = t['segs'][-1]
            if ids == ['Self', 'Header']: return 'PduHeader'
            if last['id'] == 'Self': return self.owner
            n = last['id']
            if len(ids) == 1 and n in self.tparams: return '_'
            if n == 'DISResult': return f'Result<{self.ty(last["args"][0])}, DISError>'
            if n == 'String': return 'VString'
            if last['args']: return n + '<' + ', '.join(self.ty(a) for a in last['args']) + '>'
            return n
        if k == 'ref': return '&' + ('mut ' if t['mut'] else '') + self.ty(t['t'])
        if k == 'array': return f'[{self.ty(t["t"])}; {self.constval(t["len"])}]'
        if k == 'slice': return f'[{self.ty(t["t"])}]'
        if k == 'tuple': return '(' + ''.join(self.ty(x) + ', ' for x in t['ts']) + ')'
        if k == 'infer': return '_'
        raise Unsupported('type ' + str(t)[:80])

    def constval(self, e):
        v = self.const(e)
        if v is None: raise Unsupported('constant ' + str(e)[:80])
        return v

    def const(self, e):
        """integer value of a constant expression, or None"""
        k = e['k']
        if k == 'int': return int(e['v'])
        if k == 'bin':
            a, b = self.const(e['l']), self.const(e['r'])
            if a is None or b is None: return None
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b if 0 <= b < 128 else None, '>>': lambda: a >> b if 0 <= b < 128 else None,
                    '/': lambda: a // b if b and a >= 0 < b else None, '%': lambda: a % b if b and a >= 0 < b else None,
                    '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b}.get(e['op'], lambda: None)()
        if k == 'cast':
            v = self.const(e['e'])
            t = tname(e['t'])
            return v if v is None or t not in INTS else v if (-(1 << INTS[t] - 1) <= v < 1 << INTS[t] - 1) or (t[0] == 'u' and 0 <= v < 1 << INTS[t]) else None
        if k == 'call' and e['f']['k'] == 'path' and not e['f'].get('qself'):
            s = e['f']['segs']
            if s[-1]['id'] == 'size_of' and s[-1]['args'] and not e['args']: return SIZES.get(tname(s[-1]['args'][0]))
            if len(s) == 2 and s[0]['id'] in INTS and s[1]['id'] == 'from' and len(e['args']) == 1: return self.const(e['args'][0])
            fn = self.m.find('fn', s[-1]['id'], self.mod, [x['id'] for x in s[:-1]]) if len(s) == 1 and s[0]['id'] in self.m.fns else self.m.inherent.get(self.owner if s[0]['id'] == 'Self' else s[0]['id'], {}).get(s[1]['id']) if len(s) == 2 else None
            if fn and not fn['sig'].get('self') and self.depth < 6:
                # a constant function: its value for constant arguments
                vs = [self.const(a) for a in e['args']]
                b = norm.unblock(norm.block(fn['body']))
                if None in vs or b['k'] == 'block' or any(i['p']['k'] != 'ident' for i in fn['sig']['ins']) or any(i['t'].get('k') != 'path' or tname(i['t']) not in INTS for i in fn['sig']['ins']): return None
                sub = Lower(self.g, self.owner if len(s) == 1 else self.owner if s[0]['id'] == 'Self' else s[0]['id'], fn['sig'])
                sub.depth = self.depth + 1
                for i, v in zip(fn['sig']['ins'], vs): sub.env[i['p']['id']] = i['t']; sub.lconsts[i['p']['id']] = v
                return sub.const(b)
        if k == 'mcall' and e['m'] in ('div_ceil', 'min', 'max', 'next_multiple_of', 'pow'):
            a, b = self.const(e['r']), self.const(e['args'][0]) if len(e['args']) == 1 else None
            if a is None or b is None or a < 0 or b < 0: return None
            return {'min': min(a, b), 'max': max(a, b), 'div_ceil': -(-a // b) if b else None, 'next_multiple_of': -(-a // b) * b if b else None, 'pow': a ** b if b < 64 else None}[e['m']]
        if k in ('paren', 'group'): return self.const(e['e'])
        if k == 'path': return self.constpath(e)
        return None

    def constpath(self, e):
        s = e['segs']
        if e.get('qself'):
            c = (self.tyname(e['qself']), s[-1]['id'])
        elif len(s) >= 2:
            c = (self.owner if s[-2]['id'] == 'Self' else s[-2]['id'], s[-1]['id'])
        else:
            c = None
        if c and c[0] in ('f32', 'f64') and not e.get('qself'): return {('f32', 'MANTISSA_DIGITS'): 24, ('f64', 'MANTISSA_DIGITS'): 53}.get(c)
        if c and c[0] in INTS and not e.get('qself'):
            w, u = INTS[c[0]], c[0][0] == 'u'
            return {'MIN': 0 if u else -(1 << w - 1), 'MAX': (1 << w) - 1 if u else (1 << w - 1) - 1, 'BITS': w}.get(c[1])
        if c and c in self.m.tconsts:
            sub = Lower(self.g, c[0], {'ins': []})
            return sub.const(self.m.tconsts[c])
        if len(s) == 1 and s[0]['id'] in self.env: return self.lconsts.get(s[0]['id'])
        if s[-1]['id'] in self.m.consts and not (c and c[0] in self.m.enums):
            d = self.m.find('const', s[-1]['id'], self.mod, [x['id'] for x in s[:-1]])
            sub = Lower(self.g, self.owner, {'ins': []}) 
            sub.mod = next((q for q, i in self.m.scoped['const'][s[-1]['id']] if i is d), self.mod)
            return sub.const(d['e'])
        return None

    def tyname(self, t):
        n = tname(strip_ref(t))
        if n == 'Self': return self.owner
        if n == 'Header': return 'PduHeader'
        return n

    def typeof(self, e):
        """type node of an expression, or None"""
        k = e['k']
        if k == 'path' and not e.get('qself'):
            s = e['segs']
            if len(s) == 1:
                n = s[0]['id']
                if n == 'self': return self.selftype
                return self.env.get(n)
            if s[-2]['id'] == 'Self' and self.owner in self.m.enums: return self.selftype
            if s[-2]['id'] in self.m.enums: return {'k': 'path', 'segs': [s[-2]]}
            return None
        if k == 'field':
            t = strip_ref(self.typeof(e['e']))
            n = self.tyname(t) if t else None
            if n in self.m.structs and self.m.structs[n]['fields']['k'] == 'named':
                for f in self.m.structs[n]['fields']['fs']:
                    if f['id'] == e['m']: return f['t']
            return None
        if k in ('ref', 'un'): return self.typeof(e['e']) if k == 'ref' or e['op'] in ('*', '-') else None
        if k == 'bin' and e['op'] in ('<<', '>>'): return self.typeof(e['l'])
        if k == 'int' and e.get('suf'): return self.P(e['suf'])
        if k == 'bin' and e['op'] in ('+', '-', '*', '/', '%', '&', '|', '^'): return self.typeof(e['l']) or self.typeof(e['r'])
        if k == 'float' and e['suf']: return {'k': 'path', 'segs': [{'id': e['suf'], 'args': []}]}
        if k == 'mcall' and e['m'] in FLOATM: return self.typeof(e['r'])
        if k == 'cast': return e['t']
        if k == 'struct': return e['path'] if e['path']['segs'][-1]['id'] != 'Self' else self.selftype
        if k == 'index':
            t = strip_ref(self.typeof(e['e']))
            if not t: return None
            if t['k'] in ('array', 'slice'): return t['t']
            if self.tyname(t) == 'Vec': return t['segs'][-1]['args'][0]
        if k == 'tuple':
            ts = [self.typeof(x) or {'k': 'infer'} for x in e['es']]
            return {'k': 'tuple', 'ts': ts}
        if k == 'try': return self.inner(self.typeof(e['e']))
        if k == 'if':
            for b in (e['t'], [{'k': 'expr', 'e': e['e'], 'semi': False}] if e['e'] else []):
                if b and b[-1]['k'] == 'expr' and not b[-1]['semi']:
                    t = self.typeof(b[-1]['e'])
                    if t: return t
            return None
        if k == 'match':
            for x in e['arms']:
                t = self.typeof(x['e'])
                if t: return t
            return None
        if k == 'block':
            if e['b'] and e['b'][-1]['k'] == 'expr' and not e['b'][-1]['semi']:
                x = e['b'][-1]['e']
                n = x['segs'][0]['id'] if x['k'] == 'path' and len(x['segs']) == 1 else None
                if n and any(norm.binds(y['p'], n) for y in e['b'] if y['k'] == 'let'):
                    y = [y for y in e['b'] if y['k'] == 'let' and norm.binds(y['p'], n)][-1]
                    return y['p']['t'] if y['p']['k'] == 'typed' else self.littype(y['e']) if y['e'] else None
                return self.typeof(x)
            return None
        if k == 'mcall' and self.static(e['r']):
            t = self.P(self.static(e['r']))
            return None if e['m'] == 'store' else self.P('Result', t, t) if e['m'] in ('compare_exchange', 'compare_exchange_weak', 'fetch_update') else t
        if k == 'mcall':
            t = strip_ref(self.typeof(e['r']))
            n = self.tyname(t) if t else None
            f = self.find_method(n, e['m']) if n else None
            if f: return self.selfsub(f['sig']['out'], n)
            m = e['m']
            if m in ('clone', 'as_ref', 'to_owned', 'min', 'max', 'saturating_sub', 'saturating_add', 'div_ceil', 'wrapping_add', 'wrapping_sub', 'next_multiple_of', 'swap_bytes'): return t
            if m in ('len', 'remaining', 'field_len', 'count', 'capacity'): return self.P('usize')
            if m == 'chunk': return {'k': 'ref', 'mut': False, 't': {'k': 'slice', 't': self.P('u8')}}
            if m in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else'): return self.inner(t)
            if m == 'take_out': return self.P('Option', self.inner(t) or {'k': 'infer'})
            if m == 'to_bits': return self.P('u32' if n == 'f32' else 'u64')
            if m in ('wrapping_neg', 'rem_euclid', 'abs_diff'): return t
            if m in ('checked_add', 'checked_sub') and t: return self.P('Option', t)
            if m == 'unsigned_abs' and n: return self.P('u' + n[1:])
            if m in CLOCK and m.startswith('timestamp') and 'subsec' not in m: return self.P('i64')
            if m in CLOCK and m != 'time': return self.P('u32')
            if m == 'as_bytes': return {'k': 'ref', 'mut': False, 't': {'k': 'slice', 't': self.P('u8')}}
            if m in ('get', 'first') and t and t['k'] == 'slice': return self.P('Option', {'k': 'ref', 'mut': False, 't': t['t']})
            if m.startswith('get_') and m[4:] in PRIM: return self.P(m[4:])
            if m.startswith('get_') and m[4:-3] in PRIM: return self.P(m[4:-3])
        if k == 'call' and e['f']['k'] == 'path':
            s = e['f']['segs']
            if s[-1]['id'] in ('Some', 'Ok') and len(s) == 1: return self.P('Option' if s[-1]['id'] == 'Some' else 'Result', self.typeof(e['args'][0]) or {'k': 'infer'})
            if e['f'].get('qself') and s[-1]['id'] in ('default', 'deserialize_field', 'deserialize_with_len'): return e['f']['qself']
            if e['f'].get('qself') and s[-1]['id'] == 'field_len': return self.P('usize')
            if len(s) >= 2 and not e['f'].get('qself'):
                q = s[-2]['id']
                if q in INTS or q in ('f32', 'f64'):
                    if s[-1]['id'] in ('from', 'from_bits', 'from_be_bytes'): return self.P(q)
                    if s[-1]['id'] == 'try_from': return self.P('Result', self.P(q))
                n = self.owner if q == 'Self' else q
                if n in self.m.structs or n in self.m.enums:
                    if s[-1]['id'] in ('deserialize', 'default', 'new', 'deserialize_field') and n not in ('AntennaPattern', 'ModulationParameters') or s[-1]['id'] == 'default': return self.P(n)
                    f = self.find_method(n, s[-1]['id'])
                    if f: return self.selfsub(f['sig']['out'], n)
                if n in self.m.traits and e['args']:
                    r = strip_ref(self.typeof(e['args'][0]))
                    f = self.find_method(self.tyname(r), s[-1]['id']) if r else None
                    if f: return self.selfsub(f['sig']['out'], self.tyname(r))
                if s[-1]['id'] == 'field_len': return self.P('usize')
            if len(s) == 1 and s[0]['id'] in self.lfns: return self.lfns[s[0]['id']]['sig']['out']
            if len(s) == 1 and s[0]['id'] in self.m.fns: return self.m.find('fn', s[0]['id'], self.mod)['sig']['out']
        return None

    def opt(self, t): return self.P('Option', t) if t else None
    def P(self, n, *a): return {'k': 'path', 'segs': [{'id': n, 'args': list(a)}]}
    def inner(self, t):
        """T of Option<T>, Result<T, E>, DISResult<T>, and references to them"""
        r = t and t['k'] == 'ref'
        t = strip_ref(t)
        if t and t.get('k') == 'path' and t['segs'][-1]['id'] in ('Option', 'Result', 'DISResult') and t['segs'][-1]['args']:
            x = t['segs'][-1]['args'][0]
            if x['k'] == 'infer': return None
            return {'k': 'ref', 'mut': False, 't': x} if r else x
        return None
    def selfsub(self, t, n):
        """t with Self replaced"""
        if isinstance(t, list): return [self.selfsub(x, n) for x in t]
        if not isinstance(t, dict): return t
        if t.get('k') == 'path' and [x['id'] for x in t['segs']] == ['Self']:
            return self.P(n, *([self.P('T')] if n in ('Vec', 'Option') else []))
        return {k: self.selfsub(v, n) for k, v in t.items()}

    def find_method(self, ty, name):
        if ty is None: return None
        f = self.m.inherent.get(ty, {}).get(name)
        if f: return f
        for tr in ('GenericHeader', 'Pdu', 'FieldLen', 'FieldSerialize', 'FieldDeserialize', 'FieldDeserializeWithLen'):
            f = self.m.tfn(tr, ty, name)
            if f: return f
        for (tr, t, *_), i in self.m.timpls.items():
            if t == ty and tr in self.m.traits:
                f = self.m.tfn(tr, ty, name)
                if f: return f
        f = None
        for tn, t in self.m.traits.items():
            if (tn, ty) in self.m.timpls:
                for x in t['items']:
                    if x['k'] == 'fn' and x['sig']['name'] == name and x['body'] is not None: f = x
        return f

    # ------------------------------------------------------------ blocks
    def fnbody(self, stmts, ind):
        return self.block(norm.letelse(norm.Norm(self.m, self.owner, self.const).stmts(stmts)), ind, self.expected(self.sig.get('out')))

    def expected(self, t):
        """a type as an expectation: Self resolved"""
        if not t or t.get('k') != 'path' or t.get('qself'): return None
        if t['segs'][0]['id'] == 'Self' and len(t['segs']) == 1: return self.P(self.owner) if self.owner not in ('Vec', 'Option', '') else None
        return t

    def fieldtype(self, rest, v):
        """an array type: that of the field of Self a later struct literal takes the variable v into"""
        got = []
        fs = {x['id']: x['t'] for x in self.m.structs[self.owner]['fields']['fs']} if self.owner in self.m.structs and self.m.structs[self.owner]['fields']['k'] == 'named' else {}
        def f(x):
            if x.get('k') == 'struct' and 'fs' in x and x['path']['segs'][-1]['id'] in ('Self', self.owner):
                for q in x['fs']:
                    if 'e' in q and norm.name(q['e']) == v and q['m'] in fs: got.append(fs[q['m']])
        norm.walk(rest, f)
        return got[0] if len(got) == 1 and got[0]['k'] == 'array' else None

    def block(self, stmts, ind, expect=None):
        out = []
        pad = '    ' * ind
        for s in stmts:     # functions of the block are known before it starts
            if s['k'] == 'item' and s['i']['k'] == 'fn':
                if s['i']['sig']['name'] in self.lfns: raise Unsupported('nested item')
                self.lfns[s['i']['sig']['name']] = dict(s['i'], sig=dict(s['i']['sig'], _mod=self.mod))
        for i, s in enumerate(stmts):
            k = s['k']
            if k == 'let':
                if s.get('else'): raise Unsupported('let else')
                p, t = s['p'], None
                if p['k'] == 'typed': t, p = p['t'], p['p']
                e = s['e']
                if self.owner == 'DISError' and self.depth and t and tname(strip_ref(t)) in ('String', 'str', 'Box', 'Option'): continue     # texts and sources of errors are dropped
                if p['k'] == 'slice' and e is not None:
                    n, et = self.fresh('arr'), t or self.typeof(e)
                    if et and et['k'] != 'array' or any(q['k'] not in ('ident', 'wild') and not (q['k'] == 'rest' and j == len(p['ps']) - 1) for j, q in enumerate(p['ps'])): raise Unsupported('slice pattern')
                    out.append(f'{pad}let {n}{": " + self.ty(t) if t else ""} = {self.ex(e, ind, expect=t)};')
                    for j, q in enumerate(p['ps']):
                        if q['k'] != 'ident': continue
                        self.env[q['id']] = et['t'] if et else None
                        out.append(f'{pad}let {self.pat(q)} = {n}[{j}];')
                    continue
                pt = self.pat(p)
                if e is None:
                    out.append(f'{pad}let {pt}{": " + self.ty(t) if t else ""};')
                else:
                    x = t
                    if x is None and p['k'] == 'ident' and e['k'] in ('mcall', 'call'): x = self.fieldtype(stmts[i + 1:], p['id'])
                    txt = self.ex(e, ind, expect=x)
                    if p['k'] in ('tuple', 'tuplestruct'): self.bindpat(p, t or self.typeof(e))
                    if p['k'] == 'struct': self.bindpat(p, None, e['k'] == 'ref' or norm.name(e) == 'self' and self.sig.get('self') in ('&', '&mut') or norm.name(e) in self.byref)
                    if p['k'] == 'ident':
                        self.env[p['id']] = t or self.typeof(e) or self.littype(e)
                        # only a value typed by the source keeps its annotation
                    out.append(f'{pad}let {pt}{": " + self.ty(t) if t and t["k"] != "infer" else ""} = {txt};')
            elif k == 'expr':
                e = s['e']
                if e['k'] == 'other' and e['src'].strip() == '': continue
                if e['k'] in ('for', 'while', 'loop'):
                    out.append(self.loop(e, ind))
                    continue
                txt = self.ex(e, ind, expect if i == len(stmts) - 1 and not s['semi'] else None)
                if txt == 'v_panic()' and s['semi']: txt = 'v_panic::<()>()'
                last = i == len(stmts) - 1
                out.append(pad + txt + (';' if s['semi'] or (not last and e['k'] not in ('if', 'match', 'block')) else ''))
            elif k == 'item':
                if s['i']['k'] == 'use': continue
                if s['i']['k'] == 'const' and self.const(s['i']['e']) is not None:
                    self.env[s['i']['id']] = s['i']['t']
                    self.lconsts[s['i']['id']] = self.const(s['i']['e'])
                    out.append(f'{pad}let {s["i"]["id"]}: {self.ty(s["i"]["t"])} = {self.const(s["i"]["e"])};')
                    continue
                if s['i']['k'] == 'static':
                    self.lstatics[s['i']['id']] = s['i']['t']
                    continue
                if s['i']['k'] == 'fn':
                    continue
                raise Unsupported('nested item')
            elif k == 'macro':
                if s['name'].endswith(('debug_assert', 'debug_assert_eq', 'trace', 'debug')): continue
                raise Unsupported('macro ' + s['name'])
        return '\n'.join(out)

    def littype(self, e):
        if e['k'] == 'int' and e['suf']: return {'k': 'path', 'segs': [{'id': e['suf'], 'args': []}]}
        if e['k'] == 'call' and e['f']['k'] == 'path' and [x['id'] for x in e['f']['segs']][-2:] == ['vec', 'from_elem']:
            return {'k': 'path', 'segs': [{'id': 'Vec', 'args': [self.littype(e['args'][0]) or {'k': 'infer'}]}]}
        if e['k'] == 'repeat':
            return {'k': 'array', 't': self.littype(e['e']) or {'k': 'infer'}, 'len': e['len']}
        return None

    def br(self, stmts, ind, expect=None):
        return '{\n' + self.block(stmts, ind + 1, expect) + '\n' + '    ' * ind + '}'

    # ------------------------------------------------------------ patterns
    def pat(self, p):
        k = p['k']
        if k == 'ident':
            if p['ref']: raise Unsupported('ref pattern')
            return ('mut ' if p['mut'] else '') + self.ren.get(p['id'], p['id'])
        if k == 'wild': return '_'
        if k == 'typed': return self.pat(p['p'])
        if k == 'tuple': return '(' + ''.join(self.pat(x) + ', ' for x in p['ps']) + ')'
        if k == 'tuplestruct': return self.pathname(p['path']) + '(' + ', '.join(self.pat(x) for x in p['ps']) + ')'
        if k == 'struct':
            return self.pathname(p['path']) + ' { ' + ', '.join(f['m'] + ': ' + self.pat(f['p']) for f in p['fs']) + (', ..' if p['rest'] else '') + ' }'
        if k == 'lit': return self.ex(p['e'], 0)
        if k == 'or': return ' | '.join(self.pat(x) for x in p['ps'])
        if k == 'path': return self.pathname(p)
        if k == 'prange':
            lo, hi = (None if p[x] is None else self.const(p[x]) for x in ('l', 'h'))
            if p['l'] and lo is None or p['h'] and hi is None or p['h'] is None and p['l'] is None: raise Unsupported('range pattern')
            return f'{"" if lo is None else lo}..{"=" if p["incl"] else ""}{"" if hi is None else hi}'
        raise Unsupported('pattern ' + str(p)[:60])

    def pathname(self, p):
        s = p['segs']
        ids = [x['id'] for x in s]
        if p.get('qself'): raise Unsupported('qualified path')
        if len(ids) >= 2 and ids[-2] == 'Self': ids[-2] = self.owner
        if ids[-1] in ('Some', 'None', 'Ok', 'Err'): return ids[-1]
        if len(ids) == 1: return self.owner if ids[0] == 'Self' else self.ren.get(ids[0], ids[0])
        if ids[-2] in self.m.enums or ids[-2] in self.m.structs: return ids[-2] + '::' + ids[-1]
        return ids[-1]

    def variant(self, e):
        """(enum, code) of a path or pattern naming a variant of a C-like enum"""
        if e['k'] != 'path' or e.get('qself') or len(e['segs']) < 2: return None
        en = e['segs'][-2]['id']
        if en == 'Self': en = self.owner
        if en not in self.g.enums: return None
        v = self.g.codes.get(en, {}).get(e['segs'][-1]['id'])
        return None if v is None else (en, v)

    # ------------------------------------------------------------ expressions
    def args(self, xs, ind): return ', '.join(self.arg(x, ind) for x in xs)
    def arg(self, x, ind):
        """a parameter of an inlined helper that is a reference stands for the place itself"""
        n = norm.name(x)
        if n in self.placeref: return f'{self.placeref[n]}{self.ex(x, ind)}'
        if n == 'self' and self.selfplace: return f'{self.selfplace}{self.ex(x, ind)}'
        return self.ex(x, ind)

    def ex(self, e, ind=0, expect=None):
        k = e['k']
        f = getattr(self, 'x_' + k, None)
        if f is None: raise Unsupported(k + ' ' + str(e)[:60])
        if k in ('struct', 'if', 'match', 'block', 'repeat', 'call', 'array', 'mcall'): return f(e, ind, expect)
        return f(e, ind)

    def x_int(self, e, ind): return e['v'] + e['suf']
    def x_bool(self, e, ind): return 'true' if e['v'] else 'false'
    def x_float(self, e, ind):
        import struct
        v = float(e['v'].replace('_', ''))
        b32, b64 = struct.unpack('>I', struct.pack('>f', v))[0], struct.unpack('>Q', struct.pack('>d', v))[0]
        return 'v_flit' + (f'::<{e["suf"]}>' if e['suf'] else '') + f'({b32}u32, {b64}u64)'
    def x_str(self, e, ind): return '"' + e['v'].encode('unicode_escape').decode() + '"'

    def x_path(self, e, ind):
        v = self.variant(e)
        if v: return f'({v[0]} {{ d: {v[1]} }})'
        c = self.constpath(e)
        if c is not None and (len(e['segs']) > 1 or e['segs'][0]['id'] not in self.env):
            t = 'usize'
            s = e['segs']
            d = self.m.find('const', s[-1]['id'], self.mod, [x['id'] for x in s[:-1]]) if len(s) == 1 or s[-2]['id'] not in self.m.structs else None
            if d: t = tname(d['t'])
            if len(s) == 2 and s[0]['id'] in INTS: t = 'u32' if s[1]['id'] == 'BITS' else s[0]['id']
            return f'{c}{t}' if c >= 0 else f'({c}{t})'
        s = e['segs']
        if len(s) > 1 and not e.get('qself') and s[-1]['id'].isupper() and (s[-2]['id'] in INTS or s[-2]['id'] in ('f32', 'f64', 'consts')): raise Unsupported('::'.join(x['id'] for x in s))
        if len(s) == 1 and not e.get('qself'):
            n = s[0]['id']
            if n == 'self': return self.selfexpr
            if n == 'Self': return self.owner
            return self.ren.get(n, n)
        return self.pathname(e)

    def x_field(self, e, ind):
        return self.ex(e['e'], ind) + '.' + e['m']

    def x_index(self, e, ind):
        if e['i']['k'] == 'range':
            r = e['i']
            b = self.ex(e['e'], ind)
            lo = self.ex(r['l'], ind) if r['l'] else '0'
            if not r['h']: hi = f'{b}.len()'
            else: hi = self.ex(r['h'], ind) + (' + 1' if r['incl'] else '')
            return f'*slice_of(&{b}, {lo}, {hi})'
        return f'{self.ex(e["e"], ind)}[{self.ex(e["i"], ind)}]'

    def x_bin(self, e, ind):
        op = e['op']
        if op in ('==', '!='):
            t = self.typeof(e['l']) or self.typeof(e['r'])
            if t and self.tyname(strip_ref(t)) in self.g.enums: return f'({self.ex(e["l"], ind)}.d {op} {self.ex(e["r"], ind)}.d)'
        if op in OPTR:
            n = self.tyname(strip_ref(self.typeof(e['l']))) if self.typeof(e['l']) else None
            if n in self.m.structs:
                tr, f = OPTR[op]
                if (n, f'{tr}::{f}') in self.opfns(): return f'({self.ex(e["l"], ind)}).op_{f}({self.ex(e["r"], ind)})'
                fn = self.m.tfn(tr, n, f)
                if not fn: raise Unsupported('operator on ' + n)
                return self.inline(fn, n, e['l'], [e['r']], ind)
        if op in FOPS and self.isfloat(e):
            l, r = self.ex(e['l'], ind), self.ex(e['r'], ind)
            return f'{FOPS[op]}({l}, {r})' if not op.endswith('=') or op == '==' else f'{l} = {FOPS[op]}({l}, {r})'
        if op in ('<', '<=', '>', '>=', '!=') and self.isfloat(e):
            l, r = self.ex(e['l'], ind), self.ex(e['r'], ind)
            return {'<': f'v_flt({l}, {r})', '>': f'v_flt({r}, {l})', '<=': f'v_fle({l}, {r})', '>=': f'v_fle({r}, {l})', '!=': f'(!v_feq({l}, {r}))'}[op]
        if op in ('+=', '-=', '*=', '/=', '|=', '&=', '^=', '<<=', '>>=', '%='):
            l = self.ex(e['l'], ind)
            return f'{l} = {l} {op[:-1]} ({self.ex(e["r"], ind)})'
        if op in ('<<', '>>', '&', '|'):
            r = self.bits(op, e['l'], e['r'], ind)
            if r: return r
        if op == '*' and self.const(e['l']) is None and self.const(e['r']) is None and tname(strip_ref(self.typeof(e['l']))) not in ('f32', 'f64'):
            x, y = self.fresh('x'), self.fresh('y')
            return f'({{ let {x} = {self.ex(e["l"], ind)}; let {y} = {self.ex(e["r"], ind)}; proof {{ lemma_mul_bound({x} as int, {y} as int); }} {x} * {y} }})'
        return f'({self.ex(e["l"], ind)} {op} {self.ex(e["r"], ind)})'

    def minshift(self, e):
        """c such that the value is a multiple of 2^c by its shape"""
        while e['k'] in ('paren', 'group'): e = e['e']
        if e['k'] == 'bin' and e['op'] == '<<': return self.const(e['r']) or 0
        if e['k'] == 'bin' and e['op'] in ('|', '+'): return min(self.minshift(e['l']), self.minshift(e['r']))
        return 0
    def bits(self, op, l, r, ind):
        """shifts, masks and unions of disjoint bits on unsigned integers, with their arithmetic meaning (each fact is proved by the bit-vector back end)"""
        t = tname(strip_ref(self.typeof(l)))
        if t not in INTS and op in ('&', '|'): t = tname(strip_ref(self.typeof(r)))
        if t not in ('u8', 'u16', 'u32', 'u64', 'usize'): return None
        w, x, y = INTS[t], self.fresh('x'), self.fresh('y')
        c, cl = self.const(r), self.const(l)
        if op == '<<':
            if c is None or not 0 <= c < w or cl is not None: return None
            b = f'vstd::bits::lemma_{t}_shl_is_mul({x}, {c});' if t != 'u8' else f'vstd::bits::lemma_u8_shl_is_mul({x}, {c});'
            return f'({{ let {x}: {t} = {self.ex(l, ind)}; proof {{ lemma_octets(); if {x} * {1 << c} <= {t}::MAX {{ assert(vstd::arithmetic::power2::pow2({c}) == {1 << c}) by {{ vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest(); }} {b} }} }} {x} << {c} }})'
        if op == '>>':
            if c is None or not 0 <= c < w or cl is not None: return None
            return f'({{ let {x}: {t} = {self.ex(l, ind)}; proof {{ lemma_octets(); assert({x} >> {c} == {x} / {1 << c}) by (bit_vector); }} {x} >> {c} }})'
        if op == '&':
            n = lambda z: self.const(z['e']) if z['k'] == 'un' and z['op'] == '!' else None
            if n(l) is not None: l, r = r, l
            if n(r) is not None and self.const(l) is None:
                c = n(r)
                if c & (c + 1) or c == 0: return None
                return f'({{ let {x}: {t} = {self.ex(l, ind)}; proof {{ lemma_octets(); assert({x} & !{c}{t} == {x} - {x} % {c + 1}) by (bit_vector); }} {x} & !{c}{t} }})'
            if c is None: l, c = r, cl
            if c is None or self.const(l) is not None or not 0 <= c < 1 << w: return None
            if c & (c + 1) == 0 and c + 1 < 1 << w: f = f'{x} & {c} == {x} % {c + 1}'
            else:
                q = (1 << w) - c
                if q & (q - 1) or q == 1 or c == 0 or t == 'usize': return None
                f = f'{x} & {c} == {x} - {x} % {q}'
            return f'({{ let {x}: {t} = {self.ex(l, ind)}; proof {{ lemma_octets(); assert({f}) by (bit_vector); }} {x} & {c} }})'
        a, b = self.minshift(l), self.minshift(r)
        if a == b == 0: return None
        if a < b: l, r, a = r, l, b
        p = 1 << a
        return f'({{ let {x}: {t} = {self.ex(l, ind)}; let {y}: {t} = {self.ex(r, ind)}; proof {{ lemma_octets(); assert({x} % {p} == 0 && {y} < {p} ==> ({x} | {y}) == add({x}, {y}) && {x} <= sub({t}::MAX, {p - 1})) by (bit_vector); }} {x} | {y} }})'

    def opfns(self):
        return {(t, n) for t, d in self.g.fns.items() for n in d['fns'] if '::' in n}
    def isfloat(self, e):
        ts = [tname(strip_ref(t)) for t in (self.typeof(e['l']), self.typeof(e['r'])) if t]
        if 'f64' in ts: raise Unsupported('f64 arithmetic')
        return e['l']['k'] == 'float' or e['r']['k'] == 'float' or 'f32' in ts
    def x_un(self, e, ind):
        if e['op'] == '-' and tname(strip_ref(self.typeof(e['e']))) == 'f32': return f'v_fneg({self.ex(e["e"], ind)})'
        return self.x_un0(e, ind)
    def x_un0(self, e, ind):
        if e['op'] == '*' and (norm.name(e['e']) in self.placeref or norm.name(e['e']) == 'self' and self.selfplace): return self.wrap(e['e'], ind)
        return f'{e["op"]}{self.wrap(e["e"], ind)}'
    def wrap(self, e, ind):
        s = self.ex(e, ind)
        return s if e['k'] in ('path', 'field', 'int', 'call', 'mcall', 'index') else f'({s})'
    def x_assign(self, e, ind):
        if e['l']['k'] == 'path' and e['l']['segs'][-1]['id'] == '_': return f'let _ = {self.ex(e["r"], ind)}'
        return f'{self.ex(e["l"], ind)} = {self.ex(e["r"], ind)}'
    def x_cast(self, e, ind):
        t = self.ty(e['t'])
        v = self.variant(e['e'])
        if v and t in INTS and 0 <= v[1] < 2 ** (INTS[t] - 1): return f'({v[1]}{t})'
        if e['e']['k'] == 'int' and t in INTS: return f'({self.ex(e["e"], ind)} as {t})'
        if t not in INTS: raise Unsupported('cast to ' + t)
        return f'cast_{t}({self.ex(e["e"], ind)})'
    def x_ref(self, e, ind):
        s = self.ex(e['e'], ind)
        if s.startswith('*slice_of'): return s[1:]
        return '&' + ('mut ' if e['mut'] else '') + (s if e['e']['k'] in ('path', 'field', 'index') else f'({s})')
    def x_block(self, e, ind, expect=None): return self.br(e['b'], ind, expect)

    def cond(self, c, ind):
        if c['k'] == 'letcond': return f'let {self.pat(c["p"])} = {self.ex(c["e"], ind)}'
        return self.ex(c, ind)

    def x_if(self, e, ind, expect=None):
        if e['c']['k'] == 'letcond':
            c = e['c']
            if self.is_enum_pat(c['p']):
                return self.x_match({'e': c['e'], 'arms': [{'p': c['p'], 'g': None, 'e': norm.block(e['t'])}, {'p': {'k': 'wild'}, 'g': None, 'e': e['e'] or norm.block([])}]}, ind, expect)
            self.bindpat(c['p'], self.typeof(c['e']))
        s = f'if {self.cond(e["c"], ind)} {self.br(e["t"], ind, expect)}'
        if e['e']: s += ' else ' + (self.x_if(e['e'], ind, expect) if e['e']['k'] == 'if' else self.ex(e['e'], ind, expect) if e['e']['k'] == 'block' else '{' + self.ex(e['e'], ind, expect) + '}')
        return s

    def is_enum_pat(self, p):
        if p['k'] == 'or': return any(self.is_enum_pat(x) for x in p['ps'])
        return p['k'] == 'path' and self.variant(p) is not None

    def x_match(self, e, ind, expect=None):
        arms = e['arms']
        pad = '    ' * (ind + 1)
        sexp = self.opt(expect) if any(a['p']['k'] == 'tuplestruct' and a['p']['path']['segs'][-1]['id'] == 'Some' and len(a['p']['ps']) == 1 and a['p']['ps'][0]['k'] == 'ident' and norm.name(norm.unblock(a['e'])) == a['p']['ps'][0]['id'] for a in arms) else None
        if any(self.is_enum_pat(a['p']) for a in arms):
            en = None
            out, wild = [], False
            t = self.fresh('m')
            for a in arms:
                ps = a['p']['ps'] if a['p']['k'] == 'or' else [a['p']]
                lits, bound = [], None
                for p in ps:
                    v = self.variant(p) if p['k'] == 'path' else None
                    if v: en = v[0]; lits.append(str(v[1]))
                    elif p['k'] == 'wild': lits.append('_'); wild = True
                    elif p['k'] == 'ident':
                        if a['g']: raise Unsupported('guard on a binding arm')
                        lits.append('_'); wild = True; bound = p['id']
                    else: raise Unsupported('enum match pattern')
                g = f' if {self.ex(a["g"], ind)}' if a['g'] else ''
                if bound:
                    self.env[bound] = self.typeof(e['e'])
                    out.append(f'{pad}{" | ".join(lits)} => {{ let {self.ren.get(bound, bound)} = {t}; {self.ex(a["e"], ind + 1, expect)} }},')
                else: out.append(f'{pad}{" | ".join(lits)}{g} => {self.ex(a["e"], ind + 1, expect)},')
            if not wild: out.append(f'{pad}_ => undeclared_{en}({t}),')
            return f'{{ let {t} = {self.ex(e["e"], ind)}; match {t}.d {{\n' + '\n'.join(out) + '\n' + '    ' * ind + '} }'
        out = []
        st = self.typeof(e['e'])
        for a in arms:
            self.bindpat(a['p'], st)
            g = f' if {self.ex(a["g"], ind)}' if a['g'] else ''
            out.append(f'{pad}{self.pat(a["p"])}{g} => {self.ex(a["e"], ind + 1, expect)},')
        sc = self.ex(e['e'], ind, sexp)
        x = e['e']
        if x['k'] == 'path' and len(x['segs']) == 1 and sc != x['segs'][0]['id'] and (x['segs'][0]['id'] == 'self' and self.sig.get('self') or x['segs'][0]['id'] in self.byref): sc = '&' + sc
        return f'match {sc} {{\n' + '\n'.join(out) + '\n' + '    ' * ind + '}'

    def bindpat(self, p, st, byref=None):
        """types of the names a pattern binds (all by reference or value; refs are not tracked)"""
        if st and p['k'] == 'ident': self.env[p['id']] = st
        if st and p['k'] == 'tuplestruct' and p['path']['segs'][-1]['id'] in ('Some', 'Ok') and len(p['ps']) == 1: self.bindpat(p['ps'][0], self.inner(st))
        if st and p['k'] == 'tuple' and st['k'] == 'tuple':
            for q, t in zip(p['ps'], st['ts']): self.bindpat(q, t)
        if p['k'] == 'struct':
            n = p['path']['segs'][-1]['id']
            en = p['path']['segs'][-2]['id'] if len(p['path']['segs']) > 1 else None
            if en == 'Self': en = self.owner
            if n == 'Self': n = self.owner
            if en is None and n in self.m.structs and byref is not None:
                ft = {f['id']: f['t'] for f in self.m.structs[n]['fields']['fs']}
                for f in p['fs']:
                    if f['p']['k'] == 'ident' and f['m'] in ft:
                        self.env[f['p']['id']] = {'k': 'ref', 'mut': False, 't': ft[f['m']]} if byref else ft[f['m']]
                        if byref: self.refs.add(f['p']['id'])
            if en in self.m.enums:
                for v in self.m.enums[en]['variants']:
                    if v['id'] == n:
                        ft = {f['id']: f['t'] for f in v['fields']['fs']}
                        for f in p['fs']:
                            if f['p']['k'] == 'ident' and f['m'] in ft:
                                self.env[f['p']['id']] = ft[f['m']]
                                self.refs.add(f['p']['id'])

    def x_struct(self, e, ind, expect=None):
        n = self.pathname(e['path'])
        if e['path']['segs'][-1]['id'] == 'Header': n = 'PduHeader'
        if n.startswith('DISError::'):
            keep = self.g.diserr[n.split('::')[1]]
            return n + ' { ' + ', '.join(f['m'] + ': ' + self.ex(f['e'], ind) for f in e['fs'] if f['m'] in keep) + ' }'
        pad = '    ' * (ind + 1)
        s = n + ' {\n'
        owner = n.split('::')[0]
        ft = {x['id']: x['t'] for x in self.m.structs[n]['fields']['fs']} if n in self.m.structs and self.m.structs[n]['fields']['k'] == 'named' else {}
        for f in e['fs']: s += f'{pad}{f["m"]}: {self.ex(f["e"], ind + 1, ft.get(f["m"]))},\n'
        if e['base']:
            b = e['base']
            if b['k'] == 'call' and b['f']['k'] == 'path' and b['f']['segs'][-1]['id'] == 'default': bs = f'<{n} as VDefault>::default()'
            else: bs = self.ex(b, ind)
            have = {f['m'] for f in e['fs']}
            t = self.fresh('base')
            rest = [f['id'] for f in self.m.structs[n]['fields']['fs'] if f['id'] not in have]
            s += ''.join(f'{pad}{r}: {t}.{r},\n' for r in rest)
            return f'{{ let {t} = {bs}; ' + s + '    ' * ind + '} }'
        return s + '    ' * ind + '}'

    def x_return(self, e, ind):
        if self.depth: 
            r = e['e']
            if not (self.tryinline and r and r['k'] == 'call' and r['f']['k'] == 'path' and r['f']['segs'][-1]['id'] == 'Err'):
                raise Unsupported('return in an inlined function')
        return 'return' + (' ' + self.ex(e['e'], ind) if e['e'] else '')
    tryinline = False
    def x_break(self, e, ind): return 'break'
    def x_continue(self, e, ind): raise Unsupported('continue')
    def x_try(self, e, ind):
        if self.depth and not self.tryinline: raise Unsupported('? in an inlined function')
        x = e['e']
        if x['k'] in ('call', 'mcall'):
            s = self.ex_try_inline(x, ind)
            if s is not None: return s + '?'
        return self.wrap(x, ind) + '?'
    def x_tuple(self, e, ind): return '(' + ''.join(self.ex(x, ind) + ', ' for x in e['es']) + ')' if e['es'] else '()'
    def x_array(self, e, ind, expect=None): return '[' + self.args(e['es'], ind) + ']'
    def x_repeat(self, e, ind, expect=None):
        return f'[{self.ex(e["e"], ind)}; {self.constval(e["len"])}]'
    def x_unsafe(self, e, ind): raise Unsupported('unsafe')
    def x_for(self, e, ind): return '{\n' + self.loop(e, ind) + '}'
    x_while = x_for
    x_loop = x_for
    def x_letcond(self, e, ind): return self.cond(e, ind)
    def x_macro(self, e, ind): raise Unsupported('macro ' + e['name'])
    def x_other(self, e, ind): raise Unsupported('syntax ' + e['src'][:40])
    def x_char(self, e, ind): raise Unsupported('char')
    def x_closure(self, e, ind): raise Unsupported('closure')
    def x_range(self, e, ind): raise Unsupported('range value')

    # ------------------------------------------------------------ calls
    def ex_try_inline(self, x, ind):
        old = self.tryinline
        self.tryinline = True
        try:
            return self.ex(x, ind)
        finally:
            self.tryinline = old

    def generics(self, fn, args, targs, expect):
        """fn with the type parameters that stand for a type of the library replaced by it"""
        ps = [p['id'] for p in fn['sig']['generics']['params'] if p['k'] == 'type']
        bufts = {tname(strip_ref(i['t'])) for i in fn['sig']['ins'] if i['t'].get('k') == 'ref' and i['t']['mut']}
        free = [p for p in ps if p not in bufts]
        cons = [p['id'] for p in fn['sig']['generics']['params'] if p['k'] == 'const']
        if not free and not cons: return fn
        got, gotc = {}, {}
        def unify(t, c):
            t, c = strip_ref(t), strip_ref(c)
            if t and c and t.get('k') == 'array' == c.get('k'):
                if norm.name(t['len']) in cons and self.const(c['len']) is not None: gotc.setdefault(norm.name(t['len']), norm.intlit(self.const(c['len']), 'usize'))
                unify(t['t'], c['t'])
                return
            if not t or not c or t.get('k') != 'path' or c.get('k') != 'path' or c.get('qself'): return
            if len(t['segs']) == 1 and t['segs'][0]['id'] in free: got.setdefault(t['segs'][0]['id'], c); return
            for a, b in zip(t['segs'][-1]['args'], c['segs'][-1]['args']): unify(a, b)
        for p, a in zip(ps, targs or []): unify(self.P(p), self.expected(a))
        if fn['sig']['out'] and expect: unify(fn['sig']['out'], expect)
        for i, a in zip(fn['sig']['ins'], args):
            t = self.typeof(a)
            if t: unify(i['t'], t)
        got = {k: self.P('PduHeader') if tname(v) == 'Header' else v for k, v in got.items()}
        got = {k: v for k, v in got.items() if len(v['segs']) and (tname(v) in self.m.enums or tname(v) in self.m.structs or tname(v) in INTS)}
        if not got and not gotc: return fn
        def sub(x):
            if isinstance(x, list): return [sub(y) for y in x]
            if isinstance(x, dict):
                if norm.name(x) in gotc: return gotc[norm.name(x)]
                x = {k: sub(v) for k, v in x.items()}
                if x.get('k') == 'path' and not x.get('qself') and x['segs'][0]['id'] in got: x['segs'] = got[x['segs'][0]['id']]['segs'] + x['segs'][1:]
                return x
            return x
        sig = dict(fn['sig'], ins=sub(fn['sig']['ins']), out=sub(fn['sig']['out']), generics=dict(fn['sig']['generics'], params=[p for p in fn['sig']['generics']['params'] if p['id'] not in got and p['id'] not in gotc]))
        return dict(fn, sig=sig, body=sub(fn['body']))

    def inline(self, fn, owner, recv, args, ind, targs=None, expect=None):
        """body of fn with parameters replaced"""
        local = any(fn is f for f in self.lfns.values())
        if any(i['t'].get('k') == 'other' and i['t']['src'].startswith('impl ') for i in fn['sig']['ins']):
            # an argument of a type known by its bounds only has the type of what is given
            ts = [(self.typeof(a) if i['t'].get('k') == 'other' and i['t']['src'].startswith('impl IntoIter') else None) for i, a in zip(fn['sig']['ins'], args)]
            ts = [{'k': 'ref', 'mut': False, 't': strip_ref(x)} if x and (a['k'] == 'ref' and not a['mut'] or norm.name(a) == 'self' and self.sig.get('self') == '&' or norm.name(a) in self.byref) else x for x, a in zip(ts, args)]
            fn = dict(fn, sig=dict(fn['sig'], ins=[dict(i, t=x) if x else i for i, x in zip(fn['sig']['ins'], ts)]))
        fn = self.generics(fn, args, targs, expect)
        if self.depth > 6: raise Unsupported('recursion')
        fbody = fn['body']
        sub = Lower(self.g, owner, fn['sig'])
        if local: sub.lfns = dict(self.lfns)
        gens = {p['id']: p['bounds'] for p in fn['sig']['generics']['params'] if p['k'] == 'type'}
        bufts = {tname(strip_ref(i['t'])) for i in fn['sig']['ins'] if i['t'].get('k') == 'ref' and i['t']['mut']}
        sub.tparams = {k: v for k, v in gens.items() if k not in bufts}
        rest = []
        ins = fn['sig']['ins']
        clos = [a['e'] if a['k'] == 'ref' else a for a in args]
        clos = [f for f in clos if f['k'] == 'closure']
        if clos:
            # names the closures take from the caller keep their meaning: what the callee calls by the same name is renamed
            fr = set().union(*(norm.free(f) for f in clos))
            own = locals_of(fbody) | {i['p']['id'] for i in ins if i['p']['k'] == 'ident'}
            ren = {n: norm.fresh(n) for n in sorted(fr & own)}
            fbody = norm.rename(fbody, ren)
            ins = [dict(i, p=dict(i['p'], id=ren.get(i['p']['id'], i['p']['id']))) if i['p']['k'] == 'ident' else i for i in ins]
            for o, n in ren.items(): sub.env[n] = sub.env.get(o); sub.bufs.pop(o, None)
            for n in fr:
                if n == 'self' or n not in self.env and n not in self.ren: continue
                sub.env[n] = self.env.get(n)
                sub.ren[n] = self.ren.get(n, n)
        args = [(lambda f, a: a if f['k'] != 'closure' else self.closed(f, sub))(a['e'] if a['k'] == 'ref' else a, a) for a in args]
        for p, a in zip(ins, args):
            # a closure or a function as an argument
            f = a['e'] if a['k'] == 'ref' else a
            if p['p']['k'] == 'ident' and (f['k'] == 'closure' or (f['k'] == 'path' and len(f['segs']) > 1 and self.isfn(f))):
                fbody = norm.beta(fbody, p['p']['id'], f)
                if fbody is None: raise Unsupported('function as a value')
                rest.append(None)
            else: rest.append(a)
        fbody = norm.Norm(self.m, owner, self.const if owner == self.owner else None).stmts(fbody)
        if norm.has(fbody, 'return', 'try') or any(x['k'] == 'let' and x.get('else') for x in fbody):
            o = tname(fn['sig']['out']) if fn['sig']['out'] else None
            fbody = norm.deret(fbody, 'Option' if o == 'Option' else 'Result' if o in ('Result', 'DISResult') else None)
        sub.depth = self.depth + 1
        sub.clocked = self.clocked
        sub.n = self.n + 100 * (self.depth + 1)
        self.n = sub.n
        sub.tryinline = self.tryinline
        lets = ''
        sub.bufs = {}
        if recv is not None:
            r = recv
            while r['k'] == 'ref' or (r['k'] == 'un' and r['op'] == '*'): r = r['e']
            s = self.ex(r, ind)
            if r['k'] in ('path', 'field', 'index'):
                sub.selfexpr = s
                t = self.typeof(r) if r['k'] == 'path' else None
                place = r['k'] != 'path' or (bool(self.selfplace) if norm.name(r) == 'self' else norm.name(r) in self.placeref or bool(t) and t['k'] != 'ref')
                if place: sub.selfplace = {'&': '&', '&mut': '&mut '}.get(fn['sig']['self'])
            else:
                n = self.fresh('recv'); lets += f'let {n} = {s}; '; sub.selfexpr = n
        for f in clos:
            for n in norm.free(f):
                if n in self.bufs: sub.bufs[n] = self.bufs[n]
        for p, a in zip(ins, rest):
            if p['p']['k'] == 'wild' or a is None: continue
            if p['p']['k'] != 'ident': raise Unsupported('parameter pattern')
            n = p['p']['id']
            if owner == 'DISError' and tname(strip_ref(p['t'])) not in PRIM: continue   # texts and sources of errors are dropped
            simple = a
            while simple['k'] == 'ref': simple = simple['e']
            s = self.ex(simple, ind, p['t'] if tname(p['t']) in PRIM else None)
            if p['t']['k'] == 'ref' and simple['k'] in ('path', 'field'):
                sub.ren[n] = s
                if a['k'] == 'ref': sub.placeref[n] = '&mut ' if a['mut'] else '&'
                elif norm.name(a) in self.placeref: sub.placeref[n] = self.placeref[norm.name(a)]
                elif norm.name(a) == 'self' and self.selfplace: sub.placeref[n] = self.selfplace
                if simple['k'] == 'path' and simple['segs'][-1]['id'] in self.bufs: sub.bufs[n] = self.bufs[simple['segs'][-1]['id']]
            elif p['t']['k'] != 'ref' and simple['k'] == 'path' and len(simple['segs']) == 1 and not p['p']['mut'] and a['k'] == 'path':
                sub.ren[n] = s
            else:
                v = self.fresh(n)
                try: tt = ': ' + sub.ty(p['t'])
                except Unsupported: tt = ''
                lets += f'let {"mut " if p["p"]["mut"] else ""}{v}{tt} = {self.ex(a, ind, p["t"] if tname(p["t"]) in PRIM else None)}; '
                sub.ren[n] = v
        # locals of the inlined body must not capture the caller's names: rename them
        for l in sorted(locals_of(fbody)):
            if l not in sub.ren: sub.ren[l] = self.fresh(l)
        body = sub.block(fbody, ind + 1, sub.expected(fn['sig']['out']))
        self.untemplated += sub.untemplated
        self.n = max(self.n, sub.n)
        return '({ ' + lets + '\n' + body + '\n' + '    ' * ind + '})'

    def closed(self, f, sub):
        """a closure of this function as it is read inside a callee: self and Self stay this function's"""
        if norm.mentions(f, 'self'):
            f = norm.rename(f, {'self': 'self__c'})
            sub.ren['self__c'], sub.env['self__c'] = self.selfexpr, self.selftype
        def g(x):
            if isinstance(x, list): return [g(y) for y in x]
            if isinstance(x, dict):
                x = {k: g(v) for k, v in x.items()}
                if x.get('k') == 'path' and len(x['segs']) > 1 and x['segs'][0]['id'] == 'Self': x['segs'] = [dict(x['segs'][0], id=self.owner)] + x['segs'][1:]
            return x
        return g(f)

    def isfn(self, f):
        ids = [x['id'] for x in f['segs']]
        q = self.owner if ids[-2] == 'Self' else ids[-2]
        return ids[-1][0].islower() and (q in self.m.structs or q in self.m.enums or q in self.m.traits or q in self.tparams)

    def x_arrfill(self, e, ind):
        t = self.typeof(e['e'])
        n = self.tyname(strip_ref(t)) if t else None
        if n in INTS: z = norm.intlit(0, n)
        elif n in ('f32', 'f64'): z = {'k': 'float', 'v': '0.0', 'suf': n}
        else: raise Unsupported('array of ' + str(n))
        a, i = norm.fresh('a'), norm.fresh('i')
        if n in ('f32', 'f64') and e['n'] <= 16:
            vs = [norm.fresh('a') for _ in range(e['n'])]
            return self.x_block(norm.block([norm.let(norm.ident(v), e['e']) for v in vs] + [norm.st({'k': 'array', 'es': [norm.P(v) for v in vs]}, False)]), ind)
        return self.x_block(norm.block([
            norm.let(norm.ident(a, True), {'k': 'repeat', 'e': z, 'len': norm.intlit(e['n'])}),
            norm.st({'k': 'for', 'p': norm.ident(i), 'e': {'k': 'range', 'l': norm.intlit(0), 'h': norm.intlit(e['n'], 'usize'), 'incl': False},
                     'b': [norm.st({'k': 'assign', 'l': {'k': 'index', 'e': norm.P(a), 'i': norm.P(i)}, 'r': e['e']})]}),
            norm.st(norm.P(a), False)]), ind)

    def x_mcall(self, e, ind, expect=None):
        m, r, a = e['m'], e['r'], e['args']
        if m == 'put_be':
            t = self.tyname(strip_ref(self.typeof(a[0]))) if self.typeof(a[0]) else None
            if t not in PRIM - {'usize', 'isize', 'bool'}: raise Unsupported('to_be_bytes')
            return f'{self.wrap(r, ind)}.put_{t}({self.ex(a[0], ind)})'
        h = self.havoc(e, ind)
        if h: return h
        if m == 'take_out' and not a and r['k'] == 'call' and expect: return f'{self.ex(r, ind, expect)}.take_out()'
        if m == 'take_out' and not a: return f'{self.wrap(r, ind)}.take_out()'
        if m == 'get' and len(a) == 1:
            t = strip_ref(self.typeof(r))
            if t and t['k'] == 'slice' and a[0]['k'] == 'range':
                q = a[0]
                if q['incl'] or (q['h'] is None): raise Unsupported('slice range')
                return f'v_get_range({self.ex(r, ind)}, {self.ex(q["l"], ind) if q["l"] else "0"}, {self.ex(q["h"], ind)})'
            if t and t['k'] == 'slice': return f'v_get({self.ex(r, ind)}, {self.ex(a[0], ind)})'
        if m == 'first' and not a:
            t = strip_ref(self.typeof(r))
            if t and t['k'] == 'slice': return f'v_get({self.ex(r, ind)}, 0)'
        if m == 'to_bits' and not a: return f'v_to_bits_{tname(strip_ref(self.typeof(r)))}({self.ex(r, ind)})'
        if m in ('put_u16_le', 'put_u32_le', 'put_u64_le', 'put_u16_ne', 'put_u32_ne', 'put_u64_ne'): return f'{self.wrap(r, ind)}.{m[:-3]}(v_swapped_{m[4:-3]}({self.args(a, ind)}))'
        if m in ('get_u16_le', 'get_u32_le', 'get_u64_le', 'get_u16_ne', 'get_u32_ne', 'get_u64_ne'): return f'v_swapped_{m[4:-3]}({self.wrap(r, ind)}.{m[:-3]}())'
        if m == 'swap_bytes' and not a and tname(strip_ref(self.typeof(r))) in ('u16', 'u32', 'u64'): return f'v_swapped_{tname(strip_ref(self.typeof(r)))}({self.ex(r, ind)})'
        # idioms
        if m == 'unwrap_or_else' and len(a) == 1 and a[0]['k'] == 'path' and a[0]['segs'][-1]['id'] == 'default':
            return f'v_unwrap_or_default({self.ex(r, ind, self.opt(expect))})'
        if m == 'unwrap_or_default': return f'v_unwrap_or_default({self.ex(r, ind, self.opt(expect))})'
        if m == 'unwrap_or' and len(a) == 1 : return f'v_unwrap_or({self.ex(r, ind, self.opt(expect))}, {self.ex(a[0], ind)})'
        if m in ('expect', 'unwrap'): return f'v_expect({self.ex(r, ind)})'
        if m == 'map_err' and a[0]['k'] == 'closure':
            t = self.fresh('e')
            return f'(match {self.ex(r, ind)} {{ Ok(v_) => Ok(v_), Err(_) => Err({self.ex(a[0]["e"], ind)}) }})'
        if m == 'ok_or_else' and a[0]['k'] == 'closure':
            return f'(match {self.ex(r, ind)} {{ Some(v_) => Ok(v_), None => Err({self.ex(a[0]["e"], ind)}) }})'
        if m == 'ok_or':
            return f'(match {self.ex(r, ind)} {{ Some(v_) => Ok(v_), None => Err({self.ex(a[0], ind)}) }})'
        if m == 'sum' and r['k'] == 'mcall' and r['m'] == 'map' and r['r']['k'] == 'mcall' and r['r']['m'] == 'iter':
            f = r['args'][0]
            if (f['k'] == 'path' and f['segs'][-1]['id'] == 'field_len') or \
               (f['k'] == 'closure' and f['e']['k'] == 'mcall' and f['e']['m'] == 'field_len' and f['ps'][0]['k'] == 'ident' and f['e']['r']['k'] == 'path' and f['e']['r']['segs'][0]['id'] == f['ps'][0]['id']):
                return f'v_sum_field_len(&{self.ex(r["r"]["r"], ind)})'
        if m == 'map_or' and r['k'] == 'mcall' and r['m'] == 'as_ref':
            f = a[1]
            if f['k'] == 'path' and f['segs'][-1]['id'] == 'field_len': b = 'v_.field_len()'
            elif f['k'] == 'closure' and f['ps'][0]['k'] == 'ident':
                self.ren[f['ps'][0]['id']] = 'v_'
                b = self.ex(f['e'], ind)
            else: raise Unsupported('map_or')
            return f'(match &{self.ex(r["r"], ind)} {{ Some(v_) => {b}, None => {self.ex(a[0], ind)} }})'
        if m == 'as_ref' and not a: return f'(&{self.ex(r, ind)})'
        if m in ('div_ceil', 'saturating_sub', 'saturating_add', 'saturating_mul', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'min', 'max', 'is_multiple_of', 'next_multiple_of', 'rem_euclid', 'abs_diff', 'wrapping_neg', 'checked_add', 'checked_sub', 'mul_add', 'sqrt'):
            if m in ('wrapping_mul', 'saturating_mul', 'next_multiple_of'): raise Unsupported(m)
            if m in ('abs_diff', 'is_multiple_of') and (self.typeof(r) is None or tname(strip_ref(self.typeof(r))) not in ('u8', 'u16', 'u32', 'u64', 'usize')): raise Unsupported(m)
            return f'v_{m}({self.ex(r, ind)}{"".join(", " + self.ex(x, ind) for x in a)})'
        if m in ('is_some', 'is_none', 'is_ok', 'is_err', 'is_empty', 'len', 'push', 'has_remaining', 'remaining', 'advance', 'chunk', 'reserve', 'capacity') or m in PUTGET:
            if m == 'is_empty': return f'({self.ex(r, ind)}.len() == 0)'
            return f'{self.wrap(r, ind)}.{m}({self.args(a, ind)})'
        if m == 'resize' and len(a) == 2 and norm.name(r) not in self.bufs and tname(self.typeof(r) or self.P('Vec')) == 'Vec': return f'v_resize(&mut {self.ex(r, ind)}, {self.args(a, ind)})'
        if m == 'unsigned_abs' and not a and self.typeof(r) and tname(strip_ref(self.typeof(r))) in ('i8', 'i16', 'i32', 'i64'): return f'v_unsigned_abs_{tname(strip_ref(self.typeof(r)))}({self.ex(r, ind)})'
        if m in CLOCK and not a: return f'{self.wrap(r, ind)}.{m}()'
        if m == 'as_bytes': return f'{self.wrap(r, ind)}.as_bytes()'
        if m in ('extend_from_slice',) and r['k'] == 'path' and self.bufs.get(r['segs'][-1]['id']) == 'ser': return f'{self.wrap(r, ind)}.put_slice({self.slice_arg(a[0], ind)})'
        if m == 'put_slice': return f'{self.wrap(r, ind)}.put_slice({self.slice_arg(a[0], ind)})'
        if m == 'copy_to_slice':
            x = a[0]['e'] if a[0]['k'] == 'ref' else a[0]
            if x['k'] == 'index' and x['i']['k'] == 'range' and x['i']['l'] is None and x['i']['h'] is None: x = x['e']
            b = self.wrap(r, ind)
            s0 = self.fresh('s')
            return f'({{ let ghost {s0} = {b}.view(); proof {{ lemma_list_rest::<u8>({s0}, {self.ex(x, ind)}.octets().len()); }} {b}.copy_to_slice(&mut {self.ex(x, ind)}); proof {{ lemma_take({s0}, {s0}.len() - {b}.view().len()); }} }})'
        if m == 'overlay': return f'v_overlay(&mut {self.ex(r, ind)}, {self.slice_arg(a[0], ind)})'
        if m == 'copy_from_slice' and len(a) == 1:
            q = r['i'] if r['k'] == 'index' else None
            if q is None: return f'v_copy_all(&mut {self.ex(r, ind)}, {self.slice_arg(a[0], ind)})'
            if q['k'] != 'range' or q['incl']: raise Unsupported('copy_from_slice')
            b = self.ex(r['e'], ind)
            return f'v_copy_range(&mut {b}, {self.ex(q["l"], ind) if q["l"] else "0"}, {self.ex(q["h"], ind) if q["h"] else b + ".len()"}, {self.slice_arg(a[0], ind)})'
        if m == 'split_at' and len(a) == 1 and self.typeof(r) and strip_ref(self.typeof(r))['k'] == 'slice': return f'v_split_at({self.ex(r, ind)}, {self.ex(a[0], ind)})'
        if m == 'put_bytes': return f'{self.wrap(r, ind)}.put_bytes({self.args(a, ind)})'
        if m == 'trim_end_matches' and len(a) == 1:
            if a[0]['k'] not in ('char', 'str') or a[0]['v'] != '\0': raise Unsupported('trim_end_matches of other than zero octets')
            return f'{self.ex(r, ind)}.v_trim_end_matches()'
        if m in ('to_string', 'into_owned', 'to_owned') and not a and self.textual(r): return f'{self.ex(r, ind)}.v_to_string()'
        if m == 'clone' and not a: return f'v_clone(&{self.ex(r, ind)})'
        if m == 'into' and not a and expect and tname(strip_ref(self.typeof(r))) in INTS and tname(expect) in INTS: return f'cast_{tname(expect)}({self.ex(r, ind)})'
        if m == 'into' and not a and expect: return self.x_call({'f': {'k': 'path', 'segs': [{'id': self.ty(expect), 'args': []}, {'id': 'from', 'args': []}]}, 'args': [r]}, ind)
        t = strip_ref(self.typeof(r))
        n = self.tyname(t) if t else None
        if n is not None:
            if (n, m) in self.g.contracted: return f'{self.wrap(r, ind)}.{m}({self.args(a, ind)})'
            f = self.find_method(n, m)
            if f and (n in self.m.structs or n in self.m.enums): return self.inline(f, n, r, a, ind)
        if m in ('serialize', 'serialize_field', 'field_len', 'calculate_length'): return f'{self.wrap(r, ind)}.{m}({self.args(a, ind)})'
        f = self.extension(m, r)
        if f: return self.inline(f, '', None, [r] + a, ind, None, expect)
        raise Unsupported('method ' + m)

    def extension(self, m, r):
        """method m that a trait of the crate adds to the buffers, as a function of the buffer"""
        if norm.name(r) not in self.bufs: return None
        kind = self.bufs[norm.name(r)]
        fs = []
        for k, i in self.m.timpls.items():
            tr, ty = k[0], k[1]
            if tr not in self.m.traits: continue
            gen = {p['id'] for p in i['generics']['params'] if p['k'] == 'type'}
            if ty not in gen and not (ty == 'BytesMut' and kind == 'ser'): continue
            f = next((x for x in i['items'] if x['k'] == 'fn' and x['sig']['name'] == m), None) or next((x for x in self.m.traits[tr]['items'] if x['k'] == 'fn' and x['sig']['name'] == m and x.get('body') is not None), None)
            if f and f['sig']['self'] in ('&', '&mut'): fs.append(f)
        if len(fs) != 1: return None
        f = fs[0]
        me = norm.fresh('me')
        t = self.P('BytesMut') if kind == 'ser' else self.P('B')
        g = f['sig']['generics']
        sig = dict(f['sig'], self=None, ins=[{'p': norm.ident(me), 't': {'k': 'ref', 'mut': True, 't': t}}] + f['sig']['ins'], generics=g if kind == 'ser' else dict(g, params=g['params'] + [{'k': 'type', 'id': 'B', 'bounds': ['Buf']}]))
        return dict(f, sig=sig, body=norm.rename(f['body'], {'self': me}))

    def static(self, r):
        """type of the global mutable cell an expression names, or None"""
        if r['k'] != 'path' or r.get('qself') or len(r['segs']) == 1 and r['segs'][0]['id'] in self.env: return None
        n = r['segs'][-1]['id']
        t = self.lstatics.get(n) or self.m.statics.get(n)
        n = tname(t) or ''
        return ATOMIC.get(n)
    def havoc(self, e, ind):
        """an operation on a global atomic: its content is unconstrained (other threads, earlier calls), a write is not observed"""
        t = self.static(e['r'])
        if not t: return None
        m = e['m']
        pre = ''.join(f'let _ = {self.ex(x, ind)}; ' for x in e['args'] if not (x['k'] == 'path' and (x['segs'][-2:-1] or [{'id': ''}])[0]['id'] == 'Ordering' or x['k'] == 'path' and x['segs'][-1]['id'] in ('Relaxed', 'SeqCst', 'Acquire', 'Release', 'AcqRel')) and x['k'] != 'closure')
        if m == 'store': return f'({{ {pre}() }})'
        if m in ('load', 'swap') or m.startswith('fetch_') and m != 'fetch_update': return f'({{ {pre}v_any::<{t}>() }})'
        if m in ('compare_exchange', 'compare_exchange_weak', 'fetch_update'): return f'({{ {pre}v_any::<Result<{t}, {t}>>() }})'
        raise Unsupported('global cell')

    def textual(self, r):
        return True

    def slice_arg(self, a, ind):
        s = self.ex(a, ind)
        return f'as_u8_slice({s})'

    def x_call(self, e, ind, expect=None):
        f, a = e['f'], e['args']
        if f['k'] != 'path': raise Unsupported('call of a value')
        s = f['segs']
        ids = [x['id'] for x in s]
        last = ids[-1]
        if f.get('qself'):
            q = self.ty(f['qself'])
            if last == 'default': return f'<{q} as VDefault>::default()'
            if last in ('serialize_field', 'deserialize_field', 'field_len', 'deserialize_with_len'):
                tr = {'serialize_field': 'FieldSerialize', 'deserialize_field': 'FieldDeserialize', 'field_len': 'FieldLen', 'deserialize_with_len': 'FieldDeserializeWithLen'}[last]
                return f'<{q} as {tr}>::{last}({self.args(a, ind)})'
            return self.tcall(q, last, a, ind)
        if len(ids) > 1 and ids[-2] == 'FromPrimitive':
            # the trait's name in front: the type is the expected one
            t = self.expected(self.inner(expect)) if expect and tname(expect) == 'Option' else None
            if not t or tname(t) not in self.m.enums: raise Unsupported('::'.join(ids))
            return self.tcall(tname(t), last, a, ind)
        if last in ('Some', 'Ok', 'Err') and (len(ids) == 1 or ids[-2] in ('Option', 'Result')): return f'{last}({self.args(a, ind)})'
        if last == 'size_of_val' and len(a) == 1 and tname(strip_ref(self.typeof(a[0]))) in SIZES: return f'{SIZES[tname(strip_ref(self.typeof(a[0])))]}usize'
        if last == 'size_of' and self.const(e) is not None: return f'{self.const(e)}usize'
        if len(ids) == 1:
            if last == 'v_take': return f'v_take({self.args(a, ind)})'
            if last in self.lfns: return self.inline(self.lfns[last], '', None, a, ind, s[-1]['args'], expect)
            if last in self.m.fns: return self.inline(self.m.find('fn', last, self.mod), '', None, a, ind, s[-1]['args'], expect)
            raise Unsupported('call ' + last)
        q = self.owner if ids[-2] == 'Self' else ids[-2]
        if ids[-2] in self.tparams or (ids[-2] == 'T' and self.owner in ('Vec', 'Option')):
            tr = {'serialize_field': 'FieldSerialize', 'deserialize_field': 'FieldDeserialize', 'field_len': 'FieldLen', 'deserialize_with_len': 'FieldDeserializeWithLen', 'default': 'VDefault'}.get(last)
            if not tr: raise Unsupported('associated function of a type parameter')
            return f'<{"_" if ids[-2] in self.tparams else "T"} as {tr}>::{last}({self.args(a, ind)})'
        if last == 'from_fn' and e.get('fromfn'):
            f = e['fromfn']
            if not expect or expect['k'] != 'array' or f['ps'][0]['k'] != 'wild': raise Unsupported('array::from_fn')
            return self.x_arrfill({'e': norm.unblock(f['e']), 'n': self.constval(expect['len'])}, ind)
        if last == 'default':
            if q in ('Default', 'default'): return 'VDefault::default()'
            if s[-2]['args']: q = self.ty({'k': 'path', 'segs': [s[-2]]})
            return f'<{q} as VDefault>::default()'
        if q == 'Vec' and last in ('new', 'with_capacity') and norm.sidefree(a): return 'Vec::new()'
        if q == 'vec' and last == 'from_elem': return f'vec_from_elem({self.args(a, ind)})'
        if q == 'Utc' and last == 'now': return 'clock.now()'
        if q == 'Box' or q == 'Rc': raise Unsupported(q)
        if q in INTS and last == 'from': return f'cast_{q}({self.args(a, ind)})'
        if q in INTS and last == 'try_from': return f'try_{q}({self.args(a, ind)})'
        if q in ('f32', 'f64') and last in ('from_bits', 'to_bits'): return f'v_{last}_{q}({self.args(a, ind)})'
        if q in ('u16', 'u32', 'u64') and last == 'from_be_bytes':
            if len(a) == 1 and a[0]['k'] == 'array':
                x = self.fresh('b')
                return f'({{ let {x} = {self.ex(a[0], ind)}; proof {{ lemma_octets(); lemma_bev_octets({x}@); }} v_from_be_{q}({x}) }})'
            return f'v_from_be_{q}({self.args(a, ind)})'
        if q == 'String' and last in ('new', 'from_utf8_lossy'):
            return f'VString::{last}({self.args(a, ind)})'
        if q in ('FieldSerialize', 'FieldLen') and last in ('serialize_field', 'field_len'):
            return f'FieldX::{last}({self.args(a, ind)})'.replace('FieldX', q)
        if q == 'FieldDeserialize' or q == 'FieldDeserializeWithLen': return f'{q}::{last}({self.args(a, ind)})'
        if q in self.m.traits and a:
            n = self.tyname(strip_ref(self.typeof(a[0]))) if self.typeof(a[0]) else None
            if n in self.m.structs and (n, last) not in self.g.contracted:
                fn = self.find_method(n, last)
                if fn and fn['sig']['self']: return self.inline(fn, n, a[0], a[1:], ind)
        if q == 'Pdu': return f'({self.ex(a[0], ind)}).{last}({self.args(a[1:], ind)})' if a[0]['k'] != 'ref' else f'({self.ex(a[0]["e"], ind)}).{last}({self.args(a[1:], ind)})'
        if q in ('panicking', 'rt') or last in ('panic', 'panic_fmt', 'panic_explicit', 'unreachable_display'): return 'v_panic()'
        if last in ('must_use',): raise Unsupported(last)
        if q == 'GenericHeader' and last in ('serialize', 'deserialize'): raise Unsupported('GenericHeader path call')
        return self.tcall(q, last, a, ind, ids[:-1], s[-1]['args'], expect)

    def tcall(self, q, name, a, ind, segs=(), targs=None, expect=None):
        if q in ('Option', 'Result', 'std', 'mem', 'iter', 'array'): raise Unsupported(f'{q}::{name}')
        if name == 'calculate_dis_timestamp' and self.clocked and (q, name) in self.g.contracted: return f'{q}::{name}_(clock)'
        if (q, name) in self.g.contracted: return f'{q}::{name}({self.args(a, ind)})'
        fn = self.find_method(q, name)
        if fn is None:
            if q[0].islower() and name in self.m.fns: return self.inline(self.m.find('fn', name, self.mod, list(segs) or [q]), '', None, a, ind, targs, expect)
            raise Unsupported(f'{q}::{name}')
        if fn['sig']['self']: return self.inline(fn, q, a[0], a[1:], ind)
        return self.inline(fn, q, None, a, ind, targs, expect)

    # ------------------------------------------------------------ loops
    def the_buf(self, body):
        """buffer variable a loop body works on"""
        found = []
        def walk(x):
            if isinstance(x, list):
                for y in x: walk(y)
            elif isinstance(x, dict):
                if x.get('k') == 'path' and len(x['segs']) == 1 and x['segs'][0]['id'] in self.bufs: found.append(x['segs'][0]['id'])
                for v in x.values(): walk(v)
        walk(body)
        return found[0] if found else None

    def bview(self, b):
        n = self.ren.get(b, b)
        return f'{n}@' if self.bufs[b] == 'ser' else f'{n}.view()'

    def loop(self, e, ind):
        pad = '    ' * ind
        if e['k'] == 'for': return self.forloop(e, ind)
        if e['k'] == 'while':
            c = e['c']
            b = self.the_buf([c] + e['b'])
            pushed = pushes(e['b'])
            if c['k'] == 'mcall' and c['m'] == 'has_remaining' and len(pushed) == 1 and b:
                v = self.ren.get(pushed[0], pushed[0])
                s0, v0 = self.fresh('s'), self.fresh('v')
                return (f'{pad}let ghost {s0} = {self.bview(b)};\n{pad}let ghost {v0} = {v}@;\n'
                        f'{pad}while {self.ex(c, ind)}\n{pad}    invariant drain_inv({s0}, {self.bview(b)}, {v0}, {v}@),\n{pad}    decreases {self.bview(b)}.len(),\n'
                        f'{pad}{self.br(e["b"], ind)}')
        self.untemplated.append(e['k'])
        raise Unsupported('loop without a known invariant shape')

    def forloop(self, e, ind):
        pad = '    ' * ind
        p, it, body = e['p'], e['e'], e['b']
        b = self.the_buf(body)
        out = []
        i = self.fresh('i')
        pre = ''
        coll = None           # expression text of the collection (for invariants)
        if it['k'] == 'mcall' and it['m'] in ('iter', 'into_iter', 'iter_mut') and not it['args']:
            inner = it['r']
            mutable = it['m'] == 'iter_mut'
            byval = it['m'] == 'into_iter'
            it = {'k': 'ref', 'mut': mutable, 'e': inner} if not byval else inner
        if it['k'] == 'range' or (it['k'] == 'path' and False):
            lo = self.ex(it['l'], ind) if it['l'] else '0'
            if it['h'] is None: raise Unsupported('open range')
            hi = self.ex(it['h'], ind)
            if it['incl']: raise Unsupported('inclusive range')
            h = self.fresh('n')
            l = self.fresh('l')
            pre = f'{pad}let {h} = {hi};\n'
            lov = self.const(it['l'])
            idxvar = self.ren.get(p['id'], p['id']) if p['k'] == 'ident' else None
            bind = f'{pad}    let {idxvar} = {i};\n' if idxvar else ''
            if lov != 0: raise Unsupported('range from non-zero')
            init = f'{pad}let mut {i} = {lo};\n'
            cond = f'{i} < {h}'
            coll = indexed(body, p['id']) if p['k'] == 'ident' else None
            dec = f'{h} - {i}'
            bound = f'0 <= {i}, {i} <= {h} || {h} < 0,' if False else f'{i} <= {h},'
        elif it['k'] == 'ref' and it['mut']:
            # for p in &mut arr { *p = ... }
            arr = self.ex(it['e'], ind)
            if p['k'] != 'ident': raise Unsupported('loop pattern')
            body = subst_deref(body, p['id'], {'k': 'index', 'e': it['e'], 'i': {'k': 'path', 'segs': [{'id': i, 'args': []}]}})
            h = self.fresh('n')
            pre = f'{pad}let {h} = {arr}.len();\n'
            init = f'{pad}let mut {i}: usize = 0;\n'
            cond = f'{i} < {h}'; bind = ''; dec = f'{h} - {i}'; bound = f'{i} <= {h}, {h} == {arr}@.len(),'
            t = strip_ref(self.typeof(it['e']))
            return self.fill_loop(pre, init, cond, bind, dec, bound, body, b, arr, i, h, ind, t['t'] if t and t['k'] == 'array' else None, self.const(t['len']) if t and t['k'] == 'array' and it['e']['k'] == 'path' else None)
        else:
            byref = it['k'] == 'ref'
            inner = it['e'] if byref else it
            t = self.typeof(inner)
            if t is None: raise Unsupported('iteration over a collection of unknown type')
            if self.tyname(strip_ref(t)) == 'Option' and not norm.has(body, "break", "continue"):
                f = {'k': 'if', 'c': {'k': 'letcond', 'p': {'k': 'tuplestruct', 'path': {'k': 'path', 'segs': [{'id': 'Some', 'args': []}]}, 'ps': [p]}, 'e': it if it['k'] != 'ref' else {'k': 'mcall', 'r': inner, 'm': 'as_mut' if it['mut'] else 'as_ref', 'tf': None, 'args': []}}, 't': body, 'e': None}
                return f'{pad}{self.ex(f, ind)}'
            byref = byref or t['k'] == 'ref' or (inner['k'] == 'path' and inner['segs'][-1]['id'] in self.refs) or (inner['k'] == 'path' and inner['segs'][-1]['id'] == 'self')
            t = strip_ref(t)
            src = self.ex(inner, ind)
            if t['k'] == 'array': ln, et = f'{self.constval(t["len"])}usize', t['t']
            elif t['k'] == 'slice' or self.tyname(t) == 'Vec':
                ln, et = f'{src}.len()', t['t'] if t['k'] == 'slice' else (t['segs'][-1]['args'] or [None])[0]
            else: raise Unsupported('iteration over ' + str(self.tyname(t)))
            if inner['k'] not in ('path', 'field'): raise Unsupported('iteration over an expression')
            if not byref and not (et and self.tyname(et) in PRIM): raise Unsupported('consuming iteration')
            h = self.fresh('n')
            pre = f'{pad}let {h} = {ln};\n'
            init = f'{pad}let mut {i}: usize = 0;\n'
            cond = f'{i} < {h}'; dec = f'{h} - {i}'
            bind = f'{pad}    let {self.pat(p)} = {"&" if byref else ""}{src}[{i} as int as usize];\n'.replace(' as int as usize', '')
            bound = f'{i} <= {h}, {h} == {src}@.len(),'
            if et is not None and p['k'] == 'ident': self.env[p['id']] = {'k': 'ref', 'mut': False, 't': et} if byref else et
            if b is None: return self.accloop(pre + init, cond, bind, dec, bound, body, f'{src}@', i, ind)
            if self.bufs[b] == 'ser':
                s0 = self.fresh('s')
                if zero_put(body): raise Unsupported('constant octets per element')
                inv = f'ser_inv({s0}, {self.bview(b)}, {src}@, {i} as int)'
                k = self.constval(t['len']) if t['k'] == 'array' and inner['k'] == 'path' and norm.name(inner) not in ('self', None) else None
                post = ''
                if k is not None and 0 < k <= 16 and et and tname(et) in PRIM:
                    T, c = tname(et), f'{src}@'
                    post = (f'\n{pad}proof {{ assert forall|t: Bytes| #[trigger] cat({self.bview(b)}, t) == cat({s0}, {nestenc([f"{c}[{j}]" for j in range(k)])}) by {{\n'
                            f'{pad}    reveal_with_fuel(enc_list::<{T}>, {k + 1}); assert(enc_list({c}, 0, t) == {nestenc([f"{c}[{j}]" for j in range(k)])}); }} }}')
                return (pre + init + f'{pad}let ghost {s0} = {self.bview(b)};\n{pad}while {cond}\n{pad}    invariant {bound} {inv},\n'
                        f'{pad}    decreases {dec},\n{pad}{{\n{bind}{self.block(body, ind + 1)}\n{pad}    {i} = {i} + 1;\n{pad}}}' + post)
            raise Unsupported('decode loop over a collection')
        if b is None:
            if coll is None: raise Unsupported('counting loop without buffer')
            c = f'{self.ex(coll, ind)}@'
            return self.accloop(pre + init, cond, bind, dec, f'{bound} {h} == {c}.len(),', body, c, i, ind)
        s0 = self.fresh('s')
        if self.bufs[b] == 'ser':
            if coll is None:
                # constant octets: zero padding
                z = zero_put(body)
                if z:
                    inv = f'zero_inv({s0}, {self.bview(b)}, {i} as nat, {h} as nat)'
                else: raise Unsupported('serializing loop over no collection')
            else:
                ctxt = self.ex(coll, ind)
                if lenient_marking(body, p['id']):
                    inv = f'text_inv({s0}, {self.bview(b)}, {ctxt}@, {h} as nat, {i} as int)'
                else:
                    inv = f'{h} <= {ctxt}@.len(), ser_inv({s0}, {self.bview(b)}, {ctxt}@, {i} as int)'
        else:
            pushed = pushes(body)
            nested = []
            walk(body, lambda x: nested.append(x) if x.get('k') in ('for', 'while', 'loop') and pushes(x['b']) else None)
            if nested: raise Unsupported('nested decode loops')
            if len(pushed) == 1:
                v = self.ren.get(pushed[0], pushed[0])
                inv = f'dec_inv({s0}, {self.bview(b)}, {h} as nat, {i} as nat, {v}@)'
                init += f'{pad}proof {{ lemma_dec({self.bview(b)}, {v}@, {h} as nat); }}\n'
            elif coll is not None:
                arr = self.ex(coll, ind)
                t = strip_ref(self.typeof(coll))
                return self.fill_loop(pre, init, cond, bind, dec, bound, body, b, arr, i, h, ind, t['t'] if t and t['k'] == 'array' else None, self.const(t['len']) if t and t['k'] == 'array' and coll['k'] == 'path' else None)
            else: raise Unsupported('decode loop of unknown shape')
        return (pre + init + f'{pad}let ghost {s0} = {self.bview(b)};\n{pad}while {cond}\n{pad}    invariant {bound} {inv},\n'
                f'{pad}    decreases {dec},\n{pad}{{\n{bind}{self.block(body, ind + 1)}\n{pad}    {i} = {i} + 1;\n{pad}}}')

    def accloop(self, pre, cond, bind, dec, bound, body, coll, i, ind):
        """acc += element.field_len(), or acc += constant, over all elements"""
        pad = '    ' * ind
        st = [x for x in body]
        if len(st) != 1 or st[0]['k'] != 'expr': raise Unsupported('iteration without buffer')
        x = st[0]['e']
        if x['k'] == 'bin' and x['op'] == '+=': acc, d = x['l'], x['r']
        elif x['k'] == 'assign' and x['r']['k'] == 'bin' and x['r']['op'] == '+' and x['l'] in (x['r']['l'], x['r']['r']):
            acc, d = x['l'], x['r']['r'] if x['r']['l'] == x['l'] else x['r']['l']
        else: raise Unsupported('iteration without buffer')
        if acc['k'] != 'path': raise Unsupported('iteration without buffer')
        a, g = self.ex(acc, ind), self.fresh('g')
        n = self.const(d)
        if n is not None: inv = f'{a} == {g} + {n} * {i}, {g} + {n} * {coll}.len() <= usize::MAX,'
        elif (d['k'] == 'mcall' and d['m'] == 'field_len') or (d['k'] == 'call' and d['f']['k'] == 'path' and d['f']['segs'][-1]['id'] == 'field_len'):
            inv = f'{a} >= {g}, {a} + size_list({coll}, {i} as int) == {g} + size_list({coll}, 0), size_list({coll}, 0) <= isize::MAX, {g} + size_list({coll}, 0) <= usize::MAX,'
        else: raise Unsupported('iteration without buffer')
        return (pre + f'{pad}let ghost {g} = {a} as int;\n{pad}while {cond}\n{pad}    invariant {bound} {inv}\n'
                f'{pad}    decreases {dec},\n{pad}{{\n{bind}{self.block(body, ind + 1)}\n{pad}    {i} = {i} + 1;\n{pad}}}')

    def fill_loop(self, pre, init, cond, bind, dec, bound, body, b, arr, i, h, ind, et=None, k=None):
        pad = '    ' * ind
        if b is None or self.bufs[b] != 'de': raise Unsupported('array loop')
        s0 = self.fresh('s')
        post = ''
        if k is not None and 0 < k <= 16 and et and tname(et) in PRIM:
            T, w = tname(et), [f'w{j}_' for j in range(k)]
            post = (f'\n{pad}proof {{ assert forall|{", ".join(f"{x}: {T}" for x in w)}, t: Bytes| #![trigger {nestenc(w)}] {s0} == {nestenc(w)} implies {self.bview(b)} == t && {" && ".join(f"{arr}@[{j}].same(&{x})" if T in ("f32", "f64") else f"{arr}@[{j}] == {x}" for j, x in enumerate(w))} by {{\n'
                    f'{pad}    reveal_with_fuel(enc_list::<{T}>, {k + 1}); let w = seq![{", ".join(w)}]; assert(enc_list(w, 0, t) == {nestenc(w)}); {" ".join(f"assert({arr}@[{j}].same(&w[{j}]));" for j in range(k))} }} }}')
        return (pre + init + f'{pad}let ghost {s0} = {self.bview(b)};\n{pad}proof {{ lemma_fill({s0}, {arr}@); }}\n{pad}while {cond}\n{pad}    invariant {bound} fill_inv({s0}, {self.bview(b)}, {h} as nat, {i} as nat, {arr}@),\n'
                f'{pad}    decreases {dec},\n{pad}{{\n{bind}{self.block(body, ind + 1)}\n{pad}    {i} = {i} + 1;\n{pad}}}' + (f'\n{pad}proof {{ lemma_fill_u8({s0}, {self.bview(b)}, {arr}@); }}' if et and self.tyname(et) == 'u8' else '') + post)

def nestenc(xs, t='t'):
    for x in reversed(xs): t = f'{x}.enc({t})'
    return t

def walk(x, f):
    if isinstance(x, list):
        for y in x: walk(y, f)
    elif isinstance(x, dict):
        f(x)
        for v in x.values(): walk(v, f)

def pushes(body):
    r = []
    def f(x):
        if x.get('k') == 'mcall' and x['m'] == 'push' and x['r']['k'] == 'path': r.append(x['r']['segs'][-1]['id'])
    walk(body, f)
    return sorted(set(r))

def indexed(body, var):
    """the one collection indexed by var in body"""
    r = []
    def f(x):
        if x.get('k') == 'index' and x['i']['k'] == 'path' and x['i']['segs'][-1]['id'] == var and x['e'] not in r: r.append(x['e'])
    walk(body, f)
    return r[0] if len(r) == 1 else None

def lenient_marking(body, var):
    """body tests `var < c.len()`: octets of a text, padded"""
    r = []
    def f(x):
        if x.get('k') == 'bin' and x['op'] in ('<', '>', '>=', '<='): r.append(x)
    walk(body, f)
    return bool(r)

def zero_put(body):
    ok = []
    def f(x):
        if x.get('k') == 'mcall' and x['m'] == 'put_u8' and x['args'][0]['k'] == 'int' and int(x['args'][0]['v']) == 0: ok.append(x)
    walk(body, f)
    return len(ok) == 1 and len(body) == 1

def subst_deref(x, var, rep):
    if isinstance(x, list): return [subst_deref(y, var, rep) for y in x]
    if isinstance(x, dict):
        if x.get('k') == 'un' and x['op'] == '*' and x['e']['k'] == 'path' and x['e']['segs'][-1]['id'] == var: return rep
        return {k: subst_deref(v, var, rep) for k, v in x.items()}
    return x

def locals_of(body):
    r = set()
    def pats(p):
        if p['k'] == 'ident' and p['id'][0].islower(): r.add(p['id'])
        for k in ('p',):
            if k in p: pats(p[k])
        for q in p.get('ps', []): pats(q)
        for q in p.get('fs', []): pats(q['p'])
    def f(x):
        if x.get('k') == 'let': pats(x['p'])
        if x.get('k') == 'for': pats(x['p'])
        if x.get('k') in ('letcond',): pats(x['p'])
        if x.get('k') == 'match':
            for a in x['arms']:
                if a['p']['k'] in ('ident', 'tuplestruct', 'struct', 'tuple'): pats(a['p'])
    walk(body, f)
    return r
