"""Rewrites forms of a function body (AST of astdump) that the lowering has no own rule for into forms
it has a rule for. Every rewriting keeps what the body does; a form that meets no pattern stays as it is
(and makes the function undecided if the lowering does not know it either).

  iterator chains (map/enumerate/copied, collect/sum/fold/for_each/extend)  -> for loops
  counting `while` / `loop` / `while v.len() < n`                           -> for loops over a range
  for over an array literal                                                 -> its iterations
  closures bound by let or passed to a helper                               -> their bodies
  Option / Result combinators                                               -> match
  x.to_be_bytes() / from_be_bytes of octets read one by one, array literals of equal reads
  return and ? inside a function that is to be inlined                      -> tail position (deret)
"""
import copy, itertools
from model import Unsupported, tname, INTS

_n = itertools.count(1)
def fresh(s): return f'{s}q{next(_n)}_'

# ---------------------------------------------------------------- AST helpers
def P(*ids): return {'k': 'path', 'segs': [{'id': i, 'args': []} for i in ids]}
def T(*ids): return P(*ids)
def ident(n, mut=False): return {'k': 'ident', 'id': n, 'mut': mut, 'ref': False}
def intlit(v, suf=''): return {'k': 'int', 'v': str(v), 'suf': suf}
def call(f, *a): return {'k': 'call', 'f': f, 'args': list(a)}
def mcall(r, m, *a): return {'k': 'mcall', 'r': r, 'm': m, 'tf': None, 'args': list(a)}
def let(p, e): return {'k': 'let', 'p': p, 'e': e, 'else': None}
def st(e, semi=True): return {'k': 'expr', 'e': e, 'semi': semi}
def block(ss): return {'k': 'block', 'b': ss}
def bin(op, l, r): return {'k': 'bin', 'op': op, 'l': l, 'r': r}
def pts(n, *ps): return {'k': 'tuplestruct', 'path': P(n), 'ps': list(ps)}
def match(e, *arms): return {'k': 'match', 'e': e, 'arms': [{'p': p, 'g': None, 'e': x} for p, x in arms]}
def iff(c, t, e): return {'k': 'if', 'c': c, 't': t, 'e': e}
NONE = P('None')

def name(e):
    return e['segs'][0]['id'] if e and e.get('k') == 'path' and len(e['segs']) == 1 and not e.get('qself') else None

def walk(x, f):
    if isinstance(x, list):
        for y in x: walk(y, f)
    elif isinstance(x, dict):
        f(x)
        for v in x.values(): walk(v, f)

def mentions(x, n):
    r = []
    def f(y):
        if y.get('k') == 'path' and name(y) == n: r.append(y)
    walk(x, f)
    return bool(r)

def has(x, *kinds):
    """contains one of the kinds, outside closures and nested items"""
    if isinstance(x, list): return any(has(y, *kinds) for y in x)
    if isinstance(x, dict):
        if x.get('k') in kinds: return True
        if x.get('k') in ('closure', 'item'): return False
        return any(has(v, *kinds) for v in x.values())
    return False

def assigned(x, n):
    """n is assigned, borrowed mutably or a method may change it"""
    r = []
    def f(y):
        if y.get('k') == 'assign' and root(y['l']) == n: r.append(1)
        if y.get('k') == 'bin' and y['op'].endswith('=') and y['op'] not in ('==', '<=', '>=', '!=') and root(y['l']) == n: r.append(1)
        if y.get('k') == 'ref' and y['mut'] and root(y['e']) == n: r.append(1)
        if y.get('k') == 'mcall' and root(y['r']) == n and y['m'] not in PURE: r.append(1)
    walk(x, f)
    return bool(r)
PURE = {'len', 'is_empty', 'serialize', 'field_len', 'iter', 'as_ref', 'as_bytes', 'into', 'clone', 'min', 'max', 'serialize_field', 'div_ceil', 'saturating_sub', 'calculate_length', 'is_some', 'is_none', 'to_be_bytes'}

def root(e):
    while e.get('k') in ('field', 'index', 'un', 'ref'): e = e['e']
    return name(e) if e.get('k') == 'path' else None

def pure(e):
    """evaluates to the same value while nothing it mentions changes"""
    k = e['k']
    if k in ('int', 'bool', 'path'): return True
    if k == 'field': return pure(e['e'])
    if k in ('un', 'cast', 'ref'): return pure(e['e'])
    if k == 'bin': return pure(e['l']) and pure(e['r'])
    if k == 'mcall': return e['m'] in ('len', 'into', 'min', 'max', 'div_ceil', 'saturating_sub') and pure(e['r']) and all(pure(a) for a in e['args'])
    if k == 'call': return e['f']['k'] == 'path' and e['f']['segs'][-1]['id'] in ('from', 'bytes_count', 'padding_bytes') and all(pure(a) for a in e['args'])
    return False

def names(e):
    r = set()
    def f(y):
        if y.get('k') == 'path' and name(y): r.add(name(y))
    walk(e, f)
    return r

def subst(x, n, rep):
    """x with the name n replaced by the expression rep (no capture check: rep is a path or fresh)"""
    if isinstance(x, list): return [subst(y, n, rep) for y in x]
    if isinstance(x, dict):
        if x.get('k') == 'path' and name(x) == n: return rep
        if x.get('k') == 'closure' and any(binds(p, n) for p in x['ps']): return x
        return {k: subst(v, n, rep) for k, v in x.items()}
    return x

def rename(x, ren):
    """x with binders and uses of names replaced (ren: name -> name)"""
    if isinstance(x, list): return [rename(y, ren) for y in x]
    if isinstance(x, dict):
        if x.get('k') == 'path' and name(x) in ren: return P(ren[name(x)])
        r = {k: rename(v, ren) for k, v in x.items()}
        if x.get('k') == 'ident' and x.get('id') in ren: r['id'] = ren[x['id']]
        return r
    return x

def free(f):
    """names a closure takes from around it (bound names are not told apart from free ones of the same name)"""
    b = set()
    def g(y):
        if y.get('k') == 'ident' and 'id' in y: b.add(y['id'])
    walk(f, g)
    return names(f['e']) - b

def binds(p, n):
    r = []
    def f(y):
        if y.get('k') == 'ident' and y.get('id') == n: r.append(1)
    walk(p, f)
    return bool(r)

def untyped(p):
    return untyped(p['p']) if p['k'] in ('typed',) else p

def unblock(e):
    while e['k'] == 'block' and len(e['b']) == 1 and e['b'][0]['k'] == 'expr' and not e['b'][0]['semi']: e = e['b'][0]['e']
    return e

# ---------------------------------------------------------------- closures
def apply(f, args):
    """the expression f(args) with f a closure or the path of a function"""
    if f['k'] == 'path': return call(f, *args)
    if f['k'] != 'closure' or len(f['ps']) != len(args): return None
    if has(f['e'], 'return', 'try', 'break', 'continue'): return None
    body, pre = copy.deepcopy(f['e']), []
    for p, a in zip(f['ps'], args):
        t = p['t'] if p['k'] == 'typed' else None
        q = untyped(p)
        if q['k'] == 'ref': q, a = q['p'], un_deref(a)
        if q['k'] == 'tuple' and not q['ps']: q = {'k': 'wild'}
        if q['k'] == 'wild': pre.append(let(q, a)) if not pure(a) else None
        elif q['k'] == 'ident':
            if not q['mut'] and (a['k'] == 'path' or (a['k'] == 'ref' and a['e']['k'] in ('path', 'field')) or a['k'] == 'un'): body = subst(body, q['id'], a)
            else:
                v = fresh(q['id'])
                body = subst(body, q['id'], P(v))
                pre.append(let({'k': 'typed', 'p': ident(v, q['mut']), 't': t} if t else ident(v, q['mut']), a))
        elif q['k'] == 'tuple' and a['k'] == 'tuple' and len(a['es']) == len(q['ps']) and all(untyped(x)['k'] in ('ident', 'wild') for x in q['ps']):
            for x, y in zip(q['ps'], a['es']):
                x = untyped(x)
                if x['k'] == 'wild': continue
                if y['k'] not in ('path', 'ref'): return None
                body = subst(body, x['id'], y)
        else: return None
    body = unblock(body)
    if not pre: return body
    return block(pre + ([st(body, False)] if body['k'] != 'block' else body['b']))

def un_deref(a):
    return a['e'] if a['k'] == 'ref' else {'k': 'un', 'op': '*', 'e': a}

# ---------------------------------------------------------------- iterator chains
ITER = ('iter', 'into_iter', 'iter_mut')
def repeats(e):
    """repeat_with(f).take(n) as (0..n).map(|_| f())"""
    if e['k'] == 'mcall' and e['m'] in ('map', 'enumerate', 'copied', 'cloned', 'by_ref'): return dict(e, r=repeats(e['r']))
    if e['k'] == 'mcall' and e['m'] == 'take' and len(e['args']) == 1 and e['r']['k'] == 'call' and e['r']['f']['k'] == 'path' and len(e['r']['args']) == 1:
        n, f = e['r']['f']['segs'][-1]['id'], e['r']['args'][0]
        if n == 'repeat_with' and f['k'] in ('closure', 'path'): body = call(f) if f['k'] == 'path' else f['e'] if not f['ps'] else None
        elif n == 'repeat' and pure(f): body = f
        else: return e
        if body is None: return e
        return mcall({'k': 'range', 'l': intlit(0), 'h': e['args'][0], 'incl': False}, 'map', {'k': 'closure', 'ps': [{'k': 'wild'}], 'e': body})
    return e

def chain(e):
    """(base, [adapters]) of an iterator expression"""
    ad = []
    e = repeats(e)
    while e['k'] == 'mcall' and e['m'] in ('map', 'enumerate', 'copied', 'cloned', 'by_ref'):
        ad.append((e['m'], e['args']))
        e = e['r']
    ad.reverse()
    if e['k'] == 'range' and e['h'] is not None: return e, ad
    if e['k'] == 'mcall' and e['m'] in ITER and not e['args']: return e, ad
    if ad and e['k'] in ('path', 'field', 'ref') : return None
    return None

def iterate(e, use):
    """statement that runs use(value) for each value of the iterator expression e; None if not known"""
    c = chain(e)
    if c is None: return None
    base, ad = c
    pat, val, pre = None, None, []
    x = fresh('x')
    if ad and ad[0][0] == 'enumerate' and base['k'] != 'range':
        if base['r']['k'] not in ('path', 'field') or base['m'] != 'iter': return None
        coll = base['r']
        base = {'k': 'range', 'l': intlit(0), 'h': mcall(coll, 'len'), 'incl': False}
        pat, val = ident(x), {'k': 'tuple', 'es': [P(x), {'k': 'ref', 'mut': False, 'e': {'k': 'index', 'e': coll, 'i': P(x)}}]}
        ad = ad[1:]
    elif base['k'] == 'range' and ad and ad[0][0] == 'map' and ad[0][1][0]['k'] == 'closure' and len(ad[0][1][0]['ps']) == 1 and untyped(ad[0][1][0]['ps'][0])['k'] in ('ident', 'wild'):
        f = ad[0][1][0]
        if has(f['e'], 'return', 'try', 'break', 'continue'): return None
        pat, val = untyped(f['ps'][0]), unblock(f['e'])
        ad = ad[1:]
    else:
        pat, val = ident(x), P(x)
    for m, a in ad:
        if m in ('copied', 'cloned'): val = un_deref(val) if m == 'copied' else mcall(val, 'clone')
        elif m == 'map':
            if val['k'] not in ('path', 'un', 'ref', 'tuple'):
                v = fresh('y'); pre.append(let(ident(v), val)); val = P(v)
            val = apply(a[0], [val])
            if val is None: return None
        else: return None
    body = use(val)
    if body is None: return None
    return {'k': 'for', 'p': pat, 'e': base, 'b': pre + body}

def overlay(e):
    """for (a, b) in x.iter_mut().zip(y) { *a = *b; }: the leading octets of y over those of x"""
    x, y = e['e']['r'], e['e']['args'][0]
    if x['k'] == 'mcall' and x['m'] == 'iter_mut' and not x['args']: x = x['r']
    elif x['k'] == 'mcall' and x['m'] == 'into_iter' and x['r']['k'] == 'ref': x = x['r']['e']
    else: return None
    by = False
    if y['k'] == 'mcall' and y['m'] in ('copied', 'cloned') and not y['args']: y, by = y['r'], True
    if y['k'] == 'mcall' and y['m'] == 'bytes' and not y['args']: y, by = mcall(y['r'], 'as_bytes'), True
    elif y['k'] == 'mcall' and y['m'] == 'iter' and not y['args']: y = y['r']
    p, q = [untyped(z) for z in e['p']['ps']]
    if q['k'] == 'ref': q, by = q['p'], True
    if p['k'] != 'ident' or q['k'] != 'ident' or len(e['b']) != 1 or e['b'][0]['k'] != 'expr': return None
    a = e['b'][0]['e']
    v = P(q['id']) if by else {'k': 'un', 'op': '*', 'e': P(q['id'])}
    if a['k'] != 'assign' or a['l'] != {'k': 'un', 'op': '*', 'e': P(p['id'])} or a['r'] != v: return None
    return mcall(x, 'overlay', y)

class Norm:
    def __init__(self, m=None, owner=None, const=None): self.m, self.owner, self.const = m, owner, const or (lambda e: int(e['v']) if e['k'] == 'int' else None)

    # ------------------------------------------------------------ expressions (bottom up)
    def ex(self, e):
        if isinstance(e, list): return [self.ex(x) for x in e]
        if not isinstance(e, dict): return e
        k = e.get('k')
        if k == 'item': return e
        if k in ('for', 'while', 'loop', 'block', 'if', 'unsafe'):
            e = dict(e)
            for f in ('b', 't'):
                if f in e and isinstance(e[f], list): e[f] = self.stmts(e[f])
            for f in ('e', 'c', 'p'):
                if f in e: e[f] = self.ex(e[f])
            return e
        e = {a: self.ex(b) for a, b in e.items()}
        g = getattr(self, 'n_' + str(k), None)
        return g(e) if g else e

    def literal(self, e):
        """a call of a helper of the library whose body is an array literal -> the literal"""
        if not self.m: return None
        if e['k'] == 'mcall':
            if name(e['r']) != 'self': return None
            f, ar = self.m.inherent.get(self.owner, {}).get(e['m']), e['args']
            if f and not f['sig']['self']: return None
        else:
            s = e['f'].get('segs') or []
            if len(s) != 2 or s[0]['id'] != 'Self' or e['f'].get('qself'): return None
            f, ar = self.m.inherent.get(self.owner, {}).get(s[1]['id']), e['args']
            if f and f['sig']['self']:
                if not ar or name(ar[0]) != 'self': return None
                ar = ar[1:]
        o = f and f['sig']['out']
        if not o or o['k'] != 'array' or not f.get('body') or len(f['body']) != 1 or f['body'][0]['k'] != 'expr': return None
        b = unblock(f['body'][0]['e'])
        if b['k'] != 'array' or not b['es'] or not all(sidefree(x) for x in b['es']) or has(b, 'return', 'try', 'closure'): return None
        ps = [untyped(p['p']) for p in f['sig']['ins']]
        if len(ps) != len(ar) or not all(p['k'] == 'ident' and pure(x) for p, x in zip(ps, ar)): return None
        b = copy.deepcopy(b)
        for p, x in zip(ps, ar):
            if any(names(y) & {q['id'] for q in ps} for y in ar): return None
            b = subst(b, p['id'], x)
        return b

    def n_mcall(self, e):
        lit = self.literal(e)
        if lit: return self.ex(lit)
        m, r, a = e['m'], e['r'], e['args']
        tf = e.get('tf') or ''
        if m == 'collect' and not a and 'Result' not in tf and 'Option' not in tf and 'String' not in tf and 'Map' not in tf:
            v = fresh('v')
            l = iterate(r, lambda x: [st(mcall(P(v), 'push', x))])
            if l: return block([let(ident(v, True), call(P('Vec', 'new'))), st(l), st(P(v), False)])
        if m == 'fold' and len(a) == 2 and self.plain_sum(r) and a[1]['k'] == 'closure' and len(a[1]['ps']) == 2:
            x, y = [untyped(z) for z in a[1]['ps']]
            b = unblock(a[1]['e'])
            if x['k'] == y['k'] == 'ident' and b['k'] == 'bin' and b['op'] == '+' and {name(b['l']), name(b['r'])} == {x['id'], y['id']}: return bin('+', a[0], dict(e, m='sum', args=[]))
        if m == 'sum' and not a:
            x, k = r, 0
            while x['k'] == 'mcall' and x['m'] in ('copied', 'cloned', 'iter', 'into_iter') and not x['args']: x, k = x['r'], k + 1
            if k and x['k'] == 'array' and x['es'] and all(sidefree(y) for y in x['es']):
                s = x['es'][0]
                for y in x['es'][1:]: s = bin('+', s, y)
                return s
        if m == 'sum' and not a and r['k'] == 'mcall' and r['m'] == 'map' and r['r']['k'] == 'mcall' and r['r']['m'] in ('iter', 'into_iter') and r['r']['r']['k'] == 'array':
            xs = r['r']['r']['es']
            ys = [apply(r['args'][0], [{'k': 'ref', 'mut': False, 'e': x} if r['r']['m'] == 'iter' else x]) for x in xs] if all(pure(x) for x in xs) else [None]
            if ys and None not in ys:
                s = ys[0]
                for y in ys[1:]: s = bin('+', s, y)
                return s
        if m == 'sum' and not a and not self.plain_sum(r):
            v = fresh('a')
            l = iterate(r, lambda x: [st(bin('+=', P(v), x))])
            if l:
                ty = next((t for t in INTS if t in tf), 'usize')
                return block([let({'k': 'typed', 'p': ident(v, True), 't': P(ty)}, intlit(0)), st(l), st(P(v), False)])
        if m == 'fold' and len(a) == 2 and a[1]['k'] == 'closure' and len(a[1]['ps']) == 2 and untyped(a[1]['ps'][0])['k'] == 'ident':
            v = fresh('a')
            def use(x):
                y = apply(a[1], [P(v), x])
                return None if y is None else [st({'k': 'assign', 'l': P(v), 'r': y})]
            l = iterate(r, use)
            if l: return block([let(ident(v, True), a[0]), st(l), st(P(v), False)])
        if m == 'for_each' and len(a) == 1:
            def use(x):
                y = apply(a[0], [x])
                return None if y is None else y['b'] if y['k'] == 'block' else [st(y)]
            l = iterate(r, use)
            if l: return l
        if m == 'extend' and len(a) == 1 and r['k'] in ('path', 'field'):
            l = iterate(a[0], lambda x: [st(mcall(r, 'push', x))])
            if l and (l['e']['k'] == 'range' or l['b']): return l
        if m == 'copy_to_slice' and len(a) == 1 and a[0]['k'] == 'mcall' and a[0]['m'] in ('as_mut_slice', 'as_mut') and not a[0]['args']: return mcall(r, m, {'k': 'ref', 'mut': True, 'e': a[0]['r']})
        if m == 'put' and len(a) == 1 and (a[0]['k'] == 'ref' or a[0]['k'] == 'mcall' and a[0]['m'] in ('as_slice', 'as_bytes', 'as_ref') and not a[0]['args']): return self.n_mcall(mcall(r, 'put_slice', a[0]))
        if m == 'to_vec' and not a and r['k'] == 'mcall' and r['m'] == 'copy_to_bytes' and len(r['args']) == 1 and name(r['r']): return octets(r['r'], r['args'][0])
        if m in ('put_slice', 'extend_from_slice') and len(a) == 1 and a[0]['k'] == 'mcall' and a[0]['m'] in ('as_slice', 'as_ref') and not a[0]['args'] and a[0]['r']['k'] in ('path', 'field'): a = [{'k': 'ref', 'mut': False, 'e': a[0]['r']}]; e = mcall(r, m, *a)
        if m in ('put_slice', 'extend_from_slice') and len(a) == 1:
            x = a[0]['e'] if a[0]['k'] == 'ref' else a[0]
            if x['k'] == 'mcall' and x['m'] == 'to_be_bytes' and not x['args']: return mcall(r, 'put_be', x['r'])
            if x['k'] == 'array' and x['es'] and r['k'] == 'path': return block([st(mcall(r, 'put_u8', y)) for y in x['es']])
        if m == 'put_u32' and a[0]['k'] == 'mcall' and a[0]['m'] == 'to_bits': return mcall(r, 'put_f32', a[0]['r'])
        if m == 'put_u64' and a[0]['k'] == 'mcall' and a[0]['m'] == 'to_bits': return mcall(r, 'put_f64', a[0]['r'])
        if m == 'then' and len(a) == 1 and a[0]['k'] == 'closure' and not has(a[0]['e'], 'return', 'try'):
            return iff(r, [st(call(P('Some'), a[0]['e']), False)], block([st(NONE, False)]))
        if m == 'then_some' and len(a) == 1:
            v = fresh('v')
            return block([let(ident(v), a[0]), st(iff(r, [st(call(P('Some'), P(v)), False)], block([st(NONE, False)])), False)])
        if m in ('map_or', 'map_or_else', 'is_some_and', 'is_ok_and', 'unwrap_or_else', 'is_none_or') and a and a[-1]['k'] in ('closure', 'path') and not (m == 'unwrap_or_else' and a[0]['k'] == 'path' and a[0]['segs'][-1]['id'] == 'default'):
            v = fresh('v')
            f, d = a[-1], None
            if m == 'unwrap_or_else':
                if f['k'] == 'closure' and (not f['ps'] or f['ps'][0]['k'] == 'wild') and not has(f['e'], 'return', 'try'): return match(mcall(r, 'take_out'), (pts('Some', ident(v)), P(v)), (NONE, f['e']))
                return e
            b = apply(f, [P(v)])
            if b is not None:
                if m == 'map_or': d = a[0]
                elif m == 'map_or_else': d = a[0]['e'] if a[0]['k'] == 'closure' and (not a[0]['ps'] or a[0]['ps'][0]['k'] == 'wild') else call(a[0]) if a[0]['k'] == 'path' and self.kind(r) == 'Option' else None
                else: d = {'k': 'bool', 'v': m == 'is_none_or'}
                if d is not None and not has(d, 'return', 'try'):
                    if m == 'map_or' and not pure(d):
                        w = fresh('d')
                        return block([let(ident(w), d), st(match(mcall(r, 'take_out'), (pts('Some', ident(v)), b), (NONE, P(w))), False)])
                    return match(mcall(r, 'take_out'), (pts('Some', ident(v)), b), (NONE, d))
        if m in ('map', 'and_then', 'filter') and len(a) == 1 and self.kind(r) == 'Option':
            v = fresh('v')
            if m == 'filter':
                b = apply(a[0], [{'k': 'ref', 'mut': False, 'e': P(v)}])
                if b is not None: return match(r, (pts('Some', ident(v)), iff(b, [st(call(P('Some'), P(v)), False)], block([st(NONE, False)]))), (NONE, NONE))
            else:
                b = apply(a[0], [P(v)])
                if b is not None: return match(r, (pts('Some', ident(v)), call(P('Some'), b) if m == 'map' else b), (NONE, NONE))
        if m in ('map', 'and_then') and len(a) == 1 and self.kind(r) == 'Result':
            v, w = fresh('v'), fresh('e')
            b = apply(a[0], [P(v)])
            if b is not None: return match(r, (pts('Ok', ident(v)), call(P('Ok'), b) if m == 'map' else b), (pts('Err', ident(w)), call(P('Err'), P(w))))
        if m == 'ok' and not a and self.kind(r) == 'Result':
            v = fresh('v')
            return match(r, (pts('Ok', ident(v)), call(P('Some'), P(v))), (pts('Err', {'k': 'wild'}), NONE))
        if m in ('copied', 'cloned') and not a and self.kind(r) == 'Option':
            v = fresh('v')
            return match(r, (pts('Some', ident(v)), call(P('Some'), {'k': 'un', 'op': '*', 'e': P(v)})), (NONE, NONE))
        return e

    def plain_sum(self, r):
        """iter().map(field_len).sum(): the lowering has its own rule"""
        if not (r['k'] == 'mcall' and r['m'] == 'map' and r['r']['k'] == 'mcall' and r['r']['m'] == 'iter'): return False
        f = r['args'][0]
        return (f['k'] == 'path' and f['segs'][-1]['id'] == 'field_len') or \
            (f['k'] == 'closure' and f['e']['k'] == 'mcall' and f['e']['m'] == 'field_len' and f['ps'][0]['k'] == 'ident' and f['e']['r']['k'] == 'path' and name(f['e']['r']) == f['ps'][0]['id'])

    def kind(self, e):
        """Option or Result, from the syntax; None if not clear"""
        k = e['k']
        if k == 'mcall':
            if e['m'] in ('as_ref', 'as_mut', 'filter', 'map', 'and_then', 'copied', 'cloned', 'or_else'): return self.kind(e['r']) or ('Option' if e['m'] in ('copied', 'cloned') else None)
            if e['m'] in ('get', 'first', 'last', 'then', 'then_some', 'ok', 'checked_sub', 'checked_add', 'checked_mul', 'checked_div', 'take_out', 'pop'): return 'Option'
            if e['m'] in ('try_into', 'ok_or', 'ok_or_else', 'calculate_length', 'map_err'): return 'Result'
        if k == 'call' and e['f']['k'] == 'path':
            n = e['f']['segs'][-1]['id']
            if n == 'Some': return 'Option'
            if n in ('try_from', 'Ok', 'Err'): return 'Result'
            if self.m and len(e['f']['segs']) > 1 and not e['f'].get('qself'):
                q = e['f']['segs'][-2]['id']
                f = self.m.inherent.get(self.owner if q == 'Self' else q, {}).get(n)
                o = tname(f['sig']['out']) if f and f['sig']['out'] else None
                if o == 'DISResult': return 'Result'
                if o in ('Option', 'Result'): return o
                if n in ('from_u8', 'from_u16', 'from_u32'): return 'Option'
        if k == 'match' and len(e['arms']) == 2:
            ns = {a['p']['path']['segs'][-1]['id'] if a['p']['k'] == 'tuplestruct' else a['p']['segs'][-1]['id'] if a['p']['k'] == 'path' else None for a in e['arms']}
            for a in e['arms']:
                n = name(a['e']) if a['e']['k'] == 'path' else a['e']['f']['segs'][-1]['id'] if a['e']['k'] == 'call' and a['e']['f']['k'] == 'path' else None
                if n in ('None', 'Some'): return 'Option'
                if n in ('Ok', 'Err'): return 'Result'
        return None

    def n_call(self, e):
        f, a = e['f'], e['args']
        lit = self.literal(e)
        if lit: return self.ex(lit)
        if f['k'] == 'closure': return apply(f, a) or e
        if f['k'] == 'path':
            ids = [s['id'] for s in f['segs']]
            if ids[-2:] == ['Vec', 'with_capacity'] and len(a) == 1 and sidefree(a[0]): return call(P('Vec', 'new'))
            if ids[-1] == 'drop' and len(a) == 1 and pure(a[0]): return {'k': 'tuple', 'es': []}
            if len(ids) >= 2 and ids[-1] == 'from_bits' and ids[-2] in ('f32', 'f64') and a[0]['k'] == 'mcall' and a[0]['m'] == ('get_u32' if ids[-2] == 'f32' else 'get_u64'):
                return mcall(a[0]['r'], 'get_' + ids[-2])
            if len(ids) >= 2 and ids[-2] in ('Buf', 'BufMut') and a and ids[-1].startswith(('get_', 'put_', 'copy_to_slice', 'remaining', 'has_remaining', 'advance')) and not f.get('qself'):
                return self.ex(mcall(a[0]['e'] if a[0]['k'] == 'ref' else a[0], ids[-1], *a[1:]))
            if len(ids) >= 2 and ids[-2:] == ['u8', 'from_be_bytes'] and len(a) == 1: return self.ex({'k': 'index', 'e': a[0], 'i': intlit(0)}) if a[0]['k'] != 'array' else a[0]['es'][0]
            if len(ids) >= 2 and ids[-1] == 'from_be_bytes' and a[0]['k'] == 'array' and a[0]['es']:
                es, t = a[0]['es'], ids[-2]
                w = INTS.get(t, {'f32': 32, 'f64': 64}.get(t, 0)) // 8
                if len(es) == w and all(x == es[0] for x in es) and es[0]['k'] == 'mcall' and es[0]['m'] == 'get_u8' and t not in ('usize', 'isize'):
                    return mcall(es[0]['r'], 'get_' + t)
            if ids[-1] == 'from_fn' and a and a[0]['k'] == 'closure' and len(ids) >= 2 and ids[-2] == 'array':
                return dict(e, fromfn=a[0])
        return e

    def n_bin(self, e):
        def usz(x, y): return {'k': 'cast', 'e': x['r'], 't': P('usize')} if x['k'] == 'mcall' and x['m'] == 'into' and not x['args'] and y['k'] == 'mcall' and y['m'] == 'len' else x
        if e['op'] in ('<', '<=', '>', '>=', '==', '!='): return dict(e, l=usz(e['l'], e['r']), r=usz(e['r'], e['l']))
        return e

    def n_array(self, e):
        if 'es' not in e: return e      # a type
        es = e['es']
        if len(es) > 1 and all(x == es[0] for x in es) and es[0]['k'] in ('mcall', 'call') and not pure(es[0]):
            return {'k': 'arrfill', 'e': es[0], 'n': len(es)}
        return e

    def n_match(self, e):
        # assert_eq! / assert_ne!
        a = e['arms']
        if e['e']['k'] == 'tuple' and len(a) == 1 and a[0]['p']['k'] == 'tuple' and [x.get('id') for x in a[0]['p']['ps']] == ['left_val', 'right_val']:
            b = unblock(a[0]['e'])
            if b['k'] == 'if' and b['e'] is None and all(x['k'] == 'ref' for x in e['e']['es']):
                c = b['c']
                for n, x in zip(('left_val', 'right_val'), e['e']['es']): c = subst_deref(c, n, x['e'])
                if not mentions(c, 'left_val') and not mentions(c, 'right_val'): return iff(c, [st(call(P('panicking', 'panic')))], None)
        return e

    # ------------------------------------------------------------ statements
    def stmts(self, ss):
        ss = [self.st(s) for s in ss]
        ss = self.closures(ss)
        ss = self.texts(ss)
        ss = self.scalars(ss)
        ss = self.arrays(ss)
        ss = self.grown(ss)
        ss = self.loops(ss)
        out = []
        for s in ss:
            if s['k'] == 'expr' and s['e']['k'] == 'for':
                u = self.unroll(s['e'])
                if u is not None: out += u; continue
            if s['k'] == 'expr' and s['semi'] and s['e']['k'] == 'tuple' and not s['e']['es']: continue
            out.append(s)
        return out

    def st(self, s):
        if s['k'] == 'let' and s['p']['k'] == 'ref' and s['e']: s = dict(s, p=s['p']['p'], e=s['e']['e'] if s['e']['k'] == 'ref' else {'k': 'un', 'op': '*', 'e': s['e']})
        if s['k'] == 'let': return dict(s, e=self.ex(s['e']) if s['e'] else None, **{'else': self.ex(s['else']) if s.get('else') else None})
        if s['k'] == 'expr':
            e = self.ex(s['e'])
            if e['k'] in ('for',) and s['e']['k'] == 'mcall': return st(e, True)
            return dict(s, e=e)
        return s

    def grown(self, ss):
        """let mut v = Vec::new(); v.resize_with(n, || e); -> let mut v = Vec::new(); for _ in 0..n { v.push(e) }"""
        ss = list(ss)
        for k, s in enumerate(ss):
            e = s['e'] if s['k'] == 'expr' else None
            if not e or e['k'] != 'mcall' or e['m'] != 'resize_with' or len(e['args']) != 2 or not name(e['r']): continue
            f, v = e['args'][1], name(e['r'])
            body = call(f) if f['k'] == 'path' else f['e'] if f['k'] == 'closure' and not f['ps'] and not has(f['e'], 'return', 'try') else None
            d = next((j for j in range(k - 1, -1, -1) if ss[j]['k'] == 'let' and binds(ss[j]['p'], v)), None)
            if body is None or d is None or ss[d]['e'] is None or not emptyvec(ss[d]['e']) or mentions(ss[d + 1:k], v) or mentions(e['args'], v): continue
            h = e['args'][0]
            ss[k] = st({'k': 'for', 'p': {'k': 'wild'}, 'e': {'k': 'range', 'l': intlit(0), 'h': {'k': 'cast', 'e': h['r'], 't': P('usize')} if h['k'] == 'mcall' and h['m'] == 'into' and not h['args'] else h, 'incl': False}, 'b': [st(mcall(e['r'], 'push', body))], 'label': None}, True)
        return ss

    def unroll(self, l):
        e = l['e']
        byref = False
        if e['k'] == 'mcall' and e['m'] in ('iter', 'into_iter') and e['r']['k'] == 'array': byref = e['m'] == 'iter'; e = e['r']
        elif e['k'] == 'ref' and e['e']['k'] == 'array': byref = True; e = e['e']
        if e['k'] != 'array' or has(l['b'], 'break', 'continue') or len(e['es']) > 64: return None
        if any(not pure(x) and has(x, 'mcall') and len(e['es']) > 1 and not sidefree(x) for x in e['es']): return None
        out = []
        for x in e['es']:
            x = {'k': 'ref', 'mut': False, 'e': x} if byref else x
            out.append(st(block([let(l['p'], x)] + copy.deepcopy(l['b'])), True))
        return out

    def closures(self, ss):
        for i, s in enumerate(ss):
            if s['k'] == 'let' and s['e'] and s['e']['k'] == 'closure' and untyped(s['p'])['k'] == 'ident':
                n, f = untyped(s['p'])['id'], s['e']
                ok = [True]
                def rep(x):
                    if isinstance(x, list): return [rep(y) for y in x]
                    if isinstance(x, dict):
                        if x.get('k') == 'call' and name(x['f']) == n:
                            y = apply(f, [rep(a) for a in x['args']])
                            if y is None: ok[0] = False; return x
                            return self.ex(y)
                        if x.get('k') == 'mcall' and any(name(a) == n for a in x['args']):
                            return self.n_mcall({k: rep(v) if k != 'args' else [f if name(a) == n else rep(a) for a in v] for k, v in x.items()})
                        return {k: rep(v) for k, v in x.items()}
                    return x
                rest = rep(ss[i + 1:])
                if ok[0] and not mentions(rest, n): return self.closures(ss[:i] + rest)
        return ss

    def texts(self, ss):
        """a text made by format! and bound to a name stands where the name is"""
        for i, s in enumerate(ss):
            if s['k'] == 'let' and s['e'] and s['e']['k'] == 'call' and s['e']['f']['k'] == 'path' and s['e']['f']['segs'][-1]['id'] in ('must_use', 'format') and untyped(s['p'])['k'] == 'ident':
                n = untyped(s['p'])['id']
                rest = subst(ss[i + 1:], n, s['e'])
                if not mentions(rest, n): return self.texts(ss[:i] + rest)
        return ss

    def arrays(self, ss):
        """let a = [x, y]; .. a.iter() .. -> let a0 = x; let a1 = y; .. [a0, a1].iter() .."""
        for i, s in enumerate(ss):
            if s['k'] != 'let' or not s['e'] or s['e']['k'] != 'array' or len(s['e']['es']) < 2 or untyped(s['p'])['k'] != 'ident' or untyped(s['p']).get('mut'): continue
            n = untyped(s['p'])['id']
            rest = ss[i + 1:]
            uses, all_ = [], []
            def f(x):
                if x.get('k') == 'path' and name(x) == n: all_.append(x)
                if x.get('k') == 'mcall' and x['m'] in ('iter', 'into_iter') and name(x['r']) == n: uses.append(x)
                if x.get('k') == 'for' and (name(x['e']) == n or x['e']['k'] == 'ref' and name(x['e']['e']) == n): uses.append(x)
            walk(rest, f)
            if len(uses) != 1 or len(all_) != 1 or any(binds(y['p'], n) for y in rest if y['k'] == 'let'): continue
            vs = [fresh('a') for _ in s['e']['es']]
            if s['p']['k'] == 'typed': pre = [let({'k': 'typed', 'p': ident(v), 't': s['p']['t']['t']}, x) for v, x in zip(vs, s['e']['es'])] if s['p']['t']['k'] == 'array' else None
            else: pre = [let(ident(v), x) for v, x in zip(vs, s['e']['es'])]
            if pre is None: continue
            rest = [self.st(x) for x in subst(rest, n, {'k': 'array', 'es': [P(v) for v in vs]})]
            return self.arrays(ss[:i] + pre + rest)
        return ss

    def replaced(self, rest, a, vs):
        """rest with the elements of the array a by their own names; None if a is used otherwise"""
        n, ok = len(vs), [True]
        def rep(x):
            if isinstance(x, list):
                out = []
                for y in x:
                    if isinstance(y, dict) and y.get('k') == 'let' and y['e'] and name(y['e']) == a and untyped(y['p'])['k'] == 'slice':
                        r = split(untyped(y['p']), n, [P(v) for v in vs])
                        if r is None: ok[0] = False
                        else: out += r
                    else: out.append(rep(y))
                return out
            if isinstance(x, dict):
                if x.get('k') == 'call' and x['f']['k'] == 'path' and x['f']['segs'][-1]['id'] == 'from_be_bytes' and len(x['args']) == 1 and name(x['args'][0]) == a and n in (2, 4, 8): return dict(x, args=[{'k': 'array', 'es': [P(v) for v in vs]}])
                if x.get('k') == 'index' and name(x['e']) == a and x['i']['k'] == 'int' and int(x['i']['v']) < n: return P(vs[int(x['i']['v'])])
                if x.get('k') == 'ident' and x.get('id') == a: ok[0] = False
                return {f: rep(v) for f, v in x.items()}
            return x
        if assigned(rest, a): return None
        rest = rep(rest)
        return rest if ok[0] and not mentions(rest, a) else None

    def scalars(self, ss):
        """let mut a = [0; N]; buf.copy_to_slice(&mut a); .. a[0] .. let [x, y] = a; -> let a0 = buf.get_u8(); .. a0 ..
           and the same for an array filled by a loop, or by array::from_fn"""
        for i, s in enumerate(ss):
            if s['k'] != 'let' or not s['e']: continue
            p = untyped(s['p'])
            many = self.many(s)
            if p['k'] == 'slice':
                if not many: continue
                vs = [fresh('a') for _ in range(many[0])]
                r = split(p, many[0], [P(v) for v in vs])
                if r is None: continue
                return self.scalars(ss[:i] + [let(ident(v), many[1]) for v in vs] + r + ss[i + 1:])
            if p['k'] != 'ident': continue
            a = p['id']
            if many:
                w = self.whole(ss[i + 1:], a, many[0]) if many[1]['k'] == 'mcall' and many[1]['m'] == 'get_u8' else None
                if w: return self.scalars(ss[:i] + [let(ident(w[0]), mcall(many[1]['r'], 'get_' + w[1]))] + w[2])
                vs = [fresh('a') for _ in range(many[0])]
                rest = self.replaced(ss[i + 1:], a, vs)
                if rest is None and self.isfloat(many[1]): rest = [dict(s, e={'k': 'array', 'es': [P(v) for v in vs]})] + ss[i + 1:]
                if rest is not None: return self.scalars(ss[:i] + [let(ident(v), many[1]) for v in vs] + rest)
                continue
            if s['e']['k'] != 'repeat' or s['e']['e']['k'] not in ('int', 'float'): continue
            n = self.const(s['e']['len'])
            if n is None or not 0 < n <= 64: continue
            k = next((k for k in range(i + 1, len(ss)) if mentions([ss[k]], a)), None)
            if k is None or ss[k]['k'] != 'expr': continue
            f = self.filled(ss[k]['e'], a, n)
            if f is None: continue
            w = self.whole(ss[k + 1:], a, n) if f['m'] == 'get_u8' else None
            if w: return self.scalars(ss[:i] + ss[i + 1:k] + [let(ident(w[0]), mcall(f['r'], 'get_' + w[1]))] + w[2])
            vs = [fresh('a') for _ in range(n)]
            rest = self.replaced(ss[k + 1:], a, vs)
            if rest is None and self.isfloat(f) and n <= 16: rest = [dict(s, e={'k': 'array', 'es': [P(v) for v in vs]})] + ss[k + 1:]
            if rest is None: continue
            return self.scalars(ss[:i] + ss[i + 1:k] + [let(ident(v), f) for v in vs] + rest)
        return ss

    def whole(self, rest, a, n):
        """(v, type, rest with v for T::from_be_bytes(a)), when a (n octets just read) is used in no other way"""
        ts, v, ok = set(), fresh('v'), [True]
        def rep(x):
            if isinstance(x, list): return [rep(y) for y in x]
            if isinstance(x, dict):
                if x.get('k') == 'call' and x['f']['k'] == 'path' and [s['id'] for s in x['f']['segs']][1:] == ['from_be_bytes'] and len(x['args']) == 1 and name(x['args'][0]) == a:
                    ts.add(x['f']['segs'][0]['id'])
                    return P(v)
                if x.get('k') == 'ident' and x.get('id') == a: ok[0] = False
                return {f: rep(y) for f, y in x.items()}
            return x
        rest = rep(rest)
        if not ok[0] or len(ts) != 1 or mentions(rest, a): return None
        t = ts.pop()
        if t in ('usize', 'isize') or INTS.get(t, {'f32': 32, 'f64': 64}.get(t, 0)) != 8 * n or n not in (2, 4, 8): return None
        return v, t, rest

    def isfloat(self, e): return e['k'] == 'mcall' and e['m'] in ('get_f32', 'get_f64')

    def many(self, s):
        """(n, e): the value of the let is n values of the expression e"""
        e = s['e']
        if e['k'] == 'arrfill' and e['n'] <= 64: return e['n'], e['e']
        if e['k'] == 'call' and e.get('fromfn') and s['p']['k'] == 'typed' and s['p']['t']['k'] == 'array' and [q['k'] for q in e['fromfn']['ps']] == ['wild']:
            n = self.const(s['p']['t']['len'])
            if n is not None and 0 < n <= 64: return n, unblock(e['fromfn']['e'])
        if e['k'] == 'call' and e.get('fromfn') and s['p']['k'] == 'slice' and [q['k'] for q in e['fromfn']['ps']] == ['wild'] and all(q['k'] != 'rest' and not (q['k'] == 'ident' and q.get('sub')) for q in s['p']['ps']):
            return len(s['p']['ps']), unblock(e['fromfn']['e'])
        return None

    def filled(self, e, a, n):
        """the expression each of the n elements of a gets from e, in order"""
        if e['k'] == 'mcall' and e['m'] == 'copy_to_slice' and e['r']['k'] == 'path' and e['args'][0]['k'] == 'ref' and name(e['args'][0]['e']) == a: return mcall(e['r'], 'get_u8')
        if e['k'] != 'for' or len(e['b']) != 1: return None
        it, p, b = e['e'], untyped(e['p']), e['b'][0]
        if b['k'] != 'expr' or b['e']['k'] != 'assign' or p['k'] != 'ident': return None
        l, r = b['e']['l'], b['e']['r']
        if not (r['k'] == 'mcall' and r['m'].startswith('get_') and not r['args'] and r['r']['k'] == 'path'): return None
        if it['k'] == 'ref' and it['mut'] and name(it['e']) == a or it['k'] == 'mcall' and it['m'] == 'iter_mut' and not it['args'] and name(it['r']) == a:
            return r if l['k'] == 'un' and l['op'] == '*' and name(l['e']) == p['id'] else None
        if it['k'] == 'range' and l['k'] == 'index' and name(l['e']) == a and name(l['i']) == p['id']:
            h = it['h']
            if not it['l'] or not zero(it['l']) or it['incl'] or not h: return None
            if h['k'] == 'mcall' and h['m'] == 'len' and name(h['r']) == a or self.const(h) == n: return r
        return None

    # ------------------------------------------------------------ loops
    def flat(self, e):
        """for _ in 0..a { for _ in 0..b { .. } } -> for _ in 0..a * b { .. }"""
        def one(e):
            if e['k'] != 'for' or e['e']['k'] != 'range' or e['e']['incl'] or not e['e']['l'] or not zero(e['e']['l']) or not e['e']['h']: return None
            if not (e['p']['k'] == 'wild' or e['p']['k'] == 'ident' and not mentions(e['b'], e['p']['id'])): return None
            return e['e']['h']
        a = one(e)
        if not a or len(e['b']) != 1 or e['b'][0]['k'] != 'expr': return e
        i = e['b'][0]['e']
        b = one(i)
        if not b or not pure(a) or not pure(b) or has(i['b'], 'break', 'continue') or any(assigned(i['b'], x) for x in names(a) | names(b)): return e
        c = lambda x: {'k': 'cast', 'e': x, 't': P('usize')}
        return {'k': 'for', 'p': {'k': 'wild'}, 'e': {'k': 'range', 'l': intlit(0), 'h': bin('*', c(a), c(b)), 'incl': False}, 'b': i['b']}

    def places(self, ss, k, e):
        """x.f.push(..) in a loop -> v.push(..), with v = take(x.f) before and x.f = v after it"""
        ps = []
        def f(y):
            if y.get('k') == 'mcall' and y['m'] == 'push' and y['r']['k'] == 'field' and name(y['r']['e']) and y['r'] not in ps: ps.append(y['r'])
        walk(e['b'], f)
        if len(ps) != 1 or has(e['b'], 'return', 'try'): return None
        pl = ps[0]
        x, j = name(pl['e']), None
        for j in range(k - 1, -1, -1):
            if ss[j]['k'] == 'let' and binds(ss[j]['p'], x): break
        else: return None
        d, empty = ss[j]['e'], False
        if untyped(ss[j]['p'])['k'] != 'ident' or d is None or any(assigned([y], x) for y in ss[j + 1:k]): return None
        empty = self.emptyfield(d, pl['m'])
        v = fresh('p')
        def rep(y):
            if isinstance(y, list): return [rep(z) for z in y]
            if y == pl: return P(v)
            if isinstance(y, dict): return {a: rep(b) for a, b in y.items()}
            return y
        l = rep(e)
        def bad(y):
            if y.get('k') == 'path' and name(y) == x: n.append(y)
        # other fields of x may be read in the loop, x itself may not be used
        n, fld = [], []
        walk(l, bad)
        walk(l, lambda y: fld.append(y) if y.get('k') == 'field' and name(y['e']) == x else None)
        if len(n) != len(fld) or assigned(l, x): return None
        first = call(P('Vec', 'new')) if empty else call(P('v_take'), {'k': 'ref', 'mut': True, 'e': pl})
        out = [let(ident(v, True), first)]
        if l['k'] == 'while' and not empty: return None
        return out + [st(l), st({'k': 'assign', 'l': pl, 'r': P(v)})]

    def emptyfield(self, d, m, depth=0):
        """d is a struct literal, or a constructor that is one, whose field m is an empty vector"""
        d = unblock(d)
        if depth > 3: return False
        if d['k'] == 'struct':
            for y in d['fs']:
                if y.get('m', y.get('id')) == m: return emptyvec(y['e']) or isdefault(y['e'])      # a field that is pushed to is a vector
            return bool(d['base']) and self.emptyfield(d['base'], m, depth + 1)
        if d['k'] != 'call' or d['f']['k'] != 'path' or len(d['f']['segs']) < 2 or not self.m: return False
        q, n = [x['id'] for x in d['f']['segs']][-2:]
        t = self.owner if q == 'Self' else tname(d['f']['qself']) if d['f'].get('qself') else q
        if t == 'Self' or t == 'Default': t = self.owner
        f = self.m.inherent.get(t, {}).get(n) or (self.m.tfn('Default', t, n) if n == 'default' else None)
        if not f or f['sig']['self'] or not f.get('body') or len(f['body']) != 1 or f['body'][0]['k'] != 'expr': return False
        b = unblock(f['body'][0]['e'])
        sub = Norm(self.m, t)
        if b['k'] != 'struct': return sub.emptyfield(b, m, depth + 1)
        for y in b['fs']:
            if y.get('m', y.get('id')) == m:
                if emptyvec(y['e']) or isdefault(y['e']): return True
                for (p, a) in zip(f['sig']['ins'], d['args']):
                    if name(y['e']) and binds(p, name(y['e'])): return emptyvec(a) or isdefault(a)
                return False
        return bool(b['base']) and sub.emptyfield(b['base'], m, depth + 1)

    def helper(self, q):
        """a call of a function of the library that gives an array or a vector"""
        if not self.m: return False
        if q['k'] == 'mcall': f = self.m.inherent.get(self.owner, {}).get(q['m']) if name(q['r']) == 'self' else None
        elif q['f']['k'] == 'path' and len(q['f']['segs']) > 1: f = self.m.inherent.get(self.owner if q['f']['segs'][-2]['id'] == 'Self' else q['f']['segs'][-2]['id'], {}).get(q['f']['segs'][-1]['id'])
        else: f = None
        o = f and f['sig']['out']
        return bool(o) and (o['k'] == 'array' or tname(o) == 'Vec')

    def loops(self, ss):
        ss = list(ss)
        for k, s in enumerate(ss):
            if s['k'] == 'expr' and s['e']['k'] in ('for', 'while'):
                r = self.places(ss, k, s['e'])
                if r: return self.loops(ss[:k] + r + ss[k + 1:])
        for k, s in enumerate(ss):
            # over the value of a helper: the value gets a name
            if s['k'] == 'expr' and s['e']['k'] == 'for':
                it = s['e']['e']
                q = it['r'] if it['k'] == 'mcall' and it['m'] in ('iter', 'into_iter') and not it['args'] else it['e'] if it['k'] == 'ref' and not it['mut'] else it
                if q['k'] in ('mcall', 'call') and self.helper(q):
                    v = fresh('c')
                    it = dict(it, r=P(v)) if it['k'] == 'mcall' and q is it.get('r') else dict(it, e=P(v)) if it['k'] == 'ref' else P(v)
                    return self.loops(ss[:k] + [let(ident(v), q), st(dict(s['e'], e=it), s['semi'])] + ss[k + 1:])
        for k, s in enumerate(ss):
            if s['k'] != 'expr': continue
            e = s['e']
            if e['k'] == 'loop':
                b = e['b']
                if b and b[0]['k'] == 'expr' and b[0]['e']['k'] == 'if' and not b[0]['e']['e'] and is_break(b[0]['e']['t']) and not has(b[1:], 'break', 'continue'):
                    e = {'k': 'while', 'c': neg(b[0]['e']['c']), 'b': b[1:]}
            if e['k'] == 'for' and e['e']['k'] == 'range' and e['e']['incl'] and e['e']['l'] and e['e']['l']['k'] == 'int' and e['e']['l']['v'] == '1' and e['e']['h'] and \
               (e['p']['k'] == 'wild' or (e['p']['k'] == 'ident' and not mentions(e['b'], e['p']['id']))):
                e = dict(e, p={'k': 'wild'}, e={'k': 'range', 'l': intlit(0), 'h': e['e']['h'], 'incl': False})
            if e['k'] == 'for': e = self.flat(e)
            if e['k'] == 'for' and e['e']['k'] == 'mcall' and e['e']['m'] in ('map', 'enumerate', 'copied', 'cloned'):
                p, b = e['p'], e['b']
                def use(x, p=p, b=b):
                    if p['k'] == 'tuple' and x['k'] == 'tuple' and len(p['ps']) == len(x['es']): return [let(q, y) for q, y in zip(p['ps'], x['es']) if q['k'] != 'wild'] + b
                    if p['k'] == 'ref': p, x = p['p'], un_deref(x)
                    if p['k'] == 'ident' and not p['mut'] and x['k'] in ('path', 'un') and not any(binds(y, p['id']) for y in b): return subst(b, p['id'], x)
                    return [let(p, x)] + b
                l = iterate(e['e'], use)
                if l: e = l
            if e['k'] == 'for' and e['e']['k'] == 'mcall' and e['e']['m'] == 'zip' and e['p']['k'] == 'tuple':
                o = overlay(e)
                if o: ss[k] = st(o); continue
            if e['k'] == 'for' and e['p']['k'] == 'wild' and e['e']['k'] == 'range' and not e['e']['incl'] and e['e']['h'] and e['e']['h']['k'] == 'mcall' and e['e']['h']['m'] == 'remaining':
                q = e['e']['h']['r']
                if len(e['b']) == 1 and e['b'][0]['k'] == 'expr' and e['b'][0]['e'] .get('m') == 'push' and e['b'][0]['e']['args'][0].get('m') in ('get_u8', 'get_i8') and e['b'][0]['e']['args'][0]['r'] == q:
                    ss[k] = st({'k': 'while', 'c': mcall(q, 'has_remaining'), 'b': e['b']})
                    continue
            if e['k'] == 'while':
                c = e['c']
                if c['k'] == 'bin' and c['op'] in ('>', '!=') and c['r']['k'] == 'int' and c['r']['v'] == '0' and c['l']['k'] == 'mcall' and c['l']['m'] == 'remaining':
                    e = dict(e, c=mcall(c['l']['r'], 'has_remaining'))
                    ss[k] = st(e)
                    continue
                n = self.counting(ss, k, e)
                if n:
                    j, f = n
                    ss[k] = st(f)
                    if j is not None: ss[j] = None
                    return self.loops([x for x in ss if x is not None])
            if e is not s['e']: ss[k] = st(e)
        return ss

    def counting(self, ss, k, e):
        """(index of the counter's let to drop, for loop)"""
        c, b = e['c'], e['b']
        if c['k'] != 'bin' or has(b, 'break', 'continue') or not b: return None
        op, l, r = c['op'], c['l'], c['r']
        if op == '>' and name(r): op, l, r = '<', r, l
        # while i < n { ..; i += 1 }
        if op in ('<', '!=') and name(l) and not (op == '!=' and r['k'] == 'int' and r['v'] == '0'):
            i = name(l)
            j = self.decl(ss, k, i)
            if j is None or not zero(ss[j]['e']) or mentions(ss[k + 1:], i) or not step(b[-1], i, '+='): return None
            body = b[:-1]
            keep = r['r']['segs'][0]['id'] if r['k'] == 'mcall' and r['m'] == 'len' and name(r['r']) and samelen(body, name(r['r'])) else None
            if assigned(body, i) or not pure(r) or mentions(r, i) or any(assigned(body, x) for x in names(r) - {keep}): return None
            if mentions(ss[j + 1:k], i): return None
            return j, {'k': 'for', 'p': ident(i), 'e': {'k': 'range', 'l': ss[j]['e'], 'h': r, 'incl': False}, 'b': body}
        # while r > 0 { ..; r -= 1 }
        if op in ('>', '!=') and name(l) and r['k'] == 'int' and r['v'] == '0':
            i = name(l)
            j = self.decl(ss, k, i)
            at = [x for x in (0, len(b) - 1) if step(b[x], i, '-=')]
            if j is None or not at or mentions(ss[k + 1:], i) or mentions(ss[j + 1:k], i): return None
            body = b[:at[0]] + b[at[0] + 1:]
            if mentions(body, i): return None
            n = fresh(i)
            ss[j] = let(ident(n) if ss[j]['p']['k'] != 'typed' else dict(ss[j]['p'], p=ident(n)), ss[j]['e'])
            return None, {'k': 'for', 'p': {'k': 'wild'}, 'e': {'k': 'range', 'l': intlit(0), 'h': P(n), 'incl': False}, 'b': body}
        # while v.len() < n { v.push(..) }
        if op in ('<', '!=') and l['k'] == 'mcall' and l['m'] == 'len' and name(l['r']):
            v = name(l['r'])
            j = self.decl(ss, k, v)
            if j is None or not emptyvec(ss[j]['e']) or mentions(ss[j + 1:k], v): return None
            if not (b[-1]['k'] == 'expr' and b[-1]['e']['k'] == 'mcall' and b[-1]['e']['m'] == 'push' and name(b[-1]['e']['r']) == v) or mentions(b[-1]['e']['args'], v) or mentions(b[:-1], v): return None
            if not pure(r) or mentions(r, v) or any(assigned(b, x) for x in names(r)): return None
            return None, {'k': 'for', 'p': {'k': 'wild'}, 'e': {'k': 'range', 'l': intlit(0), 'h': r, 'incl': False}, 'b': b}
        return None

    def decl(self, ss, k, n):
        for j in range(k - 1, -1, -1):
            s = ss[j]
            if s and s['k'] == 'let' and binds(s['p'], n): return j if untyped(s['p'])['k'] == 'ident' and s['e'] else None
            if s and assigned([s], n): return None
        return None

def split(p, n, vs):
    """lets of the names of the slice pattern p for the n values vs; None if it is of another kind"""
    ps = p['ps']
    if ps and ps[-1]['k'] == 'rest': ps = ps[:-1]
    elif len(ps) != n: return None
    if len(ps) > n or any(q['k'] not in ('ident', 'wild') for q in ps): return None
    return [let(q, v) for q, v in zip(ps, vs) if q['k'] == 'ident']

def subst_deref(x, n, rep):
    if isinstance(x, list): return [subst_deref(y, n, rep) for y in x]
    if isinstance(x, dict):
        if x.get('k') == 'un' and x['op'] == '*' and name(x['e']) == n: return rep
        return {k: subst_deref(v, n, rep) for k, v in x.items()}
    return x

def samelen(body, v):
    """v is only read and written element by element"""
    n, all_ = [], []
    def f(y):
        if y.get('k') == 'index' and name(y['e']) == v: n.append(y)
        if y.get('k') == 'path' and name(y) == v: all_.append(y)
        if y.get('k') == 'ref' and y['mut'] and root(y['e']) == v: all_.append(y)
    walk(body, f)
    return len(n) == len(all_)

def sidefree(x):
    ok = [True]
    def f(y):
        if y.get('k') == 'mcall' and (y['m'].startswith(('get_', 'put_', 'push', 'set_')) or y['m'] in ('deserialize', 'advance', 'copy_to_slice', 'serialize')): ok[0] = False
        if y.get('k') == 'call' and y['f']['k'] == 'path' and y['f']['segs'][-1]['id'].startswith('deserialize'): ok[0] = False
    walk(x, f)
    return ok[0]

def is_break(b): return len(b) == 1 and b[0]['k'] == 'expr' and b[0]['e']['k'] == 'break'
NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
def neg(c):
    if c['k'] == 'bin' and c['op'] in NEG: return dict(c, op=NEG[c['op']])
    if c['k'] == 'un' and c['op'] == '!': return c['e']
    return {'k': 'un', 'op': '!', 'e': c}
def octets(b, n):
    """{ let mut v = vec![0; n]; b.copy_to_slice(&mut v); v }"""
    v = fresh('v')
    return block([let(ident(v, True), call(P('vec', 'from_elem'), intlit(0, 'u8'), n)), st(mcall(b, 'copy_to_slice', {'k': 'ref', 'mut': True, 'e': P(v)})), st(P(v), False)])
def zero(e): return e['k'] == 'int' and int(e['v']) == 0
def emptyvec(e):
    return e['k'] == 'call' and e['f']['k'] == 'path' and [s['id'] for s in e['f']['segs']][-2:] in (['Vec', 'new'], ['Vec', 'with_capacity'])
def isdefault(e): return e['k'] == 'call' and not e['args'] and e['f']['k'] == 'path' and e['f']['segs'][-1]['id'] == 'default' and len(e['f']['segs']) > 1
def step(s, i, op):
    if s['k'] != 'expr': return False
    e = s['e']
    if e['k'] == 'bin' and e['op'] == op and name(e['l']) == i and e['r']['k'] == 'int' and e['r']['v'] == '1': return True
    return e['k'] == 'assign' and name(e['l']) == i and e['r']['k'] == 'bin' and e['r']['op'] == op[0] and name(e['r']['l']) == i and e['r']['r']['k'] == 'int' and e['r']['r']['v'] == '1'

# ---------------------------------------------------------------- return and ? of functions to be inlined
def deret(ss, kind):
    """statements with every `return` and `?` in tail position; kind: Option, Result or None"""
    def diverges(e):
        """ends in return on every path"""
        if e is None: return False
        if e['k'] == 'return': return True
        if e['k'] == 'block': return bool(e['b']) and e['b'][-1]['k'] == 'expr' and diverges(e['b'][-1]['e'])
        if e['k'] == 'if': return diverges(block(e['t'])) and e['e'] is not None and diverges(e['e'])
        if e['k'] == 'match': return all(diverges(a['e']) for a in e['arms'])
        return False
    def fail(v):
        if kind == 'Option': return [(pts('Some', v), None), (NONE, NONE)]
        w = fresh('e')
        return [(pts('Ok', v), None), (pts('Err', ident(w)), call(P('Err'), P(w)))]
    def tail(e, rest):
        """the value of e, bound by rest(value) -> statements; e in statement or let position"""
        if not has(e, 'return', 'try'): return rest(e)
        k = e['k']
        if k == 'return': return go([st(e['e'], False)]) if e['e'] else [st({'k': 'tuple', 'es': []}, False)]
        if k == 'try':
            def inner(x):
                v = fresh('v')
                a = fail(ident(v))
                return [st(match(x, (a[0][0], block(rest(P(v)))), (a[1][0], a[1][1])), False)]
            return tail(e['e'], inner)
        if k == 'block':
            return seq(e['b'], rest)
        if k == 'if':
            c = e['c']
            if c['k'] == 'letcond':
                if has(c['e'], 'return', 'try'): return tail(c['e'], lambda x: tail(dict(e, c=dict(c, e=x)), rest))
                f = lambda x: x
            else:
                if has(c, 'return', 'try'): return tail(c, lambda x: tail(dict(e, c=x), rest))
            t = seq(e['t'], rest)
            u = tail(e['e'], rest) if e['e'] is not None else rest({'k': 'tuple', 'es': []})
            return [st(iff(c, t, block(u)), False)]
        if k == 'match':
            if has(e['e'], 'return', 'try'): return tail(e['e'], lambda x: tail(dict(e, e=x), rest))
            if any(a['g'] and has(a['g'], 'return', 'try') for a in e['arms']): raise Unsupported('return in a guard')
            return [st(dict(e, arms=[dict(a, e=block(tail(a['e'], rest))) for a in e['arms']]), False)]
        if k in ('cast', 'un', 'ref', 'field'): return tail(e['e'], lambda x: rest(dict(e, e=x)))
        if k == 'mcall':
            if has(e['r'], 'return', 'try'): return tail(e['r'], lambda x: tail(dict(e, r=x), rest))
            if not pure(e['r']): raise Unsupported('? in an argument')
        if k in ('call', 'mcall', 'tuple', 'array'):
            f = 'args' if k in ('call', 'mcall') else 'es'
            for i, a in enumerate(e[f]):
                if has(a, 'return', 'try'):
                    def cont(x, i=i): return tail(dict(e, **{f: e[f][:i] + [x] + e[f][i + 1:]}), rest)
                    return tail(a, cont)
                if not pure(a):
                    v = fresh('t')
                    r = tail(dict(e, **{f: e[f][:i] + [P(v)] + e[f][i + 1:]}), rest)
                    return [let(ident(v), a)] + r
        if k == 'bin' and e['op'] not in ('&&', '||'):
            if has(e['l'], 'return', 'try') and not e['op'].endswith('='): return tail(e['l'], lambda x: tail(dict(e, l=x), rest))
            if pure(e['l']) or e['op'].endswith('='): return tail(e['r'], lambda x: rest(dict(e, r=x)))
        if k == 'assign': return tail(e['r'], lambda x: rest(dict(e, r=x)))
        if k == 'struct' and not e['base']:
            for i, f in enumerate(e['fs']):
                if has(f['e'], 'return', 'try'):
                    def cont(x, i=i): return tail(dict(e, fs=e['fs'][:i] + [dict(e['fs'][i], e=x)] + e['fs'][i + 1:]), rest)
                    return tail(f['e'], cont)
                if not pure(f['e']):
                    v = fresh('t')
                    return [let(ident(v), f['e'])] + tail(dict(e, fs=e['fs'][:i] + [dict(f, e=P(v))] + e['fs'][i + 1:]), rest)
        raise Unsupported('return in ' + k)
    def seq(ss, rest):
        """statements of a block whose value goes to rest"""
        if not ss: return rest({'k': 'tuple', 'es': []})
        s, more = ss[0], ss[1:]
        if s['k'] == 'let' and s.get('else'):
            if has(s['e'], 'return', 'try'): return tail(s['e'], lambda x: seq([dict(s, e=x)] + more, rest))
            return [st(match(s['e'], (s['p'], block(seq(more, rest))), ({'k': 'wild'}, block(tail(s['else'], rest)))), False)]
        if s['k'] == 'let' and s['e'] and has(s['e'], 'return', 'try'):
            return tail(s['e'], lambda x: [dict(s, e=x)] + seq(more, rest))
        if s['k'] == 'expr' and has(s['e'], 'return', 'try'):
            if s['e']['k'] in ('for', 'while', 'loop'): raise Unsupported('return in a loop')
            if not s['semi'] and not more: return tail(s['e'], rest)
            if s['e']['k'] == 'return': return tail(s['e'], rest)
            return tail(s['e'], lambda x: (([st(x)] if not (x['k'] == 'tuple' and not x['es']) and not x['k'] == 'path' else []) + seq(more, rest)))
        if s['k'] == 'expr' and not s['semi'] and not more and s['e']['k'] not in ('for', 'while', 'loop'): return rest(s['e'])
        return [s] + seq(more, rest)
    def go(ss): return seq(ss, lambda x: [st(x, False)])
    return go(ss)

def letelse(ss):
    """let .. else at the level of a function under contract"""
    out = []
    for i, s in enumerate(ss):
        if s['k'] == 'let' and s.get('else'):
            return out + [st(match(s['e'], (s['p'], block(letelse(ss[i + 1:]))), ({'k': 'wild'}, s['else'])), False)]
        out.append(s)
    return out

def beta(body, n, f):
    """calls of the parameter n replaced by the body of the closure / function f"""
    ok = [True]
    def rep(x):
        if isinstance(x, list): return [rep(y) for y in x]
        if isinstance(x, dict):
            if x.get('k') == 'call' and name(x['f']) == n:
                y = apply(f, [rep(a) for a in x['args']])
                if y is None: ok[0] = False; return x
                return y
            if x.get('k') == 'mcall' and any(name(a) == n for a in x['args']): return {k: rep(v) if k != 'args' else [f if name(a) == n else rep(a) for a in v] for k, v in x.items()}
            return {k: rep(v) for k, v in x.items()}
        return x
    r = rep(body)
    return r if ok[0] and not mentions(r, n) else None
