"""Index of the dumped items of /repo (tool/astdump output)."""
import json, re

INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}

class Unsupported(Exception):
    pass

def seg_ids(path):
    return [s['id'] for s in path]

def tname(t):
    """last path segment of a type, or None"""
    if t and t.get('k') == 'path': return t['segs'][-1]['id']
    return None

class Model:
    def __init__(self, items):
        self.structs, self.enums, self.consts, self.fns, self.traits = {}, {}, {}, {}, {}
        self.inherent, self.timpls, self.assoc = {}, {}, {}
        self.modof = {}
        self.tconsts = {}       # (type, const name) -> expr
        self.dups = set()
        self.statics = {}       # name -> type
        self.froms = []      # (from, to)
        self.scoped = {'fn': {}, 'const': {}}      # name -> [(module, item)]
        self.generic_impls = [] # impls with generics (Vec<T>, Option<T>)
        self.walk(items, [])

    def put(self, d, name, v, mod):
        if name in d: self.dups.add(name)
        d[name] = v; self.modof[name] = '::'.join(mod)

    def find(self, kind, name, mod, segs=()):
        """the free function or constant a path names in module mod (segs: the path's leading segments)"""
        cs = self.scoped[kind].get(name, [])
        if len(cs) <= 1: return cs[0][1] if cs else None
        q = [x for x in segs if x not in ('crate', 'self', 'super')]
        ms = [c for c in cs if c[0] == mod] if not segs or segs[0] == 'self' else [c for c in cs if q and c[0].split('::')[-len(q):] == q]
        if not ms and segs: ms = [c for c in cs if q and c[0].split('::')[-1:] == q[-1:]]
        if len(ms) == 1: return ms[0][1]
        ts = {json.dumps({k: v for k, v in c[1].items() if k != 'sig'}) + json.dumps({k: v for k, v in c[1].get('sig', {}).items() if k != '_mod'}) for c in cs}
        if len(ts) == 1: return cs[0][1]
        raise Unsupported(f'two items {name}')

    def walk(self, items, mod):
        here = '::'.join(mod)
        for i in items or []:
            k = i['k']
            if k == 'static': self.statics[i['id']] = i['t']
            if k == 'otheritem' or k == 'macro': pass
            if k == 'fn': i['sig']['_mod'] = here; self.scoped['fn'].setdefault(i['sig']['name'], []).append((here, i))
            if k == 'const': self.scoped['const'].setdefault(i['id'], []).append((here, i))
            if k in ('impl', 'trait'):
                for x in i['items']:
                    if x['k'] == 'fn': x['sig']['_mod'] = here
            if k == 'mod':
                if i['id'] in ('tests', 'test'): continue
                self.walk(i['items'], mod + [i['id']])
            elif k == 'anonconst': self.walk(i['items'], mod)
            elif k == 'struct': self.put(self.structs, i['id'], i, mod)
            elif k == 'enum': self.put(self.enums, i['id'], i, mod)
            elif k == 'const': self.put(self.consts, i['id'], i, mod)
            elif k == 'fn': self.put(self.fns, i['sig']['name'], i, mod)
            elif k == 'trait': self.put(self.traits, i['id'], i, mod)
            elif k == 'impl':
                st = tname(i['self'])
                if i['trait'] is None:
                    for x in i['items']:
                        if x['k'] == 'fn':
                            x['gen'] = i['generics']; x['_attrs'] = i.get('attrs')
                            self.inherent.setdefault(st, {})[x['sig']['name']] = x
                        elif x['k'] == 'const': self.tconsts[(st, x['id'])] = x['e']
                else:
                    tr = i['trait'][-1]['id']
                    key = (tr, st)
                    if key in self.timpls and tr in ('FieldSerialize', 'FieldDeserialize', 'FieldLen', 'Pdu', 'SerializedLength'):
                        raise Exception(f'two impls of {key}')
                    if tr == 'From': key = (tr, st, json.dumps(i['trait'][-1]['args']))
                    self.timpls[key] = i
                    if tr == 'From' and i['trait'][-1]['args']: self.froms.append((tname(i['trait'][-1]['args'][0]), st))
                    for x in i['items']:
                        if x['k'] == 'const': self.tconsts[(st, x['id'])] = x['e']

    def tfn(self, tr, ty, name):
        i = self.timpls.get((tr, ty))
        if not i: return None
        for x in i['items']:
            if x['k'] == 'fn' and x['sig']['name'] == name: return x
        return None

def load(path):
    return Model(json.load(open(path)))
