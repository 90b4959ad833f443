"""Kani: C08 on the compiled code of /repo (spec/status.rs); the contracts assumed on crate bytes and core (spec/assumed.rs)."""
import json, os, re, shutil
from drive import sh, REPO, ROOT

def kani(run, name, deps, timeout, text=None):
    """(verified, {failed harness: text}, seconds, names, None or why there is no complete result)"""
    d = f'{run.scratch}/k_{name}'
    os.makedirs(f'{d}/src')
    if text: open(f'{d}/src/lib.rs', 'w').write(text)
    else: shutil.copy(f'{ROOT}/spec/{name}.rs', f'{d}/src/lib.rs')
    src = open(f'{d}/src/lib.rs').read()
    names = [n for n in re.findall(r'#\[kani::proof\](?:\s*#\[[^\]]*\])*\s*fn ([\w$]+)\(', src) if not n.startswith('$')]
    for a, b in re.findall(r'^(?:indicator|put|get)!\((\w+), (\w+),', src, re.M): names += [a] if a.startswith('put') else [a, b]
    for x in re.findall(r'^all! \{(.*)\}', src, re.M): names += [y.split()[0] for y in x.split(';') if y.strip()]
    open(f'{d}/Cargo.toml', 'w').write(f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\n{deps}\n[lints.rust]\nunexpected_cfgs = {{ level = "allow", check-cfg = [\'cfg(kani)\'] }}\n[workspace]\n')
    if os.path.exists(f'{REPO}/Cargo.lock'): shutil.copy(f'{REPO}/Cargo.lock', d)
    rc, out, err = sh(['cargo', 'kani', '--output-format', 'terse', '-j', '8'], cwd=d, env={'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': f'{run.scratch}/tgt-k-{name}'}, timeout=timeout)
    secs = round(sum(float(x) for x in re.findall(r'Verification Time: ([\d.]+)s', out)), 1)
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', out)
    if not m or int(m.group(3)) != len(names):
        return 0, {}, secs, names, f'kani gave no complete result ({m.group(3) if m else "none"} of {len(names)}): ' + (out + err)[-1500:]
    text = '\n'.join(l for l in out.split('\n') if 'Failed Checks' in l or 'File:' in l)[:3000]
    return int(m.group(1)), {n: text for n in sorted(set(re.findall(r'Verification failed for - (\w+)', out)))}, secs, names, None

def check(run):
    n, bad, secs, names, broken = kani(run, 'status', f'open-dis-rust = {{ path = "{REPO}" }}', 500)
    r = {'failed': [{'name': k, 'msg': 'contract of ' + k + ' not satisfied', 'text': t} for k, t in bad.items()], 'verified': n, 'broken': broken, 'functions': names, 'secs': secs,
         'cmd': 'cargo kani --output-format terse (spec/status.rs, path dependency on /repo)',
         'trust': ['Kani 0.68 and CBMC as shipped with it, rustc MIR', 'the bit positions written in spec/status.rs (IEEE 1278.1-2012, PDU Status record)']}
    if not broken: run.say(f'kani: {n} verified, {len(bad)} failed')
    return r

FLAGS = """
#[kani::proof]
fn {F}() {
    type T = {path};
    let b: {u} = kani::any();
    let all: {u} = {all};
    assert!(T::from_bits_retain(b).bits() == b && T::empty().bits() == 0 && T::all().bits() == all);
    assert!(T::from_bits_truncate(b).bits() == b & all);
    match T::from_bits(b) { Some(x) => assert!(b & all == b && x.bits() == b), None => assert!(b & all != b) }
}"""
FROM = """
#[kani::proof]
fn from_{E}() {
    // requires: a code of the field
    let v: {u} = kani::any();
    kani::assume(v <= {top});
    let want: u32 = match v { {codes} => v as u32, _ => {dflt} };
    assert!({path}::from(v) as u32 == want);
}"""
INTO = """
#[kani::proof]
fn into_{E}() {
    let all = [{all}];
    let i: usize = kani::any();
    kani::assume(i < all.len());
    assert!({u}::from(all[i].0) == all[i].1 && all[i].0 as {u} == all[i].1);
}"""
def conversions(g, h):
    """the From conversions between an enumeration and its code: every code of the narrowest field that holds all declared codes"""
    t, fz = '', getattr(g, 'frozen_enums', None) or json.load(open(f'{ROOT}/spec/enums.json'))
    for E, d in sorted(fz.items()):
        if E not in g.m.enums: continue
        vs = {v: c for v, c in d['codes'].items() if any(x['id'] == v for x in g.m.enums[E]['variants'])}
        if not vs: continue
        top = (1 << max(vs.values()).bit_length()) - 1
        for u in ('u8', 'u16', 'u32'):
            v = {'E': E, 'u': u, 'top': str(top), 'path': h.path(E), 'dflt': str(d['codes'].get(d['default'], 0)), 'codes': ' | '.join(str(c) for c in sorted(set(vs.values()))), 'all': ', '.join(f'({h.path(E)}::{n}, {c})' for n, c in vs.items())}
            for a, b, x in ((u, E, FROM), (E, u, INTO)):
                if (a, b) not in g.m.froms: continue
                for k, w in v.items(): x = x.replace('{' + k + '}', w)
                t += x
    return t

def flags(run, g):
    """what the Verus crates assume of the methods that bitflags! generates: proved on the compiled code, for every value of the bits"""
    fs = g.flag_types()
    h = __import__('harness').Harness(g, ['C05'])
    text = '#![allow(non_snake_case)]\n'
    for F, u, al in fs:
        for k, v in (('F', F), ('path', h.path(F)), ('u', u), ('all', str(al))): text = (text if k != 'F' else text + FLAGS).replace('{' + k + '}', v)
    text += conversions(g, h)
    if '#[kani' not in text: return None
    n, bad, secs, names, broken = kani(run, 'flags', f'open-dis-rust = {{ path = "{REPO}" }}', 400, text)
    if not broken: run.say(f'kani: {n} flag records and code conversions verified, {len(bad)} failed')
    return {'failed': [{'name': k[5:] + '::from', 'msg': 'contract of the conversion ' + k + ' not satisfied', 'text': t} if k.startswith(('from_', 'into_')) else {'name': k + '::from_bits', 'msg': 'contract of the flag record ' + k + ' not satisfied', 'text': t} for k, t in bad.items()], 'verified': n, 'broken': broken, 'functions': names, 'secs': secs}

def assumed(run):
    """a bounded check of what the prelude assumes, on the real crate bytes and core"""
    n, bad, secs, names, broken = kani(run, 'assumed', 'bytes = "1"\nnum-traits = "0.2"', 800)
    run.say('assumed contracts under kani:', broken or f'{n} of {len(names)} hold')
    return {'harnesses': len(names), 'hold': n, 'fail': sorted(bad), 'seconds': secs, 'error': broken, 'cmd': 'cargo kani (spec/assumed.rs)',
            'scope': 'put_*/get_*/put_slice/put_bytes/copy_to_slice/advance/chunk of crate bytes: all values, at most 2 octets before, 10 after, one split of the input; integer conversions, bit patterns, saturating and min/max: all values; str::trim_end_matches: 3 ASCII octets; f32 identities: finite values; the provided methods of num_traits::FromPrimitive: all values'}
