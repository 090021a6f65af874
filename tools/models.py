"""Checks that start from a model: model checking of the design, and behaviours generated by TLC replayed into the code."""
import json, re
from run import ToolError
import plans as P

def plans_of(r):
    """the PLAN lines of a TLC run"""
    out = []
    for m in re.finditer(r'^"PLAN (.*)"$', r['out'], re.M):
        out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return out

def mc(c, module, consts, spec='SPECIFICATION Spec', inv=(), prop=(), tag='', workers=4, extra=(), expect=None, mem='3g'):
    """model checking; expect: the invariant that a deliberately faulty model must violate"""
    body = spec + '\n' + (f'INVARIANTS {" ".join(inv)}\n' if inv else '') + (f'PROPERTIES {" ".join(prop)}\n' if prop else '') + 'CHECK_DEADLOCK FALSE\n'
    r = c.run.tlc(module, consts, cfgbody=body, tag=tag, workers=workers, extra=extra, mem=mem)
    name = module + (' ' + ' '.join(f'{k}{v}' for k, v in consts.items()) if consts else '')
    if expect:
        if f'{expect} is violated' not in r['out']:
            raise ToolError(f'the faulty model {name} was not rejected')
        c.models.append({'model': name, 'rejected_as_expected': expect})
        return r
    if '-simulate' in extra:
        if 'Error' in r['out']:
            raise ToolError(f'{name}: ' + r['out'][-1500:])
        m = re.search(r'The number of states generated: (\d+)', r['out'])
        r['generated'] = r['states'] = int(m.group(1)) if m else 0
        r['ok'] = True
    c.model(name, r)
    return r

# --- C01: every request that deviates from an ordinary one in up to two parts ---------
def requests(c, variants):
    r = mc(c, 'RequestsMC', {'Depth': '= 2', 'Types': '= {"u8", "u16", "f32", "ar30h", "ra30n"}'}, spec='INIT Init\nNEXT Next',
           inv=('Sound', 'Named', 'Plan'), workers=1)
    reqs = plans_of(r)
    if len(reqs) < 20000:
        raise ToolError(f'only {len(reqs)} requests')
    R = c.rng('requests')
    if c.tier == 'quick':
        R.shuffle(reqs)
        reqs = reqs[:7000]
    L = []
    for q in reqs:
        pk = '30' in q['ty']
        g = ' '.join(f'{k}={v}' for k, v in q.items())
        L.append(f'op=resize {g} wl={R.choice("sq")} pm={R.randint(0, 1) if q["n"] == 4 and not pk else 0} pol={R.choice(["s", "s", "f2"])} geom=1 api={"store" if R.random() < .3 and not pk else "direct"}')
    return L

# --- C02, C04: the concurrent pipeline --------------------------------------------------
INV = ('Result', 'SourceKept', 'Owners', 'Complete')
def pipeline(c):
    q = c.tier == 'quick'
    mc(c, 'Pipeline', {'MaxH': '= 4' if q else '= 6', 'MaxThreads': '= 2' if q else '= 3', 'Fault': '= "none"'}, inv=INV, prop=('Once', 'Ends'), workers=4)
    for f, i in (('no_barrier', 'Complete'), ('dropped_rest', 'Result')):
        mc(c, 'Pipeline', {'MaxH': '= 5', 'MaxThreads': '= 2', 'Fault': f'= "{f}"'}, inv=INV, tag=f, workers=2, expect=i)
def pipeline_calls(c, v):
    """every call of the model as real calls, grouped by what must give the same picture"""
    q = c.tier == 'quick'
    if not hasattr(c, 'calls'):
        r = mc(c, 'PipelineMC', {'MaxH': '= 9' if q else '= 13', 'MaxThreads': '= 4' if q else '= 6', 'Fault': '= "none"'}, spec='INIT Announce\nNEXT Stay', workers=1)
        gs = {}
        for d in plans_of(r):
            gs.setdefault((d['sh'], d['dh'], d['kind'], d['alpha']), set()).add(d['threads'])
        c.calls = sorted(gs.items())
    R = c.rng('calls' + v)
    L = []
    for i, ((sh, dh, kind, alpha), ts) in enumerate(c.calls):
        if q and v != 'default' and R.random() < .6:
            continue
        ty = P.types(R, v, not alpha)
        n = 4 if alpha else R.randint(1, 4)
        bd = P.depth(R, ty)
        w = R.randint(1, 20)
        x = w if kind in ('vert', 'copy') else R.choice([k for k in range(1, 21) if k != w])
        f = 1 if kind == 'pick' else P.filt(R)
        b = f'op=resize {P.fmt(ty, n, bd)} f={f} wl={R.choice("sq")} pm={int(alpha)} sw={w} sh={sh} dw={x} dh={dh} src={P.content(R, ty, bd, i, .1)} grp={v}-m{i}'
        L += [b + f' pol={"s" if t == 1 else "f%d" % t}' for t in sorted(ts)]
    return L

# --- C24 --------------------------------------------------------------------------------
def weights(c):
    mc(c, 'WeightsMC', {'MaxN': '= 8' if c.tier == 'quick' else '= 20'}, spec='INIT Init\nNEXT Next', inv=('InRange', 'Unity', 'FixedUnity', 'Forward', 'Centered', 'Positive'), workers=4)

# --- C19: histories of scalers ------------------------------------------------------------
def history(R, acts, g, v):
    G = f'grp={v}-{g}'
    half = v.startswith('half')
    L = [f'op=set sc={s} f=0 pol=a {G}' for s in 'AB'] + ([] if half or v == 'scalar' else [f'op=set sc=C api=linear f=0 pol=a tr=0 {G}'])
    skip = set()   # registers that hold results this build cannot make
    for a in acts:
        o = a['op']
        api = f' api={a["api"]} tr={a.get("tr", 0)}' if a.get('sc') == 'C' or a.get('api', 'direct') != 'direct' else ''
        if 'ty' in a and half and a['ty'] == 'f32':
            a = {**a, 'ty': 'f16'}
        if v not in ('default', 'avx512') and (a.get('sc') == 'C' or a.get('api', 'direct') != 'direct'):
            if o == 'call': skip.add(a['to'])
            continue
        if 'reg' in a and o in ('call', 'probe') and a['reg'] in skip:
            if o == 'call': skip.add(a['to'])
            continue
        if o in ('call', 'load'):
            skip.discard(a['to' if o == 'call' else 'reg'])
        if o == 'new':
            L.append(f'op=set sc={a["sc"]} f={a["f"]}{api} {G}')
        elif o in ('pol', 'wl'):
            L.append(f'op=set sc={a["sc"]} {o}={a[o]}' + (f' api={a["api"]}' if a['sc'] == 'C' else '') + f' {G}')
        elif o == 'copy':
            L.append(f'op=set sc={a["sc"]} copy={a["copy"]} {G}')
        elif o == 'load':
            bd = a['bd'] if a['ty'] == 'u16' else 0
            t = P.top(a['ty'], bd)
            src = f'rand:{a["seed"]}:0:{t}'
            if a['n'] == 4 and '30' not in a['ty'] and a['kind'] in ('opaque', 'clear', 'even'):
                al = {'opaque': t, 'clear': 0, 'even': t // 3}[a['kind']]
                src = f'randa:{a["seed"]}:0:{t}:{al}:{al}'
            elif a['kind'] == 'flat':
                src = f'flat:{t // (a["seed"] + 1)}'
            L.append(f'op=resize {P.fmt(a["ty"], a["n"], bd)} f=0 sw={a["w"]} sh={a["h"]} dw={a["w"]} dh={a["h"]} src={src} name={a["reg"]} {G}')
        elif o in ('call', 'probe'):
            k = f'sc={a["sc"]} nopol=1 nowl=1' + (f' par={a["par"]}' if a['par'] > 1 else f' noise={R.randint(1, 9999)}' if a['par'] == 0 else '') if o == 'call' else f'f={a["f"]} wl={a["wl"]} pol={a["pol"]}'
            L.append(f'op=resize {P.fmt(a["ty"], a["n"], a["bd"])} {k}{api} sw={a["sw"]} sh={a["sh"]} dw={a["dw"]} dh={a["dh"]} pm={a["pm"] if a["n"] == 4 else 0} src=reg:{a["reg"]}'
                     + (f' name={a["to"]}' if o == 'call' else '') + f' st={R.randint(1, 99)} {G}')
        elif o == 'fail':
            k, d = a['kind'], dict(sw=a['sw'], sh=a['sh'], dw=5, dh=4)
            bd = a['bd']
            if k == 'depth' and a['ty'] == 'u16': bd = R.choice([0, 17])
            elif k in ('zero', 'depth'): d[R.choice(['sw', 'sh', 'dw', 'dh'])] = 0
            elif k == 'short': d[R.choice(['sl', 'dl'])] = 3 if a['sw'] * a['sh'] * a['n'] != 3 else 2
            else: d['ds'] = 2
            L.append(f'op=resize ty={a["ty"]} n={a["n"]} bd={bd} sc={a["sc"]} nopol=1 nowl=1{api} geom=1 ' + ' '.join(f'{x}={y}' for x, y in d.items()) + f' {G}')
    return L
def sessions(c, run_groups):
    q = c.tier == 'quick'
    mc(c, 'Session', {'Depth': '= 3' if q else '= 4', 'Wide': '= FALSE'}, inv=('Terms',), prop=('Quiet',), workers=4)
    vs = ['default', 'scalar', 'avx512', 'half']
    N = 260 if q else 2500
    r = mc(c, 'Session', {'Depth': '= 26', 'Wide': '= TRUE'}, spec='INIT Init\nNEXT Next', inv=('Terms',), tag='sim', workers=1,
           extra=('-simulate', f'num={N}', '-depth', '30', '-seed', str(c.seed)))
    hs = plans_of(r)
    if len(hs) < N:
        raise ToolError(f'only {len(hs)} histories')
    c.run.build(vs)
    run_groups(c, {v: [l for g, h in enumerate(hs if v == 'default' else hs[::3]) for l in history(c.rng(f'{v}{g}'), h, g, v)] for v in vs}, 4)

# --- C22: histories of containers -----------------------------------------------------------
def stores(c):
    q = c.tier == 'quick'
    mc(c, 'StoresMC', {'Depth': '= 2' if q else '= 3', 'Wide': '= FALSE'}, inv=('WholeBuffers', 'AtHome'), prop=('Apart', 'Faithful', 'SamePicture', 'Home'), workers=4)
    N = 3000 if q else 25000
    r = mc(c, 'StoresMC', {'Depth': '= 9', 'Wide': '= TRUE'}, spec='INIT Init\nNEXT Next', inv=('WholeBuffers',), tag='sim', workers=1,
           extra=('-simulate', f'num={N}', '-depth', '14', '-seed', str(c.seed)))
    hs = plans_of(r)
    if len(hs) < N * .9:
        raise ToolError(f'only {len(hs)} histories')
    L = ['op=alias']
    H = ['op=alias']
    for h in hs:
        m = h['made']
        acts = ';'.join(':'.join([a[0]] + [str(x) for x in a[1]]) for a in h['acts'])
        (H if m['ty'] == 'f16' else L).append('op=store ' + ' '.join(f'{k}={v}' for k, v in m.items()) + (f' acts={acts}' if acts else ''))
    L += P.vast_stores(c.rng('vast'), 60 * c.k)
    c.run.build(['default', 'half'])
    evs = c.run.drive({'default': L, 'half': H}, 6)
    # whole histories stay together
    parts, cur = [], []
    for e in evs:
        if '"step":0' in e and len(cur) > len(evs) / 10:
            parts.append(cur)
            cur = []
        cur.append(e)
    parts.append(cur)
    def one(t):
        return c.run.check('TraceStores', {}, t[1], 1, f's{t[0]}-')
    for part, (s, rej) in zip(parts, c.run.outer.map(one, enumerate(parts))):
        c.st += s['states']; c.tr += s['generated']; c.traces += s['traces']; c.events += s['events']
        c.viol += [(e, w, 'TraceStores') for e, w in rej]
        c.samples += [{k: v for k, v in json.loads(part[0]).items() if k not in ('a', 'b')}]

# --- C20 --------------------------------------------------------------------------------------
def colours(c, independent, run_groups):
    vs = ['default', 'avx512']
    c.run.build(vs)
    independent(c, {v: P.colours(c.rng(v), (420 if v == 'default' else 160) * c.k) for v in vs})
    run_groups(c, {v: P.colour_groups(c.rng(v + 'g'), v, (60 if v == 'default' else 25) * c.k) + P.conversions(c.rng(v + 'c'), v, (330 if v == 'default' else 110) * c.k) for v in vs}, 4)
