#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree. See DESIGN.md."""
import json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import Run, ToolError, VERIF
import plans as P
import models as M

ALL = ['default', 'scalar', 'sse', 'avx512']
HALF = ['half', 'halfs', 'halfsse']
# processors that lack some extensions
LESS = ['nofma', 'noavx2', 'ssenofma', 'skx', 'icl', 'adl']
RARE = ['novbmi']    # differs in alpha handling only
HALFLESS = ['halfnofma', 'halfnof16c', 'halfssenof16c']
def some(v, most, many):
    """how many calls a variant gets"""
    return most if v == 'default' else many // 3 if v in LESS + HALFLESS + RARE else many
SAT = [e for e in json.load(open(os.path.join(VERIF, 'known-findings.json'))) if 'kind' in e]

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.k = 1 if tier == 'quick' else 8
        self.run = Run(prop, tier, seed)
        self.known = [e for e in SAT if e['property'] == prop]
        json.dump(self.known, open(os.path.join(self.run.dir, 'known.json'), 'w'))
        self.viol = []
        self.seen_known = {}
        self.models = []
        self.st = self.tr = self.traces = self.events = 0
        self.samples = []

    def rng(self, tag):
        return random.Random(f'{self.seed}-{self.prop}-{tag}')

    # the recorded events against a trace specification
    def validate(self, module, events, chunks=12, tag=''):
        if not events:
            return
        consts = {'Property': f'= "{self.prop}"', 'KnownFindings': '<- Known'}
        s, rej = self.run.check(module, consts, events, chunks, tag)
        self.st += s['states']
        self.tr += s['generated']
        self.traces += s['traces']
        self.events += s['events']
        for k in s['known']:
            t = k.replace('"', '').split(', ')
            self.seen_known.setdefault((t[0], t[1]), t[2])
        for ev, why in rej:
            self.viol.append((ev, why, module))
        for e in events[:: max(1, len(events) // 3)][:3]:
            d = json.loads(e)
            self.samples.append({k: v for k, v in d.items() if k not in ('in', 'out', 'a', 'b', 'msg')})

    def model(self, name, r):
        """a model checking run of the design"""
        self.st += r['states']
        self.tr += r['generated']
        self.models.append({'model': name, 'states': r['states'], 'generated': r['generated'], 'ok': r['ok']})
        if not r['ok']:
            raise ToolError(f'model {name} fails on its own: {r["out"][-1500:]}')

    def report(self):
        for e in self.known:
            for f in e['f']:
                k = (e['kind'], str(f))
                if k in self.seen_known:
                    print(f'KNOWN-FINDING: property={self.prop} {e["kind"]} filter={f} call={self.seen_known[k]}: {e["what"]}')
        for i, (ev, why, module) in enumerate(self.viol[:5]):
            path = os.path.join(self.run.dir, f'replay-{i}.json')
            grp = ev.get('grp')
            plan = [l for k, l in self.run.plan.items() if isinstance(l, str) and (f' id={ev.get("id")} ' in l + ' ' or (grp not in (None, 0) and f'grp={grp} ' in l + ' '))]
            json.dump({'property': self.prop, 'rejected_by': module, 'why': why, 'plan': plan, 'event': ev}, open(path, 'w'), indent=1)
            if os.environ.get('VERIF_VERBOSE'):
                e = {k: v for k, v in ev.items() if k not in ('in', 'out')}
                print('  ', e, why)
            print(f'VIOLATION property={self.prop} replay={path}')
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.st, 'transitions': self.tr, 'traces_validated_against_impl': self.traces,
                           'events_validated': self.events, 'models': self.models, 'samples': self.samples[:6],
                           'known_findings_seen': [f'{a} {b}' for a, b in self.seen_known],
                           'variants': sorted(getattr(self.run, 'bin', {}))},
              'assumptions': ['TLC, the Java operators of F32.tla and the driver in /verif/driver are trusted',
                              'results are judged for the calls recorded in this run; the models are exhaustive within their bounds'],
              'wall_s': round(time.time() - self.run.t0, 1), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w'), indent=1)
        return 1 if self.viol else 0

def independent(c, plans, module='TraceConform', chunks=16, split=4):
    """calls that are judged one by one"""
    evs = c.run.drive(plans, split)
    # events of one filter and size next to each other
    evs.sort(key=lambda l: tuple(sorted_key(l)))
    c.validate(module, evs, chunks)
def sorted_key(l):
    d = json.loads(l[:l.find('"res"') - 1].rstrip(',') + '}') if '"res"' in l else {}
    return (d.get('f', 0), d.get('sw', 0) if isinstance(d.get('sw', 0), int) else 0, d.get('dw', 0) if isinstance(d.get('dw', 0), int) else 0, d.get('sh', 0) if isinstance(d.get('sh', 0), int) else 0, d.get('dh', 0) if isinstance(d.get('dh', 0), int) else 0)

def witnesses(c):
    """calls that show each listed finding of this property"""
    L = []
    for e in c.known:
        for w in e.get('calls', []):
            L.append(w)
    return L

def grouped(c, plans, split=6, chunks=16):
    """calls that are judged against the other calls of their group"""
    jobs = {}
    for v, lines in plans.items():
        gs = {}
        for l in lines:
            g = l.split('grp=')[1].split()[0]
            gs.setdefault(g, []).append(l)
        gs = list(gs.values())
        k = max(1, min(1 if v in LESS + HALFLESS + RARE else split, len(gs)))
        jobs[v] = [[l for g in gs[j::k] for l in g] for j in range(k)]
    return jobs

def run_groups(c, plans, split=6, chunks=16):
    r = c.run
    r.plan = getattr(r, 'plan', {})
    fs = []
    for v, parts in grouped(c, plans, split).items():
        for j, part in enumerate(parts):
            lines = [f'{l} v={v} id={v}-{j}-{i}' for i, l in enumerate(part)]
            for l in lines:
                r.plan[l.rsplit('id=', 1)[1]] = l
            fs.append(r.pool.submit(r._drive1, v, lines, f'{v}-{j}'))
    evs = [f.result() for f in fs]
    # whole driver runs are kept together so that no group is cut
    pool = []
    for part in evs:
        pool.append(part)
    consts = {'Property': f'= "{c.prop}"', 'KnownFindings': '<- Known'}
    def one(t):
        return r.check('TraceLaws', consts, t[1], 1, f'g{t[0]}-')
    for part, (s, rej) in zip(pool, r.outer.map(one, enumerate(pool))):
        c.st += s['states']; c.tr += s['generated']; c.traces += s['traces']; c.events += s['events']
        for ev, why in rej:
            c.viol.append((ev, why, 'TraceLaws'))
        d = json.loads(part[0])
        c.samples.append({k: v for k, v in d.items() if k not in ('in', 'out', 'msg')})

# --- one function per property ------------------------------------------------
def C01(c):
    vs = ['default', 'scalar', 'half']
    c.run.build(vs)
    reqs = M.requests(c, vs)
    independent(c, {v: (reqs if v == 'default' else [l for l in reqs[::6] if v == 'scalar']) + P.malformed(c.rng(v), v, some(v, 700, 300) * c.k) for v in vs}, chunks=8)
def C02(c):
    vs = ALL + HALF + LESS + HALFLESS + RARE
    c.run.build(vs)
    M.pipeline(c)
    evs = c.run.drive({v: P.robust(c.rng(v), v, some(v, 4000, 2000) * c.k) for v in vs}, 6)
    c.validate('TraceConform', evs, 8)
def C03(c):
    vs = ALL + LESS + RARE + ['half', 'halfnofma', 'halfnof16c']
    c.run.build(vs)
    run_groups(c, {v: P.layouts(c.rng(v), v, some(v, 800, 400) * c.k) for v in vs}, 3)
def C04(c):
    vs = ALL + LESS + ['half', 'halfnofma', 'halfnof16c']
    c.run.build(vs)
    M.pipeline(c)
    run_groups(c, {v: P.threads(c.rng(v), v, some(v, 500, 220) * c.k, 6 if v == 'default' else 1) + M.pipeline_calls(c, v) for v in vs}, 3)
def C05(c):
    vs = ALL + LESS + ['half', 'halfnofma', 'halfnof16c']
    c.run.build(vs)
    independent(c, {v: P.same(c.rng(v), v, some(v, 900, 350) * c.k) for v in vs}, chunks=6)
def C06(c):
    vs = ['default', 'scalar', 'half', 'avx512']
    c.run.build(vs)
    independent(c, {v: P.nearest(c.rng(v), v, some(v, 500, 200) * c.k, (26 if c.k == 1 else 60) if v == 'default' else 5) + P.far(c.rng(v + 'f'), some(v, 120, 60) * c.k, P.INTS + ['f32'] if v != 'half' else ['f16'], fs=[1]) for v in vs})
def C07(c):
    vs = ALL + LESS + ['half', 'halfnofma', 'halfnof16c']
    c.run.build(vs)
    independent(c, {v: witnesses(c) * (v == 'default') + P.flat(c.rng(v), v, some(v, 600, 250) * c.k, 6 if v == 'default' else 1) for v in vs})
def C08(c):
    c.run.build(ALL + LESS)
    independent(c, {v: witnesses(c) * (v == 'default') + P.conv(c.rng(v), some(v, 420, 210) * c.k, 'u8') + P.long_axis(c.rng(v + 'l'), some(v, 10, 3) * c.k, ['u8']) + P.far(c.rng(v + 'f'), some(v, 40, 30) * c.k, ['u8']) + P.special(c.rng(v + 's'), some(v, 60, 40) * c.k, ['u8']) for v in ALL + LESS})
def C09(c):
    c.run.build(ALL + LESS)
    independent(c, {v: witnesses(c) * (v == 'default') + P.conv(c.rng(v), some(v, 420, 210) * c.k, 'u16') + P.long_axis(c.rng(v + 'l'), some(v, 10, 3) * c.k, ['u16']) + P.far(c.rng(v + 'f'), some(v, 40, 30) * c.k, ['u16']) + P.special(c.rng(v + 's'), some(v, 60, 40) * c.k, ['u16']) for v in ALL + LESS})
def C10(c):
    c.run.build(ALL + LESS)
    independent(c, {v: P.conv(c.rng(v), some(v, 420, 210) * c.k, 'f32') + P.long_axis(c.rng(v + 'l'), some(v, 10, 3) * c.k, ['f32']) + P.far(c.rng(v + 'f'), some(v, 40, 30) * c.k, ['f32']) + P.special(c.rng(v + 's'), some(v, 60, 40) * c.k, ['f32']) for v in ALL + LESS})
def C11(c):
    c.run.build(ALL + LESS)
    independent(c, {v: witnesses(c) * (v == 'default') + P.conv(c.rng(v), some(v, 420, 200) * c.k, ['u8', 'u16', 'u16', 'ar30h', 'ra30n'], two=.4, ext=1., hi=40) + P.far(c.rng(v + 'f'), some(v, 40, 30) * c.k, ['u8', 'u16', 'u16']) for v in ALL + LESS})
def C12(c):
    vs = ALL + LESS + RARE
    c.run.build(vs)
    independent(c, {v: witnesses(c) * (v == 'default') + P.alpha(c.rng(v), some(v, 420, 240) * c.k, ['u8', 'u8', 'u16', 'f32']) + P.alpha_pairs(c.rng(v + 'p'), v) + P.far(c.rng(v + 'f'), some(v, 40, 30) * c.k, ['u8', 'u16', 'f32'], pm=1) + P.alpha_odd(c.rng(v + 'o'), some(v, 60, 40) * c.k, ['u8', 'u8', 'u16', 'f32']) for v in vs})
def C13(c):
    c.run.build(ALL + LESS)
    run_groups(c, {v: P.packings(c.rng(v + 'p'), v, some(v, 80, 40) * c.k) for v in ALL + LESS}, 1)
    independent(c, {v: witnesses(c) * (v == 'default') + P.packed(c.rng(v), some(v, 420, 200) * c.k) + P.far(c.rng(v + 'f'), some(v, 40, 30) * c.k, ['ar30h', 'ra30n', 'ar30n', 'ra30h']) + P.special(c.rng(v + 's'), some(v, 30, 20) * c.k, ['ar30h', 'ra30n']) for v in ALL + LESS})
def C14(c):
    vs = ['default', 'scalar', 'half']
    c.run.build(vs)
    run_groups(c, {v: P.entries(c.rng(v), v, some(v, 900, 300) * c.k) for v in vs}, 5)
def C15(c):
    vs = ALL + LESS + ['half', 'halfnofma', 'halfnof16c']
    c.run.build(vs)
    run_groups(c, {v: P.channels(c.rng(v), v, some(v, 800, 400) * c.k) for v in vs}, 3)
def C16(c):
    vs = ALL + LESS + RARE
    c.run.build(vs)
    lines = P.hosts(c.rng("h"), 800 * c.k)
    r = c.run
    r.plan = {}
    fs = []
    for v in vs:
        for j in range(4):
            part = [f'{l} v={v} id={v}-{i}' for i, l in enumerate(lines) if int(l.split('grp=')[1]) % 4 == j]
            for l in part:
                r.plan[l.rsplit('id=', 1)[1]] = l
            fs.append((j, r.pool.submit(r._drive1, v, part, f'{v}-{j}')))
    by = {}
    for j, f in fs:
        for e in f.result():
            g = e.split('"grp":')[1].split(',')[0]
            by.setdefault(int(g), []).append(e)
    evs = [[] for _ in range(12)]
    for g, es in sorted(by.items()):
        evs[g % 12] += es
    consts = {'Property': f'= "{c.prop}"', 'KnownFindings': '<- Known'}
    evs = [p for p in evs if p]
    for part, (s, rej) in zip(evs, r.outer.map(lambda t: r.check('TraceLaws', consts, t[1], 1, f'g{t[0]}-'), enumerate(evs))):
        c.st += s['states']; c.tr += s['generated']; c.traces += s['traces']; c.events += s['events']
        c.viol += [(ev, why, 'TraceLaws') for ev, why in rej]
        c.samples.append({k: v for k, v in json.loads(part[0]).items() if k not in ('in', 'out', 'msg')})
def C17(c):
    vs = ALL + LESS + ['half', 'halfnofma', 'halfnof16c']
    c.run.build(vs)
    run_groups(c, {v: P.separable(c.rng(v), v, some(v, 900, 450) * c.k, 5 if v == 'default' else 1) for v in vs}, 3)
def C18(c):
    vs = ALL + LESS + ['half', 'halfnofma', 'halfnof16c']
    c.run.build(vs)
    run_groups(c, {v: P.windows(c.rng(v), v, some(v, 700, 350) * c.k) for v in vs}, 3)
def C19(c):
    M.sessions(c, run_groups)
def C20(c):
    M.colours(c, independent, run_groups)
def C21(c):
    vs = HALF + HALFLESS
    c.run.build(vs)
    independent(c, {v: P.conv(c.rng(v), some(v, 300, 300) * c.k, 'f16') + P.long_axis(c.rng(v + 'l'), some(v, 6, 6) * c.k, ['f16']) + P.far(c.rng(v + 'f'), some(v, 40, 30) * c.k, ['f16']) + P.special(c.rng(v + 's'), some(v, 40, 40) * c.k, ['f16']) + P.far(c.rng(v + 'fa'), some(v, 16, 16) * c.k, ['f16'], pm=1) + P.alpha(c.rng(v + 'a'), some(v, 160, 160) * c.k, ['f16']) for v in vs})
def C22(c):
    M.stores(c)
def C23(c):
    vs = ['default', 'half', 'cpus1', 'cpus3']
    c.run.build(vs)
    run_groups(c, {v: P.policies(c.rng(v + 'p'), 250 * c.k) + P.started(c.rng(v + 't'), v, some(v, 300, 60) * c.k) for v in vs}, 1)
def C24(c):
    c.run.build(['default'])
    M.weights(c)
    independent(c, {'default': P.responses(c.rng('r'), 7 if c.k == 1 else 14, 10 * c.k)}, chunks=16)

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        c = Check(prop, tier, seed)
        globals()[prop](c)
        rc = c.report()
    except ToolError as e:
        print('ERROR', e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    print(f'{prop} {tier}: {c.events} events in {c.traces} traces, {c.st} states, {len(c.viol)} violations, {time.time() - c.run.t0:.1f} s')
    sys.exit(rc)
if __name__ == '__main__':
    main()
