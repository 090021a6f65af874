"""Builds the driver, runs plans, runs TLC. Used by check.py."""
import json, os, subprocess, sys, shutil, tempfile, re, time, zlib
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
FEAT = {'default': 'colors,sse,avx,rdm', 'scalar': '', 'sse': 'sse', 'avx512': 'colors,sse,avx,rdm,avx512',
        'half': 'sse,avx,rdm,half', 'halfs': 'half', 'halfsse': 'sse,half'}

# processors without some extensions, shown by hiding them from a build that uses them
HIDE = {'nofma': ('default', 'fma'), 'noavx2': ('default', 'avx2'), 'ssenofma': ('sse', 'fma'), 'nosse': ('default', 'avx2,fma,sse4.1'),
        'skx': ('avx512', 'avx512vnni,avx512vbmi,avx512fp16,avxvnni'), 'icl': ('avx512', 'avx512fp16,avxvnni'), 'adl': ('avx512', 'avx512f,avx512bw'), 'novbmi': ('avx512', 'avx512vbmi'),
        'cpus1': ('default', 'cpus=1'), 'cpus3': ('default', 'cpus=3'),    # bound to so many processors
        'halfnofma': ('half', 'fma'), 'halfnof16c': ('half', 'f16c'), 'halfssenof16c': ('halfsse', 'f16c,fma')}
def base(v):
    return HIDE.get(v, (v, ''))[0]

class ToolError(Exception):
    pass

def declared(l):
    """Depths that decide nothing: the one a source declares (a source made with new() declares 0),
    and any depth where samples are not 16-bit words. They are varied in every plan."""
    if not l.startswith('op=resize ') or ' sbd=' in l:
        return l
    h = zlib.crc32(l.encode())
    ty = re.search(r' ty=(\S+)', l).group(1)
    other = [1, 8, 10, 12, 16, 40, 7, 14][h // 100 % 8]
    if h % 100 < 30: l += ' sbd=0'
    elif h % 100 < 50: l += f' sbd={other}'
    if ty != 'u16' and ' bd=' not in l and h // 1000 % 100 < 30: l += f' bd={other}'
    return l

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        base = os.environ.get('VERIF_SCRATCH') or os.path.join(VERIF, '.work')
        os.makedirs(base, exist_ok=True)
        self.dir = os.path.join(base, f'{prop}-{tier}')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.cls = None
        self.pool = ThreadPoolExecutor(12)
        self.outer = ThreadPoolExecutor(12)   # for tasks that wait for tasks of the pool

    # --- building -----------------------------------------------------------
    def _build1(self, v):
        td = os.environ.get('PSDRV_TARGETS') or os.path.join(VERIF, '.work', 'target')
        td = os.path.join(td, v)
        env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=td)
        env.pop('RUSTFLAGS', None)
        p = subprocess.run(['cargo', 'build', '--offline', '-q', '--no-default-features', '--features', FEAT[v]],
                           cwd=os.path.join(VERIF, 'driver'), env=env, capture_output=True, text=True)
        if p.returncode:
            raise ToolError(f'build of variant {v} failed:\n{p.stderr[-3000:]}')
        return os.path.join(td, 'debug', 'psdrv')
    def _javac(self):
        d = os.path.join(self.dir, 'cls')
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(['javac', '-cp', JAR, '-d', d, os.path.join(SPEC, 'java', 'F32.java')], capture_output=True, text=True)
        if p.returncode:
            raise ToolError('javac: ' + p.stderr[-2000:])
        return d
    def build(self, variants):
        j = self.pool.submit(self._javac)
        fs = {v: self.pool.submit(self._build1, v) for v in sorted({base(v) for v in variants})}
        self.bin = {v: fs[base(v)].result() for v in variants}
        self.cls = j.result()

    # --- driving the code ---------------------------------------------------
    def _drive1(self, v, lines, tag):
        p = os.path.join(self.dir, f'plan-{tag}.txt')
        o = os.path.join(self.dir, f'events-{tag}.ndjson')
        with open(p, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        r = subprocess.run([self.bin[v], 'run', p, o], capture_output=True, text=True, env=dict(os.environ, PSDRV_HIDE=HIDE.get(v, (v, ''))[1]))
        if r.returncode:
            raise ToolError(f'driver {v}: rc={r.returncode} {r.stderr[-1500:]}')
        with open(o) as f:
            return [l.rstrip('\n') for l in f if l.strip()]
    def drive(self, plans, split=1):
        """plans: {variant: [line,...]} -> [(variant, event line)]. Lines get v= and an id.
        split > 1 divides each plan into independent parts run at the same time."""
        jobs = []
        self.plan = {}
        for v, lines in plans.items():
            lines = [f'{l} v={v}' + ('' if ' id=' in l else f' id={v}-{i}') for i, l in enumerate(lines)]
            lines = [declared(l) for l in lines]
            k = max(1, min(split, len(lines)))
            for j in range(k):
                part = lines[j::k] if k > 1 else lines
                jobs.append((v, self.pool.submit(self._drive1, v, part, f'{v}-{j}')))
            for l in lines:
                m = re.search(r' id=(\S+)', l)
                self.plan[m.group(1)] = l
            self.plan[v] = lines
        out = []
        for v, f in jobs:
            out += f.result()
        return out

    # --- TLC ------------------------------------------------------------------
    def tlc(self, module, consts, events=None, tag='', extra=(), cfgbody=None, workers=1, timeout=840, env=None, mem='1500m'):
        d = os.path.join(self.dir, f'tlc-{module}-{tag}')
        os.makedirs(d, exist_ok=True)
        cfg = os.path.join(d, module + '.cfg')
        body = cfgbody if cfgbody is not None else 'INIT Init\nNEXT Next\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'
        with open(cfg, 'w') as f:
            f.write(body)
            if consts:
                f.write('CONSTANTS\n')
                for k, val in consts.items():
                    f.write(f'  {k} {val}\n')
        e = dict(os.environ)
        e.pop('_JAVA_OPTIONS', None)
        e['KNOWN'] = os.path.join(self.dir, 'known.json')
        if events is not None:
            t = os.path.join(d, 'trace.ndjson')
            with open(t, 'w') as f:
                f.write('\n'.join(events) + '\n')
            e['TRACE'] = t
        if env:
            e.update(env)
        cmd = ['java', f'-Xmx{mem}', '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-cp', f'{self.cls}:{JAR}:{CM}', 'tlc2.TLC',
               '-workers', str(workers), '-config', cfg, '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f'TLC {module} {tag}: timeout')
        out = p.stdout
        with open(os.path.join(d, 'out.txt'), 'w') as f:
            f.write(out + p.stderr)
        r = {'rc': p.returncode, 'out': out, 'dir': d}
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        r['generated'], r['states'] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        r['known'] = re.findall(r'<<"KNOWN", (.*?)>>', out)
        r['wrong'] = re.findall(r'<<"WRONG", (.*?)>>\n', out, re.S)
        m = re.search(r'<<"REJECTED", (\d+)>>', out)
        r['rejected'] = int(m.group(1)) if m else None
        ok = 'Model checking completed. No error has been found' in out
        r['ok'] = ok
        if not ok and r['rejected'] is None and 'Invariant' not in out and 'is violated' not in out and 'Deadlock reached' not in out \
           and 'Finished in' in out and 'simulat' not in ' '.join(extra):
            raise ToolError(f'TLC {module} {tag}: ' + out[-1800:])
        if not ok and 'Finished in' not in out and '-simulate' not in extra:
            raise ToolError(f'TLC {module} {tag}: ' + out[-1800:] + p.stderr[-500:])
        return r

    def check(self, module, consts, events, chunks=8, tag=''):
        """Validates the events, in `chunks' independent traces. Returns (summary, rejections)."""
        chunks = max(1, min(chunks, len(events)))
        # contiguous pieces of about equal size: neighbours share weight tables
        tot = sum(len(e) + 400 for e in events)
        parts, cur, acc = [], [], 0
        for e in events:
            cur.append(e)
            acc += len(e) + 400
            if acc >= tot / chunks * (len(parts) + 1):
                parts.append(cur)
                cur = []
        if cur:
            parts.append(cur)
        rs = list(self.pool.map(lambda t: self.tlc(module, consts, t[1], f'{tag}{t[0]}'), enumerate(parts)))
        rej = []
        for part, r in zip(parts, rs):
            if r['rejected'] is not None:
                ev = json.loads(part[r['rejected'] - 1])
                rej.append((ev, r['wrong'][-1:] if r['wrong'] else []))
        return {'states': sum(r['states'] for r in rs), 'generated': sum(r['generated'] for r in rs),
                'traces': len(parts), 'events': len(events), 'known': [k for r in rs for k in r['known']]}, rej
