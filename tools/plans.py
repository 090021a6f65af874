"""Plans: which calls each check makes. A plan is only inputs; what the results must be is in the specification."""
import random
CONV = [f for f in range(49) if f not in (1, 16)]
COMMON = [0, 0, 2, 3, 4, 8, 24, 27, 27, 28, 31, 46, 48]
INTS = ['u8', 'u16']

def filt(R):
    return R.choice(COMMON) if R.random() < .5 else R.choice(CONV)
def top(ty, bd):
    return {'u8': 255, 'u16': 2 ** bd - 1, 'f32': 256, 'f16': 256}.get(ty, 1023)
def depth(R, ty):
    if ty != 'u16':
        return 0
    return R.choice([1, 4, 8, 9, 10, 10, 12, 12, 13, 14, 16, 16]) if R.random() < .8 else R.randint(1, 16)
def size(R, hi=60):
    return R.choice([1, 2, 3, R.randint(1, 12), R.randint(1, hi), R.randint(1, hi)])
RATIOS = [(2, 1), (2, 1), (2, 1), (2, 1), (1, 2), (1, 2), (1, 2), (3, 1), (1, 3), (4, 1), (1, 4), (8, 1), (1, 8), (3, 2), (2, 3), (4, 3), (3, 4), (5, 2), (2, 5)]
def pair(R, lo, hi):
    """two lengths: any, an exact ratio of each other, multiples of blocks, nearly the same"""
    k = R.random()
    a, b = R.randint(lo, hi), R.randint(lo, hi)
    if k < .35:
        p, q = R.choice(RATIOS)
        m = R.randint(-(-lo // min(p, q)), max(1, -(-lo // min(p, q)), hi // max(p, q)))
        if max(p, q) * m <= 2 * hi: a, b = p * m, q * m
    elif k < .55:
        ms = [m for m in (16, 32, 64, 96, 128, 192, 256, 320, 384, 512, 640, 768, 1024, 2048, 4096, 8192) if lo <= m <= hi]
        if ms:
            a = R.choice(ms)
            b = R.choice([*ms, a + 1, a - 1, b])
            if R.random() < .3: a, b = b, a
    elif k < .65:
        b = max(1, a + R.choice([-3, -2, -1, 1, 2, 3]))
    return a, b
def axis(R, hi=60):
    """source and destination length of an axis that changes"""
    k = R.random()
    if k < .12: return [(a, b if a != b else b + 1) for a, b in [pair(R, 1, hi)]][0]
    if k < .4:   # ratios that give every tap count
        b = R.randint(1, 12)
        a = b * R.randint(1, max(1, hi // b)) + R.choice([0, 0, 1])
    elif k < .6:
        b = R.randint(1, hi)
        a = R.randint(1, 8)
    else:
        a, b = R.randint(1, hi), R.randint(1, hi)
    if a == b:
        b += 1
    return a, b
def geom1(R, n, hi=60):
    """one axis: rows exercise row groups and tap tails, columns exercise the column blocks"""
    a, b = axis(R, hi)
    if R.random() < .5:
        o = R.choice([1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 12, 13])
        return f'sw={a} sh={o} dw={b} dh={o}'
    o = R.choice([R.randint(1, 40), R.randint(1, 150 // n), R.randint(1, 10)])
    b = min(b, 14)
    if a == b:
        a += 1
    return f'sw={o} sh={a} dw={o} dh={b}'
def geom2(R, hi=40):
    a, b = axis(R, hi)
    c, d = axis(R, hi)
    if R.random() < .3: a, b, c, d = uniform(R, hi)
    return f'sw={a} sh={c} dw={b} dh={d}'
def uniform(R, hi=40):
    """both axes by the same exact ratio"""
    p, q = R.choice(RATIOS)
    m = max(1, hi // max(p, q))
    x, y = R.randint(1, m), R.randint(1, m)
    return p * x, q * x, p * y, q * y
def wide(R):
    """rows longer than every vector loop and block"""
    a, b = R.choice([pair(R, 60, 300), pair(R, 60, 140)])
    k = R.random()
    if k < .35:
        b = a
    c = R.randint(1, 12)
    d = R.randint(1, 12) if k < .7 else c
    if b == a and c == d:
        d += 1
    return f'sw={a} sh={c} dw={b} dh={d}'
def wide1(R):
    """the same along one axis, few rows: every pixel is judged"""
    a, b = pair(R, 60, 200)
    if R.random() < .5 and a != b:
        c = R.randint(1, 2)
        return f'sw={a} sh={c} dw={b} dh={c}'
    c = R.randint(1, 6)
    return f'sw={a} sh={c} dw={a} dh={R.choice([k for k in (1, 2, 3) if k != c])}'
def vast(R, hi=70000):
    """one axis far beyond every block, table and counter width"""
    def long():
        k = R.random()
        return min(hi, R.randint(300, 1100) if k < .35 else R.randint(1000, 4200) if k < .7 else R.randint(4000, 9000) if k < .9 else R.choice([16385, 32769, 65537, 66000, 70000]))
    a, b = long(), long()
    k = R.random()
    if k < .2: b = R.randint(1, 40)
    elif k < .4: a = R.randint(1, 40)
    elif k < .55: b = min(hi, max(1, a + R.randint(-20, 20)))
    elif k < .75:
        p, q = R.choice(RATIOS)
        m = max(1, min(a, hi // 2) // max(p, q))
        a, b = p * m, q * m
    c = R.randint(1, 3)
    d = c if R.random() < .6 else R.randint(1, 4)
    if a == b and c == d: b -= 1
    return f'sw={a} sh={c} dw={b} dh={d}' if R.random() < .6 else f'sw={c} sh={a} dw={d} dh={b}'
def odd(R, t, seed, x=None, y=None):
    """one alpha but for a single pixel"""
    a = R.choice([t, t, t, 0, t // 2, R.randint(0, t)])
    b = R.choice([v for v in (0, t, t // 2, max(0, a - 1), min(t, a + 1)) if v != a])
    return f'odd:{seed}:0:{t}:{a}:{b}:{R.randint(0, 99999) if x is None else x}:{R.randint(0, 99999) if y is None else y}'
def alphas(R, ty, bd, seed):
    """four channels: alpha the same everywhere, nearly so, or any"""
    t = top(ty, bd)
    k = R.random()
    if k < .5:
        a = R.choice([t, t, 0, t // 2, R.randint(0, t)])
        return f'randa:{seed}:0:{t}:{a}:{a}'
    if k < .7:
        return odd(R, t, seed)
    return f'randa:{seed}:0:{t}:{R.choice([0, 5 if t > 5 else 1, t - 1])}:{t}'
def regular(R, t, seed):
    """pictures that are regular but for a few places, or use a part of the range only"""
    k = R.random()
    if k < .55:
        return f'spot:{seed}:{R.choice("fxxyybpsrzz")}:0:{t}:{R.choice([0, 1, 1, 1, 2, 3, 8])}:{R.choice("aa0123")}'
    if k < .75:
        lo, hi = R.choice([(0, max(1, t // 256)), (0, max(1, t // 16)), (0, max(1, t // 4)), (max(0, t - 3), t), (t // 2, t), (max(0, t // 2 - 1), min(t, t // 2 + 1))])
        return f'rand:{seed}:{lo}:{hi}'
    if k < .85:   # the same with full swings
        return f'ext:{seed}:0:{R.choice([max(1, t // 16), max(1, t // 4), max(1, t // 2)])}'
    if k < .95:
        return f'gray:{seed}:0:{t}:0:{t}'
    return f'id:0:{t}'
def content(R, ty, bd, seed, ext=.25):
    t = top(ty, bd)
    if R.random() < .3:
        return regular(R, t, seed)
    k = R.random()
    if k < ext:
        return f'ext:{seed}:0:{t}'
    if k < ext + .1:
        return f'imp:{R.choice([0, t])}:{R.choice([t, 0])}:{R.randint(0, 6)}:{R.randint(0, 6)}'
    if ty in ('f32', 'f16') and k < .6:
        return f'rand:{seed}:-{t}:{2 * t}'
    return f'rand:{seed}:0:{t}'
def types(R, v, packed=False):
    if v.startswith('half'):
        return 'f16'
    if packed and R.random() < .35: return R.choice(['ar30h', 'ar30n', 'ra30h', 'ra30n'])
    return R.choice(['u8', 'u8', 'u16', 'u16', 'f32'])
def fmt(ty, n, bd):
    return f'ty={ty} n={n}' + (f' bd={bd}' if ty == 'u16' else '')

def layout(R, ty, n, g, pad=True):
    """strides, buffer kinds and stale contents for a geometry string"""
    d = dict(t.split('=') for t in g.split())
    pk = ty not in ('u8', 'u16', 'f32', 'f16')
    u = 4 if pk else n
    o = ''
    for k, w in (('ss', 'sw'), ('ds', 'dw')):
        m = int(d[w]) * u
        r = R.random()
        if r < .2 and not pk:
            o += f' {k}=0'
        elif r < .8 and pad:
            x = R.choice([1, 2, 3, 5, 8, 13, 16, 31, 64])
            if R.random() < .2:   # rows that start at multiples of a vector's length
                k = R.choice([8, 16, 32, 64])
                x = -m % k or k
            o += f' {k}={m + (x * 4 if pk and R.random() < .6 else x)}'
    o += f' st={R.randint(1, 999)} sp={R.randint(1, 999)}'
    if not pk:
        o += f' sk={R.choice("bo")} dk={R.choice("bo")}'
    return o + (' gf=1' if R.random() < .4 else '')
POLS = ['s', 's', 's', 's', 'f1', 'f2', 'f3', 'f4', 'f5', 'f7', 'f8', 'f13', 'a']

# ---------------------------------------------------------------------------
def robust(R, v, N):
    L = []
    for i in range(N):
        ty = types(R, v, True)
        n = R.randint(1, 4)
        bd = depth(R, ty)
        f = R.choice(range(49))
        big = R.random() < .04
        g = f'sw={size(R, 260 if big else 50)} sh={size(R, 60 if big else 30)} dw={size(R, 260 if big else 50)} dh={size(R, 60 if big else 30)}'
        if R.random() < .3:
            g = geom1(R, n)
        elif R.random() < .12:
            g = wide(R)
        if R.random() < .06:
            a, b = size(R), size(R)
            g = f'sw={a} sh={b} dw={a} dh={b}'
        if R.random() < .02: g = vast(R)
        pm = R.randint(0, 1) if n == 4 else 0
        src = alphas(R, ty, bd, i) if pm and '30' not in ty and R.random() < .5 else content(R, ty, bd, i)
        if R.random() < .15 and (ty != 'u16' or bd == 16):   # samples stay within the declared depth
            src = f'bits:{i}'
        api = ''
        if v in ('default', 'avx512') and ty == 'u8' and n >= 3 and R.random() < .25:
            api = ' api=' + R.choice(['store', 'lab', 'luv', 'lch', 'xyz', 'sigmoidal', 'oklab', 'linear', 'linapprox'])
        elif R.random() < .1 and ty in ('u8', 'u16', 'f32', 'f16'):
            api = ' api=store'
        L.append(f'op=resize {fmt(ty, n, bd)} f={f} wl={R.choice("sq")} pm={pm} pol={R.choice(POLS)} {g} src={src}' + layout(R, ty, n, g) + api)
    return L

def magnitude(R, t, pm=0):
    """floats: very small and very large samples"""
    if R.random() > .2 or t not in ('f32', 'f16'): return ''
    return f' mag={R.randint(-4, 8) if t == "f16" else R.randint(-20, 20) if pm else R.choice([R.randint(-100, 100), R.randint(-30, 30)])}'
def conv(R, N, ty, two=.0, pm=0, ns=(1, 2, 3, 4), ext=.25, hi=60, polv=False):
    L = []
    for i in range(N):
        t = R.choice(ty) if isinstance(ty, (list, tuple)) else ty
        n = R.choice(ns)
        bd = depth(R, t)
        g = geom2(R) if R.random() < two else wide1(R) if R.random() < .06 else geom1(R, n, hi)
        src = content(R, t, bd, i, ext)
        L.append(f'op=resize {fmt(t, n, bd)} f={filt(R)} wl={R.choice("sq")} pm={pm} {g} src={src} log=full' + magnitude(R, t, pm) + strides(R, t, n, g) + (f' pol={R.choice(POLS)}' if polv else ''))
    # neighbours share weight tables
    def key(l):
        d = dict(t.split('=', 1) for t in l.split())
        return (int(d['f']), d['sw'], d['dw'], d['sh'], d['dh'])
    return sorted(L, key=key)

def strides(R, t, n, g):
    """some calls on images with padding and other buffers"""
    return layout(R, t, n, g) if R.random() < .4 else ''
def spots(R, t, i, kinds='fffxxyzb'):
    return f'spot:{i}:{R.choice(kinds)}:0:{t}:{R.choice([1, 1, 2, 3])}:{R.choice("aa0123")}'
def special(R, N, ty):
    """long rows or columns that are alike but for a few samples; samples that use a part of a deep range"""
    L = []
    for i in range(N):
        t = R.choice(ty)
        n = 4 if '30' in t else R.randint(1, 4)
        bd = depth(R, t)
        if i % 2:
            a, b = R.choice([(R.randint(130, 420), R.randint(20, 90)), pair(R, 70, 200), pair(R, 60, 260), (R.randint(20, 90), R.randint(130, 300))])
            if a == b: b += 1
            o = R.choice([1, 2, 2, 3, 3, 5, 6]) if a * b < 20000 else R.randint(2, 3)
            g = f'sw={a} sh={o} dw={b} dh={o}' if R.random() < .7 else f'sw={o} sh={a} dw={o} dh={b}'
            f, src = R.choice([0, 0, 2, 4, 24, 27, 48]), spots(R, top(t, bd), i)
        else:
            if t == 'u16': bd = R.choice([9, 10, 11, 12, 13, 14, 15, 16, 16, 16])
            m = top(t, bd)
            k = 2 ** R.choice([1, 2, 4, 7, 8, 8, 10, 10, 12, 12, 14, 15]) - 1
            g = geom1(R, n, 60)
            f, src = R.choice([4, 24, 27, 27, 28, 46, 3, 0]), f'{R.choice(["ext", "ext", "rand"])}:{i}:0:{min(k, m)}'
            if R.random() < .2: src = f'ext:{i}:{max(0, m - k)}:{m}'
        L.append(f'op=resize {fmt(t, n, bd)} f={f} wl={R.choice("sq")} {g} src={src} log=full pol={R.choice(POLS)}' + strides(R, t, n, g))
    return L

def long_axis(R, N, ty):
    """large images: only some rows (columns) are logged"""
    L = []
    for i in range(N):
        t = R.choice(ty)
        n = R.randint(1, 4)
        bd = depth(R, t)
        a, b, o = R.randint(100, 1500), R.randint(20, 700), R.randint(20, 60)
        if R.random() < .5:
            a, b = R.randint(60, 300), R.randint(400, 1200)
        if R.random() < .5: a, b = pair(R, 60, 1000)
        if a == b: b += 1
        rows = sorted(R.sample(range(o), 3) + [o - 1])
        if R.random() < .5:
            g, lg = f'sw={a} sh={o} dw={b} dh={o}', 'rows'
        else:
            g, lg = f'sw={o} sh={a} dw={o} dh={b}', 'cols'
        L.append(f'op=resize {fmt(t, n, bd)} f={R.choice(COMMON)} wl={R.choice("sq")} {g} src={content(R, t, bd, i)} log={lg}:{",".join(map(str, rows))}')
    return L

def far(R, N, ty, fs=COMMON, pm=0, pol=True):
    """very long axes: the outputs of a window of them are judged"""
    L = []
    while len(L) < N:
        t = R.choice(ty)
        n = 4 if pm or '30' in t else R.randint(1, 4)
        bd = depth(R, t)
        a, b = (R.choice([R.randint(300, 2000), R.randint(1000, 5000), R.randint(4000, 12000), R.choice([32769, 65537, 70000])]) for _ in 'ab')
        if fs == [1] and R.random() < .5: a = R.choice([65537, 66000, 70000, 100000, 140000])
        k = R.random()
        if k < .15: b = R.randint(2, 60)
        elif k < .3: a = R.randint(1, 60)
        elif k < .45: b = max(1, a + R.randint(-9, 9))
        elif k < .7: a, b = pair(R, 300, 9000)
        if a == b: continue
        f = R.choice(fs)
        s = a / b
        reach = int(10 * max(s, 1)) + 6
        wk = min(b, max(1, min(20, int(300 / max(1, s)))))
        # fixed point rows keep their sum however long they are
        if fs is COMMON and k > .9 and t != 'f32' and t != 'f16' and bd <= 12:
            f, a, b = R.choice([0, 48, 24, 2]), R.randint(1000, 12000), R.randint(1, 3)
            s = a / b
            reach, wk = int(3 * s) + 6, 1
        elif 2 * reach > (1800 if f in (0, 1, 2) else 700): continue
        x = R.choice([0, b - wk, b - wk, R.randint(0, b - wk), R.randint(0, b - wk), min(b - wk, R.choice([255, 256, 1023, 1024, 4095, 4096, 32760, 65530]))])
        lo, hi = max(0, int((x + .5) * s) - reach), min(a, int((x + wk + .5) * s) + reach)
        o = R.randint(1, 3)
        g = f'sw={a} sh={o} dw={b} dh={o}' if R.random() < .55 else f'sw={o} sh={a} dw={o} dh={b}'
        m = top(t, bd)
        hz = 'sw=%d' % a in g.split() and o != a
        k = R.randint(lo, hi - 1)
        src = (odd(R, m, len(L), *((k, None) if hz else (None, k))) if R.random() < .35 else f'randa:{len(L)}:0:{m}:{R.choice([0, m // 2])}:{m}') if pm else content(R, t, bd, len(L), .3)
        if src.startswith('imp'): src = f'rand:{len(L)}:0:{m}'
        w = f'wx={x} wk={wk} wa={lo} wn={hi - lo}'
        L.append(f'op=resize {fmt(t, n, bd)} f={f} wl={R.choice("sq") if hi - lo < 800 else "q"} pm={pm} {g} src={src} log=win {w}' + strides(R, t, n, g) + (f' pol={R.choice(POLS)}' if pol else ''))
    return L

def alpha(R, N, types_):
    L = []
    for i in range(N):
        t = R.choice(types_)
        bd = depth(R, t)
        m = top(t, bd)
        g = geom2(R, 24) if R.random() < .3 else wide1(R) if R.random() < .12 else geom1(R, 4, 40)
        if R.random() < .05:   # many rows
            o = R.choice([R.randint(100, 700), R.randint(257, 300)])
            g = f'sw={R.randint(2, 4)} sh={o} dw=1 dh={o}'
        k = R.random()
        if k < .5:
            lo, hi = R.choice([(0, m), (0, m), (m // 2, m), (max(0, m - 2), m), (0, min(3, m)), (0, 1 if m > 1 else m)])
            src = f'randa:{i}:0:{m}:{lo}:{hi}'
        elif k < .65:
            src = f'rand:{i}:0:{m}'
        elif k < .8:
            src = f'ext:{i}:0:{m}'
        elif k < .9:
            a = R.choice([0, 1, m, m // 2])
            src = f'randa:{i}:0:{m}:{a}:{a}'
        else:
            src = odd(R, m, i) if R.random() < .7 else f'imp:{R.choice([0, m])}:{R.choice([0, m, m // 2])}:{R.randint(0, 5)}:{R.randint(0, 5)}'
        L.append(f'op=resize {fmt(t, 4, bd)} f={filt(R)} wl={R.choice("sq")} pm=1 {g} src={src} log=full pol={R.choice(POLS)}' + magnitude(R, t, 1) + strides(R, t, 4, g))
    return L

def alpha_odd(R, N, types_):
    """long or tall images with one alpha but for a single pixel"""
    L = []
    for i in range(N):
        t = R.choice(types_)
        bd = depth(R, t)
        m = top(t, bd)
        a, b = R.choice([(R.randint(60, 700), R.randint(1, 3)), (R.randint(1, 3), R.randint(60, 700)), (R.randint(8, 60), R.randint(8, 60))])
        c, d = R.choice([(a, b + 1), (max(1, a // 2), b), (a, max(1, b // 2)), (2 * a, b), (a, 2 * b), (a + 1, b), (a, b + 2), (max(1, a // 3), b + 1)])
        if (a, b) == (c, d): c += 1
        g = f'sw={a} sh={b} dw={c} dh={d}'
        L.append(f'op=resize {fmt(t, 4, bd)} f={R.choice([0, 0, 2, 24, 27, 48])} wl={R.choice("sq")} pm=1 {g} src={odd(R, m, i)} log=full pol={R.choice(POLS)}' + strides(R, t, 4, g))
    return L

def alpha_pairs(R, v):
    """8 bits: every colour under every alpha; 16 bits: every alpha, or a part of them"""
    L = []
    def add(ty, bd, src, w):
        g = f'sw={w} sh=2 dw={w} dh={R.choice([1, 1, 3])}'
        L.append(f'op=resize {fmt(ty, 4, bd)} f={R.choice([0, 0, 24, 2])} wl={R.choice("sq")} pm=1 {g} src={src} log=full pol={R.choice(["s", "s", "f2"])}')
    full = v in ('default', 'scalar', 'sse', 'avx512')
    for a in range(0, 256, 16):
        if full or R.random() < .15:
            add('u8', 0, f'ramp:0:{a}:86:255', 86 * 16)
    for bd in range(8, 17):
        m = 2 ** bd - 1
        los = list(range(0, m + 1, 1400))
        for lo in R.sample(los, min(len(los), 2)) if full else los[-1:] if R.random() < .3 else []:
            add('u16', bd, f'ramp:{R.randint(0, 999)}:{lo}:1:{m}', min(1400, m + 1 - lo))
    return L

def layouts(R, v, N, k=4):
    L = []
    for i in range(N):
        ty = types(R, v, True)
        n = R.randint(1, 4)
        bd = depth(R, ty)
        f = R.choice([filt(R), filt(R), R.randrange(49)])
        if R.random() < .25: n = 4
        g = wide(R) if R.random() < .12 else geom1(R, n) if R.random() < .5 else geom2(R)
        if R.random() < .08:
            a, b = size(R), size(R)
            g = f'sw={a} sh={b} dw={a} dh={b}'
        if R.random() < .04: g = vast(R)
        pm = R.randint(0, 1) if n == 4 else 0
        src = alphas(R, ty, bd, i) if pm and '30' not in ty and R.random() < .8 else content(R, ty, bd, i)
        api = ''
        if v in ('default', 'avx512') and ty == 'u8' and n >= 3 and R.random() < .2:
            api = ' api=' + R.choice(['lab', 'luv', 'xyz', 'sigmoidal', 'oklab', 'linear', 'linapprox'])
        b = f'op=resize {fmt(ty, n, bd)} f={f} wl={R.choice("sq")} pm={pm} pol={R.choice(["s", "s", "f3", "f5"])} {g} src={src}{api} grp={v}-{i}'
        L.append(b)
        for _ in range(k - 1):
            L.append(b + layout(R, ty, n, g))
    return L

def threads(R, v, N, big=0):
    L = []
    for i in range(N):
        ty = types(R, v, True)
        n = R.randint(1, 4)
        bd = depth(R, ty)
        f = R.choice([filt(R), filt(R), 1])
        g = f'sw={size(R, 30)} sh={R.randint(1, 70)} dw={size(R, 30)} dh={R.randint(1, 70)}'
        if R.random() < .3:
            o = R.randint(1, 70)
            g = f'sw={R.randint(1, 30)} sh={o} dw={R.randint(1, 30)} dh={o}'
        elif R.random() < .2: g = 'sw=%d dw=%d sh=%d dh=%d' % uniform(R, 60)
        if i < big:
            g = f'sw={R.randint(200, 400)} sh={R.randint(100, 300)} dw={R.randint(400, 700)} dh={R.randint(400, 600)}'
        elif R.random() < .15:
            g = wide(R)
        elif R.random() < .06:
            g = vast(R)
        pm = R.randint(0, 1) if n == 4 else 0
        api = ''
        if v in ('default', 'avx512') and ty == 'u8' and n >= 3 and R.random() < .2:
            api = ' api=' + R.choice(['lab', 'luv', 'xyz', 'sigmoidal', 'oklab', 'linear', 'linapprox'])
        src = content(R, ty, bd, i, .1)
        if pm and '30' not in ty and R.random() < .7:   # a single pixel may decide whether alpha is associated
            src = alphas(R, ty, bd, i)
        b = f'op=resize {fmt(ty, n, bd)} f={f} wl={R.choice("sq")} pm={pm} {g} src={src}{api} grp={v}-{i}'
        ps = ['s', 'a'] + ['f%d' % k for k in R.sample(range(1, 17), 4)]
        if R.random() < .1: ps[-1] = f'f{R.randint(17, 70)}'
        if i < big:
            ps = ['s', 'a', 'f6']
        # the strides of a group: rows of both images with and without padding
        lay = layout(R, ty, n, g) if R.random() < .7 else ''
        for p in ps:
            L.append(b + lay + f' pol={p}' + (f' nest={R.randint(1, 4)}' if R.random() < .1 else f' par={R.randint(2, 3)}' if R.random() < .1 and not api and ty in ('u8', 'u16', 'f32', 'f16') else ''))
    return L

def same(R, v, N):
    L = []
    for i in range(N):
        ty = types(R, v, True)
        n = R.randint(1, 4)
        bd = depth(R, ty)
        a, b = R.choice([(size(R), size(R)), (R.randint(1, 300), R.randint(1, 5))])
        if R.random() < .06: a, b = R.choice([(R.randint(300, 9000), 2), (2, R.randint(300, 9000)), (R.choice([32769, 70000]), 1), (R.randint(200, 400), R.randint(200, 400))])
        g = f'sw={a} sh={b} dw={a} dh={b}'
        L.append(f'op=resize {fmt(ty, n, bd)} f={R.randrange(49)} wl={R.choice("sq")} pm={R.randint(0, 1) if n == 4 else 0} pol={R.choice(POLS)} {g} src={R.choice([f"bits:{i}", content(R, ty, bd, i)])}'
                 + layout(R, ty, n, g) + (' api=store' if R.random() < .2 and 'a30' not in ty and 'r30' not in ty else ''))
    return L

def nearest(R, v, N, grid):
    L = []
    i = 0
    for a in range(1, grid + 1):
        for b in range(1, grid + 1):
            if a == b: continue
            i += 1
            g = f'sw={a} sh=1 dw={b} dh=1' if (a + b) % 2 else f'sw=1 sh={a} dw=1 dh={b}'
            L.append(f'op=resize ty=u16 n=1 bd=16 f=1 {g} src=id:0:65535 log=full')
    for i in range(N):
        ty = types(R, v, True)
        n = R.randint(1, 4)
        bd = depth(R, ty)
        g = f'sw={size(R, 40)} sh={size(R, 30)} dw={size(R, 40)} dh={size(R, 30)}'
        if R.random() < .1:
            g = f'sw={R.randint(1, 3000)} sh=1 dw={R.randint(1, 3000)} dh=1'
        elif R.random() < .1:
            g = f'sw=1 sh={R.randint(1, 3000)} dw=1 dh={R.randint(1, 3000)}'
        L.append(f'op=resize {fmt(ty, n, bd)} f=1 wl={R.choice("sq")} pm={R.randint(0, 1) if n == 4 else 0} pol={R.choice(POLS)} {g} src={content(R, ty, bd, i)} log=full'
                 + layout(R, ty, n, g))
    return L

def flat(R, v, N, big):
    L = []
    for i in range(N):
        ty = types(R, v)
        n = R.randint(1, 4)
        bd = depth(R, ty)
        t = top(ty, bd)
        val = R.choice([0, 1, t, t, t // 2, t - 1, R.randint(0, t)])
        g = geom2(R, 60) if R.random() < .6 else geom1(R, n)
        if R.random() < .12: g = vast(R)
        k = R.random()
        if k < .05: g = f'sw={R.randint(1, 300)} sh={R.randint(1, 300)} dw={R.randint(1, 3)} dh={R.randint(1, 3)}'
        elif k < .2:
            a, b, c, d = int(10 ** R.uniform(2, 4.4)), R.randint(1, 3), R.randint(1, 9), R.randint(1, 9)
            if R.random() < .6: d = c
            g = f'sw={a} sh={c} dw={b} dh={d}' if R.random() < .5 else f'sw={c} sh={a} dw={d} dh={b}'
            if R.random() < .4: ty, bd, t, n = 'u8', 0, 255, R.randint(1, 4)
            val = R.choice([t, t - 1, R.randint(t // 2, t), val % (t + 1)])
        if i < big:
            g = f'sw={R.randint(100, 900)} sh={R.randint(50, 400)} dw={R.randint(50, 700)} dh={R.randint(50, 300)}'
        logv = val * 256 if ty in ('f32', 'f16') else val
        f = R.randrange(49)
        # known findings need the tables
        q = [int(t[3:]) for t in g.split()]
        if max(q) > 300 and f == 16: f = 48
        if max(q) > 3000 and R.random() < .7: f = R.choice([0, 3, 6, 14, 24, 48])
        L.append(f'op=resize {fmt(ty, n, bd)} f={f} wl={R.choice("sq")} pm={R.randint(0, 1) if n == 4 else 0} pol={R.choice(POLS)} {g} src=flat:{val} v0={logv} log=minmax' + strides(R, ty, n, g))
    return L

def packed(R, N):
    L = []
    for i in range(N):
        g = geom2(R, 30) if R.random() < .25 else wide1(R) if R.random() < .1 else geom1(R, 4)
        L.append(f'op=resize ty={R.choice(["ar30h", "ar30n", "ra30h", "ra30n"])} n=4 f={filt(R)} wl={R.choice("sq")} pol={R.choice(POLS)} {g} src={content(R, "ar30h", 0, i)} log=full' + layout(R, 'ar30h', 4, g))
    return L
def packings(R, v, N):
    L = []
    for i in range(N):
        g = wide(R) if R.random() < .15 else geom2(R) if R.random() < .5 else geom1(R, 4)
        f = R.choice([filt(R), filt(R), 1])
        if R.random() < .1: g = 'sw=9 sh=5 dw=9 dh=5'
        if R.random() < .05: g = vast(R)
        b = f'n=4 f={f} wl={R.choice("sq")} {g} src={content(R, "ar30h", 0, i)} grp={v}-{i}'
        for t in ['ar30h', 'ar30n', 'ra30h', 'ra30n']:
            L.append(f'op=resize ty={t} {b} pol={R.choice(POLS)}' + layout(R, t, 4, g))
    return L

def entries(R, v, N):
    L = []
    for i in range(N):
        ty = types(R, v)
        n = R.randint(1, 4)
        bd = R.choice([depth(R, ty), depth(R, ty), 0, 17]) if ty == 'u16' else 0
        f = R.choice([filt(R), R.randrange(49)])
        g = geom1(R, n) if R.random() < .5 else geom2(R)
        if R.random() < .1: g = wide(R)
        if R.random() < .05: g = f'sw=5 sh=4 dw=5 dh=4'
        if R.random() < .03: g = vast(R)
        pm = R.randint(0, 1) if n == 4 else 0
        t = top(ty, max(1, min(bd, 16)) if ty == 'u16' else 0)
        src = f'randa:{i}:0:{t}:{R.choice([0, t])}:{t}' if R.random() < .7 else content(R, ty, max(1, min(bd, 16)), i)
        bad = ''
        if R.random() < .2:
            bad = R.choice([' sl=3', ' dl=2', ' ds=1', ' ss=1']) + ' geom=1 geo=1'
        for api, pol in (('direct', R.choice(POLS)), ('store', R.choice(POLS)), ('store', 's'), ('direct', 's')):
            L.append(f'op=resize ty={ty} n={n} bd={bd} f={f} wl=s pm={pm} {g} src={src} api={api} pol={pol} grp={v}-{i}' + bad + (layout(R, ty, n, g) if not bad else ''))
        # with the quality strategy and without alpha: other requests, told apart by the specification
        if not bad:
            L.append(f'op=resize ty={ty} n={n} bd={bd} f={f} wl=s pm={1 - pm if n == 4 else 0} {g} src={src} api=store pol=s grp={v}-{i}')
            L.append(f'op=resize ty={ty} n={n} bd={bd} f={f} wl=s pm={1 - pm if n == 4 else 0} {g} src={src} api=direct pol=s grp={v}-{i}')
    return L

def channels(R, v, N):
    L = []
    for i in range(N):
        ty = types(R, v)
        n = R.choice([2, 3, 3, 4, 4])
        bd = depth(R, ty)
        f = filt(R)
        g = wide1(R) if R.random() < .1 else geom1(R, n) if R.random() < .7 else geom2(R, 24)
        if R.random() < .015: g = vast(R, 5000)
        if R.random() < .1:   # sums that end at one half
            f, (p, q) = R.choice([0, 24, 24, 2, 48]), R.choice(RATIOS)
            m = R.randint(1, 20)
            g = f'sw={p * m} sh=2 dw={q * m} dh=2' if R.random() < .3 else f'sw={R.randint(1, 40)} sh={p * m} dw=@ dh={q * m}'
            g = g.replace('@', g.split()[0][3:])
            if ty == 'u16': bd = R.choice([13, 16])
        wl = R.choice('sq')
        req = f'f={f} wl={wl} {g}'
        G = f'grp={v}-c{i}'
        p = list(range(n))
        R.shuffle(p)
        ps = ','.join(map(str, p))
        c = R.randrange(n)
        src = content(R, ty, bd, i)
        L += [f'op=resize {fmt(ty, n, bd)} {req} src={src} sname=S name=A log=out {G}',
              f'op=map reg=S map=perm arg={ps} to=T {G}',
              f'op=map reg=A map=perm arg={ps} to=B ty={ty} log=out {G}',
              f'op=resize {fmt(ty, n, bd)} {req} src=reg:T log=out {G}',
              f'op=map reg=S map=perm arg={c} ch={c} to=U {G}',
              f'op=resize {fmt(ty, 1, bd)} {req} src=reg:U log=out {G}']
    return L

def hosts(R, N):
    """the same calls for every variant; merged into groups afterwards"""
    L = []
    for i in range(N):
        ty = R.choice(['u8', 'u8', 'u16', 'u16', 'f32', 'ar30h', 'ra30n'])
        n = R.randint(1, 4)
        bd = depth(R, ty)
        f = filt(R)
        while f == 16: f = filt(R)
        g = geom1(R, n, 90) if R.random() < .75 else geom2(R, 40)
        if R.random() < .05: g = 'sw=%d sh=3 dw=%d dh=3' % pair(R, 100, 600)
        if R.random() < .01: g = vast(R, 5000)
        two = g.split('=')[1].split()[0] != g.split('dw=')[1].split()[0] and 'sh=' + g.split('sh=')[1].split()[0] != 'sh=' + g.split('dh=')[1]
        for w in 'qs' if ty == 'u8' and not two else 'q':
            L.append(f'op=resize {fmt(ty, n, bd)} f={f} wl={w} {g} src={content(R, ty, bd, i)} log=out grp={i}')
    return L

def separable(R, v, N, big=0):
    L = []
    for i in range(N):
        ty = types(R, v, True)
        n = R.randint(1, 4)
        bd = depth(R, ty)
        f = filt(R)
        a, b = axis(R, 50)
        c, d = axis(R, 50)
        if R.random() < .3:
            a, b, c, d = uniform(R, R.choice([20, 50, 50, 200]))
            if R.random() < .6: f = R.choice([24, 24, 48, 0, 2, 27])
        if i < big:
            a, b, c, d = R.randint(200, 700), R.randint(100, 600), R.randint(100, 400), R.randint(80, 500)
        elif R.random() < .1:
            a, b, c, d = R.randint(60, 300), R.randint(60, 300), R.randint(1, 9), R.randint(10, 14)
            if a == b: b += 1
        elif R.random() < .05:
            a, b, c, d = (int(t.split('=')[1]) for t in vast(R).replace('sh', 'dx', 1).split())
            b, c = c, b
            if a == b: b += 1
            if c == d: d += 1
        wl = R.choice('sq')
        G = f'wl={wl} f={f} grp={v}-{i}'
        F = fmt(ty, n, bd)
        P = lambda: f'pol={R.choice(POLS)}'
        L += [f'op=resize {F} {G} sw={a} sh={c} dw={a} dh={d} src={content(R, ty, bd, i)} sname=S name=A {P()}',
              f'op=resize {F} {G} sw={a} sh={d} dw={b} dh={d} src=reg:A {P()}',
              f'op=resize {F} {G} sw={a} sh={c} dw={b} dh={d} src=reg:S {P()}' + layout(R, ty, n, f'sw={a} sh={c} dw={b} dh={d}')]
    return L

def windows(R, v, N):
    L = []
    for i in range(N):
        ty = types(R, v)
        n = R.randint(1, 4)
        bd = depth(R, ty)
        f = filt(R)
        a, b = axis(R, 50)
        o = R.randint(1, 13)
        if R.random() < .03: a, b, o = R.choice([(R.randint(500, 5000), R.randint(300, 3000), 2), (R.randint(1, 40), R.randint(2000, 5000), 3), (R.randint(2000, 9000), R.randint(1, 40), 5)])
        if a == b: b += 1
        sparse = R.random() < .12
        if sparse:
            a, b = R.choice([(R.randint(130, 700), R.randint(20, 100)), pair(R, 100, 600)])
            o = R.choice([1, 2, 2, 3, 3, 5, 6, 7])
            if a == b: b += 1
        wl = R.choice('sq')
        hz = R.random() < (.75 if sparse else .5)
        G = f'{fmt(ty, n, bd)} wl={wl} f={f} grp={v}-{i}'
        src = content(R, ty, bd, i)
        if sparse: src = spots(R, top(ty, bd), i, 'fxz' if hz else 'fyz')
        # the second kind needs the tables of weights of the whole axis
        if sparse or a > 900 or R.random() < .6:
            k = R.randint(1, 12)
            idx = ','.join(str(R.randrange(o)) for _ in range(k))
            if not hz: idx = ','.join(str(R.randrange(o * 3)) for _ in range(k * 3))
            if hz:
                L += [f'op=resize {G} sw={a} sh={o} dw={b} dh={o} src={src} sname=S name=A',
                      f'op=map reg=S map=rows arg={idx} to=T grp={v}-{i}', f'op=map reg=A map=rows arg={idx} to=B ty={ty} log=out grp={v}-{i}',
                      f'op=resize {G} sw={a} sh={k} dw={b} dh={k} src=reg:T log=out']
            else:
                L += [f'op=resize {G} sw={o * 3} sh={a} dw={o * 3} dh={b} src={src} sname=S name=A',
                      f'op=map reg=S map=cols arg={idx} to=T grp={v}-{i}', f'op=map reg=A map=cols arg={idx} to=B ty={ty} log=out grp={v}-{i}',
                      f'op=resize {G} sw={k * 3} sh={a} dw={k * 3} dh={b} src=reg:T log=out']
        else:
            t = top(ty, bd)
            g = f'sw={a} sh={o} dw={b} dh={o}' if hz else f'sw={o} sh={a} dw={o} dh={b}'
            x, y = (R.randrange(a), R.randrange(o)) if hz else (R.randrange(o), R.randrange(a))
            far = R.choice([2 ** 40, -2 ** 40, 2 ** 40 + 1]) if ty[0] == 'f' and R.random() < .6 else R.choice([0, t])
            L += [f'op=resize {G} {g} src=flat:{t // 3} log=full', f'op=resize {G} {g} src=imp:{t // 3}:{far}:{x}:{y} log=full',
                  f'op=resize {G} {g} src=imp:{t // 3}:{t}:{R.randrange(50)}:{R.randrange(50)} log=full']
    return L

def policies(R, N):
    L = []
    dims = [1, 2, 17, 255, 256, 257, 512, 1000, 1024, 2000, 4096, 10000, 30000]
    for i in range(N):
        pol, k = R.choice([('s', 0), ('a', 0), ('a', 0), ('f', R.choice([0, 1, 2, 3, 8, 9, 16, 33]))])
        up = R.choice([0, 0, 0, 0, 1, 8, 16, 24, 31, 33, 45])
        L.append(f'op=tc pol={pol}{k if pol == "f" else ""} k={k} sw={R.choice(dims)} sh={R.choice(dims)} up={up} grp=0')
    return L

def started(R, v, N):
    """resizes of which the started threads are counted"""
    L = []
    small = [1, 2, 3, 5, 17, 40]
    for i in range(N):
        ty = types(R, v, True)
        n = 4 if '30' in ty else R.randint(1, 4)
        api = R.choice(['direct', 'direct', 'store']) if '30' not in ty else 'direct'
        pol, k = R.choice([('s', 0), ('a', 0), ('a', 0), ('f', R.choice([0, 1, 2, 3, 5, 8, 9, 16]))])
        if v == 'default' and i % 8 == 0:
            ty, n, api = 'u8', R.choice([3, 4]), R.choice(['lab', 'luv', 'lch', 'xyz', 'sigmoidal', 'oklab', 'jzazbz', 'linear', 'lineart'])
        if api == 'store' and pol == 'f': pol, k = 'a', 0
        # scalers start out with one thread
        new = api != 'store' and pol == 's' and R.random() < .4
        w, h, x, y = (R.choice(small) for _ in range(4))
        q = R.random()
        if q < .25: w, h = R.choice([(300, 230), (600, 300), (2, 70000), (1100, 125)])
        elif q < .5: x, y = R.choice([(256, 256), (300, 230), (255, 257), (512, 257), (700, 300), (70000, 2), (1100, 125)])
        elif q < .55: w, h, x, y = R.choice([(512, 300, 511, 300), (512, 300, 512, 299), (400, 400, 400, 400)])
        elif q < .6: x, y = w, h
        f = R.choice([0, 0, 2, 2, 4, 27, 28]) if w * h + x * y > 5000 else filt(R)
        bd = depth(R, ty) or 8
        L.append(f'op=resize {fmt(ty, n, bd)} api={api} pol={pol}{k if pol == "f" else ""} k={k} f={f} pm={R.randint(0, 1)} wl={R.choice("sq")} sw={w} sh={h} dw={x} dh={y} src=rand:{i}:0:{top(ty, bd)} guard=0 thr=1 grp={i + 1}' + new * ' nopol=1')
    return L

def vast_stores(R, N):
    """containers of sizes whose element count wraps around, often to the length of the buffer"""
    L = []
    for i in range(N):
        up, n = R.choice([24, 31, 32, 32, 33]), R.randint(1, 4)
        w, h = R.choice([(1, 1), (R.randint(1, 9), R.randint(1, 9)), (2, 3)])
        ln = ((w << up) * (h << up) * n) % 2 ** 64
        if ln > 4096 or R.random() < .3: ln = R.choice([0, 1, w * h * n, 12])
        L.append(f'op=store ty={R.choice(["u8", "u16", "f32"])} n={n} ctor={R.choice(["new", "borrow", "from_slice"])} mut={R.randint(0, 1)} w={w} h={h} up={up} len={ln} fill={i}')
    return L

def responses(R, grid, N):
    L = [f'op=fn f={f}' for f in list(range(60)) + [1000, 65536]]
    for f in CONV:
        for a in range(1, grid + 1):
            for b in range(1, grid + 1):
                if a != b:
                    L.append(f'op=resize ty=f32 n=1 f={f} sw={a} sh={a} dw={b} dh={a} src=eye:256 log=out')
        for _ in range(N):
            a, b = R.randint(1, 30), R.randint(1, 60)
            if R.random() < .3: a, b = R.randint(20, 70), R.randint(1, 12)
            if a == b: continue
            L.append(f'op=resize ty=f32 n=1 f={f} sw={a} sh={a} dw={b} dh={a} src=eye:256 log=out')
        # sizes that are nearly the same
        for _ in range(max(1, N // 12)):
            a = R.randint(30, 110)
            b = a + R.choice([-1, -1, 1, -2, 2])
            L.append(f'op=resize ty=f32 n=1 f={f} sw={a} sh={a} dw={b} dh={a} src=eye:256 log=out')
    return L

def malformed(R, v, N):
    L = []
    for i in range(N):
        ty = types(R, v, True)
        pk = '30' in ty
        n = 4 if pk else R.randint(1, 4)
        w, h, x, y = (R.randint(1, 6) for _ in range(4))
        if R.random() < .15: x, y = w, h
        bd = R.choice([1, 8, 10, 16, 8, 12]) if ty == 'u16' else 0
        k = R.choice([0, 1, 1, 1, 1, 2])
        d = dict(sw=w, sh=h, dw=x, dh=y)
        if R.random() < .4: d['ss'] = w * n + R.randint(0, 5)
        if R.random() < .4: d['ds'] = x * n + R.randint(0, 5)
        if not pk and R.random() < .2: d[R.choice(['ss', 'ds'])] = 0
        for _ in range(k):
            q = R.choice(['z', 'ls', 'ld', 'ss', 'ds', 'bd', 'lls', 'lld'])
            if q == 'z': d[R.choice(['sw', 'sh', 'dw', 'dh'])] = 0
            S = d.get('ss') or d['sw'] * n
            D = d.get('ds') or d['dw'] * n
            if q == 'ls': d['sl'] = max(0, S * d['sh'] + R.choice([-1, 1, -S, S, 7]))
            if q == 'ld': d['dl'] = max(0, D * d['dh'] + R.choice([-1, 1, -D, D, 7]))
            if q == 'lls': d['sl'] = 0
            if q == 'lld': d['dl'] = 0
            if q == 'ss': d['ss'] = max(1, d['sw'] * n - R.randint(1, n)) if d['sw'] else 1
            if q == 'ds': d['ds'] = max(1, d['dw'] * n - R.randint(1, n)) if d['dw'] else 1
            if q == 'bd' and ty == 'u16': bd = R.choice([0, 17, 32, 1000])
        g = ' '.join(f'{a}={b}' for a, b in d.items())
        L.append(f'op=resize ty={ty} n={n} bd={bd} f={R.choice([0, 1, 27, 4])} wl={R.choice("sq")} pm={R.randint(0, 1) if n == 4 and not pk else 0} pol={R.choice(["s", "s", "f2", "a"])} {g} geom=1 api={"store" if R.random() < .3 and not pk else "direct"}')
    if v in ('default', 'half'):
        H = 2 ** 62
        B = [(H, 4, 's'), (4, H, 's'), (2 ** 63, 2, 's'), (2 ** 33, 2 ** 31, 's'), (H, 4, 'd'), (3, H, 'd'), (2 ** 32, 2 ** 32, 'd'), (H + 1, 1, 's')]
        # strides whose product with the height wraps around to the length of the buffer
        W = [(2, 2 ** 32, 2 ** 32, 0), (1, 2 ** 61, 24, 0), (3, 2 ** 63 + 1, 16, 16)]
        for ty in ('ar30h', 'ra30n') if v == 'default' else ():
            for a, b, s in B:
                if s == 's':
                    L.append(f'op=resize ty={ty} n=4 f=0 sw={a} sh={b} dw=2 dh=2 ss=8 sl=16 geom=1 big=s')
                else:
                    L.append(f'op=resize ty={ty} n=4 f=0 sw=2 sh=2 dw={a} dh={b} ds=8 dl=16 geom=1 big=d')
            for a, b, t, l in W:
                L.append(f'op=resize ty={ty} n=4 f=0 sw={a} sh={b} ss={t} sl={l} dw=2 dh=2 geom=1 big=s')
                L.append(f'op=resize ty={ty} n=4 f=0 sw=2 sh=2 dw={a} dh={b} ds={t} dl={l} geom=1 big=d')
        for ty in ('u8', 'u16', 'f32') if v == 'default' else ('f16',):
            for n in (1, 2, 3, 4):
                for api in ('direct', 'store') + (('linear', 'lab', 'sigmoidal') if ty == 'u8' and n > 2 else ()):
                    if api == 'store' and ty == 'f16': continue
                    for a, b, s in B:
                        a2 = a * 4 // n if a > b else a
                        if a2 * b * n < 2 ** 64 or a2 >= 2 ** 64: b = min(2 ** 64 - 1, b * 4)
                        if a2 * b * n < 2 ** 64 or a2 >= 2 ** 64: continue
                        side = (f'sw={a2} sh={b} ss=16 sl=32 dw=2 dh=2' if s == 's' else f'sw=2 sh=2 dw={a2} dh={b} ds=16 dl=32')
                        L.append(f'op=resize ty={ty} n={n} bd=10 f={R.choice([0, 1])} pm={R.randint(0, 1) if n == 4 else 0} api={api} {side} geom=1 big={s}')
                    for a, b, t, l in W:
                        L.append(f'op=resize ty={ty} n={n} bd=10 f=0 api={api} sw={a} sh={b} ss={t} sl={l} dw=2 dh=2 geom=1 big=s')
                        L.append(f'op=resize ty={ty} n={n} bd=10 f=0 api={api} sw=2 sh=2 dw={a} dh={b} ds={t} dl={l} geom=1 big=d')
    return L

TONES = ['linear', 'xyz', 'lab', 'luv', 'oklab', 'sigmoidal', 'lineart', 'lch']
EXACT = ['linear', 'xyz', 'sigmoidal', 'lineart', 'linear', 'xyz']
def colours(R, N):
    L = []
    for i in range(N):
        api = R.choice(TONES)
        k = R.random()
        if k >= .25 or api == 'lch': api = R.choice(EXACT)
        n = R.choice([3, 4, 4])
        tr = R.choice([0, 0, 1, 2]) if api in ('lineart', 'oklab') else 0
        f = filt(R)
        while f == 16: f = filt(R)
        pm = R.randint(0, 1) if n == 4 else 0
        lo = 40 if tr == 2 else 0
        al = R.choice(['0:255', '255:255', '128:255', '60:200', '255:255', '77:77']) if n == 4 else f'{lo}:255'
        b = f'op=resize ty=u8 n={n} f={f} api={api} tr={tr} pm={pm} pol={R.choice(POLS)} log=full'
        if k < .25 and api != 'lch':
            # one colour: a single pixel enlarged
            L.append(f'{b} k=flat sw=1 sh=1 {"dw=%d dh=%d" % (R.randint(2, 30), R.randint(1, 12))} src=randa:{i}:{lo}:255:{R.choice(["255:255", "60:255"]) if pm else al}')
        elif k < .8:
            g = geom1(R, n, 40)
            colour = api in ('linear', 'lineart', 'xyz', 'sigmoidal') and R.random() < .6
            L.append(f'{b} k=avg {g} src={"randa" if colour else "gray"}:{i}:{lo}:255:{al}')
        else:
            g = geom1(R, 4, 40)
            L.append(f'op=resize ty=u8 n=4 f={f} api={R.choice(TONES)} pm={pm} pol={R.choice(POLS)} log=full k=alpha {g} src=randa:{i}:0:255:0:255')
    def key(l):
        d = dict(t.split('=', 1) for t in l.split())
        return (d['api'], d.get('tr', '0'), int(d['f']), d['sw'], d['dw'], d['sh'], d['dh'])
    return sorted(L, key=key)
SPACES = ['lab', 'luv', 'lch', 'xyz', 'sigmoidal', 'oklab', 'jzazbz', 'linear', 'lineart', 'linapprox', 'linapproxt']
def colour_groups(R, v, N):
    """one request with other layouts and threads: the same picture"""
    L = []
    for i in range(N):
        n = R.choice([3, 4])
        api = R.choice(SPACES)
        g = wide(R) if R.random() < .2 else geom2(R, 30) if R.random() < .5 else geom1(R, n)
        if R.random() < .1: g = 'sw=7 sh=5 dw=7 dh=5'
        if R.random() < .05: g = vast(R, 3000)
        b = f'op=resize ty=u8 n={n} f={R.choice([filt(R), filt(R), 1])} api={api} tr={R.choice([0, 1, 2, 6])} pm={R.randint(0, 1) if n == 4 else 0} {g} src={content(R, "u8", 0, i)} grp={v}-{i}'
        L += [b + ' pol=s', b + f' pol={R.choice(POLS)}', b + ' pol=s' + layout(R, 'u8', n, g), b + f' pol={R.choice(POLS)}' + layout(R, 'u8', n, g)]
    return L
def conversions(R, v, N):
    """a colour scaler against its own conversions around a plain scaler"""
    L = []
    for i in range(N):
        n = R.choice([3, 4, 4])
        api = SPACES[i % len(SPACES)]
        g = wide(R) if R.random() < .35 else geom2(R, 40) if R.random() < .6 else geom1(R, n)
        if R.random() < .04: g = vast(R, 2000)
        tr = R.choice([0, 1, 2, 3, 4, 5, 6])
        own = tr if api in ('lineart', 'linapproxt', 'oklab', 'jzazbz') else 0
        f, pm, G = R.choice([filt(R), filt(R), 1]), int(R.random() < .6) if n == 4 else 0, f'grp={v}-c{i}'
        ty = 'u8' if api.startswith('linapprox') else 'f32'
        c = content(R, 'u8', 0, i)
        call = f'op=resize ty=u8 n={n} f={f} api={api} tr={tr} pm={pm} {g} pol={R.choice(POLS)} {G}'
        L += [f'{call} src={c} sname=S log=out',
              f'op=map reg=S map=enc arg={api},{own} to=E {G}',
              f'op=resize ty={ty} n={n} f={f} pm={pm} {g} pol=s wl=s src=reg:E name=F {G}',
              f'op=map reg=F map=dec arg={api},{own} to=O ty=u8 log=out {G}',
              f'{call}{layout(R, "u8", n, g)} src=reg:S log=out']
    return L
