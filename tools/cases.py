"""The cases of every property: harness, entry, concrete parameters. What the harness leaves symbolic is decided by the solver for every value."""
import re, os
REPO = os.environ.get('VP_REPO', '/repo')
class _C(dict):
    def __getattr__(s, k): return s[k]
C = _C()
for f in ('il.h', 'ilu.h'):
    for l in open('%s/DevIL/include/IL/%s' % (REPO, f), encoding='latin1'):
        m = re.match(r'\s*#define\s+(ILU?_\w+)\s+(0x[0-9A-Fa-f]+|\d+)\s*(?:$|/)', l)
        if m: C[m.group(1)[3:] if m.group(1).startswith('IL_') else m.group(1)] = int(m.group(2), 0)
UB, US, UI, SB, SS, SI, FL, DB = C.UNSIGNED_BYTE, C.UNSIGNED_SHORT, C.UNSIGNED_INT, C.BYTE, C.SHORT, C.INT, C.FLOAT, C.DOUBLE
RGB, RGBA, BGR, BGRA, LUM, LA, CI, ALPHA = C.RGB, C.RGBA, C.BGR, C.BGRA, C.LUMINANCE, C.LUMINANCE_ALPHA, C.COLOUR_INDEX, 0x1906
PALS = [C.PAL_RGB24, C.PAL_RGB32, C.PAL_RGBA32, C.PAL_BGR24, C.PAL_BGR32, C.PAL_BGRA32]
ILU_LIN, ILU_BIL = C.ILU_LINEAR, C.ILU_BILINEAR
ADV = (C.ILU_SCALE_BOX, C.ILU_SCALE_TRIANGLE, C.ILU_SCALE_BELL, C.ILU_SCALE_BSPLINE, C.ILU_SCALE_LANCZOS3, C.ILU_SCALE_MITCHELL)
PROPS = {}
ASSUMPTIONS = ['DevIL is compiled by clang 18 at -O1 to LLVM IR; what is decided is that IR (x86-64, IEEE floats, no FP contraction), not the code other compilers make',
    'malloc returns distinct zero-address-free blocks; allocation fails only where a harness says so; memory given out is uninitialised (reads of it are tracked)',
    'libc string, memory and number functions are models (rt/vplibc.c, engine/builtins.h); time and rand are fixed; libm functions other than floor/ceil/sqrt/fabs on constants are evaluated on concrete values only',
    'the library is used from one thread', 'libpng, libjpeg, libtiff, libmng, lcms2 and squish are not encoded: a call into them ends the path']
def prop(pid, cases, **kw):
    seen = {}       # every case once; the quick one of two that are alike
    for c in cases:
        k = (c['h'], c['e'], tuple(sorted(c['p'].items())))
        if k not in seen or seen[k].get('thorough') and not c.get('thorough'): seen[k] = c
    PROPS[pid] = dict(cases=list(seen.values()), **kw)
def case(hn_, e_, **p):
    c = {"h": hn_, "e": e_}
    for k in ('time', 'thorough', 'must', 'merge', 'merge_fn', 'samples', 'steps', 'max_err', 'prio', 'time_quick', 'time_thorough'):
        if k in p: c[k] = p.pop(k)
    c['p'] = p; return c

def vhbpc(t): return {UB: 1, SB: 1, US: 2, SS: 2, UI: 4, SI: 4, FL: 4, DB: 8, 0x140B: 2}[t]
def vhchan(f): return {LUM: 1, CI: 1, ALPHA: 1, LA: 2, RGB: 3, BGR: 3, RGBA: 4, BGRA: 4}[f]

# ---- C01 lossless save/load ----
rt = []
for o in (0, 1):
    for f in (LUM, RGB, BGR, RGBA, BGRA):
        for rle in (0, 1): rt.append(case('rt', 'h_rt', type=C.TGA, f=f, rle=rle, o=o, w=3, h=2))
    for rle in (0, 1):
        for pt in PALS: rt.append(case('rt', 'h_rt', type=C.TGA, f=CI, pt=pt, pn=3, rle=rle, o=o, w=3, h=2))
    for f in (RGB, BGR, BGRA, RGBA, LUM): rt.append(case('rt', 'h_rt', type=C.BMP, f=f, alpha=0, o=o, w=3, h=2))
    for pt in PALS: rt.append(case('rt', 'h_rt', type=C.BMP, f=CI, pt=pt, pn=256, o=o, w=3, h=2))
    rt.append(case('rt', 'h_rt', type=C.BMP, f=CI, pt=C.PAL_BGR24, pn=3, o=o, w=4, h=2))
    for f in (LUM, RGB, RGBA, BGR, BGRA):
        rt.append(case('rt', 'h_rt', type=C.SGI, f=f, rle=0, o=o, w=3, h=2))
        n = vhchan(f)
        rt.append(case('rt', 'h_rt', type=C.SGI, f=f, rle=1, o=o, w=5 if n == 1 else 3, h=2 if n == 1 else 1))
    for f in (LUM, RGB, RGBA, BGRA): rt.append(case('rt', 'h_rt', type=C.SGI, f=f, t=US, o=o, w=2, h=2))
    for f in (RGB, BGR, LUM): rt.append(case('rt', 'h_rt', type=C.PNM, f=f, alpha=0, comp=1, o=o, w=3, h=2)); rt.append(case('rt', 'h_rt', type=C.PNM, f=f, alpha=0, comp=0, o=o, w=3, h=2, one=4))
    for f in (RGB, BGR, LUM): rt += [case('rt', 'h_rt', type=C.PNM, f=f, t=US, alpha=0, o=o, w=2, h=2, one=k) for k in (3, 4)]
    for f in (RGB, BGR, RGBA, BGRA): rt += [case('rt', 'h_rt', type=C.PCX, f=f, o=o, w=3 if vhchan(f) == 3 else 2, h=1), case('rt', 'h_rt', type=C.PCX, f=f, o=o, w=1, h=2)]
    rt.append(case('rt', 'h_rt', type=C.PCX, f=LUM, o=o, w=3, h=2))
    for pt in PALS: rt.append(case('rt', 'h_rt', type=C.PCX, f=CI, pt=pt, pn=5, o=o, w=4, h=2))
    for t in (SB, SS):
        for f in (LUM, RGB, BGRA): rt.append(case('rt', 'h_rt', type=C.SGI, f=f, t=t, o=o, w=2, h=2))
    for t in (UB, US):
        for f in (LUM, RGB, RGBA, BGR, BGRA): rt.append(case('rt', 'h_rt', type=C.PSD, f=f, t=t, o=o, w=3, h=2))
    rt.append(case('rt', 'h_rt', type=C.PSD, f=CI, pt=C.PAL_RGB24, pn=256, o=o, w=3, h=2)); rt.append(case('rt', 'h_rt', type=C.PSD, f=CI, pt=C.PAL_BGRA32 if o else C.PAL_RGB24, pn=2 + o, o=o, w=2, h=2))
    for t in (UB, US, UI):
        for f in (LUM, RGB, RGBA): rt.append(case('rt', 'h_rt', type=C.RAW, f=f, t=t, o=o, w=3, h=2, d=2, noflip=1))
for hi in (1,):      # longer runs and packet boundaries of the run-length coders
    for n in (127, 128, 129, 130, 131): rt.append(case('rt', 'h_rt', type=C.TGA, f=LUM, rle=1, w=n, h=1, few=3))
    for n in (62, 63, 64, 65, 127): rt.append(case('rt', 'h_rt', type=C.PCX, f=CI, pt=C.PAL_RGB24, pn=2, w=n, h=1, few=3))
    for n in (126, 127, 128, 129, 130): rt.append(case('rt', 'h_rt', type=C.SGI, f=LUM, rle=1, w=n, h=1, few=3))
def shapes(cs, mk):      # the same in other shapes: one column, one row, one pixel
    out = []
    for q in list(cs):
        d = {k: v for k, v in q['p'].items()} if 'p' in q else dict(q)
        if d.get('one'): d['one'] = 1
        if d.get('o', 0) or d.get('few') or d.get('d', 1) > 1 or (d['w'], d['h']) not in ((3, 2), (2, 2)) or d['type'] in (C.DDS, C.VTF): continue
        for w, h, th in ((1, 3, 0), (4, 1, 0), (1, 1, 1), (2, 3, 1), (5, 1, 1)): out.append(mk(**dict(d, w=w, h=h, **(dict(thorough=1) if th else {}))))
    return out
rt += shapes(rt, lambda **d: case('rt', 'h_rt', **d))
prop('C01', rt, bounds='', outside='')

# ---- C02 saving into memory ----
def save_shapes():
    out = []
    for f in (LUM, RGB, BGRA):
        for rle in (0, 1): out.append(dict(type=C.TGA, f=f, rle=rle, w=3, h=2))
    for rle in (0, 1): out.append(dict(type=C.TGA, f=CI, pt=C.PAL_RGB24, pn=3, rle=rle, w=3, h=2))
    out.append(dict(type=C.TGA, f=RGBA, t=US, w=2, h=2, o=1))
    for f in (RGB, BGR, RGBA, LUM): out.append(dict(type=C.BMP, f=f, w=3, h=2))
    out.append(dict(type=C.BMP, f=BGR, t=US, w=3, h=2)); out.append(dict(type=C.BMP, f=CI, pt=C.PAL_RGB24, pn=4, w=3, h=2)); out.append(dict(type=C.BMP, f=CI, pt=C.PAL_BGR32, pn=4, w=3, h=2))
    for f in (LUM, RGB, BGRA, LA):
        out.append(dict(type=C.SGI, f=f, rle=0, w=2, h=2)); out.append(dict(type=C.SGI, f=f, rle=1, w=2, h=2))
    out.append(dict(type=C.SGI, f=RGB, t=US, w=2, h=2))
    for f in (RGB, BGR, LUM): out.append(dict(type=C.PNM, f=f, comp=1, w=3, h=2)); out.append(dict(type=C.PNM, f=f, comp=0, w=2, h=2, one=4))
    for f in (RGB, BGR, BGRA, LUM, LA): out += [dict(type=C.PCX, f=f, w=2, h=1), dict(type=C.PCX, f=f, w=1, h=2)]
    out.append(dict(type=C.PCX, f=CI, pt=C.PAL_RGB24, pn=4, w=3, h=2)); out.append(dict(type=C.PCX, f=CI, pt=C.PAL_BGRA32, pn=256, w=3, h=2)); out.append(dict(type=C.PCX, f=RGB, t=US, w=2, h=1)); out.append(dict(type=C.SGI, f=BGR, t=SS, w=2, h=2)); out.append(dict(type=C.PNM, f=RGB, t=US, w=2, h=1, one=4))
    for f in (LUM, RGB, BGRA): out.append(dict(type=C.PSD, f=f, w=3, h=2)); out.append(dict(type=C.PSD, f=f, t=US, w=2, h=2))
    out.append(dict(type=C.PSD, f=CI, pt=C.PAL_RGB24, pn=256, w=3, h=2)); out.append(dict(type=C.PSD, f=CI, pt=C.PAL_BGR32, pn=3, w=2, h=2))
    for f in (LUM, RGB, RGBA): out.append(dict(type=C.RAW, f=f, w=3, h=2, d=2))
    for f in (LUM, RGB): out.append(dict(type=C.HDR, f=f, w=2, h=2)) 
    for f in (RGB, RGBA): out.append(dict(type=C.DDS, f=f, w=4, h=4, sym=0)); out.append(dict(type=C.VTF, f=f, w=4, h=4))
    return out
sv = []
for d in save_shapes():
    for o in (0, 1):
        sv.append(case('save', 'h_save', **dict(d, o=o)))
    d = dict(d); d.pop('exact', 0); sv.append(case('save', 'h_small', **d))
for n, d in enumerate(shapes(save_shapes(), lambda **d: d)):
    th = d.pop('thorough', 0); sv.append(case('save', 'h_save' if n % 2 else 'h_small', **dict(d, **(dict(thorough=1) if th else {})))); sv.append(case('save', 'h_small' if n % 2 else 'h_save', **dict(d, thorough=1)))
prop('C02', sv, bounds='', outside='')

# ---- C03 format conversion ----
COLS = (RGB, RGBA, BGR, BGRA); cv = []
for t in (UB, US, UI, FL, DB):
    for f in COLS + (LUM, LA):
        for df in COLS + (LUM, LA, ALPHA):
            if f == df: continue
            lum = f in COLS and df in (LUM, LA)
            cv.append(case('conv', 'h_fmt', f=f, df=df, t=t, w=2, h=2, d=2, o=(f + df) % 2, **(dict(lum=1) if lum else {})))
    for df in (RGBA, BGRA, LA): cv.append(case('conv', 'h_fmt', f=ALPHA, df=df, t=t, w=2, h=2, d=2))
for t in (UB, US): 
    for f, df in ((RGB, BGR), (RGBA, BGR), (RGB, LUM), (LUM, BGRA), (LA, RGB), (BGRA, LA)): cv.append(case('conv', 'h_fmt', f=f, df=df, t=t, w=1, h=2, d=3, **(dict(lum=1) if f in COLS and df in (LUM, LA) else {})))
for f in COLS + (LUM, LA):
    for df in COLS + (LA,):
        if f != df and not (f in COLS and df == LA): 
            for t, dt in ((UB, US), (US, UB), (UB, UI), (UI, US), (US, UI), (UI, UB)): cv.append(case('conv', 'h_both', f=f, df=df, t=t, dt=dt, w=2, h=2, d=2))
prop('C03', cv, bounds='images of up to 6 pixels, every sample symbolic; for colour to grey two of three bytes (16 bit: one sample) of a pixel symbolic, floating point and 32 bit samples concrete', outside='larger images (every pixel is treated alike by the loops)')

# ---- C04 sample type conversion ----
cv = []
for t in (UB, US, UI):
    for dt in (UB, US, UI):
        if t != dt:
            for f in (LUM, RGB, RGBA): cv.append(case('conv', 'h_type', f=f, t=t, dt=dt, w=2, h=2, d=2, back=1 if vhbpc(dt) > vhbpc(t) else 0, o=1))
            cv.append(case('conv', 'h_type', f=RGB, t=t, dt=dt, w=1, h=2, d=2))
    for dt in (FL, DB):
        cv.append(case('conv', 'h_type', f=LA, t=t, dt=dt, w=1, h=2, d=2, **(dict(half=1) if t == UI else {})))
for t in (FL, DB):
    for dt in (UB, US, UI, FL, DB):
        if t != dt: cv.append(case('conv', 'h_type', f=LA, t=t, dt=dt, w=1, h=2, d=2))
HALF = 0x140B
for t in (UB, US, UI, SB, SS, SI, FL, DB, HALF):
    for dt in (UB, US, UI, SB, SS, SI, FL, DB, HALF):
        if t != dt and (t in (SB, SS, SI, HALF) or dt in (SB, SS, SI, HALF)): cv.append(case('conv', 'h_type', f=LUM, t=t, dt=dt, w=2, h=1, **(dict(sig=1) if t == HALF or dt == HALF or t in (FL, DB) else {})))
cv += [case('conv', 'h_type', f=LUM, t=HALF, dt=FL, w=1, h=1, back=1), case('conv', 'h_type', f=LUM, t=HALF, dt=DB, w=1, h=1, back=1)]
prop('C04', cv, bounds='', outside='')

# ---- C05 palettes ----
cv = []
for pt in PALS:
    for df in COLS + (LUM, LA, ALPHA): cv.append(case('conv', 'h_pal', pt=pt, pn=3, df=df, w=2, h=2, d=2, o=1, **(dict(conc=1) if df in (LUM, LA) else {})))
    for dt in (US, UI, FL): cv.append(case('conv', 'h_pal', pt=pt, pn=2, df=RGB, dt=dt, w=2, h=2, d=2, **(dict(conc=1) if dt == FL else {})))
    for dp in PALS: cv.append(case('conv', 'h_cpal', pt=pt, pn=3, dp=dp, w=2, h=2, d=2))
    for df in (RGBA, BGR, LUM, ALPHA): cv.append(case('conv', 'h_pal', pt=pt, pn=2, df=df, w=1, h=1, oor=1, **({'lum': 0} if df == LUM else {})))
cv.append(case('conv', 'h_toci', w=2, h=2, d=2)); cv.append(case('conv', 'h_toci', w=2, h=2))
prop('C05', cv, bounds='', outside='')

# ---- C06 blocks of pixels ----
cv = []
for f, t, (w, h, d) in ((RGB, UB, (2, 2, 2)), (LUM, US, (3, 2, 1)), (RGBA, FL, (2, 2, 2)), (LA, UB, (1, 2, 3)), (CI, UB, (2, 3, 2)), (BGR, DB, (2, 2, 2))):
    kw = dict(f=f, t=t, w=w, h=h, d=d, **({'pn': 2} if f == CI else {}))
    for e in ('h_copy', 'h_set') if f != CI else ('h_set',):
        cv.append(case('manip', e, **kw))
        for os_ in (1, 2): cv.append(case('manip', e, **dict(kw, os=os_, r=0, o=os_ % 2)))
for f, t, df, dt in ((RGB, UB, RGBA, UB), (RGB, UB, BGR, US), (BGRA, US, RGB, UB), (LUM, UB, RGBA, UI), (LA, UB, LUM, UB)): cv.append(case('manip', 'h_copyc', f=f, t=t, df=df, dt=dt, w=2, h=2, d=1)); cv.append(case('manip', 'h_setc', sf=f, st=t, f=df, t=dt, w=2, h=2, d=1))
for pt in PALS:
    cv.append(case('manip', 'h_copyc', f=CI, pt=pt, pn=3, df=RGBA, dt=UB, w=2, h=2, d=2)); cv.append(case('manip', 'h_copyc', f=CI, pt=pt, pn=2, df=BGR, dt=US, w=2, h=1, d=1))
for ax in (0, 1, 2):
    for s2 in (1, 2):
        for st_ in (0, 1): cv.append(case('manip', 'h_far', f=RGB, w=2, h=3, d=2, ax=ax, s2=s2, set=st_))
cv.append(case('manip', 'h_bad', f=RGB, w=2, h=1))
prop('C06', cv)

# ---- C07 alpha ----
cv = []
for t in (UB, US, UI, FL, DB):
    for f in COLS + (LUM, LA, ALPHA):
        cv.append(case('alpha', 'h_get', f=f, t=t, w=2, h=2, d=2)); cv.append(case('alpha', 'h_set', f=f, t=t, w=2, h=2, d=2, o=1)); cv.append(case('alpha', 'h_set', f=f, t=t, w=2, h=2, d=2, mod=1)); cv.append(case('alpha', 'h_inv', f=f, t=t, w=2, h=3, d=2))
for f in COLS + (LUM, LA, ALPHA):
    for t, at in ((UB, US), (US, UB), (UB, FL), (FL, UB), (UB, UI), (UB, HALF), (US, DB)): cv.append(case('alpha', 'h_get', f=f, t=t, at=at, w=1 if at == HALF or t == FL else 2, h=2 if t != FL and at != HALF else 1))
for pt in PALS: cv.append(case('alpha', 'h_set', f=CI, pt=pt, pn=2, w=2, h=2, d=2)); cv.append(case('alpha', 'h_set', f=CI, pt=pt, pn=2, w=2, h=1, mod=1))
for f in (RGB, LA, RGBA): cv.append(case('alpha', 'h_ntsc', f=f, w=2, h=2, d=2))
cv.append(case('alpha', 'h_ntsc', f=RGB, t=US, w=2, h=1)); cv.append(case('alpha', 'h_inv', f=CI, pn=2, w=2, h=1)); cv.append(case('alpha', 'h_get', f=CI, pn=2, w=2, h=1))
prop('C07', cv)

# ---- C17 geometry ----
cv = []
for f, t, (w, h, d) in ((RGB, UB, (3, 2, 2)), (LUM, UB, (1, 3, 2)), (RGBA, UB, (2, 3, 1)), (LA, US, (3, 3, 1)), (BGR, UI, (2, 2, 2)), (BGRA, FL, (2, 2, 2)), (LUM, DB, (3, 3, 2)), (CI, UB, (2, 3, 2)), (RGB, US, (4, 4, 1)), (RGB, DB, (1, 1, 1)), (LUM, UB, (2, 2, 3)), (LA, UB, (5, 4, 3)), (RGB, UB, (4, 5, 4))):
    big = w * h * d > 40; kw = dict(f=f, t=t, w=w, h=h, d=d, **({'pn': 2} if f == CI else {}))
    for o in (0, 1):
        for k in (0, 1, 2): cv.append(case('ilu', 'h_flip', k=k, o=o, **kw))
        if big: continue
        cv.append(case('ilu', 'h_crop', o=o, must=['cut', 'refused'], **kw))
        for pl in range(5): cv.append(case('ilu', 'h_canvas', o=o, place=C.ILU_LOWER_LEFT + pl, must=['cut', 'refused'], **kw))
    if big: continue
    cv.append(case('ilu', 'h_crop', os=1, must=['cut', 'refused'], **kw)); cv.append(case('ilu', 'h_canvas', os=1, must=['cut', 'refused'], **kw))
for ax in (0, 1, 2):
    for d in (1, 2): cv.append(case('ilu', 'h_cropfar', ax=ax, f=RGB, w=2, h=3, d=d))
prop('C17', cv)

# ---- C19 scaling, mipmaps, quarter turns ----
cv = []
for f, t, (w, h, d) in ((RGB, UB, (3, 2, 1)), (LUM, US, (1, 3, 1)), (RGBA, FL, (2, 2, 2)), (LA, DB, (3, 2, 1)), (BGR, UI, (5, 1, 2)), (BGRA, UB, (4, 1, 1)), (ALPHA, US, (2, 3, 2)), (LUM, HALF, (2, 2, 1))):
    for W, H, D in ((1, 1, 1), (2, 3, 1), (4, 4, 1), (7, 5, 2), (3, 1, 3), (0, 2, 1), (w, h, d), (1, 9, 0)):
        cv.append(case('resample', 'h_near', f=f, t=t, w=w, h=h, d=d, W=W, H=H, D=D, o=(W + H) % 2))
    for q in ((1, 1, 4), (1, 2, 3), (2, 1, 5)): cv.append(case('resample', 'h_mip', f=f, t=t, w=q[0], h=q[1], d=q[2]))
    cv.append(case('resample', 'h_mip', f=f, t=t, w=w, h=h, d=d)); cv.append(case('resample', 'h_mip', f=f, t=t, w=w, h=h, d=d, rep=1, o=1))
    for q in range(4): cv.append(case('resample', 'h_turn', q=q, f=f, t=t, w=w, h=h, d=1, o=q % 2)); cv.append(case('resample', 'h_turn', q=q, neg=1, f=f, t=t, w=h, h=w, d=1))
for k in (ILU_LIN, ILU_BIL) + ADV:
    for f, t, (w, h) in ((RGB, UB, (3, 2)), (LUM, UB, (1, 1)), (RGBA, UB, (2, 4))) + (((LA, US, (2, 2)), (LUM, UI, (3, 1)), (RGB, FL, (2, 2)), (LUM, DB, (2, 3)), (LUM, HALF, (3, 2)), (LUM, SS, (2, 2))) if k not in ADV else ()):
        for W, H in ((4, 5), (2, 1), (1, 3), (5, 1), (7, 2)): cv.append(case('resample', 'h_filter', filter=k, f=f, t=t, w=w, h=h, W=W, H=H, o=W % 2, **(dict(over=1) if k in (C.ILU_SCALE_LANCZOS3, C.ILU_SCALE_MITCHELL) else {})))
    for W, H in ((4, 5), (2, 1)): cv.append(case('resample', 'h_const', filter=k, f=LA, w=3, h=2, W=W, H=H))
for k in (C.ILU_NEAREST, ILU_LIN, ILU_BIL):
    for pt in PALS: cv.append(case('resample', 'h_ci', filter=k, pt=pt, pn=3, f=CI, w=3, h=2, W=4, H=3))
    cv.append(case('resample', 'h_ci', filter=k, pt=PALS[0], pn=3, f=CI, w=3, h=2, d=2, W=2, H=3)); cv.append(case('resample', 'h_ci', filter=k, pn=3, f=CI, w=3, h=1, turn=1)); cv.append(case('resample', 'h_ci', pn=3, f=CI, w=2, h=3, mip=1))
prop('C19', cv)

# ---- C18 colours, C20 filters, C21 analysis ----
cv = []
for f in COLS + (LUM, LA, ALPHA):
    for t in (UB, US, UI, SB): cv.append(case('colour', 'h_neg', f=f, t=t, w=2, h=1, d=2))
    for t in (FL, DB): cv.append(case('colour', 'h_neg', f=f, t=t, w=2 if f in (LUM, ALPHA) else 1, h=1))
    for t in (UB, US, UI, FL): cv.append(case('colour', 'h_swap', f=f, t=t, w=2, h=2, d=2, o=1))
    for al in (0, 1):
        for kw in (dict(r=8, g=24, b=16), dict(r=40, g=0, b=7), dict(r=-3, g=16, b=100)): cv.append(case('colour', 'h_scale', f=f, alpha=al, w=2, h=1, d=2, **kw))
    cv.append(case('colour', 'h_scale', f=f, t=US, w=2, h=1))
    for k in (16, 0, 8, 27, 40): cv.append(case('colour', 'h_contrast', f=f, k=k, w=2, h=1, d=2, **({'one': 1 + k % 3} if vhchan(f) > 2 else {})))
    for s in (16, 0, 8, 40): cv.append(case('colour', 'h_sat', f=f, s=s, w=2, h=1, d=2, one=1 + s % 3))
    cv.append(case('colour', 'h_sat', f=f, t=US, w=2, h=1))
    for g in (16, 12, 25): cv.append(case('colour', 'h_gamma', f=f, g=g, w=2, h=1, d=1))
for g in (-5, 0): cv.append(case('colour', 'h_gamma', f=RGB, g=g, w=1, h=1))
for t in (US, UI, FL, DB):
    for g in (16, 30): cv.append(case('colour', 'h_gamma', f=LUM, t=t, g=g, w=2, h=1))
for pt in PALS:
    kw = dict(f=CI, pt=pt, pn=2, w=2, h=1); cv += [case('colour', 'h_neg', **kw), case('colour', 'h_swap', **kw), case('colour', 'h_contrast', k=24, **kw), case('colour', 'h_gamma', g=20, **kw)] + [case('colour', 'h_scale', alpha=al, r=12, g=40, b=5, **kw) for al in (0, 1)]
for f in COLS:
    for tol in (0, 1, 10, 100, 255): cv.append(case('colour', 'h_replace', f=f, tol=tol, w=2, h=1, d=2)); cv.append(case('colour', 'h_replace', f=f, tol=tol, far=1, w=2, h=2))
prop('C18', cv); cv = []
for f in (RGB, LUM, RGBA):
    for k in range(8):
        for one in (1 + 2 * vhchan(f), 1 + 6 * vhchan(f), 1 + 11 * vhchan(f)): cv.append(case('colour', 'h_conv', f=f, k=k, one=one, w=4, h=3))
    for sc, bi in ((1, 0), (4, 10), (-2, 5), (3, -60)):
        for one in (2 + 5 * vhchan(f) - (vhchan(f) == 1), 1 + 9 * vhchan(f)): cv.append(case('colour', 'h_conv', f=f, k=0, sc=sc, bi=bi, last=1, one=one, w=4, h=4, d=2))
    cv.append(case('colour', 'h_conv', f=f, k=1, nine=1, one=1, w=4, h=3))
cv += [case('colour', 'h_conv', f=LA, k=k, one=9, w=3, h=3, d=2) for k in range(8)] + [case('colour', 'h_conv', f=BGR, k=k, one=9, w=3, h=4, o=1) for k in range(8)]
for f, t, (w, h, d) in ((RGB, UB, (3, 2, 1)), (LUM, US, (3, 3, 3)), (LA, UI, (3, 1, 2)), (LUM, SB, (3, 2, 1)), (BGRA, US, (2, 2, 1)), (LUM, SS, (2, 2, 2)), (RGB, SI, (2, 2, 1)), (RGBA, FL, (3, 3, 2)), (RGB, DB, (3, 2, 2))):
    for ps in (0, 1, 2, 3, 9): cv.append(case('colour', 'h_pix', f=f, t=t, w=w, h=h, d=d, ps=ps))
for f, t, (w, h, d) in ((RGB, UB, (3, 4, 2)), (LUM, US, (50, 3, 1)), (RGBA, FL, (1, 3, 2)), (LA, DB, (7, 2, 2))):
    for g in (5, 0, -40, 131): cv.append(case('colour', 'h_wave', f=f, t=t, w=w, h=h, d=d, g=g))
cv += [case('colour', 'h_eq', f=LUM, w=2, h=1), case('colour', 'h_eq', f=LUM, w=3, h=2, one=2), case('colour', 'h_eq', f=LUM, w=3, h=1, d=3, one=5)]
for k in (0, 8, 9, 20):
    for r in (0, 1, 2):
        for fv in (0, 1): cv.append(case('colour', 'h_region', k=k, r=r, fv=fv, f=RGB if r else LUM, w=5, h=4, d=1 + (k != 8 or r == 1), other=fv)); cv.append(case('colour', 'h_region', k=k, r=r, fv=fv, f=BGRA, t=US, w=4, h=4, d=2)) if k in (0, 20) else None
    for fv in (0, 1): cv.append(case('colour', 'h_region', k=k, any=1, fv=fv, f=LUM, w=4, h=4)); cv.append(case('colour', 'h_region', k=k, fv=fv, f=LUM, w=6, h=6)); cv.append(case('colour', 'h_region', k=k, r=2, fv=fv, f=RGB, w=5, h=7, d=2))
for k in range(22):
    for f, t, (w, h, d) in ((RGB, UB, (3, 3, 1)), (LUM, UB, (1, 1, 1)), (RGBA, UB, (1, 3, 2)), (LA, UB, (3, 1, 1)), (BGR, US, (2, 3, 1)), (LUM, UI, (2, 2, 2)), (BGRA, FL, (2, 2, 1)), (RGB, DB, (2, 2, 1)), (LUM, SB, (3, 2, 1)), (LUM, HALF, (2, 2, 1)), (ALPHA, UB, (2, 2, 1))):
        for ne in ((0, 1) if k in (0, 9, 12, 18, 19, 21) or k in (3, 4, 7, 11) and t == UB else (0,)): cv.append(case('colour', 'h_filter', k=k, neutral=ne, f=f, t=t, w=w, h=h, d=d))
    for pt in PALS[:3]: cv.append(case('colour', 'h_filter', k=k, f=CI, pt=pt, pn=3, w=3, h=2, sym=0))
prop('C20', cv); cv = []
for f, t, (w, h, d) in ((LUM, UB, (3, 1, 1)), (LA, UB, (2, 1, 1)), (RGB, UB, (2, 1, 1)), (RGBA, UB, (1, 1, 2)), (LUM, US, (2, 1, 1)), (LUM, DB, (1, 2, 1))): cv.append(case('colour', 'h_count', f=f, t=t, w=w, h=h, d=d)); cv.append(case('colour', 'h_count', f=f, t=t, w=3, h=2, d=2, one=2 * vhchan(f)))
cv += [case('colour', 'h_count', f=LUM, w=40, h=30, one=77), case('colour', 'h_count', f=CI, pn=4, w=3, h=2, one=3)]
for f, t in ((RGB, UB), (LUM, US), (RGBA, FL)):
    kw = dict(f=f, t=t, w=2, h=2, d=2)
    for x in ({}, dict(w2=1), dict(h2=3), dict(d2=1), dict(o2=1), dict(f2=LA), dict(t2=UI), dict(w2=4, h2=1), dict(sub=1)): cv.append(case('colour', 'h_cmp', **kw, **x))
for x in ({}, dict(pt2=PALS[3])): cv.append(case('colour', 'h_cmp', f=CI, pn=2, w=2, h=1, **x))
for f, t, kw in ((RGB, UB, {}), (LA, US, dict(d=2, o=1)), (CI, UB, dict(pn=3, pt=PALS[2])), (LUM, DB, dict(next=2))): cv.append(case('colour', 'h_info', f=f, t=t, w=2, h=3, **kw))
cv += [case('colour', 'h_lang'), case('colour', 'h_ilustate')]
prop('C21', cv)

# ---- C15 registered handlers ----
cv = []
for save in (0, 1):
    for n in (1, 2, 3): cv.append(case('reg', 'h_reg', save=save, n=n))
    cv.append(case('reg', 'h_reg', save=save, n=4, thorough=1)); cv.append(case('reg', 'h_reg', save=save, n=2, oom=1)); cv.append(case('reg', 'h_reg', save=save, n=3, oom=1, thorough=1))
for k in range(4): cv.append(case('reg', 'h_regnum', k=k))
for kw in ({}, dict(fail=1), dict(other=1)): cv.append(case('reg', 'h_iluload', **kw))
cv.append(case('reg', 'h_prof'))
prop('C15', cv)

# ---- C16 the same bytes, however given ----
cv = []
WT = ((C.TGA, 0, 37), (C.TGA, 1, 30), (C.TGA, 2, 34), (C.BMP, 0, 0), (C.BMP, 1, 0), (C.BMP, 7, 0), (C.BMP, 9, 0), (C.PCX, 0, 0), (C.PCX, 1, 0), (C.PCX, 2, 0), (C.DCX, 6, 0), (C.CUT, 0, 0), (C.SGI, 0, 0), (C.SGI, 1, 0), (C.PNM, 1, 0), (C.PNM, 3, 0), (C.PNM, 5, 0), (C.PNM, 8, 0))
for ty, v, _ in WT:
    for way in range(7):
        if way == 3 and ty == C.DCX: pass
        for fast in (0, 1):
            if way == 6 and fast: continue
            cv.append(case('ways', 'h_ways', type=ty, var=v, way=way, fast=fast))
    for way, fast in ((0, 0), (1, 1), (2, 0)): cv.append(case('ways', 'h_ways', type=ty, var=v, way=way, fast=fast, trunc=1))
    cv.append(case('ways', 'h_seq', type=ty, var=v, fast=v % 2))
    if ty not in (C.CUT, C.DCX): cv.append(case('ways', 'h_kind', tpl=1, type=ty, var=v))
for n in (1, 2, 3, 4, 6, 8): cv.append(case('ways', 'h_kind', n=n))
for n in (12, 16, 20, 32): cv.append(case('ways', 'h_kind', n=n, thorough=1))
for ty in ('TGA', 'DDS', 'BMP', 'GIF', 'HDR', 'ICNS', 'ILBM', 'IWI', 'LIF', 'MDL', 'PCX', 'PIC', 'PNM', 'PSD', 'PSP', 'SGI', 'SUN', 'VTF', 'XPM', 'BLP', 'TPL', 'KTX', 'DICOM', 'SCITEX'):
    for n in (1, 2, 4, 8, 16, 64, 140): cv.append(case('ways', 'h_kind', n=n, ty=C[ty], sym=min(n, 8 if ty == 'DICOM' and n == 16 else 20), **(dict(thorough=1) if n in (1, 8, 64) else {})))
for i in range(63): cv.append(case("ways", "h_ext", i=i, dir=i % 3))
for ty in (C.TGA, C.BMP, C.PCX, C.SGI, C.PNM):
    for way in range(4):
        for kw in (dict(f=RGB), dict(f=BGRA), dict(f=LUM), dict(f=CI, pn=3)): cv.append(case('ways', 'h_saves', type=ty, way=way, w=2, h=2, rle=way % 2, **dict(dict(one=1) if ty in (C.PCX, C.PNM) else {}, **kw)))
    for way in (0, 2): cv.append(case('ways', 'h_saves', type=ty, way=way, w=2, h=2, f=RGB, full=1, **(dict(one=1) if ty in (C.PCX, C.PNM) else {})))
for ty in (C.TGA, C.BMP, C.PCX, C.SGI, C.PNM, C.PSD, C.RAW, C.HDR, C.DDS, C.VTF): cv.append(case('ways', 'h_keep', type=ty, w=4, h=4, f=RGB, one=1))
prop('C16', cv)

# ---- C13 states, C14 errors ----
cv = []
for m in ('FORMAT_MODE', 'TYPE_MODE', 'ORIGIN_MODE', 'KEEP_DXTC_DATA', 'MAX_QUANT_INDICES', 'NEU_QUANT_SAMPLE', 'QUANTIZATION_MODE', 'BMP_RLE', 'PNG_INTERLACE', 'SGI_RLE', 'TGA_CREATE_STAMP', 'TGA_RLE', 'DXTC_FORMAT', 'JPG_SAVE_FORMAT', 'JPG_QUALITY', 'PCD_PICNUM', 'PNG_ALPHA_INDEX', 'VTF_COMP', 'IMAGE_DURATION', 'IMAGE_OFFX', 'IMAGE_OFFY', 'IMAGE_CUBEFLAGS'):
    cv.append(case('state', 'h_int', m=C[m]))
for fn, m in ((1, 'FORMAT_MODE'), (2, 'TYPE_MODE'), (3, 'ORIGIN_MODE'), (4, 'COMPRESS_MODE')): cv.append(case('state', 'h_int', m=C[m], fn=fn))
cv += [case('state', 'h_able'), case('state', 'h_able', any=1)]
for n in (1, 2): cv += [case('state', 'h_push', n=n), case('state', 'h_push', n=n, alter=0)]
cv.append(case('state', 'h_push', n=3, thorough=1)); cv.append(case('state', 'h_depth'))
for n in (0, 1, 5): cv.append(case('state', 'h_str', n=n))
for s_ in ('TGA_ID_STRING', 'TGA_AUTHNAME_STRING', 'TGA_AUTHCOMMENT_STRING'):
    for n in (0, 1, 40, 41, 80, 81, 200, 253, 254, 255, 256, 300): cv.append(case('state', 'h_tgaid', s=C[s_], n=n, f=BGR, o=0, w=2, h=1))
prop('C13', cv)
cv = [case('state', 'h_errs', n=n) for n in (0, 1, 2, 31, 32, 33, 34, 40, 64, 65)] + [case('state', 'h_ehist', n=8), case('state', 'h_ehist', n=8, pre=31), case('state', 'h_ehist', n=5, pre=29), case('state', 'h_ecall'), case('state', 'h_ehist', n=12, pre=30, thorough=1)]
prop('C14', cv)

# ---- C10 image names, C12 sub-images ----
cv = [case('stack', 'h_hist', n=1), case('stack', 'h_hist', n=2), case('stack', 'h_hist', n=3), case('stack', 'h_hist', n=4, names=2, thorough=1)]
cv += [case('stack', 'h_far', lo=a, hi=b) for a, b in ((4, 12), (1020, 1030), (2044, 2052), (3100, 3104))] + [case('stack', 'h_nomem')]
prop('C10', cv)
cv = [case('stack', 'h_sub')]
for t in (0, 1, 2):
    for n in (1, 2, 3): cv.append(case('stack', 'h_sub2', k=t, n=n, again=(n + t) % 3)); cv.append(case('stack', 'h_sub2', k=t, n=n, again=0, steps=3, thorough=1))
    cv += [case('stack', 'h_subset', k=t, f=RGB, w=2, h=1), case('stack', 'h_subset', k=t, f=LUM, w=2, h=1)]
prop('C12', cv)

# ---- C08 clearing, C09 storage, C11 blits ----
cv = []
for t in (UB, US, UI, FL, DB):
    for f in COLS + (LUM, LA, ALPHA):
        for ch in ((0, 1, 2, 3) if f in COLS else (0, 3, 4) if f in (LUM, LA) else (3,)): cv.append(case('store', 'h_clear', f=f, t=t, ch=ch, w=2, h=2, d=2, o=ch % 2))
for pn in (0, 2):
    for ch in (0, 1, 2, 3): cv.append(case('store', 'h_clear', f=CI, pn=pn, ch=ch, w=2, h=1))
prop('C08', cv)
cv = [case('store', 'h_tex')] + [case('store', 'h_none')]
for ax in (0, 1, 2):
    for a, b in ((1, 1), (2, 3), (65536, 16384), (65535, 65537), (1073741824, 2), (-1, -1), (0, 1)):
        for t, bpp in ((UB, 3), (DB, 4)): cv.append(case('store', 'h_texbig', ax=ax, a=a, b=b, t=t, bpp=bpp, surface=1 if ax == 1 else 0))
for f, t, kw in ((RGB, UB, {}), (LA, US, {}), (BGRA, FL, {'o': 1}), (LUM, DB, {'d': 2}), (CI, UB, {'pn': 3, 'pt': C.PAL_BGRA32}), (CI, UB, {'pn': 2, 'pt': C.PAL_RGB24})):
    cv += [case('store', 'h_clone', f=f, t=t, w=2, h=2, **kw), case('store', 'h_copyimg', f=f, t=t, w=2, h=2, **kw), case('store', 'h_copyimg', f=f, t=t, w=2, h=2, of=CI, **kw), case('store', 'h_nomem', f=f, t=t, w=2, h=2, **kw)]
for i, pt in enumerate(PALS): cv.append(case('store', 'h_regpal', pt=pt, pt2=PALS[(i * 2 + 1) % 6]))
prop('C09', cv)
cv = []
for f, t in ((RGB, UB), (LUM, US), (BGRA, FL)):
    for o, so in ((0, 0), (0, 1), (1, 0), (1, 1)):
        for ax in (1, 2): cv.append(case('store', 'h_blit', f=f, t=t, o=o, so=so, ax=ax, w=3, h=2, sw=2, sh=3))
    cv.append(case('store', 'h_blit', f=f, t=t, o=1, so=0, ax=4, w=1, h=2, d=2, sw=1, sh=2, sd=3)); cv.append(case('store', 'h_blit', f=f, t=t, o=0, so=0, ax=7, ov=1, w=2, h=2, d=2, sw=2, sh=1, sd=2)); cv.append(case('store', 'h_blit', f=f, t=t, o=0, so=1, ax=7, ov=1, w=1, h=2, d=1, sw=3, sh=3, sd=1, r=2))
    for o in (0, 1):
        for ax in (1, 2): cv.append(case('store', 'h_blit', f=f, t=t, o=o, so=o, self=1, ax=ax, sw=3, sh=2))
cv.append(case('store', 'h_blit', f=RGB, t=UB, o=0, so=1, ax=3, w=2, h=2, sw=2, sh=2, thorough=1)); cv.append(case('store', 'h_blit', f=CI, t=UB, pn=2, o=0, so=1, ax=1, ov=1, w=2, h=2, sw=2, sh=2, w_=0)) if 0 else None
for ax in (0, 1, 2):
    for wh in (0, 1, 2, 3): cv.append(case('store', 'h_blitfar', ax=ax, wh=wh, f=RGB, w=3, h=3, d=3)); cv.append(case('store', 'h_blitfar', ax=ax, wh=wh, f=RGBA, blend=1, w=2, h=1, d=2, thorough=1))
for sf, st, f, t in ((RGB, UB, RGBA, UB), (BGR, UB, RGB, US), (RGBA, US, BGR, UB), (LUM, UB, RGB, UB), (CI, UB, RGB, UB), (CI, UB, BGRA, US), (LA, UB, RGBA, UB), (RGB, UI, RGB, UB)): cv.append(case('store', 'h_blitc', sf=sf, st=st, f=f, t=t, w=3, h=2))
for t in (UB, US, UI, FL, DB):
    for sf, f in ((RGBA, RGB), (BGRA, RGBA), (RGBA, BGRA), (LA, LUM), (LA, LA), (RGBA, BGR)):
        for which in (0, 1): cv.append(case('store', 'h_blend', sf=sf, f=f, t=t, which=which, ch=which, w=2, h=2, o=which, so=1 - which)); 
cv.append(case('store', 'h_blend', sf=LA, f=RGB, w=2, h=1)); cv.append(case('store', 'h_blitbad', f=RGB, w=2, h=2)); cv.append(case('store', 'h_blitbad', f=RGBA, w=1, h=2))
prop('C11', cv)

# ---- C22 loading any bytes ----
cv = []
def load(ty, v, fields, data=(), cap=256, pairs=(), step=5, **kw):
    """fields: boundaries of the header's fields, symbolic one by one, next to one another and (thorough) in pairs; data: (from, to) of the data, symbolic in windows; pairs: further pairs of windows."""
    q = dict(type=ty, var=v, cap=cap, **kw); cv.append(case('load', 'h_load', type=ty, var=v, ok=1, trunc=0, **(dict(cap=cap) if cap > 4096 else {}))); cv.append(case('load', 'h_load', trunc=1, **q))
    F = [(a, b) for a, b in zip(fields, fields[1:])]; done = set()
    for a, b in F: cv.append(case('load', 'h_load', a=a, b=b, **q))
    for a, b, c, d, *x in pairs: cv.append(case('load', 'h_load', a=a, b=b, c=c, d=d, **{**q, **(x[0] if x else {})}))
    for i, (a, b) in enumerate(F):
        for c, d in F[i + 1:]: cv.append(case('load', 'h_load', a=a, b=min(b, a + 1), c=c, d=min(d, c + 1), thorough=1, **q))
    if data:
        for a in range(data[0], data[1], max(1, step - 1)): cv.append(case('load', 'h_load', a=a, b=min(a + step, data[1]), **q))
for v, end in ((0, 37), (1, 30), (2, 34), (3, 38), (4, 25), (5, 29), (6, 31), (7, 43)):
    dat = {0: None, 1: (18, 30), 2: (27, 34), 3: (30, 38), 5: (18, 29), 6: (18, 25)}.get(v)
    load(C.TGA, v, (0, 1, 2, 3, 5, 7, 8, 12, 14, 16, 17, 18), dat or (), step=3 if v == 5 else 5, pairs=((1, 3, 5, 6), (2, 3, 16, 18), (12, 13, 14, 15), (13, 14, 15, 16), (5, 6, 7, 8), (2, 3, 7, 8), (0, 3, 16, 17)))
BH = (0, 2, 10, 14, 18, 22, 24, 26, 28, 30, 34, 46, 50, 54); S = dict(cap=48)
for v in (0, 1, 2, 3, 4, 5, 6, 7, 12):
    load(C.BMP, v, BH, {1: (54, 66), 2: (54, 66), 5: (54, 66), 6: (66, 78), 7: (66, 76), 12: (54, 66)}.get(v, ()), pairs=((18, 19, 22, 23, S if v not in (6, 7) else dict(cap=24)), (22, 24, 0, 0, dict(p0=18, v0=0, p1=20, v1=1)), (24, 26, 0, 0, dict(p0=20, v0=255, p1=21, v1=127)), (28, 29, 30, 31), (28, 29, 46, 47)))
for v in (8, 9, 10, 11): load(C.BMP, v, (0, 2, 10, 14, 18, 20, 22, 24, 26), cap=1024 if v == 8 else 64, pairs=((10, 11, 24, 25),) + (((18, 19, 20, 21, S),) if v != 8 else ()))
prop('C22', cv); cv = []
PX = (0, 1, 2, 3, 4, 6, 8, 10, 12, 14, 16, 64, 65, 66, 68, 70, 74, 128)
for v, end in ((0, 134), (1, 146), (2, 134), (3, 134), (4, 134), (5, 134)):
    load(C.PCX, v, PX, (128, end), cap=1024 if v in (0, 5) else 64, pairs=((3, 4, 65, 66), (8, 9, 66, 67), (8, 10, 0, 0, dict(p0=66, v0=255, p1=67, v1=255)), (4, 5, 8, 9), (1, 2, 3, 4), (6, 7, 10, 11)))
load(C.DCX, 6, (0, 4, 6, 8, 10, 12, 13, 14, 16), (16, 30), cap=128, pairs=((4, 5, 8, 9), (4, 5, 12, 13), (13, 14, 15, 16))); load(C.DCX, 0, (0, 4, 5, 8), (12, 28), cap=1024); cv.append(case('load', 'h_load', type=C.DCX, var=6, a=80, b=84, c=160, d=164, cap=128))
load(C.CUT, 0, (0, 2, 4, 8), (8, 21), cap=1024, pairs=((0, 1, 2, 3),))
for v in range(5):
    load(C.SGI, v, (0, 2, 3, 4, 6, 8, 10, 12, 16, 20, 24, 104, 108), {1: (512, 536), 3: (512, 596)}.get(v, ()), cap=600, pairs=((2, 3, 3, 4), (3, 4, 11, 12), (6, 7, 8, 9), (7, 8, 9, 10), (10, 11, 11, 12), (2, 3, 10, 12), (12, 13, 3, 4)) + (((515, 516, 527, 529), (516, 520, 532, 536), (520, 522, 528, 532)) if v == 1 else ()))
for v, end in ((0, 22), (1, 31), (2, 28), (3, 9), (4, 13), (5, 13), (6, 27), (7, 15), (8, 60), (9, 76)):
    load(C.PNM, v, (), (0, end), cap=200, step=4)
prop('C23', cv)
cv = []
for v in range(6):
    load(C.GIF, v, (0, 3, 6), cap=8200, pairs=((10, 11, 0, 0), (11, 12, 0, 0), (12, 13, 0, 0), (6, 7, 10, 11, dict(each=1)), (8, 9, 11, 12, dict(each=1)), (7, 8, 0, 0, dict(each=1)), (9, 10, 0, 0, dict(each=1))))
    fr = {0: [25], 1: [21], 2: [33, 62], 3: [39, 63, 93], 4: [25], 5: [25]}[v]      # where the pictures begin
    for at in fr:
        loc = 6 if v == 1 or (v == 3 and at != 39) else 0; d = at + 10 + loc
        for a, b in ((0, 1), (1, 2), (2, 3), (3, 5), (5, 6), (6, 7), (7, 9), (9, 10)): cv.append(case('load', 'h_load', type=C.GIF, var=v, cap=8200, a=at + a, b=at + b))
        cv.append(case('load', 'h_load', type=C.GIF, var=v, cap=8200, a=at + 1, b=at + 2, c=at + 5, d=at + 6)); cv.append(case('load', 'h_load', type=C.GIF, var=v, cap=8200, a=at + 3, b=at + 4, c=at + 7, d=at + 8)); cv.append(case('load', 'h_load', type=C.GIF, var=v, cap=8200, a=at + 5, b=at + 6, c=at + 9, d=at + 10))
        for k in range(0, 8): cv.append(case('load', 'h_load', type=C.GIF, var=v, cap=8200, a=d + k, b=d + k + 2, **(dict(thorough=1) if k % 2 and k > 2 else {})))
        cv.append(case('load', 'h_load', type=C.GIF, var=v, cap=8200, a=d + 2, b=d + 5, thorough=1))
        if v in (1, 2, 3):
            g = at - 8
            for a, b in ((0, 2), (2, 3), (3, 4), (6, 7), (7, 8)): cv.append(case('load', 'h_load', type=C.GIF, var=v, cap=8200, a=g + a, b=g + b))
            cv.append(case('load', 'h_load', type=C.GIF, var=v, cap=8200, a=g + 3, b=g + 4, c=g + 6, d=g + 7))
prop('C24', cv)
cv = []
def fields(ty, v, base, offs, q): 
    for a, b in zip(offs, offs[1:]): cv.append(case('load', 'h_load', type=ty, var=v, a=base + a, b=base + b, **q))
IH = (0, 4, 5, 8, 9, 12, 14, 16, 20, 32, 33, 36, 40); E = dict(each=1)
for v in range(6):
    h0 = 38 if v == 5 else 22; px = {0: 8, 1: 12, 2: 1024}.get(v, 0); q = dict(cap=2048 if v == 2 else 300); D = h0 + 40 + px; end = D + {0: 16, 1: 16, 2: 16, 3: 32, 4: 32, 5: 32}[v]
    load(C.ICO, v, (0, 2, 4, 6, 8, 12, 14, 18), (D, min(end, D + 16)), pairs=((18, 19, 0, 0, E), (19, 20, 0, 0), (20, 22, 0, 0)) + (((18, 19, 4, 5, E),) if v in (3, 5) else ()) + ((h0 + 4, h0 + 5, h0 + 8, h0 + 9, E), (h0 + 14, h0 + 15, h0 + 4, h0 + 5, dict(each=1, thorough=1) if v == 2 else E), (h0 + 14, h0 + 16, h0 + 32, h0 + 33), (h0 + 15, h0 + 16, h0 + 4, h0 + 5), (h0 + 10, h0 + 12, h0 + 6, h0 + 8), (h0 + 14, h0 + 15, h0 + 2, h0 + 3)), step=4, **q)
    fields(C.ICO, v, h0, IH[1:], q); cv.append(case('load', 'h_load', type=C.ICO, var=v, a=h0, b=h0 + 4, nopng=h0 + 1, **q))
    if v < 3: cv.append(case('load', 'h_load', type=C.ICO, var=v, a=h0 + 40, b=h0 + 44, c=D, d=D + 1, **q))
F5 = 38 + 40 + 24 + 8; fields(C.ICO, 5, F5, IH[1:], dict(cap=300))
for kw in (dict(a=34, b=35, each=1), dict(a=35, b=36), dict(a=36, b=38), dict(a=F5, b=F5 + 4, nopng=F5 + 1), dict(a=F5 + 14, b=F5 + 16, c=52, d=54)): cv.append(case('load', 'h_load', type=C.ICO, var=5, cap=300, **kw))
PS = (0, 4, 6, 12, 13, 14, 16, 18, 20, 22, 24, 26)
for v, end in ((0, 54), (1, 96), (2, 48), (3, 810), (4, 56), (5, 110), (6, 82), (7, 80), (8, 72), (9, 54)):
    q = dict(cap=1024 if v == 3 else 200); load(C.PSD, v, PS, (), pairs=((13, 14, 25, 26), (22, 24, 13, 14), (24, 26, 13, 14), (14, 15, 18, 19), (17, 18, 21, 22, E if v in (0, 2) else dict(each=1, thorough=1)), (29, 30, 13, 14, E), (26, 29, 0, 0, dict(thorough=1) if v == 3 else {}), (29, 30, 0, 0, E)), **q)
    base = 30 + {3: 768, 9: 6}.get(v, 0); r = base + 4 + (34 if v == 6 else 0); fields(C.PSD, v, r, (4, 6) if v != 0 else (4, 6, 8), q)
    for k in (base, r): cv.append(case('load', 'h_load', type=C.PSD, var=v, a=k, b=k + 3, **q)); cv.append(case('load', 'h_load', type=C.PSD, var=v, a=k + 3, b=k + 4, each=1, **q))
    d0 = r + 6 + (2 if v == 0 else 0); fl = v in (1, 5, 7); w = 2 if fl else 4
    for a in range(d0, min(end, d0 + 40) if end else d0, w): cv.append(case('load', 'h_load', type=C.PSD, var=v, a=a, b=a + w, **q))
    if v == 6:
        for a, b in ((34, 36), (38, 40), (40, 42), (44, 48), (50, 52), (54, 56), (56, 58), (58, 60), (60, 62), (62, 64)): cv.append(case('load', 'h_load', type=C.PSD, var=v, a=a, b=b, **q))
        cv.append(case('load', 'h_load', type=C.PSD, var=v, a=40, b=41, c=44, d=48, **q)); cv.append(case('load', 'h_load', type=C.PSD, var=v, a=33, b=34, c=58, d=62, **q)); cv.append(case('load', 'h_load', type=C.PSD, var=v, a=33, b=34, c=44, d=48, **q))
    if v in (1, 5, 6, 9): cv.append(case('load', 'h_load', type=C.PSD, var=v, trunc=1, fast=1, **q)); cv.append(case('load', 'h_load', type=C.PSD, var=v, a=d0, b=d0 + 2, fast=1, **q))
prop('C25', cv)
cv = []
DD = (0, 4, 8, 12, 16, 20, 24, 28, 32, 76, 80, 84, 88, 92, 96, 100, 104, 108, 112, 116)
for v in range(35):
    q = dict(cap=300); d0 = 148 if v in (24, 25) else 128; n = (16, 16, 16, 16, 32, 16, 16, 16, 12, 16, 12, 8, 8, 8, 6, 8, 8, 8, 8, 16, 16, 16, 32, 16, 16, 24, 24, 15, 12, 48, 40, 18, 20, 8, 8)[v]
    blk = v in (0, 1, 2, 3, 4, 5, 6, 7, 26, 29); e = d0 + min(n, 16)
    load(C.DDS, v, DD, (d0, d0 + 8 if 1 <= v <= 4 else e) if v != 6 else (), pairs=((8, 12, 20, 24), (12, 13, 16, 17, dict(thorough=1) if blk and v != 2 or v in (27, 28, 30) else {}), (80, 84, 108, 112), (80, 84, 88, 92), (10, 12, 28, 32), (24, 28, 112, 116), (108, 112, 112, 116), (80, 84, 84, 88)) + (((92, 93, 105, 106), (96, 97, 88, 89)) if 8 <= v < 17 else ()), step=2 if blk else 5, **q)
    if 1 <= v <= 4: fields(C.DDS, v, d0 + 8, (0, 2, 4, 6, 8), q); cv.append(case('load', 'h_load', type=C.DDS, var=v, a=d0 + 8, b=d0 + 9, c=d0 + 12, d=d0 + 13, **q))
    if v == 6: fields(C.DDS, v, d0, (0, 1, 2, 3, 4, 5, 6, 7, 8, 9), q); fields(C.DDS, v, d0, (9, 10, 12, 14, 16), dict(q, thorough=1))
    if v in (24, 25): fields(C.DDS, v, 128, (0, 4, 8, 12, 16, 20), q); cv.append(case('load', 'h_load', type=C.DDS, var=v, a=8, b=12, c=20, d=24, **q))
prop('C26', cv)
cv = []
def dec(ty, v, *wins, **q):
    for a, b, *x in wins: cv.append(case('decode', 'h_decode', type=ty, var=v, a=a, b=b, **{**q, **(x[0] if x else {})}))
def raw(ty, v, a, b, step, **q): dec(ty, v, *((k, min(k + step, b)) for k in range(a, b, step)), **q)
def codes(ty, v, a, b, step=1, **q): raw(ty, v, a, b, step, **{**dict(ok=0), **q})
for ty, n in ((C.TGA, 12), (C.BMP, 27), (C.PCX, 6), (C.CUT, 1), (C.SGI, 9), (C.PNM, 12), (C.GIF, 6), (C.ICO, 10), (C.PSD, 10)):
    for v in range(n): cv.append(case('decode', 'h_decode', type=ty, var=v, **({} if (ty, v) in ((C.BMP, 6), (C.BMP, 17), (C.BMP, 18)) else dict(full=1))))
for v in (0, 6): cv.append(case('decode', 'h_decode', type=C.DCX, var=v))
T0 = {0: 19, 4: 19, 7: 19, 2: 28, 6: 25}
for v, n in ((0, 18), (4, 6), (7, 24)):
    raw(C.TGA, v, 19, 19 + n, 6); raw(C.TGA, v, 19, 19 + n, 6, p0=17, v0=0)
for v, pl, n in ((2, 9, 6), (6, 6, 6), (3, 12, 6)): raw(C.TGA, v, 19, 19 + pl, 3)
for v in (2, 6): codes(C.TGA, v, T0[v], T0[v] + 6, 2); codes(C.TGA, v, T0[v], T0[v] + 3, 3, p0=17, v0=0)
for v, at, n in ((1, 19, 14), (5, 19, 10), (3, 31, 6)): codes(C.TGA, v, at, at + n); codes(C.TGA, v, at, at + n, 2, thorough=1); codes(C.TGA, v, at, at + 2, 1, p0=17, v0=0)
for v, n in ((0, 24), (4, 16), (5, 24), (12, 16), (9, 24)): d = {0: 54, 4: 54, 5: 66, 12: 66, 9: 26}[v]; raw(C.BMP, v, d, d + n, 4)
for v in (0, 1, 4, 5, 12): d = {0: 54, 1: 66, 4: 54, 5: 66, 12: 66}[v]; codes(C.BMP, v, d, d + 4, 2, p0=22, v0=254, p1=23, v1=255, p2=24, v2=255, p3=25, v3=255) if v == 1 else raw(C.BMP, v, d, d + 4, 4, p0=22, v0=254, p1=23, v1=255, p2=24, v2=255, p3=25, v3=255)
for v, cols in ((1, 3), (2, 3), (3, 2), (6, 3), (7, 3)): raw(C.BMP, v, 54, 54 + cols * 4, 4)
for v, n in ((1, 8), (2, 8), (6, 12), (7, 10)): codes(C.BMP, v, 66, 66 + n)
for v, n in ((6, 12), (7, 10)): codes(C.BMP, v, 66, 66 + n - 1, 2)
raw(C.BMP, 3, 62, 70, 4); raw(C.BMP, 8, 26, 38, 6); raw(C.BMP, 8, 26 + 768, 26 + 776, 2); raw(C.BMP, 10, 26, 40, 3); raw(C.BMP, 11, 26, 44, 6); raw(C.BMP, 11, 26 + 48, 26 + 56, 1)
for v, n in ((0, 6), (1, 18), (2, 6), (3, 6), (4, 6), (5, 6)): codes(C.PCX, v, 128, 128 + n); codes(C.PCX, v, 128, 128 + n - 1, 2, thorough=1)
raw(C.PCX, 0, 135, 135 + 12, 6); raw(C.PCX, 3, 16, 64, 12)
codes(C.DCX, 0, 12 + 128, 12 + 132, 2); codes(C.DCX, 6, 16 + 128, 16 + 132); codes(C.DCX, 6, 16 + 146 + 128, 16 + 146 + 132)
codes(C.CUT, 0, 6, 21); codes(C.CUT, 0, 8, 20, 2)
for v, n in ((0, 18), (2, 12), (4, 24)): raw(C.SGI, v, 512, 512 + n, 6)
codes(C.SGI, 1, 528, 536); codes(C.SGI, 1, 528, 536, 2); codes(C.SGI, 3, 560, 576, 2); codes(C.SGI, 1, 512, 528, 1, thorough=1)
raw(C.TGA, 10, 19, 31, 4); raw(C.TGA, 11, 19, 31, 4, thorough=1); raw(C.TGA, 10, 19, 31, 6, p0=17, v0=0)
for v, n in ((8, 6), (9, 18)): codes(C.TGA, v, 19, 19 + n)
raw(C.BMP, 13, 54, 78, 4); raw(C.BMP, 14, 66, 90, 4); raw(C.BMP, 15, 66, 82, 4); raw(C.BMP, 19, 66, 82, 4); raw(C.BMP, 16, 54, 62, 4); raw(C.BMP, 16, 54 + 1024 - 8, 54 + 1024, 4); raw(C.BMP, 16, 54 + 1030, 54 + 1038, 2)
for v, d, n in ((20, 62, 8), (21, 118, 8), (22, 62, 8), (23, 118, 8), (24, 54, 8), (25, 74, 8), (26, 54, 24)): raw(C.BMP, v, d, d + n, 4 if n > 8 else 1 if v in (20, 22) else 2, **({} if v != 25 else dict(ok=0)))
codes(C.BMP, 17, 70, 90); codes(C.BMP, 18, 70, 88)
raw(C.SGI, 5, 512, 548, 6); codes(C.SGI, 6, 560, 584, 2); codes(C.SGI, 7, 576, 640, 4); codes(C.SGI, 8, 576, 608, 2)
raw(C.PNM, 3, 7, 9, 1); raw(C.PNM, 4, 11, 17, 6); raw(C.PNM, 5, 11, 17, 6); raw(C.PNM, 7, 13, 25, 6); raw(C.PNM, 8, 60, 66, 6); raw(C.PNM, 9, 76, 80, 4)
raw(C.PNM, 10, 18, 24, 6); raw(C.PNM, 11, 13, 15, 1)
for v, at in ((1, (2, 4, 6, 10, 12, 15)), (3, (2, 4, 6)), (4, (2, 4, 6, 10)), (2, (2, 4, 6, 10, 12)), (6, (2, 4, 6, 12, 14)), (10, (2, 8, 10, 17)), (11, (2, 7, 12))):
    for a in at: dec(C.PNM, v, (a, a + 1), sep=1)
for a in (11, 12, 13, 15, 17, 19): dec(C.PNM, 0, (a, a + 1), bin=1)
for v, at in ((1, (11, 13, 14, 16, 17, 18, 23, 25, 27)), (2, (11, 13, 15, 17, 18, 20, 21, 23, 24)), (6, (13, 15, 16, 17, 19, 20, 21, 22, 23))):
    for a in at: dec(C.PNM, v, (a, a + 1), dig=1)
for v in range(6):
    loc = {1: 13 + 8 + 10, 3: 0}.get(v, 0); raw(C.GIF, v, 13, 25, 6) if v != 1 else raw(C.GIF, v, 31, 37, 6)
    at = {0: 35, 1: 37, 2: 43, 3: 49, 4: 35, 5: 35}[v]; codes(C.GIF, v, at + 2, at + 2 + (4, 6, 8, 3, 2, 4)[v])
    if v in (0, 3, 5): codes(C.GIF, v, at + 2, at + 5, 2, thorough=1)
    if v in (1, 2, 3): codes(C.GIF, v, at - 10 - (6 if v == 1 else 0) - 5, at - 10 - (6 if v == 1 else 0) - 4); codes(C.GIF, v, at - 10 - (6 if v == 1 else 0) - 2, at - 10 - (6 if v == 1 else 0) - 1)
for v in range(6):
    h0 = 38 if v == 5 else 22; px = {0: 8, 1: 12, 2: 1024}.get(v, 0); D = h0 + 40 + px; end = D + {0: 16, 1: 16, 2: 16, 3: 32, 4: 32, 5: 32}[v]
    codes(C.ICO, v, D, end, 2 if v < 3 else 4); 
    if v < 3: raw(C.ICO, v, h0 + 40, h0 + 40 + min(px, 12), 4)
for v, d, n in ((6, 70, 16), (7, 1086, 88), (8, 126, 16), (9, 62, 32)): raw(C.ICO, v, d, d + n, 1 if v == 6 else 4 if v != 7 else 8)
dec(C.ICO, 5, (38 + 40 + 32 + 40, 38 + 40 + 32 + 48)); codes(C.ICO, 5, 38 + 40 + 32 + 48, 38 + 40 + 32 + 64, 2)
for v, end in ((0, 54), (1, 96), (2, 48), (3, 810), (4, 56), (5, 110), (6, 82), (7, 80), (8, 72), (9, 54)):
    base = 30 + {3: 768, 9: 6}.get(v, 0); r = base + 4 + (34 if v == 6 else 0); d0 = r + 6 + (2 if v == 0 else 0); rle = v in (1, 5, 6, 9); nh = {1: 16, 5: 20, 6: 8, 9: 4}.get(v, 0)
    if rle: codes(C.PSD, v, d0 + nh, end, 1 if v != 5 else 2)
    elif v == 3: raw(C.PSD, v, 30, 36, 3); raw(C.PSD, v, 286, 289, 3); raw(C.PSD, v, d0, d0 + 4, 1)
    else: raw(C.PSD, v, d0, end, 1 if v == 8 else 2 if v == 4 else 4)
    if v == 9: raw(C.PSD, v, 30, 36, 3)
prop('C27', cv)
cv = []
for v in range(35): cv.append(case('decode', 'h_decode', type=C.DDS, var=v, full=1))
for v in range(35):
    d0 = 148 if v in (24, 25) else 128; n = (16, 16, 16, 16, 32, 16, 16, 16, 12, 16, 12, 8, 8, 8, 6, 8, 8, 8, 8, 16, 16, 16, 32, 16, 16, 24, 24, 15, 12, 48, 40, 18, 20, 8, 8)[v]
    if v in (0, 26, 29):
        for k in ((0, 8) if v == 0 else (0, 8, 16) if v == 26 else (0, 16, 40)): dec(C.DDS, v, (d0 + k, d0 + k + 2), (d0 + k + 2, d0 + k + 4), (d0 + k + 4, d0 + k + 6), (d0 + k + 6, d0 + k + 8))
    elif v < 8 and v != 5 and v != 6: dec(C.DDS, v, (d0 + 8, d0 + 10), (d0 + 10, d0 + 12), (d0 + 12, d0 + 14), (d0 + 14, d0 + 16), *((d0 + k, d0 + k + 1) for k in range(8)))
    elif v < 8: dec(C.DDS, v, *((d0 + k, d0 + k + 1) for k in range(8 if v == 5 else 16)))
    else: raw(C.DDS, v, d0, d0 + n, 2)
prop('C28', cv)
cv = []
UL, LL = 0x0602, 0x0601
for ty, vs in ((C.TGA, (0, 2, 5)), (C.BMP, (0, 1, 6, 8, 10)), (C.PCX, (0, 1, 2, 3)), (C.DCX, (0, 6)), (C.CUT, (0,)), (C.SGI, (0, 1)), (C.PNM, (1, 3, 5)), (C.GIF, (0, 2, 3)), (C.ICO, (0, 3, 5)), (C.PSD, (0, 1, 3, 4)), (C.DDS, (0, 8, 9, 14, 26, 28, 29, 30)), (C.SUN, (0, 1, 2, 6)), (C.WBMP, (0,)), (C.PIX, (0,)), (C.PIC, (0, 2)), (C.HDR, (0,)), (C.LIF, (0,)), (C.WAL, (0,)), (C.FTX, (0,)), (C.PXR, (1,)), (C.DOOM, (0,)), (C.MDL, (0,)), (C.TEXTURE, (8,))):
    for v in vs:
        w = {(C.TGA, 0): (19, 23), (C.TGA, 2): (19, 22), (C.TGA, 5): (20, 22), (C.BMP, 0): (54, 58), (C.BMP, 1): (54, 57), (C.BMP, 6): (54, 57), (C.BMP, 8): (26, 29), (C.BMP, 10): (26, 29), (C.PCX, 0): (135, 138), (C.PCX, 3): (16, 19), (C.SGI, 0): (512, 516), (C.SGI, 1): (529, 530), (C.PNM, 3): (7, 8), (C.PNM, 5): (11, 15), (C.GIF, 0): (13, 16), (C.GIF, 2): (13, 16), (C.GIF, 3): (13, 16), (C.ICO, 0): (62, 65), (C.ICO, 3): (62, 66), (C.PSD, 0): (42, 46), (C.PSD, 3): (30, 33), (C.SUN, 0): (32, 35), (C.SUN, 1): (32, 35), (C.SUN, 6): (32, 34), (C.WBMP, 0): (4, 6), (C.PIC, 2): (112, 115), (C.LIF, 0): (44, 45), (C.WAL, 0): (100, 104), (C.FTX, 0): (12, 16), (C.MDL, 0): (352, 353), (C.DDS, 0): (132, 134), (C.DDS, 8): (128, 132), (C.DDS, 9): (128, 132), (C.DDS, 14): (128, 132), (C.DDS, 26): (132, 134), (C.DDS, 28): (128, 132), (C.DDS, 29): (148, 150), (C.DDS, 30): (128, 132)}.get((ty, v))
        if w:
            for kw in (dict(org=LL), dict(fm=C.BGRA, org=UL), dict(cp=1, org=LL)): cv.append(case('decode', 'h_decode', type=ty, var=v, a=w[0], b=w[1], **kw))
        for kw in (dict(org=UL), dict(org=LL), dict(fm=C.BGRA), dict(fm=C.RGB, org=LL), dict(cp=1, org=UL)): cv.append(case('decode', 'h_decode', type=ty, var=v, **kw))
prop('C29', cv)

# ---- C30 the simple formats ----
cv = []; W1 = dict(cap=48); Q = dict(each=1)
T = dict(thorough=1); QT = dict(each=1, thorough=1); SH = (0, 4, 6, 8, 10, 12, 16, 20, 24, 28, 32)
for v, end in ((0, 40), (1, 49), (2, 52), (3, 40), (4, 48), (5, 48), (6, 36), (7, 46), (8, 42), (9, 39), (10, 48), (11, 43)):
    load(C.SUN, v, SH, (32, min(end, 48)), cap=800, pairs=((7, 8, 11, 12, W1), (7, 8, 15, 16, W1), (15, 16, 23, 24), (15, 16, 27, 28), (27, 28, 31, 32), (30, 32, 7, 8, W1), (23, 24, 31, 32), (14, 16, 23, 24)))
for v, end in ((0, 8), (1, 7), (2, 6)): load(C.WBMP, v, (), (0, end), cap=60, step=2)
load(C.PIX, 0, (0, 2, 4, 6, 8, 10), (10, 22), cap=48, pairs=((1, 2, 3, 4), (1, 2, 10, 11), (3, 4, 14, 15)))
for v, d, end in ((0, 108, 124), (1, 108, 124), (2, 112, 138), (3, 108, 120), (4, 120, 142)): load(C.PIC, v, (0, 4, 8, 92, 94, 96, 98, 102, 104), (104, end), cap=64, step=4, pairs=((93, 94, 95, 96, dict(each=1, cap=24)), (106, 107, 107, 108), (104, 105, 107, 108), (93, 94, 107, 108, T), (106, 108, d, d + 1), (93, 94, d, d + 1, T)))
for v, end in ((4, 48), (5, 42)): load(C.HDR, v, (), (28, end), cap=4096, step=2)
for v, end in ((0, 40), (1, 48), (2, 36), (3, 31)): load(C.HDR, v, tuple(range(10, 25)), (24, end), cap=100, step=2, pairs=((0, 2, 0, 0), (4, 6, 0, 0), (9, 11, 0, 0), (end - 2, end - 1, 22, 23)) + tuple((a, a + 2, 0, 0, T) for a in range(11, 23)) + ((17, 18, 22, 23, T),))
load(C.LIF, 0, (0, 8, 12, 16, 20, 24, 32, 36, 44), (44, 48), cap=1024, pairs=((16, 17, 20, 21, QT),)); load(C.FTX, 0, (0, 4, 8, 12), (12, 16), cap=100, pairs=((0, 1, 4, 5),))
load(C.WAL, 0, (0, 4, 32, 36, 40, 44, 48, 52, 56), (100, 104), cap=768, pairs=((32, 33, 36, 37), (32, 33, 40, 41, T), (40, 41, 44, 45), (48, 49, 52, 53), (42, 44, 54, 56)))
for v in range(3): load(C.PXR, v, (0, 2, 416, 418, 420, 424, 425), (1024, 1028), cap=100, pairs=((416, 417, 418, 419), (418, 419, 424, 425)))
for v in range(4): load(C.RAW, v, (0, 4, 8, 12, 13, 14), (14, 18), cap=200, pairs=((0, 1, 4, 5), (4, 5, 8, 9), (12, 13, 13, 14), (0, 1, 12, 13), (8, 9, 13, 14)))
load(C.DOOM, 0, (4, 6, 8, 12, 16, 20), (20, 45), cap=768, step=4, pairs=tuple((a, a + 1, 0, 0, Q) for a in range(4)) + ((0, 1, 2, 3, QT), (0, 1, 8, 9, QT), (8, 9, 12, 13, QT), (2, 3, 20, 21, Q)))
cv.append(case('load', 'h_load', type=C.DOOM_FLAT, var=0, ok=1, trunc=0, cap=4096)); cv.append(case('load', 'h_load', type=C.DOOM_FLAT, var=0, a=0, b=4, cap=4096)); 
for n in (1, 16, 4095): cv.append(case('load', 'h_load', type=C.DOOM_FLAT, var=0, len=n, cap=4096))
load(C.MDL, 0, (0, 4, 8), cap=768, pairs=tuple((a, a + 1, 0, 0, Q) for a in range(180, 192)) + ((260, 261, 264, 265, QT), (340, 341, 344, 345, QT), (256, 260, 0, 0), (336, 340, 0, 0)) + tuple((a, a + 1, 0, 0, Q) for a in (260, 261, 264, 265, 340, 341, 344, 345, 262, 263, 266, 267, 268, 269, 270, 271, 342, 343, 346, 347, 348, 349, 350, 351)))
load(C.TEXTURE, 8, (0, 4, 44, 48, 52), (172 + 4, 188), cap=100, pairs=((60, 61, 64, 65),)); load(C.TEXTURE, 0, (44, 48, 52), (), cap=100)
prop('C30', cv)

# ---- C31 the pixels of the simple formats ----
cv = []
for ty, n in ((C.SUN, 12), (C.WBMP, 3), (C.PIX, 1), (C.PIC, 5), (C.HDR, 6), (C.LIF, 1), (C.WAL, 1), (C.FTX, 1), (C.PXR, 3), (C.RAW, 4), (C.DOOM, 1), (C.DOOM_FLAT, 1), (C.MDL, 1)):
    for v in range(n): cv.append(case('decode', 'h_decode', type=ty, var=v, full=1))
for v in (0, 8, 12, 28): cv.append(case('decode', 'h_decode', type=C.TEXTURE, var=v, full=1))
for v, at, end in ((0, 32, 40), (2, 32, 52), (3, 32, 40), (4, 32, 48), (5, 32, 48)): raw(C.SUN, v, at, end, 4)
raw(C.SUN, 1, 32, 41, 3); raw(C.SUN, 7, 32, 38, 3); raw(C.SUN, 6, 32, 36, 2); raw(C.SUN, 7, 38, 46, 2); codes(C.SUN, 1, 41, 49, 2)
for v, at, end in ((8, 32, 42), (9, 32, 39), (10, 41, 48), (11, 35, 43)): codes(C.SUN, v, at, end); codes(C.SUN, v, at, end - 1, 2, thorough=1)
raw(C.WBMP, 0, 4, 8, 2); raw(C.WBMP, 1, 5, 7, 2); raw(C.WBMP, 2, 4, 6, 2)
codes(C.PIX, 0, 10, 22, 2)
for v, d, end in ((0, 108, 124), (1, 108, 124), (2, 112, 138), (3, 108, 120), (4, 120, 142)): codes(C.PIC, v, d, end, 1 if v != 2 else 2)
for v, d, end in ((0, 24, 40), (1, 28, 48), (2, 24, 36), (3, 23, 31), (4, 24, 48)): codes(C.HDR, v, d, end)
for k in (298, 300): dec(C.HDR, 5, (33, 34), (41, 42), only=k, ok=0)
raw(C.LIF, 0, 44, 48, 1); raw(C.LIF, 0, 48, 56, 4); raw(C.LIF, 0, 48 + 1016, 48 + 1024, 4)
raw(C.WAL, 0, 100, 185, 6); raw(C.FTX, 0, 12, 28, 6)
for v, n in ((0, 6), (1, 18), (2, 24)): raw(C.PXR, v, 1024, 1024 + n, 6)
for v, n in ((0, 12), (1, 16), (2, 64), (3, 8)): raw(C.RAW, v, 14, 14 + n, 6 if v != 2 else 8)
codes(C.DOOM, 0, 20, 45); raw(C.DOOM_FLAT, 0, 0, 4, 4); raw(C.DOOM_FLAT, 0, 4090, 4096, 6)
raw(C.MDL, 0, 352, 358, 1); raw(C.MDL, 0, 358, 364, 6); raw(C.MDL, 0, 1126, 1128, 1); raw(C.MDL, 0, 1128, 1134, 6)
raw(C.TEXTURE, 0, 48 + 128, 48 + 132, 2); raw(C.TEXTURE, 8, 48 + 128, 48 + 140, 4)
prop('C31', cv)

# ---- C32 palette files and raw data ----
cp = []
PL = lambda e, **p: cp.append(case('pal', e, **p))
for i, pt in enumerate(PALS):
    b = 3 if pt in (C.PAL_RGB24, C.PAL_BGR24) else 4
    for cols, at in ((1, i % 3), (3, 2 * b + (i + 1) % b), (256, 255 * b + (i + 2) % b)): PL('h_save', f=CI, pt=pt, cols=cols, at=at, o=i & 1, up=i & 1)
for fl in (1, 10, 18, 40, 2500): PL('h_save', f=CI, pt=C.PAL_BGRA32, cols=3, full=fl)
for full in (0, 1):
    for f, pn in ((CI, 2), (RGB, 0), (CI, 0)):
        for k, kw in ((0, {}), (0, dict(crlf=1, at=8)), (0, dict(cut=1, at=4)), (1, {}), (2, dict(at=766, cnt=2)), (3, dict(at=0)), (4, dict(at=0)), (5, {})):
            if full and (pn or f == RGB): continue
            PL('h_load', kind=k, f=f, pn=pn, pt=C.PAL_BGRA32, fast=full, o=full, **kw)
    PL('h_load', kind=1, f=CI, n=256, at=764, fast=full); PL('h_load', kind=5, f=CI, n=256, at=764, fast=full); PL('h_load', kind=0, f=CI, n=256, at=767, fast=full); PL('h_load', kind=0, f=CI, n=1, at=1, fast=full); PL('h_load', kind=4, f=CI, at=300, more=4, fast=full); PL('h_load', kind=5, f=CI, n=1, at=0, cnt=3, more=4, fast=full)
for w in range(6):
    for l in (1, 2, 3): PL('h_text', which=w, len=l, f=CI, pn=2, pt=C.PAL_BGR32)
for l in (1, 2, 3): PL('h_text', which=-1, len=l, f=CI, pn=2, pt=C.PAL_RGB24)
for f, pn in ((CI, 2), (CI, 0)):
    for at in list(range(0, 24, 2)) + [24, 30, 50]: PL('h_bytes', kind=0, n=3, at=at, cnt=1 if at > 7 else 2, f=f, pn=pn, pt=C.PAL_BGRA32)
    for at in (0, 2, 4, 12, 14, 20): PL('h_bytes', kind=1, n=3, at=at, cnt=2, f=f, pn=pn, pt=C.PAL_BGRA32)
    PL('h_bytes', kind=3, at=0, cnt=4, f=f, pn=pn); PL('h_bytes', kind=3, at=4, cnt=4, f=f, pn=pn); PL('h_bytes', kind=5, at=0, cnt=4, f=f, pn=pn); PL('h_bytes', kind=5, n=256, at=1, cnt=3, f=f, pn=pn); PL('h_bytes', kind=5, n=256, at=0, cnt=1, f=f, pn=pn)
    for k in range(6):
        for c in (1, 20, 730): PL('h_bytes', kind=k, cnt=0, cut2=c, f=f, pn=pn, pt=C.PAL_RGB32) if (c < 20 or k < 5) and (c < 700 or 1 < k < 5) else 0
for way in (0, 1, 2):
    for bpp in range(0, 6): PL('h_data', way=way, bpp=bpp)
    for W, Hh, D in ((1, 1, 1), (3, 2, 2), (0, 2, 1), (2, 0, 1), (2, 2, 0), (5, 1, 1)): PL('h_data', way=way, bpp=3 if W != 5 else 1, W=W, Hh=Hh, D=D)
    for lack in (1, 2, 3, 12): PL('h_data', way=way, lack=lack, fast=way == 2)
    PL('h_data', way=way, fast=1)
for f, t in ((RGB, UB), (LA, US), (CI, UB), (BGRA, FL)):
    PL('h_dump', f=f, t=t); PL('h_dump', f=f, t=t, full=1, d=2 if f == RGB else 1)
PL('h_dump', f=CI, pn=3); PL('h_dump', f=RGB, over=0); PL('h_dump', f=RGB, over=0, there=1)
for f in (RGB, BGR, RGBA, BGRA, LUM, LA):
    b = vhchan(f)
    for o in (0, 1): PL('h_apply', f=f, w=2, h=2, d=1 + o, pp=b + (1 if b > 2 else 0) if o else -1, qp=-1 if o else 4, o=o)
    PL("h_apply", f=f, w=1, h=1, pp=0, qp=0)
    PL('h_apply', f=f, w=1, h=1, pp=min(2, b - 1), qp=8, n=4)
    PL('h_apply', f=f, w=2, h=1, bad=1)
for pt in PALS:
    for pp in (0, 4, -1): PL('h_apply', f=CI, pt=pt, w=3, h=2, pp=pp, qp=-1 if pp else 1, o=1)
PL('h_apply', f=ALPHA, w=2, h=1); PL('h_apply', f=CI, pt=C.PAL_RGB24, w=2, h=2, bad=1); PL('h_apply', f=RGB, w=2, h=1, pp=4, qp=-1, kind=0); PL('h_apply', f=RGB, w=2, h=1, pp=4, qp=-1, kind=1)
prop('C32', cp)
