# A random configuration script over random files: every step is taken through the configuration package, and what it was
# and what came of it is written down. Runs inside the program's interpreter: argv = seed, directory.
import json
import os
import random
import sys

SEED, DIR = int(sys.argv[1]), sys.argv[2]
R = random.Random(SEED)
OUT = open(os.path.join(DIR, 'events.jsonl'), 'w')


def emit(**kw):
    OUT.write(json.dumps(kw) + '\n')
    OUT.flush()


# ---- the files
def card(k, v):
    if isinstance(v, bool):
        v = 'T' if v else 'F'
        s = '%-8s= %20s' % (k, v)
    elif isinstance(v, str):
        s = "%-8s= '%-8s'" % (k, v)
    else:
        s = '%-8s= %20s' % (k, v)
    return s.ljust(80)


def block(b, fill):
    return b + fill * (-len(b) % 2880)


def hdu_bytes(first, h):
    cards = [card('SIMPLE', True)] if first else ["XTENSION= '%-8s'".ljust(80)[:0] + card('XTENSION', 'BINTABLE' if h['k'] == 'table' else 'IMAGE')]
    if h['k'] == 'table':
        cards += [card('BITPIX', 8), card('NAXIS', 2), card('NAXIS1', 4), card('NAXIS2', 0), card('PCOUNT', 0), card('GCOUNT', 1), card('TFIELDS', 1), card('TFORM1', 'J')]
        data = b''
    else:
        cards += [card('BITPIX', 8), card('NAXIS', len(h['dims']))] + [card('NAXIS%d' % (i + 1), d) for i, d in enumerate(h['dims'])]
        cards += [card('EXTEND', True)] if first else [card('PCOUNT', 0), card('GCOUNT', 1)]
        n = 1 if h['dims'] else 0
        for d in h['dims']:
            n *= d
        data = bytes(n)
    cards += [card(k, v) for k, v in h['num'].items()] + [card(k, v) for k, v in h['txt'].items() if k not in h['num']] + ['END'.ljust(80)]
    return block(''.join(cards).encode(), b' ') + block(data, b'\0')


def keys(always):
    num, txt = {}, {}
    for k in ('GAIN', 'EGAIN', 'SATURATE', 'FLXSCALE', 'NIGHT'):
        if R.random() < .4 or (k == 'NIGHT' and always):
            num[k] = R.randint(1, 3)
            txt[k] = str(num[k])
    if always or R.random() < .5:
        txt['FILTER'] = R.choice(['g1', 'g2', 'r1'])
    return num, txt


def make(kind, always):
    def h(k, dims):
        num, txt = keys(always) if k != 'table' else ({}, {})
        return {'k': k, 'dims': dims, 'num': num, 'txt': txt}
    two = lambda: [R.randint(1, 3), R.randint(1, 3)]
    other = lambda: R.choice([h('table', []), h('image', [3])])
    if kind == 'single':
        r = [h('image', two())]
    elif kind == 'mef':
        r = [h('image', [])]
        for _ in range(R.randint(1, 3)):
            if R.random() < .25:
                r.append(other())
            r.append(h('image', two()))
    elif kind == 'mefp':
        r = [h('image', two()) for _ in range(R.randint(2, 3))]
    elif kind == 'cube':
        r = [h('image', two() + [R.randint(1, 3)])]
    else:
        r = [h('image', [])] + ([h('image', two())] if R.random() < .3 else []) + [h('image', two() + [R.randint(1, 3)])]
    return r


ALWAYS = R.random() < .7
FILES = []
for letter in 'ab':
    for i in range(R.randint(1, 3)):
        kind = R.choice(['single', 'single', 'mef', 'mef', 'mefp', 'cube', 'cubex'])
        f = {'name': '%s%d.fits' % (letter, i), 'group': letter, 'hdus': make(kind, ALWAYS), 'kind': kind}
        with open(os.path.join(DIR, f['name']), 'wb') as o:
            for n, x in enumerate(f['hdus']):
                o.write(hdu_bytes(n == 0, x))
        FILES.append(f)
SRC = {k: R.randint(1, 9) for k in ('centroid_x', 'centroid_y', 'radius', 'isophotal_flux', 'angle')}
emit(e='Begin', files=[{k: f[k] for k in ('name', 'group', 'hdus')} for f in FILES], src=SRC)


class Source(object):
    pass


O = Source()
O.__dict__.update(SRC)
os.chdir(DIR)
from sourcextractor.config import *
import sourcextractor.config.model_fitting as mf
import sourcextractor.config.measurement_config as mc
import sourcextractor.config.argv as av

OBJ = []   # (kind, object), by step
NAME = lambda p: p[len(DIR) + 1:] if p.startswith(DIR + '/') else p
path = lambda n: n if R.random() < .3 else os.path.join(DIR, n)
of = lambda *k: [i for i, x in enumerate(OBJ) if x[0] in k]
obj = lambda i: OBJ[i][1]


def tree(g):
    if g.is_leaf():
        im = [i.id for i in g]
        assert len(g) == len(im)
        return {'leaf': True, 'im': im, 'sub': []}
    sub = [[NAME(str(n)), tree(s)] for n, s in g]
    assert len(g) == len(sub)
    return {'leaf': False, 'im': [], 'sub': sub}


def some(k, n):
    return [R.choice(k) for _ in range(n)]


def kwargs():
    """What can be said of an image: for the record, and as arguments"""
    rec = {'gain': -1000, 'gkey': 'GAIN', 'sat': -1000, 'fs': -1000, 'wtype': 'none', 'abs': False, 'ws': 1, 'wt': -1000, 'bg': -1000, 'norm': True}
    kw = {}
    def say(k, key, v):
        if R.random() < .25:
            rec[k] = v
            kw[key] = v
    say('gain', 'gain', R.randint(0, 5))
    say('gkey', 'gain_keyword', 'EGAIN')
    say('sat', 'saturation', R.randint(0, 5))
    say('fs', 'flux_scale', R.randint(1, 5))
    say('wtype', 'weight_type', R.choice(['rms', 'weight', 'variance', 'background']))
    say('abs', 'weight_absolute', True)
    say('ws', 'weight_scaling', R.randint(2, 5))
    say('wt', 'weight_threshold', R.randint(0, 5))
    say('bg', 'constant_background', R.randint(0, 5))
    say('norm', 'psf_renormalize', False)
    if R.random() < .03:
        kw[R.choice(['gain', 'saturation', 'flux_scale', 'weight_scaling', 'weight_threshold', 'constant_background'])] = 'abc'
        rec['wtype'] = 'BAD'
    return rec, kw


def companion(files, n):
    """A PSF or a weight: none, one file, or a list of files"""
    k = R.choice(['none', 'none', 'one', 'list'])
    if k == 'none':
        return k, [], None
    if k == 'one':
        f = R.choice(files)
        return k, [f], path(f)
    if R.random() < .06:
        n += R.choice([-1, 1])
    fs = some(files, max(n, 0))
    return k, fs, [path(f) for f in fs]


PSFS = ['p0.psf', 'p1.psf', 'p2.psf']
NAMES = [f['name'] for f in FILES]
BY = {f['name']: f for f in FILES}
images = lambda f: [i for i, h in enumerate(BY[f]['hdus']) if h['k'] == 'image' and len(h['dims']) in (2, 3)]


def do_load():
    f = R.choice(NAMES)
    n = len(images(f))
    op = {'t': 'Load', 'file': f, 'hdu': -1, 'phdu': -1, 'whdu': -1}
    kw = {}
    if R.random() < .25:
        op['hdu'] = kw['image_hdu'] = R.choice(images(f)) if R.random() < .95 else R.choice([-1, 9])
        if op['hdu'] == -1:
            op['hdu'] = -2
            kw['image_hdu'] = -2
        n = 1
    op['psfk'], op['psf'], psf = companion(PSFS, n)
    op['wk'], op['w'], w = companion(NAMES, n)
    if op['psfk'] == 'one' and R.random() < .3:
        op['phdu'] = kw['psf_hdu'] = R.randint(0, 3)
    if op['wk'] == 'one' and R.random() < .3:
        op['whdu'] = kw['weight_hdu'] = R.randint(0, 3)
    op['kw'], more = kwargs()
    kw.update(more)
    def run():
        g = load_fits_image(path(f), psf=psf, weight=w, **kw)
        return ('group', g, [i.id for i in g], tree(g))
    return op, run


def do_many():
    op = {'t': 'Many', 'hdu': -1, 'phdu': -1, 'whdu': -1, 'how': R.choice(['list', 'list', 'files', 'one'])}
    if op['how'] == 'list':
        op['files'] = some(NAMES, R.randint(0, 3) if R.random() < .1 else R.randint(1, 3))
        arg = [path(f) for f in op['files']]
    elif op['how'] == 'files':
        op['glob'] = R.choice('aabbc')
        op['files'] = []
        arg = FileList(os.path.join(DIR, op['glob'] + '*.fits'))
    else:
        op['files'] = [R.choice(NAMES)]
        arg = path(op['files'][0])
    n = len(op['files']) if op['how'] == 'list' else len(images(op['files'][0])) if op['how'] == 'one' else len([x for x in FILES if x['group'] == op['glob']])
    op['psfk'], op['psf'], psf = companion(PSFS, n)
    op['wk'], op['w'], w = companion(NAMES, n)
    if op['how'] != 'one' and R.random() < .8:   # one file for all the images is refused
        if op['psfk'] == 'one':
            op['psfk'], op['psf'], psf = 'none', [], None
        if op['wk'] == 'one':
            op['wk'], op['w'], w = 'none', [], None
    op['kw'], kw = kwargs()
    def run():
        g = load_fits_images(arg, psf, w, **kw)
        return ('group', g, [i.id for i in g], tree(g))
    return op, run


def do_cube():
    cubes = [f for f in NAMES if BY[f]['kind'] in ('cube', 'cubex')]
    f = R.choice(cubes) if cubes and R.random() < .9 else R.choice(NAMES)
    op = {'t': 'Cube', 'file': f, 'chdu': -1, 'wchdu': -1}
    kw = {}
    if BY[f]['kind'] == 'cubex' or R.random() < .2:
        op['chdu'] = kw['image_cube_hdu'] = images(f)[-1]
    n = BY[f]['hdus'][op['chdu'] if op['chdu'] >= 0 else images(f)[0]]['dims']
    n = n[2] if len(n) == 3 else 1
    op['psfk'], op['psf'], psf = companion(PSFS, n)
    op['wk'], op['w'], w = companion(cubes if cubes and R.random() < .5 else NAMES, n)
    if op['wk'] == 'one' and R.random() < .5:
        op['wchdu'] = kw['weight_cube_hdu'] = images(op['w'][0])[-1]
    op['kw'], more = kwargs()
    kw.update(more)
    def run():
        g = load_fits_data_cube(path(f), psf=psf, weight=w, **kw)
        return ('group', g, [i.id for i in g], tree(g))
    return op, run


def do_image():
    f = R.choice(NAMES)
    op = {'t': 'Image', 'file': f, 'hdu': -1, 'phdu': -1, 'whdu': -1, 'psf': some(PSFS, R.randint(0, 1)), 'w': some(NAMES, R.randint(0, 1))}
    kw = {}
    if R.random() < .5:
        op['hdu'] = kw['image_hdu'] = R.choice(images(f)) if R.random() < .95 else 9
    if R.random() < .3:
        op['phdu'] = kw['psf_hdu'] = R.randint(0, 3)
    if R.random() < .3:
        op['whdu'] = kw['weight_hdu'] = R.randint(0, 3)
    if R.random() < .03:
        op[R.choice(['hdu', 'phdu', 'whdu'])] = -2
        kw = {k: v for k, v in (('image_hdu', op['hdu']), ('psf_hdu', op['phdu']), ('weight_hdu', op['whdu'])) if v != -1}
    op['kw'], more = kwargs()
    kw.update(more)
    def run():
        i = MeasurementImage(path(f), path(op['psf'][0]) if op['psf'] else None, path(op['w'][0]) if op['w'] else None, **kw)
        return ('image', i, [i.id], 0)
    return op, run


def do_group():
    if R.random() < .2 and of('group'):
        g = R.choice(of('group'))
        op = {'t': 'Super', 'g': g + 1, 'name': R.choice(['u', 'v'])}
        def run():
            n = ImageGroup(subgroups=[(op['name'], obj(g))])
            return ('group', n, [], tree(n))
        return op, run
    im = some(of('image'), R.randint(0, 3)) if of('image') else []
    op = {'t': 'Group', 'im': [i + 1 for i in im]}
    def run():
        l = [obj(i) for i in im]
        g = ImageGroup(images=l[0] if len(l) == 1 and R.random() < .5 else l)
        return ('group', g, [], tree(g))
    return op, run


def do_add():
    if not of('group'):
        return None
    g = R.choice([i for i in of('group') if obj(i).is_leaf() or R.random() < .1] or of('group'))
    im = some(of('image'), R.randint(1, 2)) if of('image') else []
    if not im:
        return None
    op = {'t': 'Add', 'g': g + 1, 'im': [i + 1 for i in im]}
    def run():
        l = [obj(i) for i in im]
        obj(g).add_images(l[0] if len(l) == 1 and R.random() < .5 else l)
        return ('none', None, [], tree(obj(g)))
    return op, run


def do_addsub():
    if not of('group'):
        return None
    g, s = R.choice(of('group')), R.choice(of('group'))
    if (obj(g).is_leaf() and R.random() < .9) or g == s:
        return None
    def holds(a, b):   # no cycles
        return a is b or (not a.is_leaf() and any(holds(x, b) for _, x in a))
    if holds(obj(s), obj(g)):
        return None
    op = {'t': 'AddSub', 'g': g + 1, 'name': R.choice(['u', 'v', 'w']), 's': s + 1}
    def run():
        obj(g).add_subgroup(op['name'], obj(s))
        return ('none', None, [], tree(obj(g)))
    return op, run


def do_split():
    if not of('group'):
        return None
    g = R.choice(of('group'))
    op = {'t': 'Split', 'g': g + 1, 'how': R.choice(['key', 'key', 'pattern']), 'key': R.choice(['FILTER', 'FILTER', 'NIGHT'])}
    if op['how'] == 'pattern':
        op['key'] = 'FILTER'
    if op['how'] == 'key' and R.random() < .1:
        op['key'] = 'IMAGE_FILENAME'
    def run():
        obj(g).split(ByKeyword(op['key']) if op['how'] == 'key' else ByPattern(op['key'], '(.)'))
        return ('none', None, [], tree(obj(g)))
    return op, run


def do_get():
    g = R.choice(of('group', 'mg')) if of('group', 'mg') else None
    if g is None:
        return None
    o = obj(g)
    if o.is_leaf():
        if OBJ[g][0] == 'group':
            if R.random() < .9:
                return None
            op = {'t': 'Get', 'o': g + 1, 'name': 'u', 'at': -1}
            return op, lambda: ('group', o['u'], [], tree(o['u']))
        n = len(o)
        k = R.randint(0, n - 1) if n and R.random() < .95 else n
        op = {'t': 'Get', 'o': g + 1, 'name': '', 'at': k}
        return op, lambda: ('image', o[k], [], o[k].id)
    names = [n for n, _ in o]
    k = R.choice(names) if names and R.random() < .95 else 'zz'
    op = {'t': 'Get', 'o': g + 1, 'name': NAME(k), 'at': -1}
    return op, lambda: (OBJ[g][0], o[k], [], tree(o[k]))


def do_mg():
    if not of('group'):
        return None
    g = R.choice(of('group'))
    op = {'t': 'MG', 'g': g + 1}
    def run():
        m = MeasurementGroup(obj(g))
        return ('mg', m, [], tree(m))
    return op, run


def do_aper():
    if not of('image', 'mg'):
        return None
    fit = [i for i in of('image', 'mg') if OBJ[i][0] == 'image' or (obj(i).is_leaf() and len(obj(i)) == 1)]
    pool = fit if fit and R.random() < .95 else of('image', 'mg')
    ts = some(pool, 1 if R.random() < .5 else R.randint(1, 3))
    if R.random() < .85:
        ts = list(dict.fromkeys(ts))
    ap = [R.randint(1, 9) for _ in range(R.randint(1, 3))]
    op = {'t': 'Aper', 'to': [i + 1 for i in ts], 'ap': ap}
    def run():
        a = add_aperture_photometry(obj(ts[0]) if len(ts) == 1 and R.random() < .5 else [obj(i) for i in ts], ap[0] if len(ap) == 1 and R.random() < .5 else ap)
        return ('aper', a, [x.id for x in a], [[int(v) for v in x.apertures] for x in a] if False else [str(x)[str(x).index('['):-1] for x in a])
    return op, run


F2 = lambda v: int(round(v * 1000))


def do_param():
    k = R.choice(['const', 'constf', 'free', 'freef', 'unb', 'unbf', 'dep', 'dep', 'dep', 'pos', 'flux', 'default'])
    a, b = R.randint(1, 5), R.randint(6, 9)
    ps = some(of('param'), R.randint(1, 2)) if of('param') else []
    if len(of('param')) > 1 and R.random() < .7:
        ps = R.sample(of('param'), 2)
    if k == 'dep' and not ps:
        k = 'const'
    op = {'t': 'Param', 'k': k, 'a': a, 'b': b, 'x': R.choice([False, True]), 'on': [i + 1 for i in ps] if k == 'dep' else []}
    ty = RangeType.EXPONENTIAL if op['x'] else RangeType.LINEAR
    def view(p):
        if isinstance(p, ConstantParameter):
            return ['const', F2(p.get_value(O)), 0, 0]
        if isinstance(p, DependentParameter):
            return ['dep', F2(p.func(*[10 ** i for i in range(len(p.params))])), 0, 0]
        r, v = p.get_range(), p.get_init_value(O)
        if isinstance(r, Range):
            return ['range' + str(r.get_type().value), F2(v), F2(r.get_min(v, O)), F2(r.get_max(v, O))]
        return ['unbounded', F2(v), F2(r.get_normalization_factor(v, O)), 0]
    def run():
        if k == 'const': p = [ConstantParameter(a)]
        elif k == 'constf': p = [ConstantParameter(lambda o: o.radius * a)]
        elif k == 'free': p = [FreeParameter(a, Range((a - 1, b), ty))]
        elif k == 'freef': p = [FreeParameter(lambda o: o.centroid_x, Range(lambda v, o: (v - o.radius, v + a * o.radius), ty))]
        elif k == 'unb': p = [FreeParameter(a, Unbounded(b))]
        elif k == 'unbf': p = [FreeParameter(lambda o: o.angle + a, Unbounded(lambda v, o: v * o.radius))]
        elif k == 'default': p = [FreeParameter(b)]
        elif k == 'pos': p = list(get_pos_parameters())
        elif k == 'flux': p = [get_flux_parameter(scale=a)]
        else: p = [DependentParameter(lambda *v: sum(v) * a + b, *[obj(i) for i in ps])]
        for x in p:
            str(x)
        return ('param' if len(p) == 1 else 'params', p[0] if len(p) == 1 else p, [x.id for x in p], [view(x) for x in p])
    return op, run


KINDS = {'Constant': (ConstantModel, ['value']), 'Point': (PointSourceModel, ['x_coord', 'y_coord', 'flux']),
         'Exponential': (ExponentialModel, ['x_coord', 'y_coord', 'flux', 'effective_radius', 'aspect_ratio', 'angle']),
         'DeVaucouleurs': (DeVaucouleursModel, ['x_coord', 'y_coord', 'flux', 'effective_radius', 'aspect_ratio', 'angle']),
         'Sersic': (SersicModel, ['x_coord', 'y_coord', 'flux', 'effective_radius', 'aspect_ratio', 'angle', 'n'])}


def do_model():
    k = R.choice(list(KINDS))
    cls, names = KINDS[k]
    pool = wanted()
    args = [R.choice(pool) if pool and R.random() < .6 else -1 for _ in names]
    op = {'t': 'Model', 'k': k, 'args': [i + 1 for i in args]}     # 0: a number
    def run():
        m = cls(*[obj(i) if i >= 0 else 7 for i in args])
        new = [getattr(m, n).id for n, i in zip(names, args) if i < 0] + [m.id]
        return ('model', m, new, [[n, getattr(m, n).id] for n in names])
    return op, run


def do_graph():
    pool = of('param')
    args = {n: (R.choice(pool) if pool and R.random() < .6 else -1) for n in ('_aspect_ratio', '_angle', '_scale', 'p', 'q') if R.random() < .6}
    op = {'t': 'Graph', 'args': [[n, i + 1] for n, i in args.items()]}
    def run():
        given = {n: obj(i) if i >= 0 else 3. for n, i in args.items()}
        res = []
        for _ in range(2):     # the same parameters for two models
            m = ComputeGraphModel('x.onnx', 1., 2., 3., given)
            m.to_string(False), m.to_string(True)
            val = lambda p: [p.id if any(OBJ[i][0] == 'param' and obj(i) is p for i in range(len(OBJ))) else -1, F2(p.get_value(O)) if isinstance(p, ConstantParameter) else 0]
            res.append([['_angle'] + val(m.angle), ['_aspect_ratio'] + val(m.aspect_ratio), ['_scale'] + val(m.scale)] + [[n] + val(m.params[n]) for n in sorted(m.params)])
        return ('none', None, [], res)
    return op, run


def do_addmodel():
    if not of('mg', 'group') or not of('model'):
        return None
    g = R.choice(of('mg')) if of('mg') and R.random() < .95 else R.choice(of('mg', 'group'))
    m = R.choice(of('model'))
    op = {'t': 'AddModel', 'g': g + 1, 'm': m + 1}
    def run():
        if OBJ[g][0] == 'group':
            mc.global_measurement_config.model_fitting.add_model(obj(g), obj(m))
        else:
            add_model(obj(g), obj(m))
        return ('none', None, [], 0)
    return op, run


def wanted():
    """Parameters for a model or a column: often one that depends on others"""
    deps = [i for i in of('param') if isinstance(obj(i), DependentParameter)]
    return deps if deps and R.random() < .4 else of('param')


def do_column():
    pool = wanted() if R.random() < .6 else of('aper')
    if R.random() < .03:
        pool = of('image', 'mg', 'model')
    if not pool:
        return None
    cs = some(pool, 1 if OBJ[pool[0]][0] == 'aper' else R.randint(1, 3))
    op = {'t': 'Column', 'name': R.choice(['c1', 'c2', 'c3', 'c4', 'c5', 'c6']), 'of': [i + 1 for i in cs]}
    def run():
        l = []
        for i in cs:
            l += obj(i) if isinstance(obj(i), list) else [obj(i)]
        add_output_column(op['name'], l[0] if len(l) == 1 and R.random() < .5 else l)
        return ('none', None, [], 0)
    return op, run


def do_prior():
    if not of('param'):
        return None
    p = R.choice(of('param'))
    op = {'t': 'Prior', 'p': p + 1}
    def run():
        add_prior(obj(p), 1, lambda o: 2)
        return ('none', None, [], 0)
    return op, run


def do_set():
    n = R.randint(1, 9)
    k = R.choice(['engine', 'max', 'chi', 'iterative', 'meta', 'deblend', 'stop', 'window', 'ellipse', 'badwindow' if R.random() < .1 else 'max'])
    op = {'t': 'Set', 'k': k, 'n': n}
    def run():
        if k == 'engine': set_engine('e%d' % n)
        elif k == 'max': set_max_iterations(n)
        elif k == 'chi': set_modified_chi_squared_scale(n)
        elif k == 'iterative': use_iterative_fitting(n % 2 == 0)
        elif k == 'meta': set_meta_iterations(n)
        elif k == 'deblend': set_deblend_factor(n / 10.)
        elif k == 'stop': set_meta_iteration_stop(n / 10.)
        elif k == 'window': set_window_type(mf.WindowType(n))
        elif k == 'badwindow': set_window_type(n)
        else: set_ellipse_scale(n)
        return ('none', None, [], 0)
    return op, run


def do_args():
    names = ['p', 'q', 'r', 's']
    spec, toks = [], []
    for n in names[:R.randint(1, 4)]:
        k = R.choice(['int', 'str', 'intv', 'strv'])
        spec.append([n, k])
        if R.random() < .5:
            toks.append([n, str(R.randint(1, 99))])
    if R.random() < .05:
        toks.append(['zz', '1'])
    if toks and R.random() < .05:
        toks[-1][1] = 'x=y'
    R.shuffle(toks)
    op = {'t': 'Args', 'spec': spec, 'toks': toks}
    def run():
        old = sys.argv
        sys.argv = ['script'] + [n + '=' + v for n, v in toks]
        try:
            a = av.Arguments(**{n: {'int': int, 'str': str, 'intv': 5, 'strv': 'five'}[k] for n, k in spec})
            return ('none', None, [], [[n, type(getattr(a, n)).__name__, str(getattr(a, n))] for n, _ in spec])
        finally:
            sys.argv = old
    return op, run


TRIPLES = [(3, 4), (4, 3), (-3, 4), (5, 0), (0, 5), (4, -3)]


def do_world():
    import math
    x, y, rad = R.randint(1, 20), R.randint(1, 20), R.randint(1, 5)
    c, s = R.choice(TRIPLES)
    ratio = R.choice([1, 2, 3, 4, 8])     # quarters
    sx, sy = R.choice([-2, -1, 1, 2]), R.choice([-1, 1, 2])
    op = {'t': 'World', 'x': x, 'y': y, 'rad': rad, 'cos': c, 'sin': s, 'ratio': ratio, 'sx': sx, 'sy': sy}
    def run():
        old = (mf.pyston.image_to_world_alpha, mf.pyston.image_to_world_delta)
        mf.pyston.image_to_world_alpha = lambda px, py: sx * px * 1e-4
        mf.pyston.image_to_world_delta = lambda px, py: sy * py * 1e-4
        try:
            p = [ConstantParameter(0) for _ in range(5)]
            w = get_world_parameters(*p)
            at = [x, y, rad, math.atan2(s, c), ratio / 4.]
            v = [q.func(*at[:len(q.params)]) for q in w]
            assert all(z.params == p[:len(z.params)] for z in w)
            ang = math.radians(v[3])
            return ('none', None, [], [int(round(v[0] * 1e6)), int(round(v[1] * 1e6)), int(round(v[2] * 1e7)), int(round(v[3] * 1000)),
                                       int(round(math.sin(ang) * 1e4)), int(round(math.cos(ang) * 1e4)), int(round(v[4] * 1e4))])
        finally:
            mf.pyston.image_to_world_alpha, mf.pyston.image_to_world_delta = old
    return op, run


def do_print():
    op = {'t': 'Print'}
    def run():
        print_output_columns()
        print_measurement_images()
        mc.global_measurement_config.model_fitting.print_parameters()
        for i in of('group', 'mg', 'image'):
            str(obj(i))
        for i in of('mg'):
            print_model_fitting_info(obj(i), R.random() < .5)
        return ('none', None, [], 0)
    return op, run


OPS = [(do_load, 6), (do_many, 3), (do_cube, 3), (do_image, 5), (do_group, 2), (do_add, 2), (do_addsub, 1), (do_split, 5), (do_get, 5), (do_mg, 5), (do_aper, 5),
       (do_param, 9), (do_model, 6), (do_graph, 1), (do_addmodel, 7), (do_column, 5), (do_prior, 2), (do_set, 3), (do_args, 1), (do_world, 1), (do_print, 1)]
PICK = [f for f, n in OPS for _ in range(n)]
res = 'ok'
for _ in range(R.randint(5, 30)):
    made = R.choice(PICK)()
    if made is None:
        continue
    op, run = made
    try:
        kind, o, new, view = run()
        res = 'ok'
    except Exception as e:
        kind, o, new, view, res = 'none', None, [], str(e)[:80].replace(DIR, ''), type(e).__name__
    OBJ.append((kind, o))
    emit(e='Op', op=op, r=res, new=new, v=view)
    if kind == 'params':    # two at once: name them one by one
        for k, p in enumerate(o):
            OBJ.append(('param', p))
            emit(e='Op', op={'t': 'Nth', 'o': len(OBJ) - 1 - k, 'k': k + 1}, r='ok', new=[], v=p.id)
    if res != 'ok':
        break
# what became of all groups; a refused step may have left a group half changed, but never a frozen one
emit(e='View', objs=[[i + 1, tree(obj(i))] for i in of('group', 'mg') if res == 'ok' or OBJ[i][0] == 'mg'])
OUT.close()
