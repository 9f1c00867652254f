"""Runs the Python interface of the repository, which is Python 2 code, under Python 3.

The modules are read from the repository's working tree.  What the two dialects write
differently is rewritten on the syntax tree or supplied from outside, nothing else:
print statements, __metaclass__, dict.iteritems, xrange, and byte strings, which are
represented by str with one character per byte (ctypes is given a front end for them).
"""
import ast, builtins, ctypes, importlib.abc, importlib.util, os, re, sys, types

builtins.xrange = range
builtins.unicode = str


# ---- ctypes with str for bytes
def enc(x):
    return x.encode('latin-1') if isinstance(x, str) else x


def dec(x):
    return x.decode('latin-1') if isinstance(x, bytes) else x


shim = types.ModuleType('ctypes')
shim.__dict__.update({k: v for k, v in ctypes.__dict__.items() if not k.startswith('__')})


class Structure(ctypes.Structure):
    def __getattribute__(self, n):
        return dec(super().__getattribute__(n))


shim.Structure = Structure


class CDLL(ctypes.CDLL):
    def __init__(self, name, *a, **k):
        super().__init__(name, *a, **k)

        class F(self._FuncPtr):
            _flags_ = self._FuncPtr._flags_
            _restype_ = self._FuncPtr._restype_

            def __call__(self, *a):
                return dec(super().__call__(*[enc(x) for x in a]))
        self._FuncPtr = F


shim.CDLL = CDLL


# ---- the modules
class Rewrite(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        keep = []
        for b in n.body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and getattr(b.targets[0], 'id', '') == '__metaclass__':
                n.keywords.append(ast.keyword('metaclass', b.value))
            else:
                keep.append(b)
        n.body = keep or [ast.Pass()]
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = {'iteritems': 'items', 'itervalues': 'values', 'iterkeys': 'keys'}.get(n.attr, n.attr)
        return n


def rewrite(text, name):
    import warnings
    text = re.sub(r'(?m)^(\s*)print (?!=)(.*)$', r'\1pass', text)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t = ast.fix_missing_locations(Rewrite().visit(ast.parse(text)))
        return compile(t, name, 'exec')


def latin_open(f, mode='r', *a, **k):
    return open(f, mode, *a, **k) if 'b' in mode else open(f, mode, encoding='latin-1', newline='')


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root, build):
        self.root, self.build = root, build

    def find_spec(self, name, path, target=None):
        if name != 'vital' and not name.startswith('vital.'):
            return None
        p = os.path.join(self.root, *name.split('.'))
        for f, pkg in ((p + '/__init__.py', True), (p + '.py', False), (p + '.py.in', False)):
            if os.path.isfile(f):
                return importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[p] if pkg else None)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        with open(m.__spec__.origin, encoding='utf-8') as f:
            text = f.read()
        if m.__spec__.origin.endswith('.in'):
            text = text.replace('@VITAL_BUILD_DIRECTORY@', self.build)
        m.__dict__['open'] = latin_open
        real = sys.modules['ctypes']
        sys.modules['ctypes'] = shim
        try:
            exec(rewrite(text, m.__spec__.origin), m.__dict__)
        finally:
            sys.modules['ctypes'] = real


def start(root, build):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(root, build))
    sys.unraisablehook = lambda u: None   # what a destructor raises, Python 2 ignores as well
    global vital, classes
    import vital
    import vital.algo
    classes = dict(ConfigBlock=vital.ConfigBlock, Image=vital.Image, ImageContainer=vital.ImageContainer, Track=vital.Track,
                   TrackSet=vital.TrackSet, Camera=vital.Camera, CameraMap=vital.CameraMap, Apm=vital.AlgorithmPluginManager,
                   ImageIo=vital.algo.ImageIo, ConvertImage=vital.algo.ConvertImage, TrackFeatures=vital.algo.TrackFeatures)


class Pil(object):
    """ what Image.from_pil asks of an image """
    def __init__(self, mode, w, h, data):
        self.mode, self.size, self.data = mode, (w, h), data

    def tostring(self):
        return bytes(bytearray(enc(self.data)))   # a new object, as the real one makes


objs = {}


def arg(a):
    k, v = a[:1], a[2:]
    if k == 's': return v
    if k == 'i': return int(v)
    if k == 'b': return v == '1'
    if k == 'n': return None
    if k == 'o': return objs[int(v)]
    if k == 'f': return float(v)
    if k == 'l': return [objs[int(x)] for x in v.split(',') if x]
    if k == 'd': return dict((int(x.split('=')[0]), objs[int(x.split('=')[1])]) for x in v.split(',') if x)
    if k == 'p':
        m, w, h, d = v.split(' ', 3)
        return Pil(m, int(w), int(h), d)
    raise ValueError(a)


def result(r, ident):
    if r is None: return 'None'
    if isinstance(r, bool): return str(r)
    if isinstance(r, int): return 'i:%d' % r
    if isinstance(r, (str, bytes)): return 's:' + dec(r)
    if isinstance(r, list): return 'l:' + ''.join('%d %s' % (len(x), dec(x)) for x in r)
    if isinstance(r, dict): return 'l:' + ''.join('%d %s%d %s' % (len(k), dec(k), len(v), dec(v)) for k, v in sorted(r.items(), key=lambda e: dec(e[0])))
    objs[ident] = r
    return 'o:' + type(r).__name__


def do(op, ident, a):
    if op == 'new':
        return classes[a[0]](*[arg(x) for x in a[1:]])
    if op == 'class':
        return getattr(classes[a[0]], a[1])(*[arg(x) for x in a[2:]])
    if op == 'call':
        return getattr(objs[int(a[0])], a[1])(*[arg(x) for x in a[2:]])
    if op == 'get':
        return getattr(objs[int(a[0])], a[1])
    if op == 'const':
        return getattr(classes[a[0]], a[1])
    if op == 'len':
        return len(objs[int(a[0])])
    if op == 'bool':
        return bool(objs[int(a[0])])
    if op == 'copy':
        o = objs[int(a[0])]
        return classes[a[1]].from_c_pointer(o.c_pointer, o)
    if op == 'address':
        return ctypes.cast(objs[int(a[0])].c_pointer, ctypes.c_void_p).value or 0
    if op == 'del':
        del objs[int(a[0])]
        return None
    if op == 'clear':
        objs.clear()
        return None
    if op == 'tool':
        f = os.path.join(sys.meta_path[0].root, 'vital', 'bin', 'maptk_track_features.py')
        if 'tool' not in globals():
            spec = importlib.util.spec_from_file_location('maptk_track_features', f, loader=sys.meta_path[0])
            m = importlib.util.module_from_spec(spec)
            sys.meta_path[0].exec_module(m)
            import logging
            logging.disable(logging.CRITICAL)
            globals()['tool'] = m
        sys.argv = ['maptk_track_features'] + a
        return tool.cli_main()
    if op == 'find':
        m = sys.modules['vital.util.find_vital_library']
        keep = os.environ.get('LD_LIBRARY_PATH'), m.__dict__['__BUILD_DIR__'], m.__file__
        os.environ['LD_LIBRARY_PATH'], m.__dict__['__BUILD_DIR__'], m.__file__ = a[1], a[2], a[3]
        try:
            return m.find_library_path(a[0])
        finally:
            m.__dict__['__BUILD_DIR__'], m.__file__ = keep[1:]
            os.environ.pop('LD_LIBRARY_PATH') if keep[0] is None else os.environ.__setitem__('LD_LIBRARY_PATH', keep[0])
    raise ValueError(op)


def call(raw):
    """ raw: the operation, the number of the result and the arguments, each preceded by its length """
    t, k, f = dec(raw), 0, []
    while k < len(t):
        e = t.index(' ', k)
        n = int(t[k:e])
        f.append(t[e + 1:e + 1 + n])
        k = e + 1 + n
    try:
        return enc('ok:' + result(do(f[0], int(f[1]), f[2:]), int(f[1])))
    except BaseException as e:
        m = dec(e.args[0]) if e.args else ''
        e.__traceback__ = None
        return ('ex:' + ','.join(c.__name__ for c in type(e).__mro__) + ':' + str(m)).encode('latin-1', 'replace')
