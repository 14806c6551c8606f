# run once with the repository's interpreter: names the installed libraries export
import sys, json, pkgutil, importlib, warnings
warnings.simplefilter('ignore')
mods = '''os os.path shutil sys random string tempfile itertools functools operator collections collections.abc math cmath re copy glob
fnmatch time datetime json ast inspect pdb io pathlib typing abc contextlib hashlib uuid secrets warnings logging enum fractions decimal
numbers statistics bisect heapq types textwrap pprint struct pickle csv argparse subprocess threading concurrent.futures multiprocessing weakref traceback
numpy numpy.linalg numpy.random numpy.testing spglib yaml ruamel.yaml ruamel.yaml.compat ruamel.yaml.comments click xxhash progressbar scipy scipy.spatial scipy.spatial.distance
scipy.special aenum'''.split()
out = {'modules': {}, 'importable': sorted({m.name for m in pkgutil.iter_modules()} | set(sys.builtin_module_names) | {'ruamel'})}
for m in mods:
    try:
        x = importlib.import_module(m)
        out['modules'][m] = sorted(dir(x))
    except Exception as ex:
        print(m, ex, file=sys.stderr)
import collections.abc
out['modules']['collections'] = sorted(set(out['modules']['collections']) | {n for n in collections.abc.__all__ if hasattr(__import__('collections'), n)})
import numpy as np, xxhash, click
un = set()
for t in (str, bytes, int, float, complex, list, tuple, dict, set, frozenset, bool, object, type, range, slice, np.ndarray, np.int64, np.float64, np.dtype,
          type(xxhash.xxh64(b'')), type(lambda: 0), type((x for x in ())), type(iter([])), BaseException, OSError, UnicodeError, property, memoryview, type(sys)):
    un |= set(dir(t))
import collections, io, re, tempfile, pathlib
for t in (collections.Counter, collections.OrderedDict, collections.defaultdict, collections.deque, io.StringIO, io.TextIOWrapper, io.BytesIO, type(re.compile('a')), type(re.match('a', 'a')), pathlib.Path):
    un |= set(dir(t))
f = tempfile.NamedTemporaryFile(); un |= set(dir(f)) | {'name', 'file'}; f.close()
try:
    import ruamel.yaml; un |= set(dir(ruamel.yaml.YAML())); import ruamel.yaml.comments as c; un |= set(dir(c.CommentedMap)) | set(dir(c.CommentedSeq))
except Exception as ex: print(ex)
try:
    import progressbar; un |= set(dir(progressbar.ProgressBar))
except Exception as ex: print(ex)
try:
    import scipy.spatial as s; un |= set(dir(s.cKDTree))
except Exception as ex: print('scipy', ex)
try:
    import argparse; un |= set(dir(argparse.ArgumentParser))
    un |= set(dir(click.Context)) | set(dir(click.Command)) | set(dir(click.Group))
except Exception as ex: print(ex)
out['universe'] = sorted(un)
out['builtins'] = sorted(dir(__builtins__))
json.dump(out, open(sys.argv[1], 'w'))
