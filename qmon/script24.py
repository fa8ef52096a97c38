"""Child process of the C24 check: performs one script of operations under whatever configuration it was started in and writes the log of outcomes."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
spec = json.load(open(sys.argv[1]))
if os.environ.get('QMON_REPO', '/repo') not in sys.path:
    sys.path.insert(0, os.environ.get('QMON_REPO', '/repo'))
import warnings
for c in spec.get('warn', []):
    # those which the library causes, not those of the script's own use of numpy
    warnings.filterwarnings('error', category=getattr(__builtins__, c), module=r'quantities(\.|$)' if spec.get('of') else '')
exec(spec.get('preamble', ''), {})
filters = list(warnings.filters)
import random, re, importlib, traceback
from qmon import core
warnings.filters[:] = filters
warnings._filters_mutated()
if not spec.get('warn'):
    warnings.simplefilter('ignore')
import numpy as np
from qmon import lib, model as M
from qmon.lib import pq, Quantity, UQ, UnitQuantity, Dimensionality, unit_registry, catalogue_fingerprint
from qmon.checks import c23, c24
log = {}
reach = core.Reach()
reach.start()


SUP = '\u2070\u00b9\u00b2\u00b3\u2074\u2075\u2076\u2077\u2078\u2079'


def snapshot(f, args):
    """(what is logged, is it an exception)"""
    try:
        r = f(*args)
    except Exception as e:
        return 'raised ' + type(e).__name__
    out = repr(c24.strip(r, spec.get('text', True)))
    if not spec.get('text', True):
        # compound units are named after their rendering
        out = re.sub('[%s]+' % SUP, lambda m: '**' + ''.join(str(SUP.index(c)) for c in m.group()), out)
    return out


if 'ops' in spec['modes']:
    for s in spec['seeds']:
        kind, f, args = c23.build(s)
        if kind in spec.get('skip', ()) or c24.hash_dependent(f):
            continue
        log['op %s %s' % (kind, s)] = snapshot(f, args)
if 'battery' in spec['modes']:
    for name, f in c24.battery():
        log['refused ' + name] = snapshot(f, ())
    for name, f in c24.accepted():
        log['accepted ' + name] = snapshot(f, ())
if 'slices' in spec['modes']:
    for prop in spec['slices']:
        check = importlib.import_module('qmon.checks.' + prop.lower())
        mon = core.Mon(prop)
        if hasattr(check, 'setup'):
            check.setup(mon)
        for fam in check.FAMILIES:
            if (prop, fam.name) in c24.NOT_SLICED:
                continue
            rng = random.Random('%s %s %s' % (prop, fam.name, spec['seed']))
            n = fam.n('quick')
            k = min(n, spec['per_family'])
            for i in sorted(rng.sample(range(n), k)):
                msg = core.run_case(check, fam, mon, spec['seed'], i)
                log['slice %s %s %d' % (prop, fam.name, i)] = 'held' if msg is None else 'violated'
                if msg is not None:
                    core.reset_library()
                    log['message %s %s %d' % (prop, fam.name, i)] = msg[:500]
json.dump({'log': log, 'flags': list(sys.flags), 'hash': hash('x'), 'reach': sorted(reach.seen)}, open(sys.argv[2], 'w'))
