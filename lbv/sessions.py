"""Session families per property."""
from .gen import G
from . import s_expr, s_ctl, s_io, s_edit, s_run, s_robust, s_more, s_hist, s_deep, s_scale, mix, lift

GEN = {}
for _m in (s_expr, s_ctl, s_io, s_edit, s_run, s_robust):
    for _k, _f in vars(_m).items():
        if len(_k) == 3 and _k[0] == 'c' and _k[1:].isdigit(): GEN[_k.upper()] = _f
CTX = {'C01': 3, 'C02': 3, 'C03': 3, 'C04': 2, 'C05': 3, 'C06': 1, 'C07': 1, 'C08': 1, 'C09': 2, 'C10': 3, 'C11': 2, 'C12': 2, 'C16': 1, 'C18': 1, 'C22': 2, 'C23': 2, 'C25': 2} # every n-th session again inside loops and subroutines
COMMON = [
    'bounds: exactly the sessions generated for this property (lbv/s_*.py), each for all values of its holes; session shape, program length and loop counts are those of the sessions; nothing is claimed for other shapes',
    'the C library is modelled (symx/libc.c and intrinsics): ASCII "C" locale, allocation always succeeds below the modelled limits, streams are the terminal, scratch files and the log; files that do not exist or lie in missing directories fail to open; write errors are not modelled',
    'floating point arithmetic is exact IEEE double in the solver or constant folding; sin, cos, tan, atan, exp, log, pow on symbolic arguments are uninterpreted functions shared by both sides (with the exact libm value on concrete arguments); number formatting is exact on concrete or finitely many values and otherwise an opaque text of the value, shared by both sides',
    'numeric holes stand for numerals converted by strtod to the chosen double; their spelling is not varied (byte holes vary spellings)',
    'rand and time return arbitrary values per call/seed, the same for equal seeds; RAND_MAX itself only among the first two draws of a seed (bounds the retry of RND)',
    'signals arrive (up to twice per session) at reads and writes of variables the SIGINT handler writes, at changes of the disposition of SIGINT and at each SIN evaluated, which covers the points where the moment of arrival makes an observable difference; sessions with signals state which moments they range over',
    'undefined behaviour of C is checked as an assertion: object bounds and lifetime, signed overflow, shifts, division, float-to-int conversion range, uninitialised reads only as far as they are branched on or printed',
    'clang -O0 IR of the sources represents the program that the repository build makes of them',
]
def generate(prop, tier, seed):
    g = G(prop, tier, seed); GEN[prop](g)
    if hasattr(s_more, prop.lower()): getattr(s_more, prop.lower())(g)
    if hasattr(s_hist, prop.lower()): getattr(s_hist, prop.lower())(g)
    if hasattr(s_deep, prop.lower()): getattr(s_deep, prop.lower())(g)
    if hasattr(s_scale, prop.lower()): getattr(s_scale, prop.lower())(g)
    mix.default(g)
    k = CTX.get(prop)
    if k: s_deep.ctx(g, k)
    for i, s in enumerate(g.out):   # some with addresses of freed blocks given to later blocks
        if i % 3 == 1 and prop not in ('C19', 'C25') and not s.opts.get('interrupt') and ('hist' in s.id or 'mix' in s.id or 'edit' in s.id): s.opts['reuse'] = 1
    for s in g.out if prop != 'C22' else (): lift.lift(s, 3 if g.deep else 2, 2 if g.deep else 1)
    if prop in FRESH: fresh(g, FRESH[prop])
    return g.out
FRESH = {'C19': 3, 'C18': 9, 'C11': 9, 'C12': 9, 'C24': 9}
def fresh(g, every):
    """The same sessions with the implementation compared to itself, where memory not yet written holds other bytes."""
    n = 0
    for s in list(g.out):
        if s.mode == 2 or s.opts.get('interrupt') or s.opts.get('nofresh'): continue
        n += 1
        if n % (1 if g.deep else every): continue
        o = {k: v for k, v in s.opts.items() if k in ('maxsteps', 'maxpaths', 'timeout', 'smt_ms', 'maxcand', 'reuse')}
        g.add('fresh-' + s.id.split('.', 1)[1], s.text, dict(s.holes), files=dict(s.files), args=list(s.args), mode=2, uninit=1, **o)
def assumptions(prop): return COMMON
