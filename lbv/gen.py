"""Helpers for writing session families."""
from .core import Ses

class G:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.deep = tier == 'thorough'; self.seed = seed; self.out = []; self.n = {}
    def _id(self, id):
        k = self.n.get(id, 0); self.n[id] = k + 1
        return '%s.%s%s' % (self.prop, id, '' if k == 0 else '.%d' % k)
    def add(self, id, text, holes=None, **kw):
        s = Ses(self._id(id), text, holes, **kw); self.out.append(s); return s
    def prog(self, id, lines, holes=None, after=(), before=(), reply='', run='RUN', **kw):
        """Enter the lines at the prompt, RUN (replies follow), then the immediate lines in after."""
        t = ''.join(l + '\n' for l in list(before) + list(lines)) + (run + '\n' if run else '') + reply + ''.join(l + '\n' for l in after) + 'BYE\n'
        return self.add(id, t, holes, **kw)
    def file(self, id, lines, holes=None, stdin='', opts=('-q',), nl='\n', last=True, **kw):
        d = nl.join(lines) + (nl if last else '')
        return self.add(id, stdin, holes, files={'p.bas': d}, args=list(opts) + ['p.bas'], **kw)
    def imm(self, id, lines, holes=None, **kw):
        return self.add(id, ''.join(l + '\n' for l in lines) + 'BYE\n', holes, **kw)

def I(lo, hi): return ('i', lo, hi)
def H(lo, hi): return ('h', lo, hi)
def D(hi): return ('d', 0, hi)
def S(hi): return ('s', 0, hi)
def Bt(lo=32, hi=126, ex=''): return ('b', lo, hi, ex)

def num(lines, start=10, step=10): return ['%d %s' % (start + i * step, l) for i, l in enumerate(lines)]
def alpha_ex(keep):
    """exclusion string leaving only the characters in keep (of 32..126)"""
    return ''.join(chr(c) for c in range(32, 127) if chr(c) not in keep)
def pick(keep): return ('b', min(map(ord, keep)), max(map(ord, keep)), ''.join(chr(c) for c in range(min(map(ord, keep)), max(map(ord, keep)) + 1) if chr(c) not in keep))
