"""Contracts used at call sites (the bodies are checked against them by their own properties)."""
from . import alg
from .alg import S, M, ZERO, ONE
from .interp import Loc, Ptr, LV, is_scalar, is_eig

def inverse_lu(I, st, obj, args, e, fr):
    """Tools::inverseLU(A, out, eps): out = A^-1 (entries below eps flushed to zero: rounding only)"""
    I.store(st, args[1], alg.inverse(I.load(st, args[0])))

DYN = {  # name -> (arguments that matter, order of the state, has K)
    'computeCopDynamic': 3, 'computePosDynamic': 3, 'computeVelDynamic': 3, 'computeAccDynamic': 3,
    'computeJerkDynamic': 3, 'computeOrder2PosDynamic': 2, 'computeOrder2VelDynamic': 2}

def dyn_summary(name, order):
    def h(I, st, obj, args, e, fr):
        f = I.P.fun.get(e['f']['id'])
        vals = []; out = None; N = None
        for p, a in zip(f['params'], args):
            if p['t'].get('ref') and p['t']['b'].startswith('MPCWalkgen::LinearDynamic'): out = a
            else:
                v = I.load(st, a)
                if p['t']['b'] == 'int': N = v
                vals.append(v)
        if out is None or N is None: 
            from .ir import AnalysisBroken
            raise AnalysisBroken('signature of ' + name)
        if isinstance(out, Ptr): out = I.deref(out)
        U = alg.ufm('dyn.%s.U' % name, N, N, *vals)
        if name == 'computeJerkDynamic': U = M.identity(N)
        Sx = M.zero(N, order) if name == 'computeJerkDynamic' else alg.ufm('dyn.%s.S' % name, N, order, *vals)
        K = alg.ufm('dyn.%s.K' % name, N, 1, *vals) if name == 'computeCopDynamic' else M.zero(N, 1)
        for n, v in (('U', U), ('UT', U.T), ('Uinv', alg.inverse(U)), ('UTinv', alg.inverse(U).T), ('S', Sx), ('K', K)):
            t = {'b': 'Eigen', 'e': 'Matrix', 'r': -1, 'c': 1 if n == 'K' else -1}
            I.store(st, I.member(st, out, n, t), v)
        return None
    return h

def install(I, dyn=True):
    I.summ['MPCWalkgen::Tools::inverseLU'] = inverse_lu
    if dyn:
        for n, o in DYN.items():
            I.summ[('MPCWalkgen::Tools::ConstantJerkDynamic', n)] = dyn_summary(n, o)
