"""Client program that is analysed together with the package (never executed).

It uses only the public interface.  The generic scattering functions are user-defined
classes whose phase function / Legendre coefficients are passed in as uninterpreted
functions of the angles and of one parameter.
"""

CLIENT = '''
import rt1_model
from rt1_model import RT1, volume, surface, set_lambda_backend, get_lambda_backend


class GenV(volume.VolumeScatter):
    def __init__(self, phase, coefs, ncoefs=None, a=None):
        super().__init__(ncoefs=ncoefs, a=a)
        self.gen_phase = phase
        self.gen_coefs = coefs

    @property
    def phase_function(self):
        return self.gen_phase

    @property
    def legendre_coefficients(self):
        return self.gen_coefs


class GenS(surface.SurfaceScatter):
    def __init__(self, phase, coefs, ncoefs=None, a=None):
        super().__init__(ncoefs=ncoefs, a=a)
        self.gen_phase = phase
        self.gen_coefs = coefs

    @property
    def phase_function(self):
        return self.gen_phase

    @property
    def legendre_coefficients(self):
        return self.gen_coefs


def model(backend, geom, fixed, angles, params, V, S, opts, names, attrs):
    set_lambda_backend(backend)
    R = RT1(V=GenV(*V), SRF=GenS(*S), **opts)
    for key, val in attrs.items():
        setattr(R, key, val)
    if geom == "bi":
        R.set_bistatic(**fixed)
    elif geom == "mono":
        R.set_monostatic(**fixed)
    R.set_geometry(**angles)
    return R


def m_calc(*args):
    R = model(*args)
    return R.calc(**args[4])


def m_each(*args):
    R = model(*args)
    res = []
    for name in args[8]:
        res.append(getattr(R, name)(**args[4]))
    return res


def m_fnevals(*args):
    import sympy
    *args, fns = args
    symbs = sympy.symbols("theta_0 phi_0 theta_ex phi_ex")
    funcs = [sympy.lambdify(symbs, f) for f in fns]

    def fnevals(t_0, p_0, t_ex, p_ex, *params):
        return [f(t_0, p_0, t_ex, p_ex) for f in funcs]
    args[7]["fnevals_input"] = fnevals
    return m_each(*args)


def m_steps(backend, V, S, opts, steps, names, jac):
    set_lambda_backend(backend)
    R = RT1(V=GenV(*V), SRF=GenS(*S), **opts)
    for kind, name, arg in steps:
        if kind == "set":
            setattr(R, name, arg)
        else:
            getattr(R, name)(**arg)
    if jac:
        return R.jacobian(param_list=list(names))
    res = []
    for name in names:
        res.append(getattr(R, name)())
    return res


def m_jac(*args):
    R = model(*args)
    R.update_params(**args[4])
    return R.jacobian(param_list=list(args[8]))
'''
