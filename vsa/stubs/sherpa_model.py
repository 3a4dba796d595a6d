# Abstract semantics of sherpa.models.model as the wrappers use it (sherpa 4.x): setting an
# attribute that is a parameter sets its value, names are case insensitive, and the model
# is evaluated with the list of the values of its parameters.


class Parameter:
    def __init__(self, modelname, name, val, min=-3.40282e38, max=3.40282e38, hard_min=-3.40282e38,
                 hard_max=3.40282e38, units="", frozen=False, alwaysfrozen=False, hidden=False, aliases=None):
        if max > hard_max:
            raise ValueError("maximum above the hard maximum")
        if min < hard_min:
            raise ValueError("minimum below the hard minimum")
        self.modelname = modelname
        self.name = name
        self.fullname = modelname + "." + name
        self.val = val
        self.min = min
        self.max = max
        self.hard_min = hard_min
        self.hard_max = hard_max
        self.units = units
        self.frozen = frozen

    def freeze(self):
        self.frozen = True

    def thaw(self):
        self.frozen = False


class RegriddableModel1D:
    def __init__(self, name, pars=()):
        self.name = name
        self.pars = tuple(pars)

    def __setattr__(self, name, val):
        low = name.lower()
        for key, old in vars(self).items():
            if key.lower() == low and isinstance(old, Parameter):
                old.val = val
                return
        object.__setattr__(self, name, val)

    def __getattr__(self, name):
        low = name.lower()
        for key, old in vars(self).items():
            if key.lower() == low and isinstance(old, Parameter):
                return old
        raise AttributeError(name)

    def __call__(self, *args, **kwargs):
        return self.calc([p.val for p in self.pars], *args, **kwargs)


ArithmeticModel = RegriddableModel1D
