# Abstract semantics of gammapy.modeling as the wrappers use it (gammapy 2.x):
# a parameter carries a value in its unit, `quantity` is their product; models copy
# the default parameters and pass the quantities by name to `evaluate`.
import astropy.units as u


class Parameter:
    def __init__(self, name, value, unit="", scale=1, min=None, max=None, frozen=False, error=0):
        self.name = name
        if isinstance(value, u.Quantity):
            self.value = value.value
            self.unit = value.unit
        else:
            self.value = value
            self.unit = u.Unit(unit)
        self.scale = scale
        self.min = min
        self.max = max
        self.frozen = frozen
        self.error = error

    @property
    def quantity(self):
        return self.value * self.unit

    @quantity.setter
    def quantity(self, val):
        self.value = val.value
        self.unit = val.unit

    def copy(self):
        return Parameter(self.name, self.value, self.unit, self.scale, self.min, self.max, self.frozen, self.error)


class Parameters:
    def __init__(self, parameters=None):
        self._parameters = [] if parameters is None else list(parameters)

    @property
    def names(self):
        return [par.name for par in self._parameters]

    @property
    def value(self):
        return [par.value for par in self._parameters]

    def index(self, val):
        if isinstance(val, int):
            return val
        if isinstance(val, str):
            for idx, par in enumerate(self._parameters):
                if val == par.name:
                    return idx
            raise IndexError(val)
        if val in self._parameters:
            return self._parameters.index(val)
        raise IndexError(val)

    def __getitem__(self, key):
        return self._parameters[self.index(key)]

    def __iter__(self):
        return iter(self._parameters)

    def __len__(self):
        return len(self._parameters)

    def copy(self):
        return Parameters([par.copy() for par in self._parameters])

    def select(self, name=None, type=None, frozen=None):
        out = []
        for par in self._parameters:
            if name is not None:
                if isinstance(name, str):
                    if par.name != name:
                        continue
                elif par.name not in name:
                    continue
            if frozen is not None and par.frozen != frozen:
                continue
            out.append(par)
        return Parameters(out)
