# Abstract semantics of gammapy.modeling.models.SpectralModel.
from gammapy.modeling import Parameter, Parameters


class SpectralModel:
    default_parameters = Parameters([])

    def __init__(self, **kwargs):
        default_parameters = self.default_parameters.copy()
        for key in kwargs.keys():
            if key not in default_parameters.names:
                raise NameError(key)
        for par in default_parameters:
            if par.name in kwargs:
                value = kwargs[par.name]
                if isinstance(value, Parameter):
                    par = value
                else:
                    par.quantity = value
            setattr(self, par.name, par)

    @property
    def parameters(self):
        return Parameters([getattr(self, name) for name in self.default_parameters.names])

    def __call__(self, energy):
        kwargs = {par.name: par.quantity for par in self.parameters}
        return self.evaluate(energy, **kwargs)
