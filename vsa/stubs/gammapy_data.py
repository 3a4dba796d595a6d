# Abstract semantics of gammapy.estimators.FluxPoints and gammapy.datasets as the loaders use
# them: norms and their errors relative to a reference spectrum are stored, the fluxes derive
# from them.
import numpy as np
import astropy.units as u


class Map:
    def __init__(self, data):
        self.data = data

    @property
    def quantity(self):
        return self.data


class EnergyMask:
    def __init__(self, energy_min=None, energy_max=None):
        self.energy_min = energy_min
        self.energy_max = energy_max


class Geom:
    def energy_mask(self, energy_min=None, energy_max=None, round_to_edge=False):
        return EnergyMask(energy_min, energy_max)


class FluxPoints:
    def __init__(self, table):
        e = table["e_ref"]
        self.energy_ref = e
        self._ref = 1 / e**2
        self.norm = Map(table["e2dnde"])
        self.norm_errn = Map(table["e2dnde_errn"])
        self.norm_errp = Map(table["e2dnde_errp"])
        self.geom = Geom()

    @classmethod
    def from_table(cls, table, sed_type=None, format=None, reference_model=None, gti=None):
        if sed_type != "e2dnde" or format != "gadf-sed":
            raise ValueError("columns do not match")
        return cls(table)

    @property
    def dnde_ref(self):
        return Map(self._ref)

    @property
    def e2dnde_ref(self):
        return Map(self._ref * self.energy_ref**2)

    @property
    def dnde(self):
        return Map(self.norm.data * self._ref)

    @property
    def dnde_errn(self):
        return Map(self.norm_errn.data * self._ref)

    @property
    def dnde_errp(self):
        return Map(self.norm_errp.data * self._ref)

    @property
    def e2dnde(self):
        return Map(self.norm.data * self._ref * self.energy_ref**2)

    @property
    def e2dnde_errn(self):
        return Map(self.norm_errn.data * self._ref * self.energy_ref**2)

    @property
    def e2dnde_errp(self):
        return Map(self.norm_errp.data * self._ref * self.energy_ref**2)


class FluxPointsDataset:
    def __init__(self, models=None, data=None, mask_fit=None, mask_safe=None, name=None):
        self.models = models
        self.data = data
        self.mask_fit = mask_fit
        self.mask_safe = mask_safe
        self.name = name


class Datasets:
    def __init__(self, datasets=None):
        self._datasets = [] if datasets is None else list(datasets)

    def append(self, dataset):
        self._datasets.append(dataset)

    def extend(self, datasets):
        self._datasets.extend(datasets)

    def __iter__(self):
        return iter(self._datasets)

    def __len__(self):
        return len(self._datasets)

    def __getitem__(self, i):
        return self._datasets[i]
