# Abstract semantics of astropy.table.Table as the loaders use it: named columns of equal
# length, grouping by the values of a column, one sub-table per value.
import numpy as np

SOURCE = {}


class Table:
    def __init__(self, data=None):
        self._columns = {} if data is None else dict(data)
        self._groups = None

    @classmethod
    def read(cls, path, **kwargs):
        if path not in SOURCE:
            raise FileNotFoundError(path)
        return cls(SOURCE[path])

    @property
    def colnames(self):
        return list(self._columns.keys())

    def __getitem__(self, name):
        return self._columns[name]

    def __len__(self):
        for name in self._columns:
            return len(self._columns[name])
        return 0

    def group_by(self, key):
        values = self._columns[key]
        out = Table(self._columns)
        out._groups = []
        for value in sorted(set(values)):
            rows = [i for i in range(len(values)) if values[i] == value]
            sub = {}
            for name, column in self._columns.items():
                if name == "instrument":
                    sub[name] = [column[i] for i in rows]
                else:
                    sub[name] = np.array([column[i] for i in rows])
            out._groups.append(Table(sub))
        return out

    @property
    def groups(self):
        return [self] if self._groups is None else self._groups
