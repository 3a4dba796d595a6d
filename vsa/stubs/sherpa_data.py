# Abstract semantics of sherpa.data.Data1D: the arrays it is given and the range noticed.


class Data1D:
    def __init__(self, name, x, y, staterror=None, syserror=None):
        self.name = name
        self.x = x
        self.y = y
        self.staterror = staterror
        self.syserror = syserror
        self.noticed = None

    def notice(self, xlo=None, xhi=None, ignore=False):
        self.noticed = None if ignore else (xlo, xhi)
        self.ignored = (xlo, xhi) if ignore else None

    def ignore(self, xlo=None, xhi=None):
        self.ignored = (xlo, xhi)
