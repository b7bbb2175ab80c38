# The two magnitude-frequency distributions, with the formulas of hazardlib;
# every modification is recorded in .history (the oracle's view).


class BaseMFD(object):
    def __init__(self):
        self.history = []

    def __hash__(self):
        return 5

    def modify(self, modification, parameters):
        if modification not in self.MODIFICATIONS:
            raise ValueError('Modification %s is not supported by %s'
                             % (modification, type(self).__name__))
        getattr(self, 'modify_%s' % modification)(**parameters)
        self.history.append((modification, tuple(sorted(parameters.items()))))

    def get_min_max_mag(self):
        mags = [m for m, _r in self.get_annual_occurrence_rates()]
        return min(mags), max(mags)


class TruncatedGRMFD(BaseMFD):
    MODIFICATIONS = set(('increment_max_mag', 'set_max_mag', 'increment_b', 'set_ab'))

    def __init__(self, min_mag, max_mag, bin_width, a_val, b_val):
        BaseMFD.__init__(self)
        self.min_mag, self.max_mag, self.bin_width = min_mag, max_mag, bin_width
        self.a_val, self.b_val = a_val, b_val
        self.check()

    def check(self):
        if not self.bin_width > 0:
            raise ValueError('bin width %g must be positive' % self.bin_width)
        if not self.b_val > 0:
            raise ValueError('b value %g must be non-negative' % self.b_val)
        if not self.max_mag >= self.min_mag + self.bin_width:
            raise ValueError('maximum magnitude %g must be higher than minimum '
                             'magnitude %g by bin width %g at least' % (
                                 self.max_mag, self.min_mag, self.bin_width))

    def _num(self):
        lo = round(self.min_mag / self.bin_width) * self.bin_width
        hi = round(self.max_mag / self.bin_width) * self.bin_width
        if lo == hi:
            hi = lo + self.bin_width
        return lo + self.bin_width / 2., int(round((hi - lo) / self.bin_width))

    def get_annual_occurrence_rates(self):
        mag, num = self._num()
        out = []
        for i in range(num):
            m = mag + i * self.bin_width
            lo, hi = m - self.bin_width / 2., m + self.bin_width / 2.
            out.append((m, 10 ** (self.a_val - self.b_val * lo)
                        - 10 ** (self.a_val - self.b_val * hi)))
        return out

    def modify_increment_max_mag(self, value):
        self.max_mag += value
        self.check()

    def modify_set_max_mag(self, value):
        self.max_mag = value
        self.check()

    def modify_increment_b(self, value):
        self.b_val += value
        self.check()

    def modify_set_ab(self, a_val, b_val):
        self.a_val, self.b_val = a_val, b_val
        self.check()


class EvenlyDiscretizedMFD(BaseMFD):
    MODIFICATIONS = set(())

    def __init__(self, min_mag, bin_width, occurrence_rates):
        BaseMFD.__init__(self)
        self.min_mag, self.bin_width = min_mag, bin_width
        self.occurrence_rates = list(occurrence_rates)
        if not self.occurrence_rates:
            raise ValueError('at least one bin must be specified')
        if any(x < 0 for x in self.occurrence_rates):
            raise ValueError('all occurrence rates must not be negative')

    def get_annual_occurrence_rates(self):
        return [(self.min_mag + i * self.bin_width, r)
                for i, r in enumerate(self.occurrence_rates)]

    def get_min_max_mag(self):
        return self.min_mag, self.min_mag + self.bin_width * (len(self.occurrence_rates) - 1)
