# Value classes with the checks of risklib.scientific


class _Value(object):
    def key(self):
        raise NotImplementedError

    def __eq__(self, other):
        return self.__class__ is other.__class__ and self.key() == other.key()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(repr(self.key()))

    def __repr__(self):
        return '<%s %r>' % (self.__class__.__name__, self.key())


class VulnerabilityFunction(_Value):
    def __init__(self, imt, imls, mean_loss_ratios, covs=None, distribution='LN'):
        imls = list(imls)
        if imls != sorted(set(imls)) or any(x < 0 for x in imls):
            raise ValueError('The IMLs must be sorted and non-negative: %s' % imls)
        covs = list(covs) if covs is not None else [0.0] * len(imls)
        if not len(imls) == len(mean_loss_ratios) == len(covs):
            raise ValueError('different lengths')
        for lr, cov in zip(mean_loss_ratios, covs):
            if lr == 0.0 and cov > 0.0:
                raise ValueError('It is not valid to define a loss ratio = 0.0 with '
                                 'a corresponding coeff. of variation > 0.0')
        self.imt, self.imls = imt, imls
        self.mean_loss_ratios, self.covs = list(mean_loss_ratios), covs
        self.distribution_name = distribution

    def key(self):
        return (self.imt, self.imls, self.mean_loss_ratios, self.covs, self.distribution_name)


class FragilityFunctionDiscrete(_Value):
    def __init__(self, imls, poes, no_damage_limit=None):
        if len(imls) != len(poes):
            raise ValueError('different lengths: %d imls, %d poes' % (len(imls), len(poes)))
        self.imls, self.poes, self.no_damage_limit = list(imls), list(poes), no_damage_limit

    def key(self):
        return self.imls, self.poes, self.no_damage_limit


class FragilityFunctionContinuous(_Value):
    def __init__(self, mean, stddev):
        if stddev < 0:
            raise ValueError('negative stddev %s' % stddev)
        self.mean, self.stddev = mean, stddev

    def key(self):
        return self.mean, self.stddev
