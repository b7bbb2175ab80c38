class PMF(object):
    def __init__(self, data):
        self.data = list(data)
        if abs(sum(float(p) for p, _ in self.data) - 1) > 1e-9:
            raise ValueError('values do not sum to 1.0')

    def __hash__(self):
        return 6
