class PoissonTOM(object):
    def __init__(self, time_span):
        self.time_span = time_span

    def __hash__(self):
        return 9
