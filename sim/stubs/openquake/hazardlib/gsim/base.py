class GroundShakingIntensityModel(object):
    def __hash__(self):
        return 11
