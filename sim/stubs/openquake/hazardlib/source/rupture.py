class Rupture(object):
    def __init__(self, mag, rake, tectonic_region_type, hypocenter, surface, source_typology):
        self.mag, self.rake = mag, rake
        self.tectonic_region_type = tectonic_region_type
        self.hypocenter, self.surface = hypocenter, surface
        self.source_typology = source_typology

    def __hash__(self):
        return 10
