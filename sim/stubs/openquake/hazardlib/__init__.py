from openquake.hazardlib import geo, mfd, pmf, scalerel, tom, source, gsim
