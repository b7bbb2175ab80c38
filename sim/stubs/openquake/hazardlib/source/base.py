from openquake.hazardlib.source import BaseSeismicSource, SeismicSource
