"""A stand-in for pyresample's SwathDefinition, analysed together with the code that uses it."""


class Swath:
    def __init__(self, lons, lats, xyz):
        self.lons = lons
        self.lats = lats
        self._xyz = xyz

    def get_cartesian_coords(self):
        return self._xyz
