"""The documented choice of coordinates for the interpolation of VII tie points."""


def cartesian(longitude, latitude, threshold):
    high = latitude.max() > threshold or latitude.min() < -threshold
    wide = longitude.max() - longitude.min() > 180
    return high or wide
