import math


class _Angle(object):
    def __init__(self, deg):
        self.degree = deg


class SkyCoord(object):
    """Great-circle separation and position angle; enough for the configuration package"""

    def __init__(self, ra, dec):
        self.ra, self.dec = ra, dec

    def separation(self, o):
        a1, d1, a2, d2 = [math.radians(v) for v in (self.ra, self.dec, o.ra, o.dec)]
        h = math.sin((d2 - d1) / 2) ** 2 + math.cos(d1) * math.cos(d2) * math.sin((a2 - a1) / 2) ** 2
        return _Angle(math.degrees(2 * math.asin(min(1., math.sqrt(h)))))

    def position_angle(self, o):
        a1, d1, a2, d2 = [math.radians(v) for v in (self.ra, self.dec, o.ra, o.dec)]
        x = math.sin(d2) * math.cos(d1) - math.cos(d2) * math.sin(d1) * math.cos(a2 - a1)
        y = math.sin(a2 - a1) * math.cos(d2)
        return _Angle(math.degrees(math.atan2(y, x)) % 360)
