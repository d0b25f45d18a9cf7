class _Degree(object):
    def __rmul__(self, v):
        return v


degree = deg = _Degree()
