"""client code of the package, analysed together with it"""


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


class HasBool:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v


class Plain:
    pass


class HasBoth:
    def __init__(self, f, i):
        self.f = f
        self.i = i

    def __float__(self):
        return self.f

    def __int__(self):
        return self.i


class HasFloat:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v
