class Bunch(dict):
    def __init__(self, **kw):
        dict.__init__(self, kw)

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        self[k] = v
