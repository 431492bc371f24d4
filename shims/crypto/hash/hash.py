""" Stand-in for crypto.hash.hash.Hash (see the historical cryptopy 1.2.5) """


class Hash(object):
    def __init__(self):
        raise NotImplementedError('abstract')

    def hash(self, data, more=None):
        """ one shot, or with more=1 one of several calls """
        self.update(data)
        digest = self.digest()
        if more is None:
            self.reset()
        return digest

    def __call__(self, data, more=None):
        return self.hash(data, more)
