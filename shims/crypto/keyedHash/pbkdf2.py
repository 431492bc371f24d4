import cryptopy.hash.pbkdf2 as _m
globals().update(dict((k, v) for k, v in vars(_m).items() if not k.startswith('__')))
