""" re-exports of cryptopy.hash.* """
