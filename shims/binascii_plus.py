""" Stand-in for the historical binascii_plus helper module """
from binascii import *
from binascii import a2b_hex, b2a_hex


def a2b_p(s):
    """ hex with white space -> octets """
    return a2b_hex(''.join(s.split()))


def b2a_p(b, frnt='         ', length=16):
    return frnt + b2a_hex(b)


def b2a_pter(b, frnt='         ', length=16):
    return frnt + b2a_hex(b)
