""" Stand-in for the historical 'crypto' package that cryptopy/hash was written
    against.  Only what is absent here is provided (hash base class, SHA1, MD5,
    the Rijndael S-box); crypto.common and crypto.keyedHash.* re-export the code
    of the repository under test under the names it imports them by.
"""
