#!/usr/bin/env python3
""" writes properties.jsonl and MANIFEST.json from the one table below """
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP, SIV, CMAC, ENC, CC = ('cipher/' + f for f in ('chacha_poly.py', 'aes_siv.py', 'aes_cmac.py', 'encoding.py', 'common.py'))
ECC, EC, CUR, NT = ('ecc/' + f for f in ('ecc.py', 'ellipticcurve.py', 'curves.py', 'numbertheory.py'))
GF, PR, PK, PI = ('fmath/' + f for f in ('galoisfield.py', 'prime.py', 'primes_to_5k.py', 'pi.py'))
HM, MI, MIC, PB, PRF, TK = ('hash/' + f for f in ('hmac.py', 'michael.py', 'tkip_mic.py', 'pbkdf2.py', 'prf_dot11.py', 'tkip_key_mixing.py'))
PE, SA, SN, WT = ('analysis/' + f for f in ('permutation.py', 'sbox_analysis.py', 'sbox_nonlinearity.py', 'walshtransform.py'))

T = [
 ('C01', 'ChaCha20 encryption follows RFC 8439 and decryption inverts it',
  'For every 32-octet key, 12-octet nonce, starting block counter and message, ChaCha encryption returns the message xor the RFC 8439 key '
  'stream that starts at that block, of the same length as the message. Decryption with the same key, nonce and counter returns the message. '
  'The block function and the quarter round give the RFC values for every state.',
  ['inputs'], 'all keys, nonces, counters (where the message does not pass block 2^32) and messages',
  'the tests try a handful of RFC vectors; word overflow, length classes and counter bits are sampled at a few values',
  [CP], [('ChaCha.encrypt, chacha20_block, quarter_round, initialize', CP)]),
 ('C02', 'Stream cipher objects never reuse or repeat key stream blocks',
  'Whatever sequence of encrypt and decrypt calls is made on one ChaCha object, each call uses the key stream blocks after the ones used before, '
  'starting at a whole new block, and two calls never use the same block; other live objects have no influence. A call that would take the 32-bit '
  'block counter past its end is refused before it returns any output, and so are keys, nonces and counters of a wrong size; a refused new key, nonce or counter leaves an object as it was. A nonce that was not given is '
  'random; one that was given is used as given.',
  ['histories', 'inputs'], 'all call sequences on any number of live objects, up to the last block of the counter',
  'tests encrypt once per object and never come near the end of the counter', [CP],
  [('block counter advance and limit', CP + ': ChaCha.chacha20_block, encrypt'), ('argument checks', CP + ': ChaCha.initialize')]),
 ('C03', 'Poly1305 authenticators follow RFC 8439',
  'For every 32-octet one-time key and message of any length, the Poly1305 authenticator is the 16-octet RFC 8439 value, with clamping, full reduction '
  'modulo 2^130-5 and addition modulo 2^128. The one-time key derived from a cipher key and nonce is the RFC 8439 one.',
  ['inputs'], 'all keys and messages, accumulators at the edges of the reduction included',
  'the edge values of accumulator and final addition have negligible probability in sampled tests', [CP],
  [('poly1305_mac, clamp, poly1305_key_gen', CP)]),
 ('C04', 'ChaCha20-Poly1305 sealing follows RFC 8439',
  'For every key, associated data, plaintext and nonce (fixed part followed by per-message part, 12 octets together), sealing gives the RFC 8439 ciphertext and 16-octet '
  'tag; the combined form is the per-message part, ciphertext and tag in sequence. Nonces of another total length yield no output.',
  ['inputs', 'histories'], 'all keys, nonces, associated data and plaintexts, over any sequence of messages on one object',
  'one RFC vector is tested', [CP], [('ChaCha20_AEAD.encrypt, ChaCha_Poly_AEAD.encrypt, pad16, length block', CP)]),
 ('C05', 'ChaCha20-Poly1305 opening accepts exactly what was sealed',
  'Opening a sealed message with the same key, nonce and associated data returns the plaintext. The combined form refuses, without releasing plaintext, any input in which '
  'nonce, ciphertext, tag, associated data or key differ in any bit or length; the detached form returns the tag recomputed over what was received so that the difference shows. '
  'A refusal has no effect on later calls.',
  ['inputs', 'histories'], 'all genuine and altered messages, and all sequences of openings on one object',
  'tests open one genuine message and never an altered one', [CP], [('ChaCha20_AEAD.decrypt, ChaCha_Poly_AEAD.decrypt', CP)]),
 ('C06', 'AES-CMAC follows RFC 4493 / SP 800-38B',
  'For every AES key of 16, 24 or 32 octets and message of any length the AES-CMAC is the SP 800-38B value (of another 128-bit block cipher, where one is passed as CIPH; other block sizes are refused), and the two subkeys are each 16 octets long and as specified, also when '
  'values have leading zero octets.',
  ['inputs'], 'all keys and messages', 'the four RFC messages share one key; subkeys with leading zero octets turn up once in 256 keys', [CMAC],
  [('aes_cmac, subkey, pad', CMAC)]),
 ('C07', 'AES-SIV follows RFC 5297 and opens only what was sealed',
  'For every key, plaintext and list of associated strings, SIV encryption returns the RFC 5297 synthetic IV followed by the ciphertext, and decryption with the same key and list '
  'returns the plaintext. Decryption refuses by an exception every input or list of associated strings that differs in any way, order and division included. Keys of other sizes than 32, 48 and 64 octets are refused. The list that the caller passed is left unchanged.',
  ['inputs', 'histories'], 'all keys, plaintexts, lists of associated strings and alterations',
  'two RFC vectors; carries of the counter and refusals are not tested', [SIV, CMAC, CC], [('s2v, dbl, siv_encrypt, siv_decrypt, AES_SIV', SIV)]),
 ('C08', 'Integer, octet string and base-N text conversions are exact and reversible',
  'For every non-negative integer and octet string, conversion to octets is big-endian, minimal or padded to the requested length, and converting back returns the integer; base 27, 85 and 94 '
  'encodings, and those over an alphabet of the caller, are the positional ones and decoding with the original length returns the octet string. Negative numbers, too small lengths and foreign '
  'characters are refused. Octet string xor is octet by octet.',
  ['inputs'], 'all integers, octet strings, paddings', 'tests round-trip a few values', [ENC, CC, EC, CMAC],
  [('int_to_string, string_to_int, base_N_encode, base_N_decode, xor, xor_min', ENC + ', ' + CC + ', ' + EC)]),
 ('C09', 'Weierstrass and Koblitz curves obey the group law',
  'For every pair of points of a short Weierstrass or Koblitz curve, identity, inverses, equal points and points of order 2 included, addition, subtraction, '
  'negation and doubling give the point of the textbook group law, as a point of the same curve that can be used in later operations. Points of different curves are not added.',
  ['inputs', 'configurations', 'histories'], 'all curves (published and user-defined), all pairs of points and chains of operations',
  'tests use a few multiples of one generator; identity, negatives and order 2 points are not combined', [ECC, EC], [('add_points, double_point, negate, identity', ECC), ('Point operators', EC)]),
 ('C10', 'Scalar multiplication is repeated addition for every integer',
  'On every curve of every family, multiplying any point (of any order) by any integer, whichever side it is written on, gives the sum of that many copies: zero gives the identity, '
  'negative integers the negative, and integers at or beyond the group order are as good as any. The generator times the published order is the identity.',
  ['inputs', 'configurations'], 'all points and integers on all curves', 'tests multiply the generator by a few constants',
  [ECC, EC], [('scalar_multiple of the curve families', ECC), ('Point.__mul__, __rmul__', EC)]),
 ('C11', 'Edwards and Montgomery curves obey the group law',
  'For every pair of points of a (twisted) Edwards or Montgomery curve, identity, inverses, equal and low order points included, addition, subtraction, negation '
  'and doubling give the point of the textbook group law, as a point of the same curve that can be used in later operations.',
  ['inputs', 'configurations', 'histories'], 'all complete Edwards and all Montgomery curves, all pairs of points, chains of operations',
  'tests hardly touch these families beyond n times the generator', [ECC, EC], [('TwistedEdwardsCurveFp, EdwardsCurveFp, MontgomeryCurveFp: add_points, double_point, negate, identity', ECC)]),
 ('C12', 'The Montgomery ladders return the x coordinate of the multiple',
  'For every Montgomery curve, point and integer, both x-only ladders return, reduced modulo p, the x coordinate of that multiple of the point, and 0 for the identity, in '
  'agreement with each other and with point multiplication.',
  ['inputs', 'configurations'], 'all Montgomery curves, points and integers', 'no test runs the ladders on more than one scalar', [ECC], [('montgomery_ladder, montgomery_ladder2, cswap', ECC)]),
 ('C13', 'Published curves carry their published, consistent parameters',
  'Every named curve carries the parameters published for it (field prime, coefficients, generator, order, cofactor, name, object identifier, seed, strength); the prime and the order are prime, the curve is non-singular, '
  'the generator is on the curve, is not the identity and has exactly that order, and the cofactor agrees with the size of the curve. NIST names denote the matching SEC curves and '
  'the lists of curves hold every curve of their equation.',
  ['configurations'], 'all curves the library names', 'tests compute with a few of the 40 curves', [CUR], [('curve classes and lists', CUR)]),
 ('C14', 'Point construction, equality and encoding agree with the curve',
  'A coordinate pair is accepted as a point exactly when it satisfies the curve equation modulo p, and coordinates are reduced; two points are equal exactly when they are the same '
  'group element, negation and != included. Encodings are fixed-length big-endian coordinates (leading zeros kept), and distinct points of one curve have distinct encodings.',
  ['inputs', 'configurations'], 'all coordinate pairs on all curves', 'tests construct valid points only', [EC, ECC], [('Point.__init__, __cmp__, encode, toOctets, to_octetstring', EC), ('on_curve of the families', ECC)]),
 ('C15', 'Private keys are uniform in range; key agreement and decompression work',
  'Every private key drawn lies between 1 and n-1 inclusive whatever octets the system entropy source delivers, with no value favoured, and keys drawn again differ. Two parties who multiply each '
  "other's public point by their own key get the same point of the curve. The y computed for an x coordinate satisfies the curve equation, and an x without a point is refused.",
  ['inputs', 'configurations', 'fault_sequences'], 'all published and user Weierstrass curves, all entropy, all x', 'tests draw a key or two and never look at range or spread; y from x is tried on one class of primes',
  [ECC, NT], [('new_private_key, y_from_x', ECC), ('square_root_mod_prime', NT)]),
 ('C16', 'Modular inverses, square roots and residue symbols are right',
  'For every positive modulus the inverse functions return the inverse in range for every argument (negative and large ones too) and refuse arguments without one; modular_exp is exact and refuses negative exponents. For every odd prime p, the square root functions return a '
  'root for every residue and report every non-residue as such; Legendre and Jacobi symbols have their mathematical value for every argument and odd modulus.',
  ['inputs'], 'all moduli and arguments', 'the self test covers small primes; primes of 1 mod 8 with large powers of two are not reached', [NT, GF],
  [('inverse_mod, square_root_mod_prime, modular_sqrt, legendre_symbol, jacobi', NT), ('inverse_mod, GFp.inverse', GF)]),
 ('C17', 'Divisors, factorization, totient, Carmichael function and orders are right',
  'gcd and lcm of one or more non-negative integers (as arguments, list or tuple), the prime factorization, the Euler and Carmichael functions, multiplicative orders and the largest '
  'factor prime to a number have their mathematical value for every argument. Elements without an order are refused.',
  ['inputs'], 'all positive integers (those whose factorization by trial division is feasible)', 'no repository test calls them beyond a few constants', [NT], [('gcd, lcm, factorization, phi, carmichael*, order_mod, largest_factor_relatively_prime, kinda_order_mod', NT)]),
 ('C18', 'Primality testing and prime tables are right',
  'The primality test accepts every prime and rejects every composite that has a strong-pseudoprime witness among the bases of its documented round table (so every composite below 2^64 and every Carmichael number tried), and the next '
  'prime after any number is the smallest larger one. A single Rabin-Miller or Fermat round returns what its definition says for every base. The prime tables hold all primes of their range and nothing else.',
  ['inputs'], 'all integers, at every size class of the round table', 'tests check a few primes; strong pseudoprimes to many bases are never tried', [NT, PR, PK],
  [('is_prime, next_prime, smallprimes', NT), ('rabin_miller, fermat_little_test', PR), ('primes_to_5k', PK)]),
 ('C19', 'Polynomial arithmetic modulo a monic polynomial over GF(p) is right',
  'For every prime p, monic modulus and polynomials, reduction, multiplication and exponentiation (exponent below p) return a polynomial of lower degree than the modulus that is congruent to the exact result. '
  'The polynomials passed in are left unchanged.',
  ['inputs'], 'all primes, moduli, polynomials and exponents', 'only square root extraction uses them, with degree 2 moduli', [NT], [('polynomial_reduce_mod, polynomial_multiply_mod, polynomial_exp_mod', NT)]),
 ('C20', 'GF(p) elements behave as the field with p elements',
  'For every prime p and all elements, +, -, *, /, negation, ^ and ** (negative exponents too), with elements or plain integers of any size and sign on either side, give the field result as an element of '
  'the same field; division by zero and inverting zero are refused; comparison, conversion and membership agree with the value. Operands are left unchanged.',
  ['inputs', 'histories'], 'all primes, elements, integers and expressions', 'tests evaluate a few expressions', [GF], [('GFp, Element_of_GFp', GF)]),
 ('C21', 'pi is accurate to the digits asked for',
  'The digit string is 3. followed by the first 50000 decimals of pi; the fraction for n digits differs from pi by less than 10^-n for every n up to 50000, the default is the most accurate, and '
  'more digits than available are refused.',
  ['inputs'], 'all digit counts and all digits', 'no digit beyond the first few is tested', [PI], [('pi, pi_string', PI)]),
 ('C22', 'HMAC follows RFC 2104 over every history of calls',
  'For every hash, key of any length and message, HMAC returns the RFC 2104 value, whatever was hashed with the object before and however the message is divided into updates; intermediate digests, reset and '
  're-keying have no other effect, and separate objects do not influence each other. Without a key every operation is refused.',
  ['inputs', 'histories'], 'all keys, messages and call histories; hashes of 64 and 128 octet blocks', 'tests hash once per object with RFC keys', [HM], [('HMAC.setKey, reset, update, digest', HM)]),
 ('C23', 'PBKDF2 and the 802.11 pass-phrase mapping follow their standards',
  'For every password of at most 63 octets, salt, iteration count and key size up to 10000 the derived key is the PBKDF2 one with the chosen HMAC, of the requested size; '
  'pass-phrases of 8 to 63 characters map to the 4096-iteration 32-octet key. Passwords, pass-phrases and sizes beyond the limits are refused, negative sizes too.',
  ['inputs'], 'all passwords, salts, counts and sizes', 'five known answers', [PB], [('pbkdf2, dot11PassPhraseToPSK', PB)]),
 ('C24', 'The 802.11 PRF is exact for every output size',
  'For every key, label and data the 802.11 PRF returns exactly the requested number of octets of the concatenated HMAC-SHA1 blocks, for every bit count that is a multiple of eight up to the block counter limit; the named sizes '
  'agree with it; other bit counts, negative ones included, are refused.',
  ['inputs'], 'all keys, labels, data and sizes', 'three known answers', [PRF], [('PRF and PRF_n', PRF)]),
 ('C25', 'Michael and the TKIP MIC are right for every key and message',
  'For every 8-octet key and message of any length, Michael returns the 802.11 MIC under the key set last; the TKIP MIC is Michael over destination, source, priority and padding, and data (without the priority word in version D2). '
  'Keys, addresses and priorities of a wrong size, unknown versions and the unsupported incremental calls are refused.',
  ['inputs', 'histories'], 'all keys, messages, addresses, priorities, versions and re-keyings', 'a few known answers', [MI, MIC], [('Michael.hash, b, setKey', MI), ('TKIP_MIC.hash', MIC)]),
 ('C26', 'TKIP key mixing depends only on key, address and counter',
  'After any sequence of setting keys, transmitter addresses and packet counters and of producing keys, the next mixed key is the 802.11 one for the temporal key and address set last and the counter given; '
  'mixers do not influence each other. Before key and address are set, and for wrong sizes, it is refused.',
  ['histories', 'inputs'], 'all histories of one or several mixers, all keys, addresses, counters', 'tests make one or two keys per mixer', [TK], [('TKIP_Mixer caching of phase 1, phase1KeyMixing, phase2KeyMixing', TK)]),
 ('C27', 'Walsh transforms and nonlinearity are exact',
  'For every Boolean function given as a table of 2^n bits, the Walsh transform and nonlinearity have their mathematical values in both modules; for every S-box of 2^n entries the minimum and maximum nonlinearity over '
  'all its non-zero component functions are returned. Tables whose length is no power of two are refused and tables passed in are left unchanged.',
  ['inputs'], 'all Boolean functions and S-boxes (to 8 variables, S-boxes to 7 or 8 bits)', 'no repository test', [SN, WT], [('walshTransform, nonLinearity, sboxNonlinearity', SN + ', ' + WT)]),
 ('C28', 'Permutation analysis returns the cycle decomposition',
  'For every permutation, the orbit map holds each cycle exactly once, in order, under its smallest element, every element is in exactly one cycle, and the list of starts and lengths agrees with it; both analysis modules agree. '
  'The built-in AES and SMS4 tables are the standard S-boxes.',
  ['inputs'], 'all permutations', 'no repository test', [PE, SA], [('map_orbits_of_permutation, orbit_start_and_length', PE + ', ' + SA)]),
 ('C29', 'Separate objects and calls do not influence each other',
  'The result of a call depends only on its arguments and on the earlier calls made on the same object: work with other objects, classes, curves, fields or functions of the library, interleaved call by '
  'call or running at the same time in other threads, never changes it. Lists passed as arguments are left unchanged.',
  ['schedules', 'histories'], 'all interleavings of independent uses of the library in one process, on one or several threads',
  'tests run one thing at a time, mostly each in a fresh object', [CP, SIV, CMAC, ECC, EC, NT, GF, HM, MI, TK, PE, WT, SN],
  [('no module-level or class-level mutable state in the calculations', 'all modules')]),
]

NOTES = {
 'C06': 'AES comes from the JVM in place of the missing PyCrypto', 'C07': 'AES comes from the JVM in place of the missing PyCrypto',
 'C15': 'uniformity is judged statistically with 7 sigma bounds and by answering entropy requests with chosen octets',
 'C22': 'the hash base classes the code imports are not in the repository: stand-ins over the platform hashes',
 'C18': 'a composite that passes every base of the documented table is outside the claim',
 'C29': 'a deviation counts only if the same history is right when run alone in a fresh process',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for id, title, st, over, text, why, files, mech in T:
            assert len(title) <= 80, title
            assert st.count('. ') <= 3, id
            f.write(json.dumps({'id': id, 'title': title, 'statement': ' '.join(st.split()),
                                'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                            'observe_at': ['results and exceptions of public calls, and the arguments after the call'],
                                            'hook_needed': None}}) + '\n')
    checks = []
    for id, title, *_ in T:
        note = ('held on the recorded executions only (counts in the evidence file); trusts the independent oracle in mon/oracle, the Jython 2.7 '
                'runtime and the import stand-ins in shims')
        if id in NOTES:
            note += '; ' + NOTES[id]
        checks.append({'property': id, 'quick_cmd': 'python3 -B check.py ' + id,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 -B check.py ' + id,
                       'technique': 'runtime monitoring: recorded call histories judged by an independent oracle' +
                       (' under interleaving and threads' if id == 'C29' else ''),
                       'level': 'exploration', 'level_note': note})
    json.dump({'version': 1, 'setup_cmd': 'python3 -B -m mon.oracle.selftest', 'checks': checks, 'not_applicable': [],
               'notes': 'check.py --replay FILE runs a recorded violation again'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
