import hashlib
# blocks with a word of 0 or ffffffff after the rounds (x) or in the output (o), found by search: (seed, counter, word, which)
# key word i = i * 9e3779b9 + seed, nonce words = seed, 7, ffffffff - seed
EDGE_BLOCKS = [
    (1, 70214128, 4, 'xf'),
    (1, 315696949, 8, 'x0'),
    (1, 322562863, 3, 'of'),
    (1, 351964338, 15, 'x0'),
    (1, 424505600, 2, 'xf'),
    (1, 447155400, 2, 'x0'),
    (1, 573460643, 6, 'xf'),
    (1, 720886601, 11, 'xf'),
    (1, 756656208, 7, 'of'),
    (1, 992283039, 3, 'xf'),
    (2, 8746630, 12, 'of'),
    (2, 111773393, 6, 'of'),
    (2, 130471574, 11, 'o0'),
    (2, 207003979, 4, 'x0'),
    (2, 227293229, 4, 'of'),
    (2, 230276366, 14, 'x0'),
    (2, 331240883, 7, 'x0'),
    (2, 340248581, 11, 'of'),
    (2, 404389196, 1, 'of'),
    (2, 494299901, 3, 'of'),
    (2, 570902223, 3, 'xf'),
    (2, 621898841, 6, 'of'),
    (2, 727634307, 14, 'of'),
    (2, 745742545, 0, 'x0'),
    (2, 870072770, 10, 'x0'),
    (2, 909236568, 8, 'o0'),
    (3, 23054286, 12, 'o0'),
    (3, 28063845, 3, 'of'),
    (3, 87040488, 2, 'x0'),
    (3, 165876761, 10, 'xf'),
    (3, 253388552, 12, 'xf'),
    (3, 254749688, 1, 'x0'),
    (3, 270339982, 3, 'xf'),
    (3, 292883731, 1, 'x0'),
    (3, 357662149, 12, 'x0'),
    (3, 453225297, 12, 'xf'),
    (3, 501081126, 5, 'of'),
    (3, 551197488, 8, 'x0'),
    (3, 584868481, 10, 'o0'),
    (3, 846984906, 3, 'xf'),
    (3, 929590369, 1, 'o0'),
]


def edge_block(seed, counter):
    w = [(i * 0x9e3779b9 + seed) & 0xffffffff for i in range(4, 12)]
    n = [seed, 7, 0xffffffff - seed]
    return b''.join(x.to_bytes(4, 'little') for x in w), counter, b''.join(x.to_bytes(4, 'little') for x in n)


# TKIP key mixing: numbers n for which sum number k (40 of phase 1, 13 of phase 2) is 65535 or 65536, found by search
TKIP = [
    41062, 4294977458, 8589958630, 57799, 4295161343, 8590124198, 89203, 4295079746, 8589939601, 33639, 4295006577, 8590072931,
    51149, 4295005768, 8590020299, 25588, 4295026805, 8589980891, 11881, 4295094478, 8590010351, 169758, 4294996549, 8589935731,
    106826, 4295108139, 8590087557, 5882, 4295013204, 8589987732, 150485, 4295114561, 8589975435, 184927, 4295072034, 8589972369,
    42807, 4295046065, 8589953902, 11894, 4295056663, 8589990608, 10831, 4295061862, 8589969994, 47641, 4294981356, 8589946979,
    15208, 4294989535, 8589947724, 48442, 4295131444, 8590143508, 24322, 4295063111, 8590002688, 45396, 4295015784, 8589943701,
    45770, 4295269116, 8589941882, 41571, 4295046722, 8589970074, 90877, 4295058539, 8589943341, 270322, 4295215948, 8590085329,
    68744, 4294995054, 8590037995, 392314, 4294982861, 8589939972, 19022, 4295111602, 8589935804, 55044, 4294986699, 8590125643,
    7184, 4294984263, 8589954915, 71279, 4295036555, 8589950455, 104455, 4294972211, 8589955622, 215557, 4295016573, 8589950256,
    17802, 4295001757, 8589978894, 13663, 4295023632, 8589947078, 88734, 4294967828, 8590019231, 6214, 4295023328, 8590072461,
    26993, 4295042792, 8590050565, 1637, 4294997149, 8589965239, 258726, 4295098939, 8589980074, 75254, 4295014035, 8589963632,
    196623, 4294980972, 8589965721, 73700, 4294999505, 8590101774, 103717, 4295036710, 8589943489, 13705, 4294981742, 8589975516,
    108456, 4295090425, 8590178401, 34344, 4295026289, 8589981152, 121721, 4295030261, 8590007860, 53023, 4294977830, 8589952370,
    239534, 4295062911, 8590052453, 113331, 4295007020, 8589951626, 47079, 4295045994, 8589986407, 7909, 4295194350, 8590105848,
    92664, 4295031489, 8589935185, 277261, 4295056573, 8589944741, 51779, 4295014040, 8590022748, 14072, 4295077454, 8590000319,
    127920, 4295025646, 8589935576, 13809, 4295127622, 8590065169, 67078, 4294976086, 8589943830, 1537, 4295005140, 8589951704,
    21025, 4295084272, 8589941765, 46232, 4295010928, 8590040671, 81636, 4294972124, 8589987730, 18856, 4295003471, 8589969773,
    1079, 4295100689, 8590105577, 138298, 4295007184, 8589959996, 88559, 4294968642, 8589972166, 56027, 4295119250, 8589946013,
    82961, 4295003406, 8589938844, 3535, 4295061197, 8589935271, 141839, 4295091962, 8589976638, 35694, 4295072082, 8589969611,
    10481, 4295033764, 8589939105, 24905, 4295096857, 8589998999, 25116, 4295016573, 8589946821, 11454, 4294983289, 8590004041,
    81151, 4295023569, 8590087412, 34129, 4295080433, 8589938518, 83918, 4294993673, 8589990658, 4885, 4295025357, 8589979242,
    30418, 4294986617, 8589958683, 18638, 4295049155, 8589984758, 285143, 4295078063, 8589973997, 92940, 4295032007, 8589964922,
    37286, 4294982493, 8589938059, 442, 4295039991, 8589959592, 12733, 4295008914, 8590014048, 82254, 4295027113, 8590104754,
    1403, 4294981393, 8589943758, 59774, 4295087787, 8590036547, 160044, 4294991178, 8589973350, 27681, 4295025483, 8589964008,
    87067, 4295093066, 8589990717, 78904, 4294971856, 8590053200, 82155, 4295005963, 8590036925, 30105, 4295091395, 8589978255,
    19301, 4295008912, 8590001305, 20033, 4294983735, 8589990671, 10913, 4295005373, 8590010888, 72108, 4295064143, 8589936411,
    106809, 4295025426, 8589953946, 103170, 4295013841, 8590005424, 16148, 4294993097, 8589960288, 63864, 4295103766, 8589936605,
    7502, 4295248893, 8589955615, 50534, 4295011881, 8590032274,
]


def tkip(n):
    h = hashlib.sha256(b'tkip%d' % n).digest()
    return h[:16], h[16:22], h[22:28]
