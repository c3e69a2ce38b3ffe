"""Minimum number of decided obligations per property (else: no answer)."""
FLOOR = {
    'P01': 31,
    'P02': 18,
    'P03': 24,
    'P04': 45,
    'P05': 7,
    'P06': 41,
    'P07': 14,
    'P08': 103,
    'P09': 57,
    'P10': 54,
    'P11': 32,
    'P12': 15,
    'P13': 8,
    'P14': 41,
    'P15': 576,
    'P16': 526,
    'P17': 499,
    'P18': 153,
    'P19': 37,
    'P20': 60,
    'P21': 7,
    'P22': 48,
    'P23': 7,
    'P24': 10,
    'P25': 6,
    'P26': 255,
    'P27': 90,
}
