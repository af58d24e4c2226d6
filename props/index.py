WHERE = {}
for _m, _ids in {
    'pf': 'P01 P02 P03 P04 P05 P06 P07',
    'pf2': 'P08 P09 P10 P11',
    'mat': 'P16 P17 P18 P19 P20 P21 P43',
    'opf': 'P22 P23 P24',
    'solvers': 'P25 P26',
    'costs': 'P27 P28',
    'ext': 'P29 P30 P31 P32',
    'misc': 'P34 P35 P36',
    'out': 'P37 P38 P39 P40 P41',
    'data': 'P12 P13 P14 P15',
    'diag': 'P42',
    'conc': 'P44',
}.items():
    for _i in _ids.split():
        WHERE[_i] = _m
