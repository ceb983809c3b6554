TABLE = {
    'G01': ('geo', 'G01'), 'G02': ('geo', 'G02'), 'G03': ('geo', 'G03'), 'G04': ('geo', 'G04'), 'G05': ('geo', 'G05'), 'G06': ('geo', 'G06'), 'G07': ('geo', 'G07'),
    'C01': ('constr', 'C01'), 'C02': ('constr', 'C02'), 'C03': ('constr', 'C03'),
    'I01': ('inter', 'I01'), 'I02': ('inter', 'I02'), 'I03': ('inter', 'I03'), 'I05': ('inter', 'I05'), 'I06': ('inter', 'I06'),
    'O01': ('laws', 'O01'), 'O02': ('laws', 'O02'),
    'D01': ('laws', 'D01'), 'M01': ('laws', 'M01'),
    'N01': ('laws', 'N01'), 'N02': ('laws', 'N02'), 'N03': ('laws', 'N03'), 'N04': ('laws', 'N04'),
    'W01': ('laws', 'W01'), 'W02': ('laws', 'W02'),
    'B01': ('bind', 'B01'), 'B02': ('bind', 'B02'), 'B03': ('pylayer', 'B03'), 'B04': ('pylayer', 'B04'),
    'H01': ('headers', 'H01'), 'H02': ('headers', 'H02'),
    'S01': ('laws', 'S01'), 'S02': ('laws', 'S02'), 'S03': ('laws', 'S03'), 'S04': ('laws', 'S04'),
}
