SPECS = {p: (m, p) for m, ps in {
    'project': ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P08', 'P09'),
    'files': ('P07', 'P14', 'P34'),
    'docs': ('P10', 'P11', 'P12', 'P13'),
    'imports': ('P15', 'P16', 'P17'),
    'conv': ('P21', 'P22', 'P23', 'P24'),
    'ui': ('P31',),
    'notes': ('P19', 'P30'),
    'misc': ('P26', 'P27', 'P28', 'P29'),
    'history': ('P35',),
    'model': ('P18', 'P20', 'P25', 'P32', 'P33'),
}.items() for p in ps}
