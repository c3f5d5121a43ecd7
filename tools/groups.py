# which harness decides which property, and what it is built from
FANUC = dict(parts=['parser'], skip=['OrderAttributeParser.cpp'], opt='-O1')
GROUPS = {
    's': dict(FANUC, src=['s.cpp']),
    'm': dict(FANUC, src=['m.cpp']),
    'v': dict(FANUC, src=['v.cpp']),
    'p': dict(FANUC, src=['p.cpp']),
    't': dict(FANUC, src=['t.cpp']),
    'a': dict(FANUC, src=['a.cpp'], flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g1']),
    'd': dict(parts=['parser', 'heidenhain'], skip=['OrderAttributeParser.cpp'], opt='-O1', src=['d.cpp'], flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g1']),
    'e': dict(script='e.js'),
    'n': dict(parts=['parser', 'heidenhain', 'server'], skip=['OrderAttributeParser.cpp'], opt='-O1', src=['n.cpp'],
              mainflags=['-Dmain=nclangsrv_main'], libs=['-lboost_program_options']),
}
PROP_GROUP = {}
for g, ps in {'s': 'S01 S02 S03 S04', 'm': 'M01 M02 M03 M04', 'v': 'V01 V02 V03 V04 V05 V06', 'p': 'P01 P02 P03 P04 P05 P06 P07 P08 P10',
              'a': 'S05', 'd': 'H01', 't': 'T01 T02 T03 T04 T05 T06 T07', 'e': 'E01 E02 E03 E04 E05', 'n': 'N01 N02 N03 N04 N05 N06 N07 N08 N09 N10 N11'}.items():
    for p in ps.split():
        PROP_GROUP[p] = g
