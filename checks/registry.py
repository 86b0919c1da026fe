ALLF = ['scalar2', 'proto3', 'comp', 'opts', 'filelim', 'names', 'static']
cxx('C01', 'c01.cpp', ALLF)
cxx('C02', 'c02.cpp', ALLF)
cxx('C03', 'c03.cpp', ALLF)
cxx('C04', 'c04.cpp', ALLF)
cxx('C05', 'c05.cpp', ALLF)
cxx('C06', 'c06.cpp', ALLF)
cxx('C07', 'c07.cpp', ALLF)
cxx('C08', 'c08.cpp', ALLF)
cxx('C09', 'c09.cpp', ALLF)
cxx('C10', 'c10.cpp', ALLF)
cxx('C11', 'c11.cpp', ALLF, SAN + ['-O1'], own_flags=['-O2', '-g1'])
cxx('C12', 'c12.cpp', ALLF)
cxx('C13', 'c13.cpp', ALLF)
cxx('C14', 'c14.cpp', ['opts', 'filelim', 'lim_none', 'lim_option', 'lim_comment', 'lim_nanopb'])
cxx('C15', 'c15.cpp', ALLF)
cxx('C16', 'c16.cpp', [x for x in ALLF if x != 'static'] + ['tiny'])
cxx('C17', 'c17.cpp', ['scalar2', 'proto3', 'comp', 'opts', 'names'], ['-O1', '-g1', '-fsanitize=thread'], own_flags=['-O1', '-g1'])
py('C18', 'c18')
cxx('C19', 'c19.cpp', ['disp', 'names', 'comp', 'proto3'])
py('C20', 'c20')
py('C21', 'c21')
py('C22', 'c22')
py('C23', 'c23')
py('C24', 'c24')
py('C25', 'c25')
cxx('C26', 'c26.cpp', ['nums'], variants=[('std', []), ('emulation', ['-include', 'vt_emu.hpp'])])
