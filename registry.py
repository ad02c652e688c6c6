"""Which harnesses decide which property, on which builds."""
FF = ['-DHAVE_FFTW3_H']
CONFIGS = {
 'nc3':    dict(defs=FF, libs=['-lfftw3']),
 'nc2':    dict(defs=FF + ['-DNC=2'], libs=['-lfftw3']),
 'nc4':    dict(defs=['-DNC=4'], libs=[]),
 'nc5nd3': dict(defs=FF + ['-DNC=5', '-DND=3'], libs=['-lfftw3']),
 'nc4gsl': dict(defs=FF + ['-DHAVE_GSL', '-DNC=4'], libs=['-lfftw3', '-lgsl', '-lgslcblas']),
 # other numbers of colours and dimensions (the code is generic in both)
 'nc3nd3': dict(defs=FF + ['-DND=3'], libs=['-lfftw3']),
 'nc2nd5': dict(defs=FF + ['-DNC=2', '-DND=5'], libs=['-lfftw3']),
 'nc3nd5': dict(defs=FF + ['-DND=5'], libs=['-lfftw3']),
 'nc2nd2': dict(defs=FF + ['-DNC=2', '-DND=2'], libs=['-lfftw3']),
 'nc3nd2': dict(defs=FF + ['-DND=2'], libs=['-lfftw3']),
 'nc6':    dict(defs=FF + ['-DNC=6'], libs=['-lfftw3']),
 'nc7nd3': dict(defs=FF + ['-DNC=7', '-DND=3'], libs=['-lfftw3']),
 # momentum lists and FFT plans kept in files (configure --enable-notcondor)
 'nc3store':    dict(defs=FF + ['-DNOT_CONDOR_MODE', '-DHAVE_PREFIX="mcprefix"'], libs=['-lfftw3']),
 'nc5nd3store': dict(defs=FF + ['-DNC=5', '-DND=3', '-DNOT_CONDOR_MODE', '-DHAVE_PREFIX="mcprefix"'], libs=['-lfftw3']),
 # plain C instead of the vectorised matrix operations
 'nc3gen':    dict(defs=FF + ['-DVERIF_NO_SSE'], libs=['-lfftw3']),
 'nc2gen':    dict(defs=FF + ['-DVERIF_NO_SSE', '-DNC=2'], libs=['-lfftw3']),
 'nc4gen':    dict(defs=['-DVERIF_NO_SSE', '-DNC=4'], libs=[]),
 'nc5nd3gen': dict(defs=FF + ['-DVERIF_NO_SSE', '-DNC=5', '-DND=3'], libs=['-lfftw3']),
 # the other random generators
 'nc3kiss':   dict(defs=FF + ['-DKISS_RNG'], libs=['-lfftw3']),
 'nc3mwc1038': dict(defs=FF + ['-DMWC_1038_RNG'], libs=['-lfftw3']),
 'nc3xor':    dict(defs=FF + ['-DXOR_1024_RNG'], libs=['-lfftw3']),
 'nc3well':   dict(defs=FF + ['-DWELL_512_RNG'], libs=['-lfftw3']),
 # the other gauge fixing routines
 'nc3sd':   dict(defs=FF + ['-DGLU_GFIX_SD'], libs=['-lfftw3']),
 'nc3or':   dict(defs=FF + ['-DOVERRELAXED_GF'], libs=['-lfftw3']),
 'nc3lux':  dict(defs=FF + ['-DLUXURY_GAUGE=3'], libs=['-lfftw3']),
 'nc3exp':  dict(defs=FF + ['-Dexp_exact'], libs=['-lfftw3']),
 # lattice momentum without the sine
 'nc3psq':  dict(defs=FF + ['-DPSQ_MOM'], libs=['-lfftw3']),
}
ALL = ['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc4gsl']
FLAVOURS = {
 # optimised build, deterministic runtime
 'fast': dict(lib=['-O2', '-g'], har=['-O2', '-g', '-Wall'], rt=['-O2', '-g', '-Wall'], link=[]),
 # every memory access reported to the runtime
 'tsan': dict(lib=['-O1', '-g', '-fsanitize=thread', '-fno-builtin-memcpy', '-fno-builtin-memset', '-fno-builtin-memmove'],
              har=['-O1', '-g', '-Wall'], rt=['-O2', '-g', '-Wall'], link=['-no-pie'], tsan=True),
 # memory errors
 'asan': dict(lib=['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'],
              har=['-O1', '-g', '-Wall', '-fsanitize=address'], rt=['-O1', '-g', '-Wall'], link=['-fsanitize=address']),
}
NOT_APPLICABLE = {}
CHECKS = {}
import glob as _g, os as _o, importlib.util as _u
for _f in sorted(_g.glob(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'checks', 'c*.py'))):
    _s = _u.spec_from_file_location(_o.path.basename(_f)[:-3], _f); _m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
    CHECKS[_m.PROP] = _m.CHECK
