"""property -> units"""


def _m(*spec):
    def f():
        import importlib
        out = []
        for name, attr in zip(spec[::2], spec[1::2]):
            m = importlib.import_module('props.' + name)
            r = getattr(m, attr)
            out += r() if callable(r) else r
        return out
    return f


N = 'Every obligation of every listed function is discharged for all inputs with no bound; assumes the IR the compiler front end emits is the code that runs, and the trusted base in the evidence.'
SHM = ' The templates are verified at the instantiations in units/shm.cpp (24 cells, 11 buckets, 8-byte values).'
SYS = ' System calls are assumed contracts (any result and errno they can give, effects as POSIX states); the native stand-ins record them.'
REG = {
    'C01': dict(units=_m('c_base64', 'ENC'), note=N),
    'C02': dict(units=_m('c_base64', 'DEC'), note=N),
    'C03': dict(units=_m('c_base58', 'ENC'), note=N + ' Inputs of at most 2^30 bytes. What the conversion table means (place values, room, inverse) is proved in Lean.'),
    'C04': dict(units=_m('c_base58', 'DEC'), note=N + ' Inputs of at most 2^30 bytes. What the conversion table means (place values, room, inverse) is proved in Lean.'),
    'C05': dict(units=_m('c_url', 'ENC'), note=N),
    'C06': dict(units=_m('c_url', 'DEC'), note=N),
    'C07': dict(units=_m('c_url', 'ESC'), note=N),
    'C08': dict(units=_m('c_string', 'SEARCH'), note=N),
    'C09': dict(units=_m('c_string', 'SPN'), note=N),
    'C10': dict(units=_m('c_num', 'NUM', 'c_num', 'INET'), note=N),
    'C11': dict(units=_m('c_num', 'GMT'), note=N),
    'C12': dict(units=_m('c_shm', 'MAPP'), note=N + SHM + ' The pair-array forms of insert and erase are not under contract.'),
    'C13': dict(units=_m('c_shm', 'POOLP'), note=N + SHM),
    'C14': dict(units=_m('c_shm', 'LOCKP'), note=N + SHM + ' The SysV calls are assumed contracts; semop is atomic and SEM_UNDO undoes on death of the holder.'),
    'C15': dict(units=_m('c_sys', 'SYS1', 'c_sys', 'LOGC', 'c_sys', 'RND'), note=N + SYS),
    'C16': dict(units=_m('c_sys', 'SOCK', 'c_sys', 'XF'), note=N + SYS + ' Transfers of at most 2^31 - 1 bytes.'),
    'C17': dict(units=_m('c_sys', 'SIG', 'c_sys', 'DMN'), note=N + SYS + ' coda_signal_mask and coda_getopt_parse are not under contract.'),
    'C18': dict(units=_m('c_que', 'ALL'), note=N + ' Verified for an element type whose copies are arbitrary code that may throw; std::deque and pthread are assumed contracts, the deque content is arbitrary at every acquisition of the mutex. No claim about fairness or that a waiting thread is eventually scheduled.'),
    'C19': dict(units=_m('c_fmt', 'FMT'), note=N + ' vsnprintf is an assumed contract: the format and its arguments denote one text or cannot be converted.'),
    'C20': dict(units=_m('c_fmt', 'SPL', 'c_fmt', 'RND'), note=N + ' std::vector, std::set and what sscanf("%lu") reads at the start of a field are assumed contracts.'),
    'C21': dict(units=_m('c_map', 'ALL'), note=N + ' std::map is an assumed contract; the searches are used through their contracts (C08).'),
    'C22': dict(units=_m('c_text', 'TONES'), note=N + ' The set of letters comes from the Unicode decomposition data, not from the code.'),
    'C23': dict(units=_m('c_cache', 'ALLL'), note=N + ' Verified at coda_cache<uint64_t, val> (units/cache.cpp). std::unordered_map is an assumed contract; copying a value does not throw, the clock stands still within a call, and values, times and totals stay below 2^62. dbg() is not under contract.'),
}
NA = {
}
