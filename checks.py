"""Which harness and which builds decide each property."""
CHECKS = {}


def add(ids, harness, variants, **kw):
    for i in ids.split():
        CHECKS[i] = dict(harness=[harness], variants=variants, **kw)


add('C01 C02', 'h_contract.cpp', ['asan', 'plain'], scale={'plain': 0.2})
add('C06 C07', 'h_contract.cpp', ['asan'])
add('C03 C04 C05', 'h_market.cpp', ['asan'])
add('C27', 'h_threads.cpp', ['tsan'], racy=40)
add('C08 C09', 'h_random.cpp', ['asan'])
add('C10', 'h_random.cpp', ['plain', 'asan'], scale={'asan': 0.03})
add('C11 C28', 'h_model.cpp', ['asan'])
add('C12 C13 C14 C26', 'h_model.cpp', ['plain'])
add('C15 C18', 'h_mc.cpp', ['asan'])
add('C16', 'h_mc.cpp', ['plain'])
add('C17', 'h_american.cpp', ['plain', 'asan'], scale={'asan': 0.05})
add('C19 C20 C21 C22', 'h_numerics.cpp', ['asan'])
add('C23 C25', 'h_fdm.cpp', ['asan'])
add('C24', 'h_fdm.cpp', ['plain'])
add('C29', 'h_system.cpp', ['asan', 'plain'], scale={'plain': 0.5})
add('C30', 'h_system.cpp', ['asan'])
add('C31', 'h_system.cpp', ['tsan'], racy=20)
add('C32', 'h_units.cpp', ['plain'])
add('C33', 'h_units.cpp', ['asan'])
add('C34', 'h_faults.cpp', ['asan'])
add('C35', 'h_growth.cpp', ['asan'])
