"""Which binaries decide which property."""

COMMON = ['bh.cpp']


def simple(n, *sources):
    return {'binaries': [('asan', n, list(sources) + COMMON)]}


CHECKS = {
    'C01': dict(simple('c01', 'c01_logger.cpp'), props=['dispatch_history']),
    'C02': dict(simple('c01', 'c01_logger.cpp'), props=['scope_history']),
    'C03': {'binaries': [('asan', 'c03', ['c03_concurrent.cpp'] + COMMON), ('tsan', 'c03', ['c03_concurrent.cpp'] + COMMON)]},
    'C04': simple('c04', 'c04_values.cpp'),
    'C05': {'binaries': [('asan', 'c05', ['c05_async.cpp'] + COMMON), ('tsan', 'c05', ['c05_async.cpp'] + COMMON)]},
    'C06': simple('c06', 'c06_async_overflow.cpp'),
    'C07': simple('c07', 'c07_string.cpp'),
    'C08': simple('c08', 'c08_pattern.cpp'),
    'C10': dict(simple('c10', 'c10_json.cpp'), props=['json_validity']),
    'C11': dict(simple('c10', 'c10_json.cpp'), props=['json_options', 'json_routes', 'json_indices']),
    'C12': simple('c12', 'c12_tskv.cpp'),
    'C09': simple('c09', 'c09_time.cpp'),
    'C13': simple('c13', 'c13_file.cpp'),
    'C14': simple('c14', 'c14_flush.cpp'),
    'C15': simple('c15', 'c15_tcp.cpp'),
    'C16': simple('c16', 'c16_udp.cpp'),
    'C17': simple('c17', 'c17_syslog.cpp'),
    'C18': simple('c18', 'c18_console.cpp'),
    'C19': simple('c19', 'c19_config.cpp'),
    'C21': simple('c21', 'c21_facade.cpp'),
    'C22': {'binaries': [('asan', 'c22', ['c22_blocking.cpp'] + COMMON), ('tsan', 'c22', ['c22_blocking.cpp'] + COMMON)]},
    'C23': simple('c23', 'c23_view.cpp'),
    'C24': simple('c24', 'c24_spec.cpp'),
    'C20': simple('c20', 'c20_registry.cpp'),
}
