"""Which harnesses decide which property (consumed by ./check)."""
_W = ['-w', '-g1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern']
PROFILES = {
    'asan': {'cxx': 'clang++-18', 'flags': ['-std=c++23', '-O1', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,vptr,pointer-overflow,function', '-fno-sanitize-recover=undefined'] + _W},
    'asan1': {'cxx': 'clang++-18', 'flags': ['-std=c++23', '-O1', '-fsanitize=address'] + _W},
    'gasan': {'cxx': 'g++-14', 'flags': ['-std=c++23', '-O1', '-fsanitize=address'] + _W},
    'plain': {'cxx': 'g++-14', 'flags': ['-std=c++23', '-O1'] + _W},
    'sched': {'cxx': 'g++-14', 'flags': ['-std=c++23', '-O1'] + _W, 'libs': ['-lboost_context']},
    'tsan': {'cxx': 'g++-14', 'flags': ['-std=c++23', '-O1', '-fsanitize=thread'] + _W},
    'fuzz': {'cxx': 'clang++-18', 'flags': ['-std=c++23', '-O1', '-fsanitize=fuzzer,address', '-DPBT_LIBFUZZER'] + _W},
}

CHECKS = {}
def check(pid, *builds, assumptions=()):
    CHECKS[pid] = {'builds': list(builds), 'assumptions': list(assumptions)}
def pbt(src, profile='asan', **kw):
    return {'src': src, 'profile': profile, **kw}
def fuzz(src, props, runs=(30000, 3000000), max_time=(12, 200), companion=0, **kw):
    return {'src': src, 'profile': 'fuzz', 'kind': 'fuzz', 'props': props, 'runs': runs, 'max_time': max_time, 'companion': companion, **kw}

check('C01', pbt('c01_base64.cpp'), fuzz('c01_base64.cpp', ['decode_any', 'roundtrip'], runs=(60000, 4000000), max_time=(20, 240)))
check('C02', pbt('c02_uri_encoding.cpp'), fuzz('c02_uri_encoding.cpp', ['decode_any']))
check('C03', pbt('c03_uri_parse.cpp'), fuzz('c03_uri_parse.cpp', ['delimiter_soup', 'structured']))
check('C04', pbt('c04_uri_values.cpp'))
check('C05', pbt('c05_uri_factory.cpp'), fuzz('c05_uri_factory.cpp', ['query_map', 'rebuild_identity', 'build_parse_strict']))
def conc(src, **kw):
    """controlled-schedule build + ThreadSanitizer build of one harness"""
    return [pbt(src, 'sched', **kw), pbt(src, 'tsan', flags=['-DREAL_THREADS'], tag='tsan:')]
check('C06', *conc('c06_rwlock.cpp'))
check('C07', *conc('c07_spinwait.cpp'))
check('C08', *conc('c08_basic_setting.cpp'))
check('C09', pbt('c09_threads.cpp'), pbt('c09_threads.cpp', 'plain', flags=['-DREAL_OS'], tag='os:'))
check('C10', pbt('c10_formatting.cpp'), pbt('c10_formatting.cpp', 'gasan', tag='gcc:'))
check('C11', pbt('c11_mime.cpp'))
check('C12', pbt('c12_timing.cpp'))
check('C13', pbt('c13_topic.cpp'))
check('C14', pbt('c14_matching.cpp'))
check('C16', pbt('c16_collection.cpp'))
SER = ['-fno-sanitize=alignment,nonnull-attribute,bool,enum,null']  # the wire format is unaligned; byte-wise access is the design
check('C24', pbt('c24_iobuffer.cpp', flags=SER))
def parts(src, n, profile='asan1', flags=(), **kw):
    """one harness compiled as n translation units (in parallel)"""
    return [pbt(src, profile, flags=list(flags) + [f'-DPART={i}'], **kw) for i in range(n)]
check('C25', *parts('c25_yas.cpp', 5))
check('C26', *parts('c26_cmwlight.cpp', 5))
check('C27', *parts('c27_json.cpp', 8))
check('C28', *parts('c28_yaml.cpp', 3))
check('C29', *parts('c29_evolution.cpp', 4))
check('C30', *parts('c30_malformed.cpp', 4), *[fuzz('c30_malformed.cpp', ['mutated', 'garbage'], runs=(8000, 2000000), max_time=(5, 150), flags=[f'-DPART={i}'], companion=i) for i in range(4)])
check('C31', pbt('c31_multiarray.cpp'))
check('C17', pbt('c17_ring_model.cpp'))
check('C18', pbt('c18_disruptor.cpp', 'sched', flags=['-DPART=18']))
check('C19', pbt('c18_disruptor.cpp', 'sched', flags=['-DPART=19', '-DSTARTED_ONLY=1']))
check('C20', pbt('c18_disruptor.cpp', 'sched', flags=['-DPART=20']))
check('C33', *parts('c33_mustache.cpp', 2), fuzz('c33_mustache.cpp', ['any_template', 'engine'], flags=['-DPART=0'], companion=0))
MDP = ['-D__cpp_concepts=202002L', '-Wno-builtin-macro-redefined']  # std::expected with clang 18 and libstdc++
check('C36', pbt('c36_frames.cpp', 'asan1', flags=MDP))
check('C37', pbt('c37_broker.cpp', 'asan1', flags=MDP))
check('C42', pbt('c42_directory.cpp', 'asan1', flags=MDP))
check('C38', pbt('c38_subscriptions.cpp', 'asan1', flags=MDP))
check('C32', pbt('c32_query.cpp', 'asan1'))
check('C39', *parts('c39_worker.cpp', 2, flags=MDP), pbt('c39_threads.cpp', 'tsan', flags=['-DREAL_TIME', '-DFZ_THREADS'], tag='tsan:'))
check('C34', pbt('c34_rbac.cpp', 'asan1', flags=MDP))
check('C41', pbt('c41_files.cpp', 'asan1', flags=MDP))
check('C21', pbt('c21_settings.cpp', flags=['-DPART=0']))
check('C22', pbt('c21_settings.cpp', flags=['-DPART=1']))
check('C23', pbt('c23_settings_threads.cpp', 'sched'))
check('C15', *conc('c15_threadpool.cpp'))
check('C40', pbt('c40_client.cpp', 'sched'), pbt('c40_threads.cpp', 'tsan', flags=['-DREAL_TIME', '-DFZ_THREADS'], tag='tsan:'))
check('C35', pbt('c35_dns.cpp', 'asan1', flags=MDP + ['-DPART=0']), pbt('c35_dns.cpp', 'sched', flags=['-DPART=1']))
