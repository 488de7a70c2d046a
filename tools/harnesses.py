import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# which sources of /repo each harness is built from
DB_UNITY = dict(globs=['src/**/*.cpp'], exclude=['arrow', 'parquet'], groups=20, solo=['src/jogasaki/' + f for f in (
    'api/kvsservice/serializer.cpp', 'executor/function/builtin_scalar_functions.cpp', 'executor/process/impl/ops/find.cpp',
    'executor/process/impl/ops/operator_builder.cpp', 'utils/decimal.cpp', 'utils/sanitize_utf8.cpp')])
def db(name, **kw):
    # the whole engine over the simulated store, scheduler and server interfaces
    return dict(dict(harness=['harness/%s.cpp' % name], standin=True, protos=True, unity=DB_UNITY, inc=['include', 'src', 'mock'],
        real=['src/**/*.cpp and their headers (all of the engine except the arrow/parquet writers)'],
        stubs=['sharksfin/shirakami/limestone (simulated store with log, epochs and crashes)', 'SQL compiler and planner (stand-in parser producing takatori/yugawara plan objects)', 'tateyama task scheduler (simulated threads)', 'server requests, responses and data channels'],
        cflags=['-DENABLE_ALTIMETER', '-DJOGASAKI_SIM', '-include', '/verif/standin/impl/stacktrace.h'.replace('/verif', VERIF)],
        vsrc=['standin/src/sharksfin.cpp', 'standin/src/sql.cpp'],
        libs=['-Wl,--unresolved-symbols=ignore-all', '-lgrpc++', '-lgrpc', '-lgpr', '-lprotobuf', '-lglog', '-ltbb', '-lnuma', '-lboost_container', '-lboost_thread', '-licuuc']), **kw)
H = {
    'dbload': dict(db('dbload'), vsrc=['standin/src/sharksfin.cpp', 'standin/src/sql.cpp', 'standin/src/files.cpp'], libs=db('dbload')['libs'] + ['-lboost_filesystem']),
    'dbtx': db('dbtx'), 'dbkvs': db('dbkvs'), 'dbddl': db('dbddl'), 'dbreq': db('dbreq'), 'dbquery': db('dbquery'),
    'sync': dict(harness=['harness/sync.cpp'], sources=['src/jogasaki/utils/latch.cpp', 'src/jogasaki/utils/use_counter.cpp', 'src/jogasaki/utils/watch.cpp'],
        libs=['-lboost_thread']),
    'udf_stream': dict(harness=['harness/udf_stream.cpp'],
        sources=['src/jogasaki/udf/generic_record_impl.cpp', 'src/jogasaki/udf/error_info.cpp'],
        libs=['-lgrpc++', '-lgrpc', '-lgpr', '-lprotobuf', '-lglog']),
    'pages': dict(harness=['harness/pages.cpp'], standin=True,
        sources=['src/jogasaki/memory/page_pool.cpp', 'src/jogasaki/memory/fifo_paged_memory_resource.cpp', 'src/jogasaki/memory/lifo_paged_memory_resource.cpp',
            'src/jogasaki/memory/monotonic_paged_memory_resource.cpp', 'src/jogasaki/memory/details/page_allocation_info.cpp', 'src/jogasaki/accessor/text.cpp'],
        libs=['-lglog', '-ltbb', '-lnuma', '-lboost_container']),
    'udf_load': dict(harness=['harness/udf_load.cpp'], standin=True,
        sources=['src/jogasaki/udf/udf_loader.cpp', 'src/jogasaki/udf/udf_config.cpp', 'src/jogasaki/udf/error_info.cpp', 'src/jogasaki/udf/descriptor/descriptor_analyzer.cpp', 'src/jogasaki/udf/descriptor/descriptor_reader.cpp',
            'src/jogasaki/udf/descriptor/validation/message_duplicate_validator.cpp', 'src/jogasaki/udf/descriptor/validation/rpc_duplicate_validator.cpp', 'src/jogasaki/udf/generic_client_context.cpp'],
        flags={'src/jogasaki/udf/udf_loader.cpp': ['-Ddlopen=vh_dlopen', '-Ddlsym=vh_dlsym', '-Ddlclose=vh_dlclose', '-Ddlerror=vh_dlerror']},
        stubs=['dlopen/dlsym/dlclose (simulated plugin libraries)', 'gRPC channel creation'],
        libs=['-lgrpc++', '-lgrpc', '-lgpr', '-lprotobuf', '-lglog']),
}
