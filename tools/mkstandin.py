"""Forwarding headers for the libraries that are not installed here: every missing include of /repo maps to a stand-in header."""
import os, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PAT = re.compile(r'^\s*#\s*include\s*[<"]((?:takatori|yugawara|mizugaki|sharksfin|limestone|tateyama|altimeter|data_relay_grpc)/[^>"]+|decimal\.hh)[>"]', re.M)
RULES = [
    ('decimal.hh', 't_decimal.h'), ('takatori/util/stacktrace.h', 'stacktrace.h'), ('takatori/util/', 't_util.h'), ('takatori/decimal/', 't_decimal.h'), ('takatori/datetime/', 't_datetime.h'),
    ('takatori/type/', 't_type.h'), ('takatori/value/', 't_type.h'), ('takatori/', 't_plan.h'),
    ('yugawara/analyzer/', 't_plan.h'), ('yugawara/binding/', 't_plan.h'), ('yugawara/compile', 't_plan.h'), ('yugawara/serializer', 't_plan.h'),
    ('yugawara/', 'yugawara.h'), ('sharksfin/', 'sharksfin.h'), ('limestone/', 'limestone.h'),
    ('mizugaki/', 'mizugaki.h'), ('altimeter/', 'altimeter.h'), ('data_relay_grpc/', 'data_relay.h'),
    ('tateyama/utils/cache_align.h', 'ty_base.h'), ('tateyama/common.h', 'ty_base.h'), ('tateyama/logging_helper.h', 'ty_base.h'), ('tateyama/status.h', 'ty_base.h'),
    ('tateyama/task_scheduler/', 'ty_sched.h'), ('tateyama/api/server/', 'ty_server.h'), ('tateyama/', 'ty_framework.h'),
]
def generate(repo, build):
    out = os.path.join(build, 'standin'); names = set()
    for top in ('src', 'include', 'mock'):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in fs:
                if f.endswith(('.h', '.cpp', '.hpp')):
                    with open(os.path.join(d, f), encoding='utf-8', errors='replace') as h: names.update(PAT.findall(h.read()))
    for n in sorted(names):
        if n.startswith('tateyama/proto/'): continue
        to = next(t for p, t in RULES if n.startswith(p))
        text = '#pragma once\n#include "%s"\n' % os.path.join(VERIF, 'standin', 'impl', to)
        p = os.path.join(out, n)
        try:
            if open(p).read() == text: continue
        except OSError: pass
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(text); os.replace(tmp, p)
    return out
