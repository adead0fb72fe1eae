"""python -m sim.survey <property> <first> <count> [seed]: development aid; buckets every violation, does not stop or shrink."""
import json
import os
import shutil
import sys
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor

from . import build as build_mod
from . import core, main


def go():
    prop, first, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    base, d, key = build_mod.build()
    try:
        main.import_sut(d)
        eng = main.engine_for(prop)
        main.preload(eng)
        eng.suppressed = set()
        pids = []
        for w in range(8):
            out = '/tmp/survey.%d.%d' % (os.getpid(), w)
            pid = os.fork()
            if pid == 0:
                try:
                    with open(out, 'w') as fh:
                        for i in range(first + w, first + count, 8):
                            try:
                                plan = core.gen_plan(eng, prop, seed, i, os.environ.get('VERIF_TIER', 'quick'))
                                r = core.execute(eng, plan, timeout=eng.run_timeout)
                            except BaseException as e:
                                r = dict(violations=[], error=repr(e), counts={})
                            fh.write(json.dumps([i, r['violations'], r['error'], r['counts']]) + '\n')
                finally:
                    os._exit(0)
            pids.append((pid, out))
        b = defaultdict(list)
        from collections import Counter
        tot = Counter()
        for pid, out in pids:
            os.waitpid(pid, 0)
            for ln in open(out):
                i, vs, err, cnt = json.loads(ln)
                tot.update(cnt)
                for v in vs[:1]:
                    b[(v[0], v[1])].append((i, v[2]))
                if err:
                    b[('ERROR', err[-300:])].append((i, ''))
            os.unlink(out)
        for k in sorted(b, key=lambda k: -len(b[k])):
            print(k, len(b[k]))
            for i, dd in b[k][:4]:
                print('     run', i, dd[:230])
        if '-c' in sys.argv:
            print(dict(tot))
        print({k: v for k, v in tot.items() if k.startswith('other')})
    finally:
        shutil.rmtree(base, ignore_errors=True)


go()
