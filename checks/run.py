#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current tree"""
import importlib
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import common


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        common.Check('setup').p
        print('setup ok: %d functions' % len(common.P_.load().fns))
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    ck = common.Check(pid, tier if tier in ('quick', 'thorough') else 'quick')
    try:
        importlib.import_module(pid.lower()).run(ck)
    except common.AnalysisBroken as ex:
        print('ANALYSIS-BROKEN: %s' % ex)
        ck.ob('analysis', '-', None, 'the analysis finds its anchors', str(ex))
    except common.TimeUp:
        ck.ob('analysis', '-', None, 'the analysis comes to an end', 'out of time')
    except Exception as ex:
        traceback.print_exc()
        ck.ob('analysis', '-', None, 'the analysis interprets the code', repr(ex))
    if ck.dog:
        ck.dog.stop()
    sys.exit(ck.finish())


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def target():
        try:
            main()
            rc.append(0)
        except SystemExit as e:
            rc.append(e.code or 0)
    t = threading.Thread(target=target)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
