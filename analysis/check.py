#!/usr/bin/env python3
"""usage: check.py C01   -- decide one property on the current source of /repo"""
import importlib
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

WHERE = {}
for mod, ids in (('tables', 'C01 C02 C03 C04 C05 C07 C08'), ('algebra', 'C06 C09 C10 C18 C26 C28 C33'),
                 ('reduce', 'C11 C12 C13 C14 C15 C19 C20'), ('group', 'C16 C31'),
                 ('query', 'C17 C29 C32'), ('flow', 'C24 C25 C27'), ('standard', 'C38'), ('reduce', 'C39'), ('discipline', 'C21 C22 C23 C30')):
    for i in ids.split():
        WHERE[i] = mod


def main():
    pid = sys.argv[1]
    if pid == 'setup':
        common.load()
        print('driver and dependencies built')
        return 0
    prog = common.load()
    m = importlib.import_module('checks_' + WHERE[pid])
    try:
        return getattr(m, pid.lower())(prog)
    except Exception as e:      # the analysis met something it has no model for: what it established so far stands
        traceback.print_exc()
        ck = common.Check.last or common.Check(pid)
        ck.ob('analysis', None, pid, 'analysis stopped: %r' % (e,))
        return ck.finish('other', 'analysis stopped before its end', ['analysis engine'], explanation='the analysis stopped at a construct it has no model for')


if __name__ == '__main__':
    rc = []

    def go():
        try:
            rc.append(main())
        except common.SetupError as e:
            print('SETUP-ERROR', e)
            rc.append(3)
    # deep terms need a deep stack
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(float(os.environ.get('VERIF_LIMIT_S', 660)))
    if t.is_alive():            # what was established so far stands
        ck = common.Check.last or common.Check(sys.argv[1])
        ck.ob('analysis', None, sys.argv[1], 'analysis stopped: time limit')
        code = ck.finish('other', 'analysis stopped at its time limit', ['analysis engine'], explanation='the analysis did not end within its time limit')
        sys.stdout.flush()
        os._exit(code)
    sys.exit(rc[0] if rc else 4)
