"""Runs a driver module over a list of cases: base.py <driver> <in.json> <out.json>."""
import importlib, json, os, signal, sys, traceback


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def main():
    mod = importlib.import_module('d_' + sys.argv[1])
    cases = json.load(open(sys.argv[2]))
    limit = int(os.environ.get('VERIF_CASE_TIMEOUT', '30'))
    signal.signal(signal.SIGALRM, on_alarm)
    sys.setrecursionlimit(3000)
    out = []
    hangs = 0
    for c in cases:
        if hangs >= 3:
            out.append({'skipped': True, 'hang': True})
            continue
        signal.alarm(limit)
        try:
            r = mod.run(c)
        except Hang:
            r = {'hang': True}
            hangs += 1
        except Exception:
            r = {'crash': traceback.format_exc()}
        finally:
            signal.alarm(0)
        out.append(r)
    json.dump(out, open(sys.argv[3], 'w'))


main()
