#!/usr/bin/env python3
"""Decides a property: check.py <ID> [quick|thorough]. Exit 0: it holds; 1: it does not, with a VIOLATION line."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2:3] or [os.environ.get('VERIF_TIER', 'quick')])[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import threading
    threading.stack_size(512 << 20)
    status = []

    def go():
        try:
            status.append(work(pid, tier, seed))
        except BaseException:
            traceback.print_exc()
            status.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(status[0])


def work(pid, tier, seed):
    import lib
    import extract
    logs = {}
    for config in lib.CONFIGS + ('wasm',):
        try:
            extract.dump(config)
            lib.BUILD.append(config)
        except extract.BuildError as e:
            logs[config] = e
    m = importlib.import_module(pid.lower())
    configs = [x for x in lib.CONFIGS if x in lib.BUILD]
    if not configs or pid in ('C32', 'C41') and 'wasm' in logs:
        print(logs[sorted(logs)[-1]])
        return 2
    c = lib.Check(pid)
    c.tier = tier
    c.rule = ' '.join((m.__doc__ or '').split())
    for config in configs if getattr(m, 'CONFIGS', True) else configs[:1]:
        lib.switch(config)
        c.config = config
        c.configs.append(config)
        n = len(c.obligations)
        parts(c, m, lib)
        if len(c.obligations) - n < c.floor:
            c.ob(False, 'floor', 'only %d obligations were found, fewer than the %d this property has: what it is '
                 'anchored in is gone' % (len(c.obligations) - n, c.floor))
    c.extra['configurations_not_compiling'] = sorted(logs)
    return lib.report(c, tier, seed)


def parts(c, m, lib):
    for part in m.PARTS:
        try:
            part(c)
        except lib.Missing as e:
            c.ob(False, '%s:missing' % part.__name__, 'what this property is anchored in was not found: %s' % e)
        except lib.Unsupported as e:
            c.ob(False, '%s:undecided' % part.__name__, 'the source is outside what the analysis can follow: %s' % e)
        except Exception as e:
            traceback.print_exc()
            c.ob(False, '%s:undecided' % part.__name__, 'the source is outside what the analysis can follow: %r' % e)


if __name__ == '__main__':
    main()
