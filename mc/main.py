import os, sys
from mc import core


def main():
    a = sys.argv[1:]
    prop = a[0]
    if prop == '--selftest':
        import frm, mc.ref.dates, mc.ref.sched, mc.ref.legs, mc.ref.curves  # noqa: everything needed is importable
        print('ok')
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    rest = a[1:]
    while rest:
        x = rest.pop(0)
        if x in ('quick', 'thorough'):
            tier = x
        elif x == '--replay':
            replay = rest.pop(0)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    rc = core.run(prop, tier, replay)
    sys.stdout.flush()
    os._exit(rc)


main()
