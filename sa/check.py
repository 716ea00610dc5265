"""python3 sa/check.py <property id>: decide one property on /repo's current tree."""
import os, sys
os.environ.setdefault('PYTHONHASHSEED', '0')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import build, api, judge, ctx
    judge.SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    if pid not in props.CHECKS:
        print('unknown property', pid)
        return 2
    c = ctx.Check(pid, tier)
    try:
        c.W = api.World()
        props.CHECKS[pid](c)
        if os.environ.get('VERIF_ONLY'):
            c.obs = [o for o in c.obs if os.environ['VERIF_ONLY'] in o.key]
        if not c.obs:
            raise api.Broken('no obligation was generated')
        return c.finish(c.run())
    except (build.BuildError, api.Broken) as e:
        print('analysis broken: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
