"""C09: tenor strings: every spelling of a tenor cleans to one canonical form with one exact date offset; malformed ones are rejected."""
import itertools, logging
from datetime import date, timedelta
import pandas as pd
from frm.utils.tenor import clean_tenor, tenor_to_date_offset
from mc.ref.sched import add_months

logging.disable(logging.CRITICAL)
D = date
UNITS = {'d': ['d', 'day', 'days'], 'w': ['w', 'week', 'weeks'], 'm': ['m', 'mon', 'month', 'months'], 'y': ['y', 'yr', 'yrs', 'year', 'years']}
SPECIAL = {'on': ['on', 'overnight', 'o/n'], 'tn': ['tn', 't/n', 'tomorrow next', 'tom next', 'tom/next', 'tomorrow/next'], 'sp': ['sp', 'spot'],
           'sn': ['sn', 's/n', 'spot next', 'spot/next'], 'sw': ['sw', 's/w', 'spot week', 'spot/week']}
NUMS = [1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 15, 18, 20, 24, 28, 30, 31, 36, 40, 52, 60, 90, 100, 120, 180, 360, 365, 520, 999, 1000, 3650, 10958]
STARTS = [D(2023, 1, 31), D(2023, 12, 31), D(2024, 1, 30), D(2024, 2, 28), D(2024, 2, 29), D(2024, 6, 30), D(2024, 8, 31), D(2025, 2, 28), D(2025, 11, 15)]
BOUNDS = {
    'quick': 'clean: every (number from a 32-number alphabet) x (15 unit spellings) x 5 separators x 4 letter cases, 2-part year-month tenors, all special tenors x cases/separators; '
             'offset: every canonical nD nW nM nY (n<=400/60/400/50 and 24 larger ones to 100 years) and nYmM x 9 month-end/leap start dates; rejection: every string over {1,2,d,w,m,y,x,-,.} of length <= 4 outside the grammar',
    'thorough': 'as quick with every number 0..1200 and rejection strings up to length 6'}
ASSUMPTIONS = ["the offset of the spot-week tenor 'sw' is left to the implementation's own table"]
CASES = [str.lower, str.upper, str.title, str.swapcase]
SEPS = ['', ' ', '\n', ' \r\n', '\u00a0']


def units(tier):
    return [dict(kind='clean', unit=u, tier=tier) for u in UNITS] + [dict(kind='combo', tier=tier), dict(kind='special', tier=tier)] + \
           [dict(kind='offset', unit=u, tier=tier) for u in ('d', 'w', 'm', 'y', 'ym', 'special')] + [dict(kind='reject', first=c, tier=tier) for c in '12dwmyx-.']


def in_grammar(s):
    import re
    return s in SPECIAL or re.fullmatch(r'[0-9]+[dwmy]|[0-9]+y[0-9]+m', s) is not None


def run_unit(u, rec):
    big = u['tier'] != 'quick'
    nums = list(range(1, 1201)) if big else NUMS

    def clean(s, want):
        case = dict(tenor=s)
        rec.state(s)
        rec.trace()
        ok, g = rec.call('raises', case, clean_tenor, s)
        if ok:
            rec.check(g == want, 'clean', case, lambda: 'got %r want %r' % (g, want))
            ok, g2 = rec.call('raises', case, clean_tenor, g)
            if ok:
                rec.check(g2 == g, 'not_idempotent', case, lambda: 'cleaned again: %r' % g2)
            rec.outcome(g)

    k = u['kind']
    if k == 'clean':
        for n, sp, sep, cf in itertools.product(nums, UNITS[u['unit']], SEPS, CASES):
            clean(cf('%d%s%s' % (n, sep, sp)), '%d%s' % (n, u['unit']))
        rec.sample(cf('%d%s%s' % (n, sep, sp)))
    elif k == 'combo':
        for y, m, ys, ms, sep, cf in itertools.product([1, 2, 10, 25, 100], [1, 3, 6, 9, 11, 18, 120], UNITS['y'], UNITS['m'], SEPS[:2], CASES):
            clean(cf('%d%s%s%s%d%s%s' % (y, sep, ys, sep, m, sep, ms)), '%dy%dm' % (y, m))
    elif k == 'special':
        for canon, sps in SPECIAL.items():
            for sp, cf, pad in itertools.product(sps, CASES, ('', ' ', '\n')):
                clean(pad + cf(sp) + pad, canon)
    elif k == 'offset':
        def off(t, fn):
            ok, o = rec.call('raises', dict(tenor=t), tenor_to_date_offset, t)
            if not ok:
                return
            for s in STARTS:
                rec.state(t, s)
                rec.trace()
                g = (pd.Timestamp(s) + o).date()
                w = fn(s)
                rec.check(g == w, 'offset', dict(tenor=t, start=str(s)), lambda: 'got %s want %s' % (g, w))
        lim = {'d': 400, 'w': 60, 'm': 400, 'y': 50}
        un = u['unit']
        if un == 'special':
            for t, n in (('on', 1), ('tn', 2), ('sp', 0), ('sn', 1)):
                off(t, lambda s: s + timedelta(n))
        elif un == 'ym':
            for y, m in itertools.product((0, 1, 2, 5, 10, 30, 100), [*range(0, 25), 99, 100, 120]):
                off('%dy%dm' % (y, m), lambda s: add_months(s, 12 * y + m))
        else:
            far = {'d': (520, 999, 1000, 1001, 3650, 10958, 18263, 36500), 'w': (104, 156, 520, 1000, 1565, 2000), 'm': (480, 600, 999, 1000, 1200), 'y': (60, 75, 99, 100, 120)}[un]
            for n in [*range(0, lim[un] * (3 if big else 1) + 1), *far]:
                off('%d%s' % (n, un), (lambda s: s + timedelta(n * (1 if un == 'd' else 7))) if un in 'dw' else (lambda s: add_months(s, n * (1 if un == 'm' else 12))))
    else:
        L = 6 if big else 4
        for l in range(0, L):
            for rest in itertools.product('12dwmyx-.', repeat=l):
                s = u['first'] + ''.join(rest)
                if in_grammar(s):
                    continue
                rec.state(s)
                rec.step()
                try:
                    o = tenor_to_date_offset(s)
                except Exception:
                    rec.trace()
                    continue
                rec.fail('malformed_accepted', dict(tenor=s), 'malformed tenor accepted as %r' % o)
        for bad in (None, 5, 1.0, ['1m']):
            for fn in (clean_tenor, tenor_to_date_offset):
                try:
                    fn(bad)
                    rec.fail('non_string_accepted', dict(fn=fn.__name__, arg=repr(bad)), 'accepted')
                except Exception:
                    pass
