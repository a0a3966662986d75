"""C11: enum parsing: every accepted spelling maps to the one member it names; nothing else is accepted."""
import itertools
import numpy as np, pandas as pd
from frm.enums import utils as E

BOUNDS = {
    'quick': 'the members of all 16 enums; all 12 parsed enums x every member x {value, display name, documented aliases} x 5 letter cases x 4 paddings x {space, underscore}; number x unit grid for period frequencies (22 x 26); '
             'day rolls -5..40 as int and str; is_valid agrees with from_value on all of these and on every 1-character mutation of every canonical value',
    'thorough': 'same, with all two-character deletions/insertions over a 12 letter alphabet'}
ASSUMPTIONS = ['blank values only for enums which document a default']
CASES = [str.lower, str.upper, str.title, str.swapcase, lambda s: s]
PADS = [('', ''), (' ', ''), ('', '  '), (' ', ' ')]
PARSE = ['ZeroCurveInterpMethod', 'ZeroCurveExtrapMethod', 'PayRcv', 'BuySell', 'DayCountBasis', 'CompoundingFreq', 'PeriodFreq', 'DayRoll', 'RollConv', 'TimingConvention', 'Stub', 'ExchangeNotionals']
NO_DISPLAY = ['ZeroCurveInterpMethod', 'ZeroCurveExtrapMethod']
DEFAULTS = {'ZeroCurveInterpMethod': 'LINEAR_ON_LN_DISCOUNT', 'ZeroCurveExtrapMethod': None, 'DayCountBasis': 'ACT_ACT', 'DayRoll': 'UNADJUSTED', 'RollConv': 'MODIFIED_FOLLOWING',
            'Stub': 'DEFAULT', 'ExchangeNotionals': 'NEITHER'}
ALIAS = {
    'DayCountBasis': {'30360': '_30_360', '30e360': '_30E_360', 'actual/360': 'ACT_360', 'actual/365': 'ACT_365', 'actual/actual': 'ACT_ACT', 'act360': 'ACT_360', 'act365': 'ACT_365',
                      'actact': 'ACT_ACT', 'act/365fixed': 'ACT_365', 'actual/366': 'ACT_366', '30e360_isda': '_30E_360_ISDA', 'actual/365fixed': 'ACT_365'},
    'RollConv': {'modified_following': 'MODIFIED_FOLLOWING', 'modified following': 'MODIFIED_FOLLOWING', 'modified_preceding': 'MODIFIED_PRECEDING', 'modified preceding': 'MODIFIED_PRECEDING'},
    'PeriodFreq': {'zero coupon': 'ZERO_COUPON', 'zero_coupon': 'ZERO_COUPON', 'zc': 'ZERO_COUPON', 'zero': 'ZERO_COUPON', 'z': 'ZERO_COUPON', 'q': 'QUARTERLY', 'm': 'MONTHLY', 's': 'SEMIANNUAL',
                   'sa': 'SEMIANNUAL', 'a': 'ANNUAL', 'd': 'DAILY', 'w': 'WEEKLY', 'semi': 'SEMIANNUAL', 'semi_annual': 'SEMIANNUAL', 'annually': 'ANNUAL', 'quart': 'QUARTERLY', '28 days': '_28_DAYS', 'wk': 'WEEKLY',
                   'quarter': 'QUARTERLY', 'month': 'MONTHLY', 'year': 'ANNUAL', 'week': 'WEEKLY', 'day': 'DAILY', 'semiannually': 'SEMIANNUAL'}}
PLAIN = {'DeltaConvention': 'REGULAR_SPOT REGULAR_FORWARD PREMIUM_ADJUSTED_SPOT PREMIUM_ADJUSTED_FORWARD', 'RFRFixingCalcMethod': 'DAILY_COMPOUNDED WEIGHTED_AVERAGE SIMPLE_AVERAGE', 'TermRate': 'SIMPLE CONTINUOUS ANNUAL',
         'FXSmileInterpolationMethod': 'UNIVARIATE_SPLINE CUBIC_SPLINE HESTON_1993 HESTON_CARR_MADAN_GAUSS_KRONROD_QUADRATURE HESTON_CARR_MADAN_FFT_W_SIMPSONS HESTON_LIPTON HESTON_COSINE'}
NAMED = {'BuySell': 'BUY SELL', 'PayRcv': 'PAY RCV', 'CompoundingFreq': 'SIMPLE CONTINUOUS DAILY WEEKLY MONTHLY QUARTERLY SEMIANNUAL ANNUAL', 'DayCountBasis': '_30_360 _30E_360 _30E_360_ISDA ACT_360 ACT_365 ACT_ACT ACT_366',
         'ExchangeNotionals': 'START END BOTH NEITHER', 'PeriodFreq': 'DAILY WEEKLY _28_DAYS MONTHLY QUARTERLY SEMIANNUAL ANNUAL ZERO_COUPON', 'Stub': 'NONE SHORT LONG DEFAULT DEFINED_PER_FIRST_PERIOD_END_DATE DEFINED_PER_LAST_PERIOD_START_DATE',
         'RollConv': 'UNADJUSTED FOLLOWING PRECEDING MODIFIED_FOLLOWING MODIFIED_PRECEDING', 'DayRoll': 'UNADJUSTED EOM ' + ' '.join('_%d' % i for i in range(1, 32)), 'TimingConvention': 'IN_ARREARS IN_ADVANCE',
         'ZeroCurveExtrapMethod': 'NONE FLAT', 'ZeroCurveInterpMethod': 'LINEAR_ON_LN_DISCOUNT CUBIC_SPLINE_ON_LN_DISCOUNT CUBIC_SPLINE_ON_CCZR'}
DAYS = {'DAILY': 1, 'WEEKLY': 7, '_28_DAYS': 28}
MONTHS = {'MONTHLY': 1, 'QUARTERLY': 3, 'SEMIANNUAL': 6, 'ANNUAL': 12}
UNIT = {'d': ('d', 1), 'day': ('d', 1), 'days': ('d', 1), 'w': ('d', 7), 'wk': ('d', 7), 'week': ('d', 7), 'weeks': ('d', 7), 'm': ('m', 1), 'mo': ('m', 1), 'month': ('m', 1), 'months': ('m', 1),
        'q': ('m', 3), 'quarter': ('m', 3), 'y': ('m', 12), 'yr': ('m', 12), 'year': ('m', 12), 'years': ('m', 12), 'a': ('m', 12)}
MUST = {'1d': 'DAILY', '1day': 'DAILY', '1w': 'WEEKLY', '1wk': 'WEEKLY', '1week': 'WEEKLY', '28d': '_28_DAYS', '28day': '_28_DAYS', '28days': '_28_DAYS', '1m': 'MONTHLY', '1mo': 'MONTHLY', '1month': 'MONTHLY',
        '3m': 'QUARTERLY', '3mo': 'QUARTERLY', '3month': 'QUARTERLY', '3months': 'QUARTERLY', '6m': 'SEMIANNUAL', '6mo': 'SEMIANNUAL', '6month': 'SEMIANNUAL', '6months': 'SEMIANNUAL', '1y': 'ANNUAL',
        '1yr': 'ANNUAL', '1year': 'ANNUAL'}


def units(tier):
    return [dict(kind='accept', enum=e) for e in PARSE] + [dict(kind='mutate', enum=e, tier=tier) for e in PARSE] + [dict(kind='freq'), dict(kind='dayroll'), dict(kind='blank'), dict(kind='attrs'), dict(kind='members')]


def is_valid(rec, case, cls, v, want):
    if not hasattr(cls, 'is_valid'):
        return
    ok, g = rec.call('raises', dict(case, fn='is_valid'), cls.is_valid, v)
    if ok:
        rec.check(bool(g) == want, 'is_valid', case, lambda: 'is_valid says %s, from_value %s' % (g, 'accepts' if want else 'rejects'))


def run_unit(u, rec):
    k = u['kind']
    if k == 'accept':
        cls = getattr(E, u['enum'])
        spell = {}
        for m in cls:
            spell[str(m.value)] = m
            if u['enum'] not in NO_DISPLAY:
                spell[m.display_name] = m
        for s, n in ALIAS.get(u['enum'], {}).items():
            spell[s] = cls[n]
        for s, m in spell.items():
            forms = {s, s.replace('_', ' '), s.replace(' ', '_')} if u['enum'] != 'DayCountBasis' or '_' not in s else {s, s.replace('_', ' ')}
            for f, cf, (a, b) in itertools.product(forms, CASES, PADS):
                v = a + cf(f) + b
                case = dict(enum=u['enum'], value=v)
                rec.state(u['enum'], v)
                ok, g = rec.call('raises', case, cls.from_value, v)
                rec.trace()
                if ok:
                    rec.check(g is m, 'wrong_member', case, lambda: 'got %s want %s' % (g, m))
                    rec.outcome(str(g))
                    is_valid(rec, case, cls, v, True)
        rec.sample(dict(enum=u['enum'], value=v))
        rec.check(len({x.value for x in cls}) == len(list(cls)), 'duplicate_values', dict(enum=u['enum']), '')
        rec.check(len({x.display_name for x in cls}) == len(list(cls)), 'duplicate_display', dict(enum=u['enum']), '')
    elif k == 'mutate':
        cls = getattr(E, u['enum'])
        vals = {str(m.value): m for m in cls}
        known = set(vals) | set(ALIAS.get(u['enum'], {})) | {m.display_name.lower() for m in cls}
        pool = set()
        for s in vals:
            for i in range(len(s) + 1):
                pool.add(s[:i] + s[i + 1:])
                for c in 'x3/':
                    pool.add(s[:i] + c + s[i:])
                    pool.add(s[:i] + c + s[i + 1:])
        pool |= {'foo', 'nan', 'none_of_these', '-1', '?'}
        if u['tier'] != 'quick':
            pool |= {p[:i] + p[i + 1:] for p in list(pool) for i in range(len(p))}
        if u['enum'] in ('PeriodFreq', 'DayRoll'):      # own numeric grammars, see below
            pool = {'foo', 'nope', '?', 'monthlyy', 'annualx', 'qq', 'eomm', 'zerocoupons', 'ww'}
        for s in sorted(pool - known - {''}):
            case = dict(enum=u['enum'], value=s)
            rec.state(u['enum'], s)
            rec.step()
            try:
                g = cls.from_value(s)
                accepted = True
            except (ValueError, AttributeError):
                accepted = False
            rec.trace()
            if accepted:
                squash = lambda x: str(x).lower().replace('/', '').replace('_', '').replace(' ', '')
                rec.check(squash(s).replace('actual', 'act') in (squash(g.value), squash(g.value) + ('fixed' if u['enum'] == 'DayCountBasis' else '')), 'misparsed', case, lambda: 'nonsense %r parsed as %s' % (s, g))
            is_valid(rec, case, cls, s, accepted)
    elif k == 'freq':
        cls = E.PeriodFreq
        for n, (un, (kind, mult)) in itertools.product(['', 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 24, 26, 27, 28, 29, 30, 52], UNIT.items()):
            for sep in ('', ' ', '_'):
                for cf in (str.lower, str.upper):
                    s = cf('%s%s%s' % (n, sep if n != '' else '', un))
                    case = dict(enum='PeriodFreq', value=s)
                    rec.state('freq', s)
                    rec.step()
                    must = MUST.get('%s%s' % (n, un))
                    try:
                        g = cls.from_value(s)
                    except ValueError:
                        rec.check(must is None, 'rejected', case, lambda: 'documented alias of %s rejected' % must)
                        is_valid(rec, case, cls, s, False)
                        continue
                    rec.trace()
                    size = (1 if n == '' else n) * mult
                    same = (DAYS if kind == 'd' else MONTHS).get(g.name) == size
                    rec.check(same, 'wrong_frequency', case, lambda: '%r parsed as %s' % (s, g))
                    is_valid(rec, case, cls, s, True)
    elif k == 'dayroll':
        cls = E.DayRoll
        for n in range(-5, 41):
            for v in (n, str(n), ' %d ' % n, np.int64(n)):
                case = dict(enum='DayRoll', value=repr(v))
                rec.state('dayroll', repr(v))
                rec.step()
                try:
                    g = cls.from_value(v)
                except ValueError:
                    rec.check(not 1 <= n <= 31, 'rejected', case, 'day %d rejected' % n)
                    is_valid(rec, case, cls, v, False)
                    continue
                rec.trace()
                rec.check(1 <= n <= 31 and g.value == n, 'wrong_day', case, lambda: '%r parsed as %s' % (v, g))
                is_valid(rec, case, cls, v, True)
    elif k == 'members':
        import frm.enums as A
        for e, names in [*PLAIN.items(), *NAMED.items()]:
            cls = getattr(A, e)
            for n in names.split():
                rec.state(e, n)
                rec.step()
                case = dict(enum=e, member=n)
                if not rec.check(n in cls.__members__ and cls[n].name == n and [m.name for m in cls].count(n) == 1, 'member', case, 'not a member of its own'):
                    continue
                ok, g = rec.call('raises', case, cls if e in PLAIN else cls.from_value, n.lower() if e in PLAIN else n.lstrip('_') if e == 'DayRoll' else cls[n].value)
                rec.trace()
                rec.outcome(e, n)
                if ok:
                    rec.check(g is cls[n], 'wrong_member', case, lambda: 'the name reads as %s' % g)
                if e in PLAIN:
                    rec.check(cls[n].display_name.lower().replace(' ', '_') == n.lower(), 'display', case, lambda: repr(cls[n].display_name))
        T = A.TimingConvention
        rec.check(T.fixing_default() is T.IN_ADVANCE and T.payment_default() is T.IN_ARREARS and A.Stub.market_convention() is A.Stub.SHORT, 'timing_default', {}, 'fixings default in advance, payments in arrears, stubs short')
    elif k == 'blank':
        for e, d in DEFAULTS.items():
            cls = getattr(E, e)
            want = cls[d] if d else cls.default()
            for v in (None, np.nan, float('nan'), pd.NaT):
                ok, g = rec.call('raises', dict(enum=e, value=repr(v)), cls.from_value, v)
                rec.state('blank', e, repr(v))
                rec.trace()
                if ok:
                    rec.check(g is want, 'default', dict(enum=e, value=repr(v)), lambda: 'blank parsed as %s, default is %s' % (g, want))
    else:
        rec.check([m.multiplier for m in (E.PayRcv.PAY, E.PayRcv.RCV, E.BuySell.BUY, E.BuySell.SELL)] == [-1, 1, 1, -1], 'multiplier', {}, 'pay/receive or buy/sell sign')
        for n, ppy in (('DAILY', 365), ('WEEKLY', 52), ('MONTHLY', 12), ('QUARTERLY', 4), ('SEMIANNUAL', 2), ('ANNUAL', 1)):
            rec.check(E.CompoundingFreq[n].periods_per_year == ppy, 'periods_per_year', dict(freq=n), '')
        for n, dpy in (('_30_360', 360), ('_30E_360', 360), ('_30E_360_ISDA', 360), ('ACT_360', 360), ('ACT_365', 365), ('ACT_366', 366)):
            rec.check(E.DayCountBasis[n].days_per_year == dpy, 'days_per_year', dict(basis=n), '')
        # period frequencies multiply without drift
        from mc.ref.sched import grid
        from datetime import date
        for n, f, s in itertools.product(range(-24, 25), ('DAILY', 'WEEKLY', '_28_DAYS', 'MONTHLY', 'QUARTERLY', 'SEMIANNUAL', 'ANNUAL'), (date(2023, 8, 31), date(2024, 2, 29), date(2024, 1, 30), date(2023, 3, 15))):
            rec.state('mult', n, f, s)
            ok, o = rec.call('raises', dict(freq=f, n=n), E.PeriodFreq[f].multiply_date_offset, n)
            rec.trace()
            if ok:
                g = (pd.Timestamp(s) + o).date()
                rec.check(g == grid(s, n, f), 'multiply', dict(freq=f, n=n, start=str(s)), lambda: 'got %s want %s' % (g, grid(s, n, f)))
