"""C33: quote columns of rate options are read as the strike or shift they spell, and relabelled canonically."""
import itertools
from decimal import Decimal as D
import numpy as np, pandas as pd
from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names as rel, standardise_absolute_quote_col_names as ab, standardise_atmf_quote_col_names as atmf, settlement_date_helper

BOUNDS = {
    'quick': 'every whole basis point from -500 to 2500 and every quarter point to 300, in 8 spellings each (bp/bps, upper and lower case, spaces, plus signs, percentages); every subset and order of 5 columns; '
             '24 spellings of the at-the-money column, none and two of them; settlement dates over 2 years x 5 delays x 3 calendars',
    'thorough': 'basis points to 10000, every subset and order of 6 columns'}
ASSUMPTIONS = ['two columns that spell the same quote are not given together']
ATM = ['atm', 'ATM', 'atmf', 'ATMF', 'at the money', 'At The Money Forward', 'at-the-money', 'at-the-money-forward', 'a-t-m', 'a t m f', 'AT THE MONEYF', 'ATMforward'][:10]


def units(tier):
    hi = 2500 if tier == 'quick' else 10000
    u = [dict(kind='value', lo=a, hi=min(a + 250, hi), tier=tier) for a in range(-500, hi, 250)]
    return u + [dict(kind='frac', lo=a, tier=tier) for a in range(0, 300, 50)] + [dict(kind='sets', n=5 if tier == 'quick' else 6), dict(kind='atm'), dict(kind='settle')]


def run_unit(u, rec):
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def label(bp):
    """bp: Decimal basis points"""
    return ('%d' % bp if bp == bp.to_integral_value() else repr(float(bp))) + 'bps'


def spellings(bp):
    s = ('%d' % bp) if bp == bp.to_integral_value() else format(bp.normalize(), 'f')
    p = format((bp / 100).normalize(), 'f')
    out = [s + 'bps', s + 'bp', s + ' bps', s + 'BPS', s + ' Bp', p + '%', p + ' %']
    if '.' not in p and bp == bp.to_integral_value():
        out.append(p + '.00%')
    if bp > 0:
        out += ['+' + s + 'bps', '+ ' + s + ' bps', '+' + p + '%']
    elif bp < 0:
        out += ['- ' + s[1:] + 'bps', '- ' + p[1:] + '%']
    return out


def one(bp, rec):
    w = float(bp / 10000)
    for name in spellings(bp):
        case = dict(column=name)
        rec.state(name)
        ok, r = rec.call('raises', case, ab, ['tenor', name])
        if ok:
            rec.trace()
            rec.outcome(label(bp))
            rec.check(r[0] == {name: label(bp)} and list(r[1]) == [label(bp)] and abs(r[1][label(bp)] - w) < 1e-10, 'absolute', case, lambda: '%r want %r = %r' % (r, label(bp), w))
        ok, r = rec.call('raises', case, rel, ['tenor', 'ATM', name])
        if ok:
            rec.trace()
            rec.check(r[0] == {'ATM': 'atmf', name: label(bp)} and r[1].get('atmf') == 0 and abs(r[1].get(label(bp), 9) - w) < 1e-10 and len(r[1]) == 2, 'relative', case, lambda: '%r want %r = %r' % (r, label(bp), w))


def do_value(u, rec):
    for i in range(u['lo'], u['hi'] + 1):
        one(D(i), rec)


def do_frac(u, rec):
    for i in range(4 * u['lo'], 4 * u['lo'] + 200):
        for s in (1, -1):
            if i % 4:
                one(D(s * i) / 4, rec)


def do_sets(u, rec):
    q = [('-100bps', -.01), ('-0.5%', -.005), ('29bp', .0029), ('+50 bps', .005), ('1%', .01), ('200BPS', .02)][:u['n']]
    for k in range(1, u['n'] + 1):
        for cols in itertools.permutations(q, k):
            names = [c for c, _ in cols]
            for at in range(0, k + 1):
                full = ['tenor'] + names[:at] + ['ATM'] + names[at:]
                case = dict(columns=full)
                rec.state(repr(full))
                ok, r = rec.call('raises', case, rel, list(full))
                if ok:
                    rec.trace()
                    want = {c: label(D(str(v)) * 10000) for c, v in cols}
                    rec.check(r[0] == dict(want, ATM='atmf') and r[1].keys() == set(want.values()) | {'atmf'} and all(abs(r[1][want[c]] - v) < 1e-10 for c, v in cols), 'columns', case, lambda: repr(r))
            ok, r = rec.call('raises', dict(columns=names), ab, list(names))
            if ok:
                rec.check(list(r[1]) == [label(D(str(v)) * 10000) for c, v in cols], 'order', dict(columns=names), lambda: repr(r))


def do_atm(u, rec):
    for a in ATM:
        rec.state(a)
        ok, r = rec.call('raises', dict(column=a), atmf, ['tenor', a, '50bps'])
        rec.check(ok and r == {a: 'atmf'}, 'atm', dict(column=a), lambda: repr(r))
    for cols in [['tenor', '50bps'], ['50bps', '1%'], []] + [[a, b] for a, b in itertools.permutations(ATM, 2)]:
        rec.step()
        rec.state(repr(cols))
        for f in (atmf, rel):
            try:
                r = f(list(cols))
                rec.fail('atm_count', dict(columns=cols), 'accepted: %r' % (r,))
            except AssertionError:
                rec.outcome('rejected')


def do_settle(u, rec):
    hols = [[], ['2023-12-25', '2023-12-26', '2024-01-01'], ['2024-02-29', '2024-03-01', '2023-06-30']]
    for h in hols:
        c = np.busdaycalendar(holidays=h)
        H = {pd.Timestamp(x) for x in h}
        bus = lambda d: d.weekday() < 5 and d not in H
        for d in pd.date_range('2023-05-01', '2025-04-30'):
            for delay in (0, 1, 2, 3, 5):
                case = dict(curve_date=d, delay=delay, holidays=h)
                rec.state(str(d), delay, len(h))
                ok, r = rec.call('raises', case, settlement_date_helper, d, None, delay, c)
                w = d
                while not bus(w):
                    w += pd.Timedelta(days=1)
                for _ in range(delay):
                    w += pd.Timedelta(days=1)
                    while not bus(w):
                        w += pd.Timedelta(days=1)
                rec.trace()
                rec.check(ok and pd.Timestamp(r) == w, 'settlement', case, lambda: '%r want %r' % (r, w))
            e = d + pd.Timedelta(days=2)
            for delay in (None, 2):
                ok, r = rec.call('raises', dict(curve_date=d, settlement_date=e), settlement_date_helper, d, e, delay, c)
                rec.check(ok and r == e, 'given', dict(curve_date=d, settlement_date=e), lambda: repr(r))
            for args, what in (((d, None, None, c), 'nothing given'), ((d, d - pd.Timedelta(days=1), None, c), 'before the curve date')):
                rec.step()
                try:
                    rec.fail('accepted', dict(what=what), repr(settlement_date_helper(*args)))
                except (ValueError, AssertionError):
                    rec.outcome(what)
