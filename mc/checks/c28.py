"""C28: FX volatility quote columns: every spelling is normalised, strategies become call and put quotes exactly, quotes are ordered by strike, market conventions are checked."""
import itertools, warnings
import numpy as np, pandas as pd
from frm.term_structures.fx_helpers import clean_vol_quotes_column_names as clean, solve_call_put_quotes_from_strategy_quotes as solve, get_delta_smile_quote_details as details, check_delta_convention as check, validate_ccy_pair as vpair

BOUNDS = {
    'quick': 'every delta 1..49 (with and without a leading zero) x 36 spellings of call, put, risk reversal and butterfly, 20 spellings at the money, 34 names that are not quotes; every order of up to 5 quote columns; '
             'every subset of {strategy, call, put} per delta for 1..3 deltas, {strategy, call and put} for 4 and 5, 6 strategies; 14 currency pairs x every pattern of delta conventions over 3 terms',
    'thorough': '6 quote columns, every subset for 4 deltas, {strategy, call and put} for 5 and 6, 4 terms'}
ASSUMPTIONS = ['spellings are lower case, as the documented patterns', 'for butterfly B and risk reversal R at a delta, call = ATM + B + R/2 and put = ATM + B - R/2']
NOT = ['tenor', 'delta_convention', 'expiry_date', '0_delta_call', '50_delta_put', '99_delta_put', '100_delta_call', '25_delta', '25_delta_callx', 'x25_delta_call', 'delta_call', 'delta_25_call', 'atm', 'atm_neutral',
       'atmneutral', 'atm_delta', '25_delta_strangle', '25_call', '25call', '250_delta_call', '-25_delta_call', '2.5_delta_call', 'atm_fwds', 'warnings', '25__delta_call', '25_delta__call', '25-delta-call', '001_delta_call',
       '', ' 25_delta_call', '25_delta_call ', 'atm_delta_neutrals', '25_delta_risk', '25_delta_butter']


def units(tier):
    q = tier == 'quick'
    return [dict(kind='spell', lo=a) for a in range(1, 50, 7)] + [dict(kind='atm'), dict(kind='pair')] + [dict(kind='order', n=n) for n in range(2, 6 if q else 7)] + \
        [dict(kind='solve', n=n, tier=tier) for n in range(1, 7)] + [dict(kind='conv', n=3 if q else 4)]


def run_unit(u, rec):
    warnings.simplefilter('ignore')
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def one(name, want, rec):
    rec.state(name)
    df = pd.DataFrame({'tenor': ['1m'], name: [0.1]})
    ok, r = rec.call('raises', dict(column=name), clean, df)
    if ok:
        rec.trace()
        rec.outcome(want)
        rec.check(list(r.columns) == ['tenor', want] and r.iloc[0, 1] == 0.1, 'name', dict(column=name), lambda: '%r want %r' % (list(r.columns), want))
        rec.check(list(df.columns) == ['tenor', name], 'mutated', dict(column=name), 'the dataframe given was modified')


def do_spell(u, rec):
    kinds = {'call': ['call', 'c'], 'put': ['put', 'p'], 'riskreversal': ['risk_reversal', 'riskreversal', 'risk reversal', 'rr'], 'butterfly': ['butterfly', 'bf']}
    for d in range(u['lo'], min(u['lo'] + 7, 50)):
        for num in {str(d), '%02d' % d}:
            for k, al in kinds.items():
                for a, dl, s1, s2 in itertools.product(al, ('delta', 'Δ'), ('_', ' ', ''), ('_', ' ', '')):
                    one(num + s1 + dl + s2 + a, '%d_delta_%s' % (d, k), rec)


def do_atm(u, rec):
    for a, t, m in itertools.product(('a', 'at'), ('t', 'the'), ('m', 'money')):
        for s, s2, s3 in itertools.product(('_', ' ', ''), repeat=3):
            for dl in ('delta', 'Δ'):
                one(a + s + t + s2 + m + s3 + dl + s + 'neutral', 'atm_delta_neutral', rec)
            for f in ('f', 'fwd', 'forward'):
                one(a + s + t + s2 + m + s3 + f, 'atm_forward', rec)
    for x in NOT:
        if x != 'tenor':
            one(x, x, rec)


def do_pair(u, rec):
    regular = {'aud', 'eur', 'gbp', 'nzd'}
    for a, b in itertools.permutations(('usd', 'aud', 'eur', 'gbp', 'nzd', 'jpy', 'cad', 'try'), 2):
        odd = (a == 'usd' and b in regular) or (b == 'usd' and a not in regular)
        for s in (a + b, a + '/' + b, (a + b).upper(), ' ' + a + b + ' ', a.upper() + '/' + b.upper()):
            rec.state(s)
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                ok, r = rec.call('raises', dict(pair=s), vpair, s)
            rec.trace()
            rec.check(ok and r == (a + b, b, a), 'pair', dict(pair=s), lambda: repr(r))
            rec.check(bool(ws) == odd, 'pair_warning', dict(pair=s), 'market convention warning missing or spurious')
    for s in ('usd', 'usdjp', 'usdjpyx', '', 'usd-jpy'):
        rec.step()
        rec.state(s)
        try:
            rec.fail('bad_pair', dict(pair=s), repr(vpair(s)))
        except AssertionError:
            rec.outcome('rejected')


def do_order(u, rec):
    cols = {'5_delta_put': -.05, '10_delta_put': -.1, '25_delta_put': -.25, 'atm_delta_neutral': .5, '49_delta_call': .49, '35_delta_call': .35, '10_delta_call': .1}
    rank = {c: i for i, c in enumerate(['5_delta_put', '10_delta_put', '25_delta_put', 'atm_delta_neutral', '49_delta_call', '35_delta_call', '10_delta_call'])}
    for c in itertools.permutations(cols, u['n']):
        rec.state(repr(c))
        df = pd.DataFrame([[0.1] * (len(c) + 2)], columns=['tenor', *c, 'delta_convention'])
        ok, r = rec.call('raises', dict(columns=c), details, df)
        if ok:
            rec.trace()
            w = sorted(c, key=rank.get)
            rec.check(list(r['quotes_column_names']) == w and list(r['quotes_signed_delta']) == [cols[x] for x in w] and list(r['quotes_call_put_flag']) == [-1 if 'put' in x else 1 for x in w] and list(r.index) == list(range(len(w))),
                      'details', dict(columns=c), lambda: repr(r.to_dict('list')))


def do_solve(u, rec):
    """which of the strategy quotes, the put and the call are given at each delta"""
    n = u['n']
    D = (25, 10, 5, 40, 15, 35)[:n]
    vals = {}
    for i, d in enumerate(D):
        vals[d] = dict(rr=[-.011 + .003 * i, .02, 0.0], bf=[.001 * (i + 1), .004, 0.0], put=[.3 + i, .31 + i, .32 + i], call=[.4 + i, .41 + i, .42 + i])
    atm = np.array([.1, .12, .08])
    forms = (('rr', 'bf'), ('put', 'call'), ('rr', 'bf', 'put'), ('rr', 'bf', 'call'), ('rr', 'bf', 'put', 'call'))
    for have in itertools.product(forms if n < (4 if u['tier'] == 'quick' else 5) else forms[:2] if n < 6 or u['tier'] != 'quick' else forms[:1], repeat=n):
        names, data = [], {}
        for d, h in zip(D, have):
            for x in h:
                nm = '%d_delta_%s' % (d, {'rr': 'riskreversal', 'bf': 'butterfly'}.get(x, x))
                data[nm] = vals[d][x]
        for rev, idx in itertools.product((False, True), ([0, 1, 2], [7, 3, 5], [2, 1, 0])):
            items = [('atm_delta_neutral', atm)] + list(data.items())
            df = pd.DataFrame(dict(items[::-1] if rev else items), index=idx)
            df['tenor'] = ['1m', '1y', '2y']
            case = dict(have=have, reversed=rev, index=idx)
            rec.state(repr(case))
            ok, r = rec.call('raises', case, solve, df)
            if not ok:
                continue
            rec.trace()
            want = {'atm_delta_neutral': atm}
            for d, h in zip(D, have):
                v = {k: np.array(x) for k, x in vals[d].items()}
                want['%d_delta_put' % d] = v['put'] if 'put' in h else atm + v['bf'] - v['rr'] / 2
                want['%d_delta_call' % d] = v['call'] if 'call' in h else atm + v['bf'] + v['rr'] / 2
            rec.check(set(r.columns) == set(want) | {'tenor'} and list(r.index) == idx and list(r['tenor']) == ['1m', '1y', '2y'], 'columns', case, lambda: repr(list(r.columns)))
            rec.check(all(c in r and np.allclose(r[c], w, rtol=0, atol=1e-12) for c, w in want.items()), 'quotes', case, lambda: '%r want %r' % (r.to_dict('list'), want))
    for drop in ('25_delta_butterfly', '25_delta_riskreversal', 'atm_delta_neutral'):
        df = pd.DataFrame({'25_delta_butterfly': [.1], '25_delta_riskreversal': [.1], 'atm_delta_neutral': [.1]}).drop(columns=drop)
        rec.step()
        rec.state(drop)
        try:
            rec.fail('incomplete', dict(missing=drop), repr(list(solve(df).columns)))
        except AssertionError:
            rec.outcome('rejected')


def do_conv(u, rec):
    market_regular = ['audusd', 'eurusd', 'gbpusd', 'nzdusd']
    other = ['usdjpy', 'usdcad', 'usdchf', 'cadusd', 'usdtry']
    free = ['eurgbp', 'audnzd', 'nzdeur', 'usdaud', 'usdeur']
    C = ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward']
    for pair in market_regular + other + free:
        for cs in itertools.product(C, repeat=u['n']):
            for col, vals in (('tenor', ['1w', '1m', '1y', '2y']), ('expiry_date', list(pd.date_range('2024-01-01', periods=4, freq='MS'))), ('delivery_date', list(pd.date_range('2024-01-01', periods=4, freq='MS')))):
                df = pd.DataFrame({col: vals[:u['n']], 'delta_convention': cs, 'warnings': '', 'atm_delta_neutral': .1})
                case = dict(pair=pair, conventions=cs, column=col)
                rec.state(repr(case))
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter('always')
                    ok, r = rec.call('raises', case, check, df, pair)
                if not ok:
                    continue
                rec.trace()
                flag = [(pair in market_regular and c.startswith('premium')) or (pair in other and c.startswith('regular')) for c in cs]
                rec.outcome(pair, tuple(flag))
                rec.check([w != '' for w in r['warnings']] == flag and bool(ws) == any(flag) and list(r['delta_convention']) == list(cs), 'convention', case, lambda: '%r want warnings at %r' % (list(r['warnings']), flag))
