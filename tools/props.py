"""Single source for properties.jsonl.  Run: python3 tools/props.py (rewrites /verif/properties.jsonl)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    mech = []
    for m in mechanism:
        n, w = m if isinstance(m, tuple) else (m.split(':')[-1], m)
        mech.append(dict(name=n, where=w))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=mech,
                               **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               **({'observe_at': list(observe)} if observe else {}))))


prop('C01', 'Day counts and year fractions follow the ISDA convention for every date pair',
     'For every supported day count basis and every ordered pair of dates, the number of days and the year fraction equal the value the ISDA/ISMA definition of that basis gives, '
     'computed from the calendar dates alone. This includes leap days, month ends, the end-of-February rules of the 30E/360 ISDA basis (with its is-end-date-the-termination-date option) '
     'and ACT/ACT year boundaries.',
     ['inputs'], 'All date pairs (start <= end) with spans from 0 days to several years around leap and century years, every DayCountBasis member.',
     'The tests sample about a dozen textbook pairs per basis; the rules are piecewise in day-of-month, month end and leap year, so a wrong branch only shows on specific pairs.',
     ['frm/utils/daycount.py', 'frm/enums/utils.py'],
     ['frm/utils/daycount.py:day_count', 'frm/utils/daycount.py:year_frac', 'frm/enums/utils.py:DayCountBasis.days_per_year'])

prop('C02', 'Day counts do not depend on the container and are additive over split periods',
     'Asking for day counts or year fractions of a scalar, list, DatetimeIndex, Series (any index labels) or a broadcast mix of them gives the same numbers element by element and in the '
     'caller\'s order, and never modifies the inputs. For the actual bases the pieces of a split period sum to the whole. Reversed date pairs are rejected in every container rather than '
     'producing a wrong number.',
     ['inputs'], 'All container-shape combinations times ordered date tuples from a boundary alphabet; all three-date splits of the alphabet.',
     'Tests use only one container per basis; dispatch on types, broadcasting and per-element masks is a combinatorial space.',
     ['frm/utils/daycount.py'],
     ['frm/utils/daycount.py:to_datetimeindex', 'frm/utils/daycount.py:convert_to_same_shape_datetimeindex', 'frm/utils/daycount.py:day_count', 'frm/utils/daycount.py:year_frac'])

prop('C03', 'A generated schedule partitions its term on a regular business-day-adjusted grid',
     'The periods of a schedule start at the start date, end at the end date, are contiguous and strictly increasing. Every interior boundary is a whole number of periods (never drifting through '
     'month ends) from the anchor end of the schedule, moved by the day-roll and the business-day roll convention on the schedule\'s calendar; only the stub is irregular. The user\'s '
     'start/end dates are moved only when asked.',
     ['inputs', 'configurations'], 'All start dates x terms x frequencies x roll conventions x day rolls x stub side x calendars within the bounds.',
     'Tests compare around twenty hand-made schedules; rolls, month-end clamping and stub removal interact on specific weekday/holiday/month-end combinations.',
     ['frm/utils/schedule.py', 'frm/utils/business_day_calendar.py', 'frm/enums/utils.py'],
     ['frm/utils/schedule.py:make_schedule', 'frm/utils/schedule.py:generate_date_schedule', 'frm/enums/utils.py:PeriodFreq', 'frm/enums/utils.py:RollConv'])

prop('C04', 'Stub choices and user-specified first/last regular dates are honoured',
     'A long stub merges the short stub with its neighbouring period and a short stub does not; stubs sit on the requested side(s). A user-specified first period end and/or last period start '
     'appears as a period boundary (rolled only when asked) and the remaining boundaries lie on the regular grid generated from it. Impossible combinations are rejected instead of '
     'yielding a schedule which ignores the request.',
     ['inputs', 'configurations'], 'All stub pairs and all (first_period_end, last_period_start) positions of the bounded grid x frequencies x conventions.',
     'Tests hold a few examples with one of the dates; the two dates and two stubs interact in a case table of over a dozen branches.',
     ['frm/utils/schedule.py'],
     ['frm/utils/schedule.py:make_schedule', 'frm/utils/schedule.py:generate_date_schedule', 'frm/enums/utils.py:Stub'])

prop('C05', 'Payment dates and period columns are exact functions of the schedule',
     'A payment date is the period end (in arrears) or start (in advance) rolled to a business day and moved by the payment delay in business days. Day counts, year fractions and other '
     'columns computed on a schedule equal their definitions for that period. They are the same whatever order, or number of times, the column operations are applied.',
     ['inputs', 'histories'], 'All delays x conventions x calendars x timings; all sequences of column operations up to the depth bound on several schedule kinds.',
     'Tests check one delay and one operation order; column caches and overwritten columns only show in other orders.',
     ['frm/utils/schedule.py'],
     ['frm/utils/schedule.py:BaseSchedule', 'frm/utils/schedule.py:CouponSchedule', 'frm/utils/schedule.py:BaseSchedule.add_payment_dates', 'frm/utils/schedule.py:BaseSchedule.add_period_daycount'],
     state=[('df', 'period table which every column operation rewrites', 'frm/utils/schedule.py:BaseSchedule')])

prop('C06', 'Notional exchanges follow the contract and conserve principal',
     'The notional payments of a schedule are exactly those implied by the exchange convention and the per-period notionals: initial exchange, every amortisation step and final exchange, each once '
     'and on its contractual date. With both exchanges they sum to zero. Wrongly sized notional vectors are rejected.',
     ['inputs', 'configurations'], 'All notional profiles over a small alphabet up to 4-5 periods x exchange conventions x payment timing/delay.',
     'Tests exercise constant notionals only; amortising profiles, zero periods and initial-exchange dates are a product space.',
     ['frm/utils/schedule.py', 'frm/enums/utils.py'],
     ['frm/utils/schedule.py:NotionalSchedule', 'frm/utils/schedule.py:CouponSchedule', 'frm/enums/utils.py:ExchangeNotionals'])

prop('C07', 'Leg and swap values equal the discounted contractual cashflows',
     'For every fixed or zero coupon leg, the coupons, notional payments, present value, clean/dirty split, accrued interest, current/non-current split and time buckets equal the values worked out '
     'period by period from the contract, and a pay leg is the exact mirror of a receive leg. A swap is the sum of its legs; solved par coupons and target-value coupons reprice to their target.',
     ['inputs', 'configurations'], 'All contracts of the bounded product space valued at every critical date (each boundary and payment date, just before and after).',
     'The leg and swap tests only construct objects; sign handling and payment-date boundary cases only show at particular value dates.',
     ['frm/instruments/leg.py', 'frm/instruments/swap.py'],
     ['frm/instruments/leg.py:Leg', 'frm/instruments/swap.py:Swap'])

prop('C08', 'Leg and swap queries are pure: answers do not depend on the query history',
     'Any sequence of valuations, solves, value-date, settings and discount-curve changes on a leg or swap leaves every later answer equal to the answer of a freshly built object under the same settings and curve. '
     'Contract terms are never altered by queries, a one-off coupon override has no lasting effect, and legs built from one schedule do not affect each other.',
     ['histories'], 'All action sequences up to the depth bound on several legs and swaps, including shared schedules.',
     'Unit tests never issue a second query on the same object; state leaks need particular sequences.',
     ['frm/instruments/leg.py', 'frm/instruments/swap.py'],
     ['frm/instruments/leg.py:Leg', 'frm/instruments/swap.py:Swap'],
     state=[('leg.df', 'cached cashflow table rewritten by valuations', 'frm/instruments/leg.py:Leg')])

prop('C09', 'Every spelling of a tenor means one canonical tenor and one exact date offset',
     'Any spelling of a tenor (units written out or abbreviated, any case, separators, combined years and months, special tenors such as overnight or spot-next) cleans to one canonical form, cleaning is '
     'idempotent, and the offset of n units moves a date by exactly n days, weeks, months or years. Malformed tenors are rejected.',
     ['inputs'], 'All numbers x unit spellings x separators x cases of the bounded grammar; all strings outside the grammar up to length 4-6 over a small alphabet.',
     'Tests list about forty spellings; the cleaning is a chain of string replacements whose interactions depend on the exact string.',
     ['frm/utils/tenor.py'], ['frm/utils/tenor.py:clean_tenor', 'frm/utils/tenor.py:tenor_to_date_offset'])

prop('C10', 'A combined business day calendar is open exactly where every component is open',
     'The calendar of any list of currencies and locales (any case, order, duplicates, string or list) is closed on weekends and on exactly the union of the components\' holidays. Workdays and '
     'implied business-day offsets computed on it are consistent with stepping day by day.',
     ['inputs', 'configurations'], 'All single keys, pairs and selected triples of calendars, every day of the horizon; all offsets within the bounds from every day of two years.',
     'Tests look at a few dates of one or two calendars.',
     ['frm/utils/business_day_calendar.py', 'frm/utils/tenor.py'],
     ['frm/utils/business_day_calendar.py:get_busdaycal', 'frm/utils/business_day_calendar.py:get_holidays_object', 'frm/utils/tenor.py:calc_implied_business_day_offset'])

prop('C11', 'Enum parsing accepts exactly the documented spellings of one member',
     'Every documented spelling of a convention (value, display name, alias, in any case, padded or with spaces) parses to the one member it names. Validity queries agree with parsing, and any other '
     'string is rejected.',
     ['inputs'], 'All members x spellings x case/padding variants, plus all one-character mutations of every canonical spelling.',
     'Tests cover a handful of aliases of three enums; alias tables and normalisation interact per string.',
     ['frm/enums/utils.py', 'frm/enums/helper.py', 'frm/enums/term_structures.py'],
     ['frm/enums/helper.py:clean_enum_value', 'frm/enums/helper.py:is_valid_enum_value', 'frm/enums/utils.py:PeriodFreq.from_value', 'frm/enums/utils.py:DayCountBasis.from_value'])

prop('C12', 'Zero rates, discount factors and rate conversions are mutually consistent',
     'For every compounding frequency, converting a zero rate to a discount factor matches the compounding formula and converts back to the same rate. Converting a rate between two frequencies preserves '
     'the discount factor (one-year term for simple rates), converting via any third frequency gives the same result, and scalars, arrays and Series agree.',
     ['inputs'], 'All compounding frequencies, ordered pairs and triples x rate grid x term grid.',
     'Tests check a few rates at one term; each of 64 ordered conversion pairs is its own formula.',
     ['frm/enums/utils.py'], ['frm/enums/utils.py:CompoundingFreq.calc_discount_factor_from_zero_rate', 'frm/enums/utils.py:CompoundingFreq.calc_zero_rate_from_discount_factor',
                              'frm/enums/utils.py:CompoundingFreq.convert_rate_to'])

prop('C13', 'A zero curve reprices its pillars and every query form gives the same numbers',
     'A zero curve reproduces each pillar discount factor (pillars given as dates or as years), is 1 on the curve date, and between pillars follows its stated interpolation; zero rates of any compounding agree with the discount factors. '
     'Queries by date, days or years, as scalars or lists in any order with duplicates and out-of-range dates, return one number per request in the caller\'s order (extrapolated flat or NaN as configured). '
     'A flat shift moves every zero rate by exactly the shift and leaves the original curve unchanged.',
     ['inputs', 'configurations'], 'All pillar subsets, day counts, interpolation and extrapolation methods, and all query lists of the bounded alphabet.',
     'Tests compare a few dates of one curve against a stored file; order, duplicates and boundaries are a product space.',
     ['frm/term_structures/zero_curve.py'],
     ['frm/term_structures/zero_curve.py:ZeroCurve._process_pillar_df', 'frm/term_structures/zero_curve.py:ZeroCurve.index_daily_data', 'frm/term_structures/zero_curve.py:ZeroCurve.flat_shift'])

prop('C14', 'Forward rates are arbitrage free and averages cover exactly their period',
     'The forward rate of any type between two dates reproduces the ratio of the two discount factors, adjacent forward periods chain to the whole, and a vector of periods gives the same numbers as one '
     'period at a time. Daily-average forwards are the weighted average over exactly the business days of the period, and instantaneous forwards are the derivative of the log discount factor.',
     ['inputs', 'configurations'], 'All ordered date pairs of the alphabet x forward rate types x calendars x interpolation methods, all vectors of two periods.',
     'Tests cover one period per type; weekends and holidays at the ends of a period and vector evaluation are untested.',
     ['frm/term_structures/zero_curve.py', 'frm/enums/term_structures.py'],
     ['frm/term_structures/zero_curve.py:ZeroCurve.get_forward_rates', 'frm/term_structures/zero_curve.py:ZeroCurve.get_instantaneous_forward_rate'])

prop('C15', 'The same market data in any documented form builds the same zero curve',
     'Pillars given as tenors, dates, days or years, with discount factors or zero rates of any compounding, in any row order and with or without a curve-date row, build the same curve. The caller\'s '
     'data frame is left unchanged, and frames with missing, extra or ambiguous columns are rejected.',
     ['inputs', 'configurations'], 'All forms x row orders x compoundings x day counts x interpolation methods over a four-pillar market.',
     'Tests build one curve per form at most and never compare forms.',
     ['frm/term_structures/zero_curve.py'],
     ['frm/term_structures/zero_curve.py:ZeroCurve.__post_init__', 'frm/term_structures/zero_curve.py:ZeroCurve._process_pillar_df'])

prop('C16', 'Historical coupon rates use exactly the fixings of their period',
     'The compounded, weighted-average and simple-average coupon rates of any past period are those of the fixings observed from its start date up to (not including) its end date, non-business days using the last '
     'published fixing, whatever the row order of the fixing history and whichever other periods are asked in the same call. A term fixing is the last one published on or before the fixing date. Periods not covered by '
     'the history are rejected rather than valued with missing fixings.',
     ['inputs'], 'All periods inside (and over both ends of) a bounded history with weekends and holidays, all rate methods, all vectors of three periods of a small alphabet.',
     'There is no active test of historical fixings (the test file is commented out); period boundaries on weekends, Mondays and holidays are the hard cases.',
     ['frm/term_structures/historical_swap_index_fixings.py'],
     ['frm/term_structures/historical_swap_index_fixings.py:RFRFixings.get_coupon_rates', 'frm/term_structures/historical_swap_index_fixings.py:TermFixings.index_historical_fixings'])

prop('C17', 'Swap curves join historical fixings and forward rates at the curve date',
     'For any set of periods in any order, a swap curve returns for each period the historical rate if it lies before the curve date, the forward rate if it starts on or after it, and for a risk-free-rate period spanning the '
     'curve date the combination of both parts that earns the same interest (or the same average). A term rate is fixed at the period start. A curve and a fixing history with different day counts cannot be combined.',
     ['inputs', 'configurations'], 'All ordered date pairs around the curve date x rate methods x curve dates x interpolation methods; all vectors of two and selected vectors of three periods.',
     'No test exercises the stitching; masks for past, current and future periods interact only in mixed vectors.',
     ['frm/term_structures/swap_curve.py'],
     ['frm/term_structures/swap_curve.py:TermSwapCurve.get_fixings', 'frm/term_structures/swap_curve.py:RFRSwapCurve.get_fixings', 'frm/term_structures/swap_curve.py:RFRSwapCurve._get_crossover_coupon_rate'])

prop('C19', 'Black76 and Bachelier prices, value splits and greeks equal their definitions',
     'For every forward, strike, expiry (zero included), volatility (zero included), call/put flag, log-normal shift and annuity factor, the Black76 and Bachelier prices equal the closed form (its limit at expiry), intrinsic plus '
     'time value equal the price, and analytical and numerical greeks equal the derivatives of the price in the documented units. Put-call parity holds. A vector of any parameters gives the same as one scalar call per element.',
     ['inputs'], 'The full product of boundary-biased grids in all parameters (negative and zero forwards, shifts, annuity factors, expiry 0, vol 0); every subset of the parameters as vectors.',
     'Tests compare a handful of prices with other libraries; limits, shifted greeks, annuity scaling and broadcasting are combinations no test enumerates.',
     ['frm/pricing_engine/black76_bachelier.py'],
     ['frm/pricing_engine/black76_bachelier.py:black76_price', 'frm/pricing_engine/black76_bachelier.py:bachelier_price'])

prop('C20', 'Implied volatilities and volatility conversions reprice the option',
     'The Black76 or Bachelier volatility solved from a price (of one option, or the single volatility of a strip) reprices it within the documented tolerance. Converting between log-normal, shifted log-normal and normal '
     'volatilities keeps the option price, and converting back returns the original volatility. A price that no volatility attains is rejected, not answered with an arbitrary volatility.',
     ['inputs'], 'The full product of forwards, strikes, expiries, volatilities, call/put, shifts, annuity factors and starting guesses; strips of two and three options; unattainable prices.',
     'Solver failures depend on moneyness, expiry, guess and volatility together; tests check only a few benign points.',
     ['frm/pricing_engine/black76_bachelier.py'],
     ['frm/pricing_engine/black76_bachelier.py:black76_solve_implied_vol', 'frm/pricing_engine/black76_bachelier.py:bachelier_solve_implied_vol', 'frm/pricing_engine/black76_bachelier.py:black76_sln_to_normal_vol',
      'frm/pricing_engine/black76_bachelier.py:normal_vol_to_black76_sln', 'frm/pricing_engine/black76_bachelier.py:shift_black76_vol', 'frm/pricing_engine/black76_bachelier.py:normal_vol_atm_to_black76_sln_atm'])

prop('C21', 'Garman-Kohlhagen prices, splits, greeks and implied vols equal their definitions',
     'For every spot, pair of rates (or market forward overriding parity), strike, expiry, volatility and call/put flag, the FX option price equals the Garman-Kohlhagen closed form, the value split adds up, and every analytical and '
     'numerical greek equals the derivative of that price in its documented units. The implied volatility of a price reprices it. Vector inputs give the same as scalar calls, and arguments without meaning are rejected.',
     ['inputs'], 'The full product of boundary-biased grids in all parameters including negative rates, off-parity forwards and expiry 0; every legal subset of parameters as vectors.',
     'Tests check one option; signs of put greeks, discounting with a market forward and broadcasting are only visible in combinations.',
     ['frm/pricing_engine/garman_kohlhagen.py'],
     ['frm/pricing_engine/garman_kohlhagen.py:garman_kohlhagen_price', 'frm/pricing_engine/garman_kohlhagen.py:garman_kohlhagen_solve_implied_vol'])

prop('C22', 'The strike solved from a delta quote has exactly that delta',
     'For every delta convention (spot or forward, regular or premium-adjusted), call or put, volatility, expiry, spot, rates and market forward, the strike solved from a delta quote reproduces the quoted delta, on the branch the market uses '
     '(for premium-adjusted calls, right of the maximum delta), and at-the-money quotes give the forward or the delta-neutral straddle strike. A vector of quotes gives the same strikes as one call per quote. '
     'A delta that no strike attains and arguments without meaning are rejected.',
     ['inputs'], 'The full product of conventions, spots from 6.5e-5 to 150, rate pairs, expiries, volatilities, signed deltas and forward choices; vectors of all pairs of quotes.',
     'The premium-adjusted solve is a numerical root search whose bracket depends on every parameter; tests solve a couple of quotes for one currency pair.',
     ['frm/pricing_engine/garman_kohlhagen.py'],
     ['frm/pricing_engine/garman_kohlhagen.py:garman_kohlhagen_solve_strike_from_delta'])

prop('C23', 'SABR volatilities follow Hagan and fits recover the smile they are given',
     'For every SABR parameter set, forward, strike, expiry and shift, the lognormal volatility equals the Hagan expansion (with its at-the-money limit, continuous across it), and the alpha solved from an at-the-money volatility reproduces that volatility, being the root nearest its leading order. '
     'A fit to a smile the model generates reproduces every quoted volatility, also when the at-the-money volatility is not itself among the quotes. Unfittable or meaningless arguments are rejected.',
     ['inputs'], 'The full product of beta, rho, vol-of-vol, alpha, forward magnitude, moneyness (through at-the-money), expiry and shift; generated smiles with fixed and free beta.',
     'Tests price one smile; the at-the-money singularity, beta of 0 and 1, shifts and the cubic root choice each need their own parameters.',
     ['frm/pricing_engine/sabr.py'],
     ['frm/pricing_engine/sabr.py:calc_sln_vol_for_strike_from_sabr_params', 'frm/pricing_engine/sabr.py:solve_alpha_from_sln_vol', 'frm/pricing_engine/sabr.py:fit_sabr_params_to_sln_smile'])

prop('C24', 'Every Heston method returns the Heston price; fits report true volatilities',
     'For every parameter set in the usual range, spot magnitude, pair of rates, expiry, strike and call/put flag, each of the five Heston pricing methods returns the price the model defines, and a market price of volatility risk acts as the documented change of parameters. '
     'A calibration returns parameters in the model domain whose volatilities at the quoted strikes are the ones it reports and are no worse than a flat smile.',
     ['inputs'], 'The full product of expiries, rates, variances, mean reversions, vols of variance, correlations, spots from 6.5e-5 to 150, strikes and flags, for each method.',
     'Tests price one option with one method; wrong exponents and branch cuts only show for particular expiries, correlations or spot magnitudes.',
     ['frm/pricing_engine/heston.py', 'frm/pricing_engine/cosine_method_generic.py'],
     ['frm/pricing_engine/heston.py:heston_price_vanilla_european', 'frm/pricing_engine/heston.py:heston_cosine_price_vanilla_european', 'frm/pricing_engine/heston.py:heston_calibrate_vanilla_smile', 'frm/pricing_engine/cosine_method_generic.py:get_cos_truncation_range'])

prop('C25', 'Random numbers have the asked shape, repeat per seed and correlate as asked',
     'For every number of steps, variables and simulations (odd included), with and without antithetic variates, the random numbers have the documented shape, are identical for the same seed whatever was drawn before, differ between seeds, and come in exact antithetic pairs. '
     'Correlating standard normals gives linear combinations whose covariance is exactly the correlation matrix. Invalid arguments are rejected.',
     ['inputs', 'histories'], 'Every shape up to the bound, several seeds, histories of earlier draws; correlation matrices over a grid of entries.',
     'Tests draw one shape with one seed; a transposed factor leaves two-variable results plausible and only shows with three.',
     ['frm/pricing_engine/monte_carlo_generic.py'],
     ['frm/pricing_engine/monte_carlo_generic.py:generate_rand_nbs', 'frm/pricing_engine/monte_carlo_generic.py:normal_corr'])

prop('C26', 'Simulated paths follow the discretised process for every sequence of shocks',
     'For every sequence of shocks, every parameter set and every scheme, the GBM, Heston and Clewlow-Strickland simulators return exactly the path of their discretised process, starting at the given initial values, for one or several underlyings and for term structures of drift and volatility. '
     'Vectorised and scalar code agree, and the Heston shocks have the model correlation.',
     ['histories', 'inputs'], 'Every sequence of shocks from a small alphabet up to a depth, as simulations of one run, per parameter set and scheme.',
     'Tests compare the mean of a large sample; a wrong step index, drift or variance floor only shows on particular shock sequences.',
     ['frm/pricing_engine/geometric_brownian_motion.py', 'frm/pricing_engine/heston.py', 'frm/pricing_engine/clewlow_strickland_1_factor.py'],
     ['frm/pricing_engine/geometric_brownian_motion.py:simulate_gbm_path', 'frm/pricing_engine/heston.py:heston_simulate', 'frm/pricing_engine/heston.py:heston_simulate_scalar', 'frm/pricing_engine/clewlow_strickland_1_factor.py:clewlow_strickland_1_factor_simulate'])

prop('C27', 'Forward volatility and flat-forward interpolation conserve variance',
     'For every pair of expiries and volatilities with non-decreasing total variance, the forward volatility completes the variance of the first expiry to that of the second, chains compose, and every other input is rejected. '
     'Flat-forward interpolation is linear in total variance between two expiries and flat outside, for scalars, lists and arrays of any shape, and leaves its arguments unchanged.',
     ['inputs'], 'All pairs and chains of expiries x volatilities x positions, all subsets of vector arguments, all patterns of degenerate terms.',
     'Tests check a handful of points; conservation is a statement about all pairs, and containers and degenerate terms multiply the cases.',
     ['frm/pricing_engine/volatility_generic.py'],
     ['frm/pricing_engine/volatility_generic.py:forward_volatility', 'frm/pricing_engine/volatility_generic.py:flat_forward_interp'])

prop('C28', 'FX volatility quote columns are read as the quotes they spell',
     'Every spelling of a delta call, put, risk reversal, butterfly or at-the-money column maps to one canonical name and other columns stay as they are; strategies are turned into call and put volatilities exactly and round trip. '
     'Quotes are ordered by strike whatever the order of the columns, the delta convention of every currency pair is checked, and inputs are left unchanged.',
     ['inputs', 'configurations'], 'Every delta 1..49 x spellings, all orders and subsets of quote columns, all patterns of conventions per pair.',
     'The column grammar and subsets of strategies give thousands of layouts; tests use two of them.',
     ['frm/term_structures/fx_helpers.py'],
     ['frm/term_structures/fx_helpers.py:clean_vol_quotes_column_names', 'frm/term_structures/fx_helpers.py:solve_call_put_quotes_from_strategy_quotes', 'frm/term_structures/fx_helpers.py:get_delta_smile_quote_details',
      'frm/term_structures/fx_helpers.py:check_delta_convention', 'frm/term_structures/fx_helpers.py:validate_ccy_pair'])

prop('C29', 'The FX volatility surface reprices its quotes and is consistent between them',
     'At every pillar the strike of every quote has the quoted delta and the surface returns the quoted volatility there; on every day between pillars the quoted volatilities are linear in total variance, between quotes they follow the smile (a spline: the parabola through three quotes, the not-a-knot cubic through more), and options are priced off that volatility and the market forward. '
     'The answers do not depend on how the same market data is presented or on earlier queries, simulated rates are martingales of the forward curve path by path, and dates outside the surface are rejected.',
     ['inputs', 'configurations', 'histories'], 'All pillars, quotes and days of a family of surfaces, 40 representations of the same data, all sequences of queries, all subsets of delivery dates.',
     'Tests look up a few points of one surface; the state kept in daily smiles and the many input layouts are what breaks.',
     ['frm/term_structures/fx_volatility_surface.py'],
     ['frm/term_structures/fx_volatility_surface.py:FXVolatilitySurface', 'frm/term_structures/fx_volatility_surface.py:interp_vol_surface', 'frm/term_structures/fx_volatility_surface.py:price_vanilla_european',
      'frm/term_structures/fx_volatility_surface.py:simulate_gbm_fx_rate_path'])

prop('C30', 'The Hull-White model fits its curve and prices without arbitrage',
     'For every curve, mean reversion (zero included) and volatility the model reproduces the discount factors of the curve and the conditional bond prices, and its simulation is the discretised process for every sequence of shocks. '
     'Bond options, caplets and swaptions equal the closed form or the integral over the exercised states, satisfy put-call and payer-receiver parity, agree with each other, and do not depend on scalar or vector arguments.',
     ['inputs', 'histories'], 'All curves x parameters x pairs of times x strikes, all subsets of vector arguments, all shock sequences.',
     'Tests price one curve and one parameter set; limits (no mean reversion, no volatility), degenerate swaps and vectors are not sampled.',
     ['frm/pricing_engine/hw1f.py'],
     ['frm/pricing_engine/hw1f.py:get_thetas', 'frm/pricing_engine/hw1f.py:calc_discount_factor_by_solving_ode_1', 'frm/pricing_engine/hw1f.py:price_zero_coupon_bond_option', 'frm/pricing_engine/hw1f.py:price_optionlet',
      'frm/pricing_engine/hw1f.py:price_swaption', 'frm/pricing_engine/hw1f.py:simulate'])

prop('C31', 'The caplet term structure is built on, and reprices, the quotes it is given',
     'For every curve, calendar, settlement, frequency and quote set, the optionlets are exactly those of the quoted caps and floors, each quote keeps its strike and price in either volatility quotation, and the bootstrapped term structure reprices every quote. '
     'Parameters are linear in time between the quotes, any schedule is priced off them optionlet by optionlet and to an equivalent flat volatility, and the result does not depend on how the quotes are presented.',
     ['inputs', 'configurations'], 'All combinations of dates, curves, frequencies, quote sets and beta modes; on each surface all schedules x strike containers x models; all row orders and layouts.',
     'The class had no test; repricing and coverage of every optionlet depend on calendar rolls and on the quote layout.',
     ['frm/term_structures/optionlet.py'],
     ['frm/term_structures/optionlet.py:Optionlet', 'frm/term_structures/optionlet.py:_solve_vol_n_atm', 'frm/term_structures/optionlet.py:_solve_sabr_params', 'frm/term_structures/optionlet.py:interpolate_sabr_term_structure'])

prop('C32', 'FX curve, spot, fixing and delivery dates are consistent however they are given',
     'Whichever of curve date, spot offset and spot date are given, the missing ones follow from the calendar and inconsistent ones are rejected, and each row of a term structure given by tenor, fixing date or delivery date gets the other two dates by market convention; currency pairs and settlement delays are read by the same conventions. '
     'The forward curve between pillars is linear in time, equals its pillars, does not depend on the order of rows or requests, and rejects dates outside.',
     ['inputs', 'configurations'], 'Every day of over a year x calendars x subsets of given dates x pairs; all assignments of date kinds to rows; all subsets of pillars and orders of requests.',
     'Holidays between the curve and spot date, month ends and mixed layouts interact; tests use ordinary days.',
     ['frm/utils/tenor.py', 'frm/term_structures/fx_helpers.py'],
     ['frm/utils/tenor.py:resolve_fx_curve_dates', 'frm/utils/tenor.py:calc_implied_business_day_offset', 'frm/utils/tenor.py:check_day_offset_consistency', 'frm/utils/tenor.py:get_fx_spot_day_offset',
      'frm/term_structures/fx_helpers.py:fx_term_structure_helper', 'frm/term_structures/fx_helpers.py:fx_forward_curve_helper', 'frm/term_structures/fx_helpers.py:interp_fx_forward_curve_df'])

prop('C33', 'Rate option quote columns are read as the strike or shift they spell',
     'Every spelling of a shift or strike column (basis points or per cent, signs, spaces, case) maps to the one canonical label of its exact value, in the order of the columns, with duplicate or missing at-the-money columns rejected and every other column left alone. '
     'The settlement date follows from the curve date and delay on the business calendar, a date before the curve date or no information at all is rejected.',
     ['inputs', 'configurations'], 'Every basis point and quarter point of a range x spellings, all subsets and orders of columns, every day x delays x calendars.',
     'A label that loses a basis point to floating point only shows for particular values.',
     ['frm/term_structures/interest_rate_option_helpers.py'],
     ['frm/term_structures/interest_rate_option_helpers.py:standardise_relative_quote_col_names', 'frm/term_structures/interest_rate_option_helpers.py:standardise_absolute_quote_col_names',
      'frm/term_structures/interest_rate_option_helpers.py:standardise_atmf_quote_col_names', 'frm/term_structures/interest_rate_option_helpers.py:settlement_date_helper'])

prop('C18', 'Bootstrapped cash and futures rates reprice on their contract dates',
     'Cash rates and exchange futures get the effective and maturity dates of their contract (overnight, tomorrow-next, settlement delay, business day roll, ticker month and year in any spelling) and the bootstrapped discount factors reprice every given rate or price, in whatever order, subset and representation they are given. '
     'The given tables are not modified, and rates whose start has no known discount factor are rejected.',
     ['inputs', 'configurations'], 'Every day of year end, Easter and leap day weeks x calendars x delays x subsets of tenors; every quarterly contract of 60 years x spellings; every order and subset of strips.',
     'A bootstrap that depends on row order or labels, or dates that go wrong over a holiday, agree with the one strip a test uses.',
     ['frm/term_structures/bootstrap_helpers.py'],
     ['frm/term_structures/bootstrap_helpers.py:cash_rates_quote_helper', 'frm/term_structures/bootstrap_helpers.py:bootstrap_cash_rates',
      'frm/term_structures/bootstrap_helpers.py:bootstrap_futures', 'frm/term_structures/bootstrap_helpers.py:futures_helper_asx_90day'])

prop('C34', 'Densities from a characteristic function and truncation ranges are exact',
     'The cosine method returns the density of the characteristic function and its distribution function to within one step, at every point asked for inside the range, on any step and number of terms. '
     'Truncation ranges are centred on the mean of the log price and have the asked number of exact standard deviations for every model parameter set, and invalid ranges, steps and points are rejected.',
     ['inputs'], 'Nine distributions with known density x steps x terms x evaluation points on and off the grid; parameter grids of both models against independently integrated moments.',
     'A wrong cumulant still gives a plausible range and only costs accuracy for some parameters; a wrong step only shows for points off the grid.',
     ['frm/pricing_engine/cosine_method_generic.py'],
     ['frm/pricing_engine/cosine_method_generic.py:cos_method', 'frm/pricing_engine/cosine_method_generic.py:get_cos_truncation_range'])

prop('C35', 'The date grid of FX exposures holds every date that matters',
     'The grid of exposure dates holds the curve date, one date per sampling period (or the pillar dates given), the last delivery, and for every delivery the last day it has value, or the day after, when asked for, '
     'whether or not payments have value on their value date. The dates are increasing and distinct and do not depend on the order, repetition or container of the deliveries.',
     ['inputs'], 'Every curve date of 14 months x 6 frequencies x 9 deliveries; every subset of deliveries x frequencies and pillar grids x all flags; every order of the deliveries x 7 containers.',
     'Month ends, weekends and which delivery comes last decide which dates drop out, and the flags act on every delivery, not only the last.',
     ['frm/utils/schedule.py'],
     ['frm/utils/schedule.py:create_date_grid_for_fx_exposures', 'frm/utils/schedule.py:generate_date_schedule'])

# MORE

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
        f.write(json.dumps(p) + '\n')
