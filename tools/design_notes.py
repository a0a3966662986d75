HEAD = '''# Model checking shasafoster/frm

`frm` is a single-threaded numerical Python library (schedules, day counts, calendars, curves, swaps, FX and rate option pricing, simulation).
It has no threads, no I/O protocol and no crash points, so the behaviours to explore exhaustively are *configurations x inputs x histories of
operations*, and the machinery is a stateless / explicit-state explorer that runs the **real code** of /repo:

* `mc/core.py` + `mc/main.py`: the explorer. A check module gives `units(tier)`, a partition of the complete bounded space, and
  `run_unit(unit, rec)`, which enumerates every case of the unit (nested products, all subsets, all operation sequences up to a depth; there is no
  sampling and no random choice), executes it on the real code and compares with an oracle. Units run in 8 forked workers, in a fixed order, each
  deterministic; a counterexample is saved as a replay file holding its unit and case (`bash run.sh <ID> --replay FILE` re-executes it).
  Units have a time limit (a hang is reported as a violation `no_termination`); a cut-off run is never reported as a pass.
* `mc/ref/*.py`: reference models in plain Python (integers, `datetime.date`, `math`, lists); none imports frm, pandas or numpy code under test. They
  are written from the published definitions (ISDA 2006, Hagan 2002, Garman-Kohlhagen, Clark ...), not from the code.
* Because the code itself is executed in every state, no abstraction has to be bound to it: each explored trace *is* an execution of the
  implementation, and `traces` in the evidence counts how many were compared against the reference model step by step.
* Isolation: `run.sh` points byte-code, numba, matplotlib and temp directories to a fresh scratch directory; /repo is only read (its tracked
  `__pycache__`/numba files stay untouched) and each run therefore compiles the current sources. `FRM_REPO=dir` runs the same check on a copy.
* Evidence: `evidence/<ID>.json` records measured counts (distinct states/inputs by hash, transitions = calls into the code, traces compared, distinct
  outcomes), bounds, wall time, sample cases, known findings seen. `bash run.sh --selftest` (setup_cmd) checks the reference models against
  hand-computed values.
* Tolerances: results are compared at about 1e-10..1e-12 relative (looser only where the documented solver tolerance or a finite difference is the
  specification), so that a re-association of floating point operations in a refactoring does not matter.
* No hooks were added to /repo. All repairs are separate `fix:` commits.

Levels: every claimed property is decided by exhaustive enumeration within the bounds stated below ("model checking" level, bounded); nothing is
claimed beyond them. Alphabets are boundary biased: month ends, leap days, century years, weekends, holidays and coincidences of those for
dates; zero, negative, at-the-money, deep in/out of the money, equal parameters for numbers; every subset of parameters as vectors for broadcasting.
'''

TECHNIQUE = {
    'C05': 'explicit-state exploration: all sequences of column operations up to the depth bound on real schedule objects; after each step the whole frame is compared with a model of the columns.',
    'C08': 'explicit-state exploration of all action histories (queries, value date / settings changes, sharing a schedule between legs) on real legs and swaps; each answer is compared with that of a fresh object in the same configuration.',
}
NOTES = {
    'C01': ('day counts recomputed from (y, m, d) integers per ISDA 2006 s4.16 and the ISDA 30/360 workbook', 'the tests hold about a dozen pairs per basis; here every pair of the windows is executed'),
    'C02': ('the scalar answers of the code itself plus the reference day count; inputs are compared before and after', ''),
    'C03': ('`mc/ref/sched.py`: k-th grid point computed directly from the anchor (never step by step), rolled with an independent calendar', ''),
    'C04': ('`mc/ref/sched.py` case analysis over both generation directions', 'the two stubs and two dates interact in over a dozen branches of make_schedule'),
    'C05': ('business day stepping one calendar day at a time', ''),
    'C06': ('conservation of principal and per-row notional computed by hand from the exchange convention', ''),
    'C07': ('`mc/ref/legs.py`: cashflows, pv, accrued, buckets by loops over rows', ''),
    'C08': ('a fresh object per (action, configuration)', 'stale columns, shared frames and solver side effects only show after particular histories'),
    'C09': ('grammar of tenors written out: every synonym x case x spacing', ''),
    'C10': ('set algebra of the holiday dictionaries and weekends', ''),
    'C11': ('table of accepted spellings per member', ''),
    'C12': ('closed-form compounding in plain floats', ''),
    'C13': ('`mc/ref/curves.py`: own interpolation (log-linear; scipy splines evaluated from an independent construction)', ''),
    'C14': ('no-arbitrage identity between discount factors, loops over the days of the period for the averages', ''),
    'C15': ('the curve built from dates and discount factors', ''),
    'C16': ('loops over calendar days with last-published fixing look-up', ''),
    'C17': ('day-by-day accrual across the curve date', ''),
    'C19': ('closed forms with math.erf, limits at expiry and zero vol, derivatives in closed form', ''),
    'C20': ('repricing with the reference closed form', 'solver failure depends on moneyness, expiry, guess and vol together'),
    'C21': ('closed form with math.erf', ''),
    'C22': ('the delta recomputed from the returned strike by its definition with math.erf; maximum premium-adjusted call delta by bisection', ''),
    'C23': ('Hagan (2.17/2.18) in plain floats with a series at the money; smiles generated by it', 'Free-beta fits at short expiries occasionally stop at a local minimum: outside the alphabet'),
    'C24': ('Lewis integral with Gauss-Legendre quadrature; its characteristic function checked against the Riccati differential equations at start-up', 'every finite spot/expiry/correlation corner, all five methods against one independent integral'),
    'C25': ('shape, seed and pairing rules; covariance from basis vectors instead of samples', ''),
    'C26': ('the recursion of each scheme, walked over the tree of all shock sequences', 'the shock tree is exhaustive: every path of the simulator up to the depth is an explored state'),
    'C27': ('total variance sigma^2 t carried between the two expiries, per scalar', ''),
    'C28': ('the list of documented spellings and the arithmetic of strategies', ''),
    'C29': ('delta definitions of C22 recomputed at each quote strike, linear variance between pillars, and the fixings of the day-by-day calendar', 'the spot delta convention of a day between two pillars of different convention follows the later pillar (documented simplification)'),
    'C30': ('bond prices and theta from the spline of the pillars alone; options by closed form and, for swaptions, by Gauss-Legendre quadrature over the exercised states under the forward measure', 'simulated zero rates at t=0 are 0/0 and not claimed'),
    'C31': ('optionlet schedules generated by `mc/ref/sched.py`, Black / Bachelier / Hagan formulas of C19 and C23, quotes generated by a known smile', '`process_capfloor_quotes` (interest_rate_option_helpers) is an abandoned predecessor of the class which cannot run and is not claimed'),
    'C32': ('calendar stepping one day at a time, tenors from the anchor', 'forward-curve pillars that fall on the same date (ON and TN on a Friday) raise in the interpolation: which of the two rates should win is not specified, so it is outside the claim'),
    'C33': ('exact decimals', ''),
    'C34': ('closed-form densities; first two cumulants of the log price from the moment equations of the variance process, integrated by Gauss-Legendre', 'the distribution function is a rectangle rule: claimed to one step only'),
    'C35': ('set arithmetic on dates stepped by the calendar of `mc/ref/sched.py`', 'when both the last day of value and the day after are asked for the code adds only the first: at least that one is claimed'),
    'C18': ('dates.py/sched.py business day roll and the exact third-Friday/second-Friday contract calendar; repricing identity of each instrument', 'the month_year column is not supported by the code and not claimed; single digit year codes are those of 2020-2029; the bootstrap rejects a rate whose settlement date has no known discount factor'),
}
SEED_HEAD = '''Each folder of `seeded/` holds a change written from the property text, confirmed to pass the 279 stable tests and to fail its demonstration.
Result of running the property's quick check on a scratch copy with the change applied:
'''
CAUGHT = {}
TAIL = '''## False alarms corrected while building

* Schedules: a LONG stub on a term that is an exact number of periods has no stub to lengthen: left unspecified (C03/C04).
* Implied vols: accuracy demanded is the documented 0.001% of the price, and only where the option has time value above rounding (C20/C21).
* Target solves outside the documented bracket (-10%..300%) return NaN by documentation: not an alarm (C07).
* Leg totals over a discount curve that ends before the last payment: the original code dropped the unpriced payments silently (pandas sum skips NaN); fixed, and C07 requires such totals to be NaN or an error, never a partial value.
* Par solve of floating legs: their forward fixings are an unimplemented TODO (NaN) and are outside C07/C08.
'''
