From c808d5fdc8907ab548ea001dffdc5e115be0082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 001/123] fix: 30E/360 ISDA day count dropped all but the first
 period when is_end_date_on_termination was a scalar

---
 frm/utils/daycount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/daycount.py b/frm/utils/daycount.py
index b63cfaa..65bce70 100644
--- a/frm/utils/daycount.py
+++ b/frm/utils/daycount.py
@@ -108,7 +108,7 @@ def day_count(start_date,
             N = len(end_dti)
             is_end_date_on_termination = [False if i < (N-1)  else True for i in range(N)]
         else:
-            is_end_date_on_termination = np.atleast_1d(is_end_date_on_termination)
+            is_end_date_on_termination = np.broadcast_to(np.atleast_1d(is_end_date_on_termination), len(end_dti))
 
         result = np.array([_apply_logic(start, end, flag) for start, end, flag in zip(start_dti, end_dti, is_end_date_on_termination)])               
     else:
-- 
2.43.0


From 9b5b233e7c873029f44b755adeba5cc7de9399cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 002/123] fix: RollConv.UNADJUSTED raised ValueError in
 schedule generation and payment dates

---
 frm/utils/schedule.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 08f5355..a450b1e 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -88,7 +88,14 @@ class BaseSchedule:
 
         # Apply np.busday_offset only to non-NaT dates
         adjusted_dates = np.empty_like(dates, dtype='datetime64[D]')
-        adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
+        if self.roll_conv != RollConv.UNADJUSTED:
+            adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
+        elif payment_delay == 0:
+            adjusted_dates[valid_dates_mask] = valid_dates
+        else:
+            # Count business days from the unadjusted date itself
+            roll = 'preceding' if payment_delay > 0 else 'following'
+            adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=roll, busdaycal=self.cal)
         adjusted_dates[~valid_dates_mask] = 'NaT'
 
         # Update DataFrame
@@ -460,6 +467,8 @@ def generate_date_schedule(
     """
     
     def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+        if roll_conv == RollConv.UNADJUSTED.value:
+            return pd_timestamp
         np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
         rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
         return pd.Timestamp(rolled_date_np)
-- 
2.43.0


From 89e4398cb92f83cf99bd7293d116b1751db5e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 003/123] fix: DayRoll.EOM raised TypeError in schedule
 generation

---
 frm/utils/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index a450b1e..9eb8a94 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -477,6 +477,8 @@ def generate_date_schedule(
                                 specific_day_roll: DayRoll) -> pd.Timestamp:
         if specific_day_roll == DayRoll.UNADJUSTED:
             return pd_timestamp
+        elif specific_day_roll == DayRoll.EOM:
+            return pd_timestamp + pd.offsets.MonthEnd(0)
         else:
             try:
                 return pd_timestamp.replace(day=specific_day_roll.value)
-- 
2.43.0


From d41c94d1f9a0d09da550b7125435f9c94abe9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 004/123] fix: schedule generation created zero-length,
 duplicate or spurious stub periods when grid dates roll off non-business days

---
 frm/utils/schedule.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 9eb8a94..54fcf7a 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -508,30 +508,34 @@ def generate_date_schedule(
         end_date_in_schedule = end_date
 
     if direction == 'forward':
-        current_date = apply_specific_day_roll(start_date + freq.date_offset, day_roll)
-        current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+        unrolled_date = apply_specific_day_roll(start_date + freq.date_offset, day_roll)
+        current_date = busday_offset_timestamp(unrolled_date, 0, roll_conv.value, cal)
         
-        while current_date < end_date: 
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+        while unrolled_date < end_date and current_date < min(end_date, end_date_in_schedule):
+            # Skip a date which rolls onto the previous date, it would create a zero-length period
+            if current_date > (start_dates[-1] if start_dates else max(start_date, start_date_in_schedule)):
+                start_dates.append(current_date)
+                end_dates.append(current_date)
             current_date = start_date + freq.multiply_date_offset(i+1)
-            current_date = apply_specific_day_roll(current_date, day_roll)
-            current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+            unrolled_date = apply_specific_day_roll(current_date, day_roll)
+            current_date = busday_offset_timestamp(unrolled_date, 0, roll_conv.value, cal)
             i += 1
 
         start_dates = [start_date_in_schedule] + start_dates
         end_dates.append(end_date_in_schedule)
         
     elif direction == 'backward':
-        current_date = apply_specific_day_roll(end_date - freq.date_offset, day_roll)
-        current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+        unrolled_date = apply_specific_day_roll(end_date - freq.date_offset, day_roll)
+        current_date = busday_offset_timestamp(unrolled_date, 0, roll_conv.value, cal)
         
-        while current_date > start_date:   
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+        while unrolled_date > start_date and current_date > max(start_date, start_date_in_schedule):
+            # Skip a date which rolls onto the following date, it would create a zero-length period
+            if current_date < (start_dates[-1] if start_dates else min(end_date, end_date_in_schedule)):
+                start_dates.append(current_date)
+                end_dates.append(current_date)
             current_date = end_date - freq.multiply_date_offset(i+1)
-            current_date = apply_specific_day_roll(current_date, day_roll)
-            current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
+            unrolled_date = apply_specific_day_roll(current_date, day_roll)
+            current_date = busday_offset_timestamp(unrolled_date, 0, roll_conv.value, cal)
             i +=1
 
         start_dates.append(start_date_in_schedule)
-- 
2.43.0


From cdd26d2b6f90db13790329d167875040f56d76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 005/123] fix: long stub on a term shorter than one period
 raised ValueError

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 54fcf7a..60905a9 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -299,12 +299,12 @@ def make_schedule(
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             elif first_stub == Stub.NONE and last_stub != Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub in [Stub.SHORT, Stub.LONG] and last_stub in [Stub.SHORT, Stub.LONG]:
-- 
2.43.0


From 9d3309a2b2162e183d3a805a3e594917ea53fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 006/123] fix: first_period_end / last_period_start inside a
 term shorter than one period raised IndexError

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 60905a9..7c69f56 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -338,7 +338,7 @@ def make_schedule(
                 elif first_period_end == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif first_period_end == d2_backward[1]:
+                elif len(d2_backward) > 1 and first_period_end == d2_backward[1]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -353,7 +353,7 @@ def make_schedule(
                 elif last_period_start == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif last_period_start == d1_forward[-2]:
+                elif len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
-- 
2.43.0


From 3045a86b0e9db9517dcec148bc3de59a0c4a7298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 007/123] fix: schedules with both first_period_end and
 last_period_start raised AssertionError or ignored one of them

---
 frm/utils/schedule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 7c69f56..25ce890 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -360,6 +360,11 @@ def make_schedule(
                     # Need to construct schedule using last_period_start
                     last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
 
+            # If both are specified but no single generated schedule has both, generate between first_period_end and last_period_start
+            if first_period_end is not None and last_period_start is not None and (len(direction) < 2 or len(set(direction)) > 1):
+                first_stub = Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
+                last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
+
             # Step 2c : Set default stub values to:
             #              (i) NONE if other stub is SHORT/LONG
             #              (ii) SHORT if other stub is NONE
-- 
2.43.0


From 5ad9cef0d64e9aa8e2f57cec673c0277a99ac7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 008/123] fix: explicitly specifying both first_stub and
 last_stub always raised 'Unexpected logic branch'

---
 frm/utils/schedule.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 25ce890..7e2eb53 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -294,8 +294,6 @@ def make_schedule(
                 first_stub  = Stub.NONE
             elif last_stub == Stub.DEFAULT:
                 last_stub = Stub.NONE
-            else:
-                raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-- 
2.43.0


From 733326591d9fb0b8ab983fa910859e47df2d883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 009/123] fix: roll_user_specified_dates did not roll zero
 coupon dates, first_period_end or last_period_start

---
 frm/utils/schedule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 7e2eb53..2bf41a4 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -420,6 +420,11 @@ def make_schedule(
                 else:
                     raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
+    if roll_user_specified_dates and roll_conv != RollConv.UNADJUSTED:
+        # The generated dates are already rolled (rolling is idempotent), this rolls the user specified dates
+        d1, d2 = [list(pd.DatetimeIndex(np.busday_offset(np.array(dates, dtype='datetime64[D]'), offsets=0, roll=roll_conv.value, busdaycal=cal)))
+                  for dates in (d1, d2)]
+
     schedule = pd.DataFrame({'period_start': d1, 'period_end': d2})
     return schedule
 
-- 
2.43.0


From 6e2528f716bbf5aba584e9766b916f94306986e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 010/123] fix: per-period notional amounts were always rejected
 as having an invalid shape

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 2bf41a4..3622537 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -152,9 +152,9 @@ class NotionalSchedule(BaseSchedule):
         if notional_amount.shape == (1,):
             self.df['notional'] = notional_amount[0]
             self.df['notional_payment'] = 0
-        elif notional_amount.shape == self.df.shape[0]:
+        elif notional_amount.shape == (self.df.shape[0],):
             self.df['notional'] = notional_amount
-            self.df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
+            self.df['notional_payment'] = np.append(notional_amount[:-1] - notional_amount[1:], 0)
         else:
             raise ValueError("Invalid notional_amount shape")
 
-- 
2.43.0


From 30c98823f87c32da7da8ec3d1e7759e511c3ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 011/123] fix: ZeroCurve modified the caller's pillar_df, so
 the same quotes could not be used to build a second curve

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ebe7abd..90477c7 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -34,7 +34,7 @@ class ZeroCurve:
     
     def __post_init__(self, compounding_freq):
         
-        pillar_df = self.pillar_df
+        pillar_df = self.pillar_df.copy() # don't modify the caller's DataFrame
         if compounding_freq is None and 'zero_rate' in pillar_df.columns:
             raise ValueError("'compounding_freq' must be specified zero rates specified in 'pillar_df'")
             
-- 
2.43.0


From b971bcf748868d4b6011932bf27d25678dcf6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 012/123] fix: looking up a linear ZeroCurve by years raised
 ValueError (enum compared to str)

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 90477c7..8d518f7 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -328,7 +328,7 @@ class ZeroCurve:
             raise ValueError('Only one input among days, date, or years is allowed.')            
         
         if years is not None:
-            if self.interp_method == 'linear_on_ln_discount':
+            if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
                 cczr = -1 * ln_df_interp / years
                 discount_factor = np.exp(ln_df_interp)
-- 
2.43.0


From 226d37406b742da57b81decbbde43fc95e6c1988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 013/123] fix: ZeroCurve construction failed when the first
 pillar is the curve date

---
 frm/term_structures/zero_curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 8d518f7..aba3442 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -93,6 +93,8 @@ class ZeroCurve:
             pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
+            # A discount factor on the curve date carries no rate information, that pillar point is added below
+            pillar_df = pillar_df[pillar_df['years'] != 0].reset_index(drop=True)
             # Add continuously compounded interest rate for internal use
             pillar_df['cczr'] = -1 * np.log(pillar_df['discount_factor']) / pillar_df['years']
 
@@ -132,6 +134,8 @@ class ZeroCurve:
 
         else:
             match self.interp_method:
+                case ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+                    pass
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
                     x = pillar_df['years'].to_list()
                     y = np.log(pillar_df['discount_factor']).to_list()
-- 
2.43.0


From 6e51c592b5d515f86265a6efd69f7b822b35eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 014/123] fix: continuously compounded pillar rates were
 inconsistent with the discount factors for simple zero rates

---
 frm/term_structures/zero_curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index aba3442..de4fad6 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -91,6 +91,9 @@ class ZeroCurve:
                 years=pillar_df['years'],
                 zero_rate=pillar_df['zero_rate'])
             pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
+            # The simple to continuous conversion depends on the term of the rate
+            mask = pillar_df['years'] != 0
+            pillar_df.loc[mask,'cczr'] = -1 * np.log(pillar_df['discount_factor'][mask]) / pillar_df['years'][mask]
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # A discount factor on the curve date carries no rate information, that pillar point is added below
-- 
2.43.0


From 8b0a2e671bb7f8d4edb8fc705d0fea90f396935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 015/123] fix: ZeroCurve built from years pillars dropped the
 dates in its last, incomplete year

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index de4fad6..0b6af5c 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -162,8 +162,8 @@ class ZeroCurve:
         if 'date' in self.pillar_df.columns:
             max_date = max(self.pillar_df['date'])
         else:
-            max_years = int(max(self.pillar_df['years']))
-            max_date = self.curve_date + relativedelta(years=max_years)
+            max_years = max(self.pillar_df['years'])
+            max_date = self.curve_date + relativedelta(years=int(max_years))
             while year_frac(self.curve_date, max_date, self.day_count_basis) < max_years:
                 max_date += dt.timedelta(days=1)
                 
-- 
2.43.0


From 55b5cc98c35158d064598bcfa7a10931a24598ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 016/123] fix: looking up a ZeroCurve by a vector of days
 raised TypeError

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 0b6af5c..295bdca 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -353,7 +353,7 @@ class ZeroCurve:
             return pd.DataFrame({'years': years, 'cczr': cczr, 'discount_factor': discount_factor})
         else:
             if days is not None:
-                dates = self.curve_date + dt.timedelta(days=days)
+                dates = self.curve_date + pd.to_timedelta(days, unit='D')
 
             dates = pd.to_datetime(dates)
             if not(isinstance(dates, pd.DatetimeIndex)):
-- 
2.43.0


From a090605e869a7448cb26fb00f55275319006ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 017/123] fix: ZeroCurve dropped out-of-range dates from the
 result instead of returning NaN / the flat extrapolated value in their place

---
 frm/term_structures/zero_curve.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 295bdca..498822c 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -373,31 +373,30 @@ class ZeroCurve:
             # Check if any of the dates are outside the available data
             min_date = self.daily_df['date'].min()
             below_range = dates < min_date
-            dates_below = []
+            cleaned_dates = pd.Series(dates)
             if any(below_range):
                 bound_date = self.daily_df['date'].min()
                 for i,date in enumerate(dates[below_range]):
                     print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_below.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_below.append(bound_date)
+                cleaned_dates[below_range] = pd.NaT if self.extrap_method == ZeroCurveExtrapMethod.NONE else bound_date
             
             max_date = self.daily_df['date'].max()
             above_range = dates > max_date
-            dates_above = []
             if any(above_range):
                 bound_date = self.daily_df['date'].max()
                 for i,date in enumerate(dates[above_range]):
                     print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_above.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_above.append(bound_date)
-          
-            in_range = np.logical_and(np.logical_not(below_range),np.logical_not(above_range))
-            cleaned_dates = dates_below + list(dates[in_range].values) + dates_above
-            df = pd.merge(pd.DataFrame(data=cleaned_dates, columns=['date']), self.daily_df, left_on='date',right_on='date', how='left')
+                cleaned_dates[above_range] = pd.NaT if self.extrap_method == ZeroCurveExtrapMethod.NONE else bound_date
+
+            df = pd.merge(pd.DataFrame({'date': cleaned_dates.values}), self.daily_df, left_on='date',right_on='date', how='left')
+
+            if any(above_range) and self.extrap_method == ZeroCurveExtrapMethod.FLAT:
+                # Flat on the zero rate
+                df.loc[above_range,'date'] = dates[above_range]
+                df.loc[above_range,'days'] = np.atleast_1d(day_count(self.curve_date, dates[above_range], self.day_count_basis))
+                df.loc[above_range,'years'] = np.atleast_1d(year_frac(self.curve_date, dates[above_range], self.day_count_basis))
+                df.loc[above_range,'discount_factor'] = np.exp(-1 * df['cczr'][above_range] * df['years'][above_range])
+
             return df    
 
        
-- 
2.43.0


From 8d603a48e6daece1640ee5711a82f51efef39b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 018/123] fix: ZeroCurve.flat_shift always raised and dropped
 the interpolation settings

---
 frm/term_structures/zero_curve.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 498822c..4372b9b 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -202,16 +202,17 @@ class ZeroCurve:
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-        dates = list(self.pillar_df.keys())
-        years = year_frac(self.curve_date, dates, self.day_count_basis)
-        shifted = - np.log(list(self.pillar_df.values)) / years + basis_points / 10000
-        shifted = pd.DataFrame({'date': dates,
-                                'years': years,
-                                'discount_factor':np.exp(-shifted * years)})
-        shifted.loc[0,'discount_factor'] = 1.0 # set the discount factor on the curve date to be 1.0
+        pillar_df = self.pillar_df[self.pillar_df['years'] > 0]
+        term_column_name = 'date' if 'date' in pillar_df.columns else 'years'
+        shifted = pillar_df['cczr'] + basis_points / 10000
+        shifted = pd.DataFrame({term_column_name: pillar_df[term_column_name],
+                                'discount_factor': np.exp(-shifted * pillar_df['years'])})
         return ZeroCurve(curve_date=self.curve_date, 
                          pillar_df=shifted,
-                         day_count_basis=self.day_count_basis)
+                         day_count_basis=self.day_count_basis,
+                         cal=self.cal,
+                         interp_method=self.interp_method,
+                         extrap_method=self.extrap_method)
                    
     def get_forward_rates(self,
                           period_start: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
-- 
2.43.0


From 82b462cee6f16a0e4080192fc560c8b7624464da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 019/123] fix: instantaneous forward rate of a linear ZeroCurve
 was None

---
 frm/term_structures/zero_curve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 4372b9b..06deccb 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -298,6 +298,11 @@ class ZeroCurve:
         elif self.interp_method == ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
             ln_discount_1st_deriv = splev(x=years, tck=self.cubic_spline_definition, der=1)
             return -ln_discount_1st_deriv
+        elif self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+            # Piecewise constant, between pillar points
+            x, y = self.pillar_df['years'].values, np.log(self.pillar_df['discount_factor'].values)
+            i = np.clip(np.searchsorted(x, years, side='right'), 1, len(x) - 1)
+            return -1 * (y[i] - y[i-1]) / (x[i] - x[i-1])
 
 
     def get_discount_factors(self,
-- 
2.43.0


From 70eb64bac20fdf6da42a0116e0c5c42d24cf5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 020/123] fix: frm.instruments could not be imported (helper no
 longer exists)

---
 frm/instruments/leg.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e220c1..1e86bd2 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -12,7 +12,6 @@ from frm.term_structures.swap_curve import TermSwapCurve, RFRSwapCurve
 from frm.utils import CouponSchedule, year_frac, MarketDataNotAvailableError
 from frm.enums import CompoundingFreq, TermRate, RFRFixingCalcMethod, DayCountBasis, PayRcv
 from frm.term_structures.zero_curve import ZeroCurve
-from frm.term_structures.zero_curve_helpers import discount_factor_from_zero_rate
 from scipy.optimize import root_scalar
 
 
@@ -393,10 +392,9 @@ class ZerocouponLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['zero_rate'] = coupon_override
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
@@ -408,10 +406,9 @@ class ZerocouponLeg(Leg):
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         return accrued_interest
 
-- 
2.43.0


From cf2b84ae7ec382ddc8876e2b47f51114ae43582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 021/123] fix: pay/receive sign was applied twice to coupons (a
 pay leg received its coupons)

---
 frm/instruments/leg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e86bd2..07a0602 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -264,7 +264,7 @@ class FixedLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['fixed_rate'] = coupon_override
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -364,7 +364,7 @@ class FloatRFRLeg(Leg):
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
-        accrued_interest = (self.pay_rcv.multiplier * self.schedule.df['notional'][current_period_idxs]
+        accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['coupon_rate'][current_period_idxs]
                             * accrued_period_yearfrac).sum()
         return accrued_interest
@@ -395,7 +395,7 @@ class ZerocouponLeg(Leg):
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
             zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -409,7 +409,7 @@ class ZerocouponLeg(Leg):
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
             zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+        accrued_interest = self.schedule.df['notional'] * multiplier
         return accrued_interest
 
     def _get_solved_field_name(self):
-- 
2.43.0


From b3560712208d0c09d7023b9df670def4aaaa3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 022/123] fix: non-current split counted notional payments
 twice and omitted the coupons

---
 frm/instruments/leg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 07a0602..7980ff8 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -208,7 +208,7 @@ class Leg(ABC):
         else:
             current_period_idxs = self.schedule.df['coupon_payment_date'] < value_date_plus_one_year
         current += self.schedule.df['coupon_payment_pv'][current_period_idxs].sum()
-        non_current += self.schedule.df['notional_payment_pv'][~current_period_idxs].sum()
+        non_current += self.schedule.df['coupon_payment_pv'][~current_period_idxs].sum()
 
         return current, non_current
 
-- 
2.43.0


From 25c21e6e2415626ee0a9244098673f246ae82415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 023/123] fix: accrued interest added every coupon of the leg
 as an unsettled cashflow, and depended on which methods were called before

---
 frm/instruments/leg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 7980ff8..e3fe12a 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -145,10 +145,11 @@ class Leg(ABC):
             mask = (self.schedule.df['coupon_payment_date'] > frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] <= frm.utils.VALUE_DATE)
         if mask.sum() > 1:
             warnings.warn('Multiple periods found for unsettled cashflow calculation.')
-        unsettled_cashflows = self.schedule.df['coupon_payment'].sum()
+        self.calc_coupon_payment()
+        unsettled_cashflows = self.schedule.df['coupon_payment'][mask].sum()
 
         if frm.utils.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW:
-            if unsettled_cashflows > 0:
+            if unsettled_cashflows != 0:
                 return unsettled_cashflows
             else:
                 return accrued_interest
-- 
2.43.0


From b113f860843665fdea6cb31ce810f1ec3385c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 024/123] fix: accrued interest raised IndexError when the
 value date is before or after the leg's periods

---
 frm/instruments/leg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index e3fe12a..4a9fe60 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -273,6 +273,8 @@ class FixedLeg(Leg):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        if not current_period_idxs.any():
+            return 0.0
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0],
                                          frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
@@ -319,6 +321,8 @@ class FloatTermLeg(Leg):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        if not current_period_idxs.any():
+            return 0.0
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['spread'][current_period_idxs]
@@ -364,6 +368,8 @@ class FloatRFRLeg(Leg):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        if not current_period_idxs.any():
+            return 0.0
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['coupon_rate'][current_period_idxs]
@@ -405,6 +411,8 @@ class ZerocouponLeg(Leg):
                     self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        if not current_period_idxs.any():
+            return 0.0
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
-- 
2.43.0


From 4edb5ba66ae8999c8ae62e16b949644e10221c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 025/123] fix: zero coupon accrued interest was a Series over
 all periods instead of the current period's amount

---
 frm/instruments/leg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 4a9fe60..d7a3fde 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -417,8 +417,8 @@ class ZerocouponLeg(Leg):
                                          day_count_basis=self.day_count_basis)
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        accrued_interest = self.schedule.df['notional'] * multiplier
+            zero_rate=self.schedule.df['zero_rate'][current_period_idxs])) - 1.0
+        accrued_interest = (self.schedule.df['notional'][current_period_idxs] * multiplier).sum()
         return accrued_interest
 
     def _get_solved_field_name(self):
-- 
2.43.0


From 003b627b7cab13d10cb70b0e1624256cdeccf22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 026/123] fix: legs built from the same schedule object
 corrupted each other

---
 frm/instruments/leg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index d7a3fde..b6370d7 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from abc import ABC, abstractmethod
+import copy
 from dataclasses import dataclass
 import numpy as np
 import os
@@ -46,6 +47,7 @@ class Leg(ABC):
     settlement_ccy: str=None
 
     def __post_init__(self):
+        self.schedule = copy.deepcopy(self.schedule) # columns are added to the schedule, don't modify the caller's object
         self.schedule.df.loc[:,['notional', 'notional_payment']] = self.schedule.df[['notional', 'notional_payment']] * self.pay_rcv.multiplier
         self.schedule.add_period_daycount(day_count_basis=self.day_count_basis)
         self.schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
-- 
2.43.0


From 4cac72b14159593b76b4e1fd1eccbf2e78575b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 027/123] fix: target_solve_swap ignored the value of the other
 leg

---
 frm/instruments/swap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/swap.py b/frm/instruments/swap.py
index 9e38984..b9ccf15 100644
--- a/frm/instruments/swap.py
+++ b/frm/instruments/swap.py
@@ -96,9 +96,9 @@ class Swap(ABC):
 
     def target_solve_swap(self, target_pv: float, leg_number: int):
         if leg_number == 1:
-            return self.leg1.target_solve(target_pv)
+            return self.leg1.target_solve(target_pv - self.leg2.calc_dirty_pv())
         elif leg_number == 2:
-            return self.leg2.target_solve(target_pv)
+            return self.leg2.target_solve(target_pv - self.leg1.calc_dirty_pv())
         else:
             raise ValueError('leg_number must be 1 or 2')
 
-- 
2.43.0


From fc7caf1ff211e204e2fbabb1103af26be062fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 028/123] fix: add_period_yearfrac raised IndexError if called
 before add_period_daycount on a bare schedule

---
 frm/utils/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 3622537..0ec7e49 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -130,7 +130,7 @@ class BaseSchedule:
         mask = np.logical_and(self.df['period_start'].notnull(), self.df['period_end'].notnull())
         years = np.full(self.df.shape[0], np.nan)
         years[mask] = year_frac(self.df['period_start'][mask], self.df['period_end'][mask], day_count_basis)
-        self.df.insert(loc=col_index + 2, column='period_yearfrac', value=years)
+        self.df.insert(loc=col_index + 1 + ('period_daycount' in self.df.columns), column='period_yearfrac', value=years)
 
 
 @dataclass
-- 
2.43.0


From bb203d57d0f4e365c65412520bcedd9a7efc8ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 029/123] fix: TermSwapCurve replaced forward fixings by stale
 historical ones and left historical periods NaN

---
 frm/term_structures/swap_curve.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 1debf8b..70b6410 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -38,17 +38,19 @@ class TermSwapCurve:
         #   Would be nice to have public API to call for data whenever needed for examples.
         # Get forward fixings
         mask_future = period_start >= self.zero_curve.curve_date
-        forward_fixings = self.zero_curve.get_forward_rates(
-            period_start=period_start[mask_future],
-            period_end=period_end[mask_future],
-            forward_rate_type=cpn_calc_method)
-        fixings[mask_future] = forward_fixings
+        if mask_future.any():
+            forward_fixings = self.zero_curve.get_forward_rates(
+                period_start=period_start[mask_future],
+                period_end=period_end[mask_future],
+                forward_rate_type=cpn_calc_method)
+            fixings[mask_future] = forward_fixings
 
         # Get historical fixings
-        mask_historical = period_start >= self.zero_curve.curve_date
-        historical_fixings = self.historical_fixings.index_historical_fixings(
-            fixing_dates=period_start[mask_historical])
-        fixings[mask_historical] = historical_fixings
+        mask_historical = period_start < self.zero_curve.curve_date
+        if mask_historical.any():
+            historical_fixings = self.historical_fixings.index_historical_fixings(
+                fixing_dates=period_start[mask_historical])
+            fixings[mask_historical] = historical_fixings
 
         return fixings
 
-- 
2.43.0


From 73dff701123be80d3db54bb11ee1a046a51eae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 030/123] fix: RFR coupon rates failed for periods ending on a
 Monday and ignored days before the first fixing of the period

---
 frm/term_structures/historical_swap_index_fixings.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 63fbae8..b36e746 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -37,13 +37,13 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        mask = np.logical_and(self.fixings['date'] >= observations_start.min(),
-                              self.fixings['date'] <= observations_end.max())
+        mask = self.fixings['date'] <= observations_end.max()
         applicable_fixings = self.fixings.loc[mask,:].sort_values('date', ascending=True).reset_index(drop=True)
 
-
-        if observations_end.max() > applicable_fixings['date'].max() \
-            or observations_end.min() < applicable_fixings['date'].min():
+        # Non-business days use the fixing of the previous business day
+        last_observation = pd.Timestamp(np.busday_offset(np.datetime64(observations_end.max(), 'D'), 0, roll='backward'))
+        if last_observation > applicable_fixings['date'].max() \
+            or observations_start.min() < applicable_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
         coupon_rates = [self._calculate_coupon_rate(s, e, applicable_fixings, cpn_calc_method)
@@ -64,7 +64,7 @@ class RFRFixings(HistoricalSwapIndexFixings):
             return periods_ois_fixings['fixing'].mean()
 
         date_range = pd.date_range(start=observation_start, end=observation_end, freq='D')
-        df = pd.merge_asof(pd.DataFrame({'date': date_range}), periods_ois_fixings, on='date', direction='backward')
+        df = pd.merge_asof(pd.DataFrame({'date': date_range}), fixings, on='date', direction='backward')
 
         if method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
             df['daily_interest'] = 1 + df['fixing'] / self.day_count_basis.days_per_year
-- 
2.43.0


From 08c44011c65adca48709123be5cbce8263a4bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 031/123] fix: cross-over period rates of averaging coupons
 were compounded

---
 frm/term_structures/swap_curve.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 70b6410..a47ea2c 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -120,6 +120,17 @@ class RFRSwapCurve:
             period_end=crossover_period_end,
             forward_rate_type=cpn_calc_method)
 
+        if cpn_calc_method == RFRFixingCalcMethod.WEIGHTED_AVERAGE:
+            return (historical_year_frac * historical_component + future_year_frac * future_component) \
+                   / (historical_year_frac + future_year_frac)
+        elif cpn_calc_method == RFRFixingCalcMethod.SIMPLE_AVERAGE:
+            # Weighted by number of fixings
+            start, mid, end = [dti.to_numpy(dtype='datetime64[D]') for dti in
+                               (pd.DatetimeIndex(crossover_period_start), curve_datetime_index, pd.DatetimeIndex(crossover_period_end))]
+            historical_count = np.busday_count(start, mid, busdaycal=self.zero_curve.cal)
+            future_count = np.busday_count(mid, end, busdaycal=self.zero_curve.cal)
+            return (historical_count * historical_component + future_count * future_component) / (historical_count + future_count)
+
         crossover_rate = (historical_year_frac * historical_component
                           + (1 + historical_year_frac * historical_component) * future_year_frac * future_component) \
                          / (historical_year_frac + future_year_frac)
-- 
2.43.0


From aea7a9027cfe95fd202c0b15fa4925462caeb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 032/123] fix: RFR coupon rate was silently zero when no
 fixings are available on or before the period

---
 frm/term_structures/historical_swap_index_fixings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index b36e746..4c1e674 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -42,7 +42,8 @@ class RFRFixings(HistoricalSwapIndexFixings):
 
         # Non-business days use the fixing of the previous business day
         last_observation = pd.Timestamp(np.busday_offset(np.datetime64(observations_end.max(), 'D'), 0, roll='backward'))
-        if last_observation > applicable_fixings['date'].max() \
+        if applicable_fixings.empty \
+            or last_observation > applicable_fixings['date'].max() \
             or observations_start.min() < applicable_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
-- 
2.43.0


From bb1496981ab667cdd0ad3ebdaf155c767778c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 033/123] fix: resolve_fx_curve_dates raised TypeError when
 curve date, spot date and spot offset were all given

---
 frm/utils/tenor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 368d590..72679fd 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -127,7 +127,7 @@ def resolve_fx_curve_dates(
 
     if curve_date is not None and spot_date is not None and spot_offset is not None:
         # All three dates are specified, check for consistency
-        check_day_offset_consistency(date=curve_date, offset_date=spot_date, offset=spot_offset, busdaycal=cal)
+        check_day_offset_consistency(date=curve_date, offset_date=spot_date, day_offset=spot_offset, busdaycal=cal)
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-- 
2.43.0


From 7e7560691434b5162e42b0ce312120f168982465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 034/123] fix: implied business day offset was always zero or
 an AssertionError (inverted date order)

---
 frm/utils/tenor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 72679fd..4bb22ba 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -107,14 +107,14 @@ def calc_implied_business_day_offset(
         date: pd.Timestamp,
         offset_date: pd.Timestamp,
         cal: np.busdaycalendar) -> int:
-    assert date >= offset_date, "date must be greater than or equal to offset_date"
+    assert offset_date >= date, "offset_date must be greater than or equal to date"
 
     offset = 0
     while date < offset_date:
         offset += 1
         date += pd.DateOffset(days=1)
         date_np = date.to_numpy().astype('datetime64[D]')
-        date = np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal)
+        date = pd.Timestamp(np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal))
     return offset
 
 
-- 
2.43.0


From b1f02b7a6e6ab6aa3953a8946d8a1a6926cff0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 035/123] fix: resolve_fx_curve_dates ignored the specified
 spot offset

---
 frm/utils/tenor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 4bb22ba..31f4855 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -131,7 +131,7 @@ def resolve_fx_curve_dates(
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-    else:
+    elif spot_offset is None:
         # Only one of {curve_date, spot_date} are specified, get spot_offset per market convention from ccy_pair
         spot_offset = get_fx_spot_day_offset(ccy_pair)
 
-- 
2.43.0


From 04c9b92f9073fab4e9899c76c8b3f0f4795651e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 036/123] fix: get_busdaycal could not find the mixed case
 locales (keys are upper cased before the lookup)

---
 frm/utils/business_day_calendar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/utils/business_day_calendar.py b/frm/utils/business_day_calendar.py
index 8f550fb..5ab0da7 100644
--- a/frm/utils/business_day_calendar.py
+++ b/frm/utils/business_day_calendar.py
@@ -25,6 +25,10 @@ def get_holidays_object(key):
     elif key in LOCALE_HOLIDAY.keys():
         return LOCALE_HOLIDAY[key]
     else:
+        # Some locale keys are in mixed case
+        for locale_key, holidays_object in LOCALE_HOLIDAY.items():
+            if locale_key.upper() == key:
+                return holidays_object
         raise ValueError(f"Holidays not setup for {key}")
 
 
-- 
2.43.0


From 6830b39c8361a847c535137f398880fa3d7935e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 037/123] fix: DayCountBasis.from_value raised AttributeError
 instead of returning the default for a blank value

---
 frm/enums/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index 90a4261..1b6f983 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -208,6 +208,8 @@ class DayCountBasis(Enum):
         """Create an enum member from the given value, if valid."""
         
         def specific_cleaning(value):
+            if not isinstance(value, str):
+                return value
             value = value.replace('actual','act')
             if value == 'act/365fixed':
                 value = 'act/365'
-- 
2.43.0


From 542924df64d813f570b53303014b88b53182238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 038/123] fix: RollConv.from_value rejected its own display
 names ('Modified Following')

---
 frm/enums/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index 1b6f983..d94d0ae 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -456,11 +456,16 @@ class RollConv(Enum):
 
     @classmethod
     def is_valid(cls, value):
-        return is_valid_enum_value(cls, value)
+        value = clean_enum_value(value, cls._transform_value)
+        return value in {enum_member.value for enum_member in cls}
 
     @classmethod
     def from_value(cls, value):
-        return get_enum_member(cls, value)
+        return get_enum_member(cls, value, cls._transform_value)
+
+    @staticmethod
+    def _transform_value(value: str) -> str:
+        return value.replace('_', '')
 
     @classmethod
     def default(cls):
-- 
2.43.0


From 31f4185e57f697b781a466f76e7e282a660c4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 039/123] fix: DayCountBasis.is_valid rejected values which
 from_value accepts ('actual/360', 'act365')

---
 frm/enums/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index d94d0ae..e6ad9eb 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -200,8 +200,10 @@ class DayCountBasis(Enum):
 
     @classmethod
     def is_valid(cls, value):
-        value = clean_enum_value(value)
-        return value in {enum_member.value for enum_member in cls}
+        try:
+            return clean_enum_value(value) is not None and cls.from_value(value) in cls
+        except ValueError:
+            return False
 
     @classmethod
     def from_value(cls, value):
-- 
2.43.0


From ef9dbd6020a7d2d08d17e64616d3a6187acf3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 040/123] fix: coupon_override replaced the contractual rate of
 the leg for all later calls

---
 frm/instruments/leg.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index b6370d7..30092e7 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -265,9 +265,8 @@ class FixedLeg(Leg):
         #self.schedule.df[self._get_solved_field_name()] = self.fixed_rate
 
     def calc_coupon_payment(self, coupon_override=None):
-        if coupon_override is not None:
-            self.schedule.df['fixed_rate'] = coupon_override
-        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
+        fixed_rate = self.schedule.df['fixed_rate'] if coupon_override is None else coupon_override
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * fixed_rate * self.schedule.df['period_yearfrac']
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -312,9 +311,8 @@ class FloatTermLeg(Leg):
             raise MarketDataNotAvailableError('Term Swap curve not available.')
 
         self.schedule.df['fixing'] = np.nan
-        if coupon_override is not None:
-            self.schedule.df['spread'] = coupon_override
-        self.schedule.df['coupon_rate'] = self.schedule.df['fixing'] + self.schedule.df['spread']
+        spread = self.schedule.df['spread'] if coupon_override is None else coupon_override
+        self.schedule.df['coupon_rate'] = self.schedule.df['fixing'] + spread
         self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * self.schedule.df['coupon_rate'] * self.schedule.df['period_yearfrac']
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
@@ -359,9 +357,8 @@ class FloatRFRLeg(Leg):
             raise MarketDataNotAvailableError('OIS curve not available.')
 
         self.schedule.df['fixing'] = np.nan # TODO
-        if coupon_override is not None:
-            self.schedule.df['spread'] = coupon_override
-        self.schedule.df['coupon_rate'] = self.schedule.df['fixing'] + self.schedule.df['spread']
+        spread = self.schedule.df['spread'] if coupon_override is None else coupon_override
+        self.schedule.df['coupon_rate'] = self.schedule.df['fixing'] + spread
         self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * self.schedule.df['coupon_rate'] * self.schedule.df['period_yearfrac']
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
@@ -399,11 +396,10 @@ class ZerocouponLeg(Leg):
         # TODO support specifying the terminal notional
 
     def calc_coupon_payment(self, coupon_override=None):
-        if coupon_override is not None:
-            self.schedule.df['zero_rate'] = coupon_override
+        zero_rate = self.schedule.df['zero_rate'] if coupon_override is None else coupon_override
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
-            zero_rate=self.schedule.df['zero_rate'])) - 1.0
+            zero_rate=zero_rate)) - 1.0
         self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
-- 
2.43.0


From e64e1437dc3842f0efda877a87c60b1449854687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 041/123] fix: a business day calendar cannot be deep copied,
 copy the schedule and its DataFrame

---
 frm/instruments/leg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 30092e7..ca5e5a0 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -47,7 +47,8 @@ class Leg(ABC):
     settlement_ccy: str=None
 
     def __post_init__(self):
-        self.schedule = copy.deepcopy(self.schedule) # columns are added to the schedule, don't modify the caller's object
+        self.schedule = copy.copy(self.schedule) # columns are added to the schedule, don't modify the caller's object
+        self.schedule.df = self.schedule.df.copy()
         self.schedule.df.loc[:,['notional', 'notional_payment']] = self.schedule.df[['notional', 'notional_payment']] * self.pay_rcv.multiplier
         self.schedule.add_period_daycount(day_count_basis=self.day_count_basis)
         self.schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
-- 
2.43.0


From 7964787bd17e41017db1d6bc170be46cff7d928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 042/123] fix: DayCountBasis rejected '30360' (30/360 without
 the slash)

---
 frm/enums/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index e6ad9eb..117c557 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -210,9 +210,9 @@ class DayCountBasis(Enum):
         """Create an enum member from the given value, if valid."""
         
         def specific_cleaning(value):
-            if not isinstance(value, str):
+            if value is None:
                 return value
-            value = value.replace('actual','act')
+            value = str(value).replace('actual','act') # '30360' has been cleaned to an integer
             if value == 'act/365fixed':
                 value = 'act/365'
             return value        
-- 
2.43.0


From c19e8d903ae2a1da00b79c16474b430690cb1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 043/123] fix: ZeroCurve built from days pillars always raised
 NameError (local dt shadowed the datetime module)

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 06deccb..77fa9c5 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -121,8 +121,8 @@ class ZeroCurve:
                     x = [0.0] + pillar_df['years'].to_list()
                     y = [0.0] + np.log(pillar_df['discount_factor']).to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
-                    dt = 1e-6 # small number to avoid division by zero
-                    first_row['cczr'] = -1 * splev(x=dt, tck=self.cubic_spline_definition, der=0) / dt
+                    epsilon = 1e-6 # small number to avoid division by zero
+                    first_row['cczr'] = -1 * splev(x=epsilon, tck=self.cubic_spline_definition, der=0) / epsilon
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR:
                     x = pillar_df['years'].to_list()
                     y = pillar_df['cczr'].to_list()
-- 
2.43.0


From 7bfb377c6655391929f021a35d63688a98a5334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 044/123] fix: flat_shift raised for CUBIC_SPLINE_ON_CCZR
 curves (cczr column had object type)

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 77fa9c5..6a9da1d 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -127,7 +127,7 @@ class ZeroCurve:
                     x = pillar_df['years'].to_list()
                     y = pillar_df['cczr'].to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
-                    first_row['cczr'] = splev(x=0, tck=self.cubic_spline_definition, der=0)
+                    first_row['cczr'] = float(splev(x=0, tck=self.cubic_spline_definition, der=0))
                 case _:
                     raise ValueError(f"Invalid interpolation method {self.interp_method}")
 
-- 
2.43.0


From 998c87e8f3eef3b4e894f1710c32b01022b2eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 045/123] fix: ACT/ACT ZeroCurve with a pillar on the curve
 date got a second, spurious pillar at t=0

---
 frm/term_structures/zero_curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 6a9da1d..6965507 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -65,6 +65,8 @@ class ZeroCurve:
             pillar_df['days'] = (pillar_df['date'] - self.curve_date).dt.days
         def __calculate_years(): 
             pillar_df['years'] = year_frac(self.curve_date, pillar_df['date'], self.day_count_basis)
+            # ACT/ACT year fraction of a zero length period is ~1e-17 due to floating point rounding
+            pillar_df.loc[pillar_df['date'] == self.curve_date, 'years'] = 0.0
         
         match X_column_name:
             case 'tenor':
-- 
2.43.0


From 4fa5e6269a9ac327f10f636cedef441849c1c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 046/123] fix: RFR coupon rates raised for periods ending on a
 holiday (no fixing) although later fixings are available

---
 frm/term_structures/historical_swap_index_fixings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 4c1e674..421574e 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -43,7 +43,7 @@ class RFRFixings(HistoricalSwapIndexFixings):
         # Non-business days use the fixing of the previous business day
         last_observation = pd.Timestamp(np.busday_offset(np.datetime64(observations_end.max(), 'D'), 0, roll='backward'))
         if applicable_fixings.empty \
-            or last_observation > applicable_fixings['date'].max() \
+            or last_observation > self.fixings['date'].max() \
             or observations_start.min() < applicable_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
-- 
2.43.0


From 91732da7036b4028d183f2205914e44aa5153066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 047/123] fix: Black76 numerical greeks applied the log-normal
 shift twice

---
 frm/pricing_engine/black76_bachelier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b3c0a6a..dc46724 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -109,9 +109,9 @@ def black76_price(
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets (forward) price.
         # Δ := ∂X/∂F ≈ (X(F_plus) − X(F_minus)) / (F_plus - F_minus)
         Δ_shift = 0.01
-        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0, # F and K are already shifted
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['delta'] = (results_F_plus['price'] - results_F_minus['price']) / (2 * F * Δ_shift)
 
@@ -119,9 +119,9 @@ def black76_price(
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
         σ_shift = 0.01
-        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=ln_shift,
+        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=ln_shift,
+        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['vega'] = (results_σ_plus['price'] - results_σ_minus['price']) / (2 * (σ_shift / 0.01))
 
-- 
2.43.0


From fa48b420e6f74326cda5344d0741197248ed9e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 048/123] fix: intrinsic value ignored the annuity factor and
 raised IndexError for a strike vector

---
 frm/pricing_engine/black76_bachelier.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index dc46724..c34243c 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -88,9 +88,7 @@ def black76_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
@@ -254,9 +252,7 @@ def bachelier_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From a3ef10145f1d3fdf3d123230bd1d2fcdf351357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 049/123] fix: Bachelier theta was multiplied by 365.25 instead
 of being normalised to one day

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index c34243c..da2bcb7 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -265,7 +265,7 @@ def bachelier_price(
         results['analytical_greeks']['vega'] = np.sqrt(tau) * norm.pdf(cp * d) * annuity_factor * 0.0001
 
         # Normalised to 1 calendar day.
-        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / (1/365.25)
+        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / 365.25
 
     return results
 
-- 
2.43.0


From 847f151947b6f5201bf9362f4b61cac10ba1f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 050/123] fix: at-the-money Black76 and Bachelier prices were
 NaN at expiry

---
 frm/pricing_engine/black76_bachelier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index da2bcb7..1edd022 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -83,6 +83,8 @@ def black76_price(
     d1 = (np.log(F/K) + (0.5 * σB**2 * tau)) / (σB*np.sqrt(tau))
     d2 = d1 - σB*np.sqrt(tau)
     X = annuity_factor * cp * (F * norm.cdf(cp * d1) - K * norm.cdf(cp * d2))
+    # No volatility remaining: d1, d2 are undefined (0/0) at the money
+    X = np.where(σB * np.sqrt(tau) == 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
 
     results = {'price': X}
 
@@ -247,6 +249,8 @@ def bachelier_price(
     # Price per Bachelier formula
     d = (F - K) / (σN * np.sqrt(tau))
     X = annuity_factor * ( cp * (F - K) * norm.cdf(cp * d) + σN * np.sqrt(tau) * norm.pdf(d) )
+    # No volatility remaining: d is undefined (0/0) at the money
+    X = np.where(σN * np.sqrt(tau) == 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
 
     results = {'price': X}
 
-- 
2.43.0


From 61c253e219e521d121cd1ed8f28a3c38e05596e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 051/123] fix: implied volatility solvers returned volatilities
 which do not reprice the option

---
 frm/pricing_engine/black76_bachelier.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 1edd022..1c65e24 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -151,7 +151,7 @@ def black76_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12
     obj_func_tol = 1e-5
     x0 = vol_sln_guess
     bounds = VOL_SLN_BOUNDS
@@ -174,8 +174,8 @@ def black76_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # 2nd condition required as the optimiser can succeed in a flat region without repricing the option
+            if res.success and abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
@@ -296,7 +296,7 @@ def bachelier_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12
     obj_func_tol = 1e-5
     x0 = vol_n_guess
     bounds = VOL_N_BOUNDS
@@ -319,8 +319,8 @@ def bachelier_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # 2nd condition required as the optimiser can succeed in a flat region without repricing the option
+            if res.success and abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
-- 
2.43.0


From 9a2efd3b10c0c019bd7f5a56d31b711565564ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 052/123] fix: at-the-money normal to log-normal vol conversion
 discarded its analytical solution

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 1c65e24..ac13fd7 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -462,7 +462,7 @@ def normal_vol_to_black76_sln(
     ) -> float:
     # If the forward and strike are equal, we use an analytical solution from equating the Black76 & Bachelier formulae
     if abs(F - K) < 1e-10:
-        normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
+        return normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
 
     # The solve is invariant to the risk-free rate or the call/put perspective.
     cp = 1
-- 
2.43.0


From 12ab78e7f9796202aaf7b47b19269ff7ac1d2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 053/123] fix: volatility conversions returned volatilities
 which do not reprice the out-of-the-money option

---
 frm/pricing_engine/black76_bachelier.py | 84 ++++---------------------
 1 file changed, 13 insertions(+), 71 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index ac13fd7..cf353e2 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -390,8 +390,9 @@ def black76_sln_to_normal_vol(
         res = (2.0 * F * norm.cdf((vol_sln * np.sqrt(tau)) / 2.0) - F) / (np.sqrt(tau) * norm.pdf(0))
     else:
         # If needed, faster method detailed in: Le Floc'h, Fabien, Fast and Accurate Analytic Basis Point Volatility (April 10, 2016).
-        # This solve is invariant to the call/put perspective and the risk-free rate / annuity factor.
-        cp = 1
+        # This solve is invariant to the risk-free rate / annuity factor.
+        # Use the out-of-the-money option, the price of an in-the-money option is insensitive to the volatility.
+        cp = 1 if K >= F else -1
         black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]
         vol_n_guess = np.atleast_1d(black76_sln_to_normal_vol_analytical(F=F, tau=tau, K=K, vol_sln=vol_sln, ln_shift=ln_shift))
         res = bachelier_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, X=black76_px, vol_n_guess=vol_n_guess.item())
@@ -407,41 +408,13 @@ def shift_black76_vol(
         to_ln_shift: [float, np.float64]
     ):
 
-    # The solve is invariant to the call/put perspective, risk-free rate/annuity factor.
-    cp = 1
+    # The solve is invariant to the risk-free rate / annuity factor.
+    # Use the out-of-the-money option, the price of an in-the-money option is insensitive to the volatility.
+    cp = 1 if K >= F else -1
 
     black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=from_ln_shift)['price'][0]
-
-    def obj_func_relative_px_error(vol_new_ln_shift):
-        # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
-        # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
-        return ((black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_new_ln_shift, ln_shift=to_ln_shift)['price'][0] - black76_px) / black76_px)**2
-
-    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
-    # Hence set obj function tol 'ftol' to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    # We set gtol to zero, so that the optimisation is terminated based on ftol.
-    obj_func_tol = 1e-5 ** 2  # 0.001%^2
-    options = {'ftol': obj_func_tol, 'gtol': 0}
-    res = minimize(fun=obj_func_relative_px_error,
-                   x0=np.atleast_1d(vol_sln * (F / (F + (to_ln_shift - from_ln_shift)))),
-                   bounds=[VOL_SLN_BOUNDS],
-                   method='L-BFGS-B',
-                   options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
-        return res.x[0]
-    else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when the solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_new_ln_shift = res.x[0]
-        black76_px_shifted = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_new_ln_shift, ln_shift=to_ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_sln, 'ln_shift': from_ln_shift})
-        print({'black76_px': black76_px, 'black76_px_shifted': black76_px_shifted, 'vol_new_ln_shift': vol_new_ln_shift,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to shift Black76 volatility did not converge.')
+    return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=to_ln_shift, X=black76_px,
+                                     vol_sln_guess=vol_sln * (F + from_ln_shift) / (F + to_ln_shift))
 
 
 def normal_vol_atm_to_black76_sln_atm(
@@ -464,40 +437,9 @@ def normal_vol_to_black76_sln(
     if abs(F - K) < 1e-10:
         return normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
 
-    # The solve is invariant to the risk-free rate or the call/put perspective.
-    cp = 1
+    # The solve is invariant to the risk-free rate.
+    # Use the out-of-the-money option, the price of an in-the-money option is insensitive to the volatility.
+    cp = 1 if K >= F else -1
     bachelier_px = bachelier_price(F=F, tau=tau, K=K, cp=cp, vol_n=vol_n)['price'][0]
-
-    def obj_func_relative_px_error(vol_sln):
-        # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
-        # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
-        return ((bachelier_px - black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]) / bachelier_px)**2
-
-    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
-    # Hence set obj function tol 'ftol' to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    # We set gtol to zero, so that the optimisation is terminated based on ftol.
-    obj_func_tol = 1e-5 ** 2  # 0.001%^2
-    options = {'ftol': obj_func_tol, 'gtol': 0}
-    res = minimize(fun=obj_func_relative_px_error,
-                   x0=np.atleast_1d(vol_n / (F + ln_shift)),
-                   bounds=[VOL_SLN_BOUNDS],
-                   method='L-BFGS-B',
-                   options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
-        return res.x[0]
-    else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_sln = res.x[0]
-        black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_n, 'ln_shift': ln_shift})
-        print({'bachelier_px': bachelier_px, 'black76_px': black76_px, 'vol_sln': vol_sln,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to convert normal volatility to log-normal volatility did not converge.')
-
-
-
+    return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=ln_shift, X=bachelier_px,
+                                     vol_sln_guess=vol_n / (F + ln_shift))
-- 
2.43.0


From 53eb4ecc2a4956f718d0b2854040772b90225caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 054/123] fix: Black76 and Bachelier greeks raised ValueError
 for a vector of call/put flags

---
 frm/pricing_engine/black76_bachelier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index cf353e2..d40f920 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -75,6 +75,7 @@ def black76_price(
     assert len(shapes) in [1, 2]
     if len(shapes) == 2:
         assert (1,) in shapes
+    F, tau, cp, K, σB, ln_shift, annuity_factor = np.broadcast_arrays(F, tau, cp, K, σB, ln_shift, annuity_factor)
 
     F = F + ln_shift
     K = K + ln_shift
@@ -245,6 +246,7 @@ def bachelier_price(
     assert len(shapes) in [1, 2]
     if len(shapes) == 2:
         assert (1,) in shapes
+    F, tau, cp, K, σN, annuity_factor = np.broadcast_arrays(F, tau, cp, K, σN, annuity_factor)
 
     # Price per Bachelier formula
     d = (F - K) / (σN * np.sqrt(tau))
-- 
2.43.0


From 7504d111cfa7759eb12b18adfa7960ef43f89ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 055/123] fix: Garman-Kohlhagen prices raised IndexError for a
 vector of strikes with a scalar expiry

---
 frm/pricing_engine/garman_kohlhagen.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 0ad0f8e..a54b6e8 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -97,13 +97,11 @@ def garman_kohlhagen_price(
     d2 = d1 - σ * np.sqrt(tau)   
     X = cp * (S0 * np.exp(-q * tau) * norm.cdf(cp * d1) - K * np.exp(-r * tau) * norm.cdf(cp * d2))
 
-    X[tau==0] = np.maximum(0, cp * (S0 - K))[tau==0] # If time to maturity is 0.0, set to intrinsic value
+    X = np.where(tau == 0, np.maximum(0, cp * (S0 - K)), X) # If time to maturity is 0.0, set to intrinsic value
     results = {'price': X}
 
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (S0 * np.exp(-q * tau) - K * np.exp(-r * tau)))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau == 0, X, np.maximum(0, cp * (S0 * np.exp(-q * tau) - K * np.exp(-r * tau))))
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From c039a35f8e18e0fb60e19fcdc216f53b28939a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 056/123] fix: Garman-Kohlhagen analytical theta discounted at
 the wrong rate and ignored the put sign

---
 frm/pricing_engine/garman_kohlhagen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index a54b6e8..d7312a4 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -119,9 +119,9 @@ def garman_kohlhagen_price(
         results['analytical_greeks']['vega'] = analytical_formula * 0.01 # normalised to 1% change
 
         # Per market convention, theta is normalised to the price decay for 1 calendar day.
-        analytical_formula = -(S0*np.exp(-r*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
-            + q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
-            - r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
+        analytical_formula = -(S0*np.exp(-q*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
+            + cp * q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
+            - cp * r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
         results['analytical_greeks']['theta'] = analytical_formula * 1/365.25 # normalised to 1 calendar day
 
         # In practice, gamma is  normalised to measure the change in Δ, for a 1% change in the underlying assets price.
-- 
2.43.0


From cc360d55fe3c83d86d453bd7057859748fa87ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 057/123] fix: Garman-Kohlhagen analytical rho discounted at
 the foreign rate and ignored the put sign

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index d7312a4..20fc0b8 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -131,7 +131,7 @@ def garman_kohlhagen_price(
 
         # In practice, Rho is normalised to measure the change in price for a 1% change in the underlying interest rate.
         # Hence, we have multiplied the analytical formula result by 0.01 (i.e. 1%)
-        analytical_formula = K * tau * np.exp(-q * tau) * norm.cdf(cp * d2)
+        analytical_formula = cp * K * tau * np.exp(-r * tau) * norm.cdf(cp * d2) # domestic interest rate
         results['analytical_greeks']['rho'] = analytical_formula * 0.01
 
 
-- 
2.43.0


From 8d2b1e3d3817d30a686bda62917d1b409b1e823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 058/123] fix: Garman-Kohlhagen numerical greeks raised
 KeyError and rho shifted the volatility instead of the rate

---
 frm/pricing_engine/garman_kohlhagen.py | 29 +++++++++++---------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 20fc0b8..7bfd312 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -136,21 +136,17 @@ def garman_kohlhagen_price(
 
 
     if numerical_greeks:
-        numerical_greeks = pd.DataFrame()
+        results['numerical_greeks'] = pd.DataFrame()
 
         Δ_shift = 1 / 100  # 1% shift
         σ_shift = 1 / 100  # 1% shift
         θ_shift = 1 / 365.25  # 1 calendar day
         ρ_shift = 1 / 100  # 1% shift
 
-        if F is not None:
-            F_upshift, F_downshift = F * (1 + Δ_shift), F * (1 - Δ_shift)
-        else:
-            F_upshift, F_downshift = None, None
-
-        results_S0_plus = garman_kohlhagen_price(S0=S0*(1+Δ_shift), tau=tau, r_d=r_d, r_f=r_f , cp=cp, K=K, vol=σ, F=F_upshift,analytical_greeks=True)
+        # The (basis-adjusted) rates r, q reproduce the market forward rate, hence F is not an input to the shifted prices.
+        results_S0_plus = garman_kohlhagen_price(S0=S0*(1+Δ_shift), tau=tau, r_d=r, r_f=q, cp=cp, K=K, vol=σ, analytical_greeks=True)
         X_S_plus, analytical_greeks_S0_plus = results_S0_plus['price'], results_S0_plus['analytical_greeks']
-        results_S0_minus = garman_kohlhagen_price(S0=S0*(1-Δ_shift), tau=tau, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ, F=F_downshift,analytical_greeks=True)
+        results_S0_minus = garman_kohlhagen_price(S0=S0*(1-Δ_shift), tau=tau, r_d=r, r_f=q, cp=cp, K=K, vol=σ, analytical_greeks=True)
         X_S_minus, analytical_greeks_S0_minus = results_S0_minus['price'], results_S0_minus['analytical_greeks']
 
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets price.
@@ -159,13 +155,13 @@ def garman_kohlhagen_price(
         # and S0 is the fx spot price (whose units is DOM/FOR)
         # To get the Δ % applicable to the foreign currency notional multiply the below by S0.
         results['numerical_greeks']['spot_delta'] = (X_S_plus - X_S_minus) / (2 * S0 * Δ_shift)
-        results['numerical_greeks']['forward_delta'] = numerical_greeks['spot_delta'] / np.exp(-r_f * tau)
+        results['numerical_greeks']['forward_delta'] = results['numerical_greeks']['spot_delta'] / np.exp(-q * tau)
 
         # Vega, ν, is the change in an options price for a small change in the volatility input
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
-        X_σ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_σ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        X_σ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r, r_f=q, cp=cp, K=K, vol=σ+σ_shift)['price']
+        X_σ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r, r_f=q, cp=cp, K=K, vol=σ-σ_shift)['price']
         results['numerical_greeks']['vega'] = (X_σ_plus - X_σ_minus) / (2 * (σ_shift / 0.01))
 
         # Theta, θ, is the change in an options price for a small change in the time to expiry
@@ -175,18 +171,17 @@ def garman_kohlhagen_price(
         #               i.e., the time value price tomorrow minus the time value price today.
         # 2. Cost of carry: the interest rate sensitivity that causes the value of the portfolio to change as time progresses,
         #                   e.g., the cost of carry on spots and forwards is included in the theta value.
-        X_plus = garman_kohlhagen_price(S0=S0, tau=tau+θ_shift, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ, F=F)['price']
-        X_minus = garman_kohlhagen_price(S0=S0, tau=tau-θ_shift, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ, F=F)['price']
+        X_plus = garman_kohlhagen_price(S0=S0, tau=tau+θ_shift, r_d=r, r_f=q, cp=cp, K=K, vol=σ)['price']
+        X_minus = garman_kohlhagen_price(S0=S0, tau=tau-θ_shift, r_d=r, r_f=q, cp=cp, K=K, vol=σ)['price']
         results['numerical_greeks']['theta'] = (X_minus - X_plus) / 2
 
         # Gamma, Γ, is the change in an option's delta for a small change in the underlying assets price.
         # Gamma := ∂Δ/∂S ≈ (Δ(S_plus) − Δ(S_minus)) / (S_plus - S_minus).
         results['numerical_greeks']['gamma'] = (analytical_greeks_S0_plus['spot_delta'] - analytical_greeks_S0_minus['spot_delta']) / (2 * (Δ_shift / 0.01))
 
-        # Rho, ρ, is the rate at which the price of an option changes relative to a change in the interest rate.
-        # This formulae will yield meaningfully different results on whether the forward rate is an input (or if it is calculated from the interest rate differential)
-        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        # Rho, ρ, is the rate at which the price of an option changes relative to a change in the (domestic) interest rate.
+        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r+ρ_shift, r_f=q, cp=cp, K=K, vol=σ)['price']
+        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r-ρ_shift, r_f=q, cp=cp, K=K, vol=σ)['price']
         results['numerical_greeks']['rho'] = (X_ρ_plus - X_ρ_minus) / 2
 
     return results
-- 
2.43.0


From 8c531828cab8f8e79a1d0e55b3f50ef575b0e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 059/123] fix: at-the-money put strike of a premium-adjusted
 quote depended on the other quotes in the vector

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 7bfd312..8f7e384 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -280,7 +280,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                        
         if np.any(mask_not_atm):
             for i in range(len(Δ)):
-                if Δ[i] != 0.5:
+                if mask_not_atm[i]:
                     # For premium adjusted quotes the strike must be solved numerically. Refer to [1] for full details.
 
                     def solve_delta(K_):
-- 
2.43.0


From 756cf25c46f96e53900664bfb2d7bae7ca5148e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 060/123] fix: premium-adjusted call strikes ignored the market
 forward rate in the lower bound of the solve

---
 frm/pricing_engine/garman_kohlhagen.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 8f7e384..eff21c4 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -307,8 +307,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                         # To avoid this, we solve a lower bound, 'K_min' to guarantee we get the correct solution in the numerical solver.
                         # The lower bound is the 'maximum' Δ, hence we numerically solve the maximum Δ
                         def solve_k_lower_bound(K): # TODO test and remove cp, F
-                            d1 = (np.log(S0 / K) + (r_d - r_f + 0.5 * σ[i]**2) * tau) / (σ[i] * np.sqrt(tau))
-                            d2 = d1 - σ[i] * np.sqrt(tau)
+                            d2 = (np.log(F / K) - 0.5 * σ[i]**2 * tau) / (σ[i] * np.sqrt(tau))
                             return σ[i] * np.sqrt(tau) * norm.cdf(d2) - norm.pdf(d2)
                         
                         try: 
-- 
2.43.0


From 71dd313e01ceeb60d7583c36224988078a48a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 061/123] fix: a long stub merged away the user specified
 first_period_end or last_period_start

---
 frm/utils/schedule.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 0ec7e49..2ed5303 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -390,7 +390,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 2:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -398,7 +398,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 2:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
@@ -408,13 +408,13 @@ def make_schedule(
                 if first_stub == Stub.NONE:
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
-                    if last_stub == Stub.LONG:
+                    if last_stub == Stub.LONG and (len(d1) > 2 or last_period_start is not None):
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
                 elif last_stub == Stub.NONE:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
-                    if first_stub == Stub.LONG:
+                    if first_stub == Stub.LONG and (len(d1) > 2 or first_period_end is not None):
                         d1 = [d1[0]] + d1[2:]
                         d2 = d2[1:]
                 else:
-- 
2.43.0


From 93a7d333f35a3f9fcd07a8b8bf47d2782fd6c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 062/123] fix: premium-adjusted strike solve used an absolute
 lower bound, it failed for small exchange rates

---
 frm/pricing_engine/garman_kohlhagen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index eff21c4..88a0e18 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -299,7 +299,7 @@ def garman_kohlhagen_solve_strike_from_delta(
     
                     # Put Option
                     if Δ[i] < 0: 
-                        solution = root_scalar(solve_delta, x0=F, bracket=[0.000001, K_max])
+                        solution = root_scalar(solve_delta, x0=F, bracket=[1e-9 * F.item(), K_max])
                         
                     # Call Option
                     if Δ[i] > 0: 
@@ -311,7 +311,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                             return σ[i] * np.sqrt(tau) * norm.cdf(d2) - norm.pdf(d2)
                         
                         try: 
-                            solution = root_scalar(solve_k_lower_bound, x0=F ,bracket=[0.00001, K_max])
+                            solution = root_scalar(solve_k_lower_bound, x0=F ,bracket=[1e-9 * F.item(), K_max])
                         except ValueError('the numerical solve for K_min, for delta', Δ[i], ', resulted in an error'):
                             pass
                     
-- 
2.43.0


From e918d9d73d05e309d89acf9271e6a6097012e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 063/123] fix: SABR fit searched rho of exactly -1 and 1, where
 the smile is not defined, and a beta below zero

---
 frm/pricing_engine/sabr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index f084f74..6100118 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -242,10 +242,10 @@ def fit_sabr_params_to_sln_smile(tau: float,
 
     # params = (beta), rho, volvol
     # beta has a valid range of 0≤β≤1
-    # rho has a valid range of -1≤ρ≤1
+    # rho has a valid range of -1≤ρ≤1 (the smile formula is singular at ρ=1, hence the bounds are inside the range)
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0), (0.0001, None)]
+    bounds = [(-0.9999, 0.9999), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-0.9999, 0.9999), (0.0001, None)]
     res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds)
 
     if res.success:
-- 
2.43.0


From 1644d1b8f3351d4aa0e81593ebd78b6b0cd6e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 064/123] fix: SABR fit stopped before it converged

---
 frm/pricing_engine/sabr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 6100118..ceb97e6 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -231,7 +231,8 @@ def fit_sabr_params_to_sln_smile(tau: float,
 
         alpha_ = solve_alpha_from_sln_vol(tau=tau, F=F, beta=beta_, rho=rho_, volvol=volvol_, vol_sln_atm=vol_sln_atm, ln_shift=ln_shift)
         sabr_vols = calc_sln_vol_for_strike_from_sabr_params(tau=tau, F=F, alpha=alpha_, beta=beta_, rho=rho_, volvol=volvol_ ,K=K, ln_shift=ln_shift)
-        return sum((vols_sln - sabr_vols) ** 2)
+        # In percentage points so the stopping tolerances of the optimiser are below the precision of the volatilities
+        return sum((100 * (vols_sln - sabr_vols)) ** 2)
 
     # ATM volatility check
     vol_sln_atm = vols_sln[np.isclose(K, F)]
-- 
2.43.0


From 94097876109c1e530132dede58c6a8f4229f0458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 065/123] fix: SABR fit raised when no log-normal shift was
 given

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index ceb97e6..3e0298d 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -190,7 +190,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
                                  F: float,
                                  K: NDArray[float],
                                  vols_sln: NDArray[float],
-                                 ln_shift: float=None,
+                                 ln_shift: float=0.0,
                                  beta_overide: Optional[float]=None)-> tuple:
     """
     Calibrates SABR parameters to a volatility smile of European option prices using the Hagan 2002 (lognormal) SABR model and the Black76 formula.
-- 
2.43.0


From 71caf2dc30acb3cf9f5152f45d26d97522760726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 066/123] fix: SABR fit raised when its search tried parameters
 for which no alpha attains the ATM volatility

---
 frm/pricing_engine/sabr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 3e0298d..ecd78d4 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -229,7 +229,11 @@ def fit_sabr_params_to_sln_smile(tau: float,
             rho_, volvol_ = param
             beta_ = beta_overide
 
-        alpha_ = solve_alpha_from_sln_vol(tau=tau, F=F, beta=beta_, rho=rho_, volvol=volvol_, vol_sln_atm=vol_sln_atm, ln_shift=ln_shift)
+        try:
+            alpha_ = solve_alpha_from_sln_vol(tau=tau, F=F, beta=beta_, rho=rho_, volvol=volvol_, vol_sln_atm=vol_sln_atm, ln_shift=ln_shift)
+        except ValueError:
+            # No alpha attains the ATM volatility for these parameters; as poor as a smile of zero volatility
+            return sum((100 * vols_sln) ** 2)
         sabr_vols = calc_sln_vol_for_strike_from_sabr_params(tau=tau, F=F, alpha=alpha_, beta=beta_, rho=rho_, volvol=volvol_ ,K=K, ln_shift=ln_shift)
         # In percentage points so the stopping tolerances of the optimiser are below the precision of the volatilities
         return sum((100 * (vols_sln - sabr_vols)) ** 2)
-- 
2.43.0


From a6968d42e4607cea179ee344575bc731463c580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 067/123] fix: Heston Lewis-Lipton prices used kappa in place
 of the integration variable

---
 frm/pricing_engine/heston.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 0f8580c..588b402 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -700,8 +700,8 @@ def heston_lipton_vanilla_european_integral(v, S0, tau, r, q, K, var0, vv, kappa
     zeta_term = v**2 * vv**2 * (1 - rho**2) + 2j * v * vv * rho * kappa_hat + kappa_hat**2 + vv**2 / 4
     zeta = np.sqrt(zeta_term)
 
-    psi_plus = - (1j * kappa * rho * vv + kappa_hat) + zeta
-    psi_minus = (1j * kappa * rho * vv + kappa_hat) + zeta
+    psi_plus = - (1j * v * rho * vv + kappa_hat) + zeta
+    psi_minus = (1j * v * rho * vv + kappa_hat) + zeta
 
     numerator = psi_minus + psi_plus * np.exp(-zeta * tau)
     denominator = 2 * zeta
-- 
2.43.0


From 937bbb534823c5785ff76eb9209e51a20f8ca449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 068/123] fix: Heston COS truncation range used a wrong second
 cumulant, prices were off or negative for high vol of vol

---
 frm/pricing_engine/cosine_method_generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/cosine_method_generic.py b/frm/pricing_engine/cosine_method_generic.py
index 966d1ea..563a410 100644
--- a/frm/pricing_engine/cosine_method_generic.py
+++ b/frm/pricing_engine/cosine_method_generic.py
@@ -124,7 +124,8 @@ def get_cos_truncation_range(model, L, model_param):
             (η * tau * λ * np.exp(-λ * tau) * (u0 - u_bar) * (8 * λ * rho - 4 * η))
             + λ * rho * η * (1 - np.exp(-λ * tau)) * (16 * u_bar - 8 * u0)
             + 2 * u_bar * λ * tau * (-4 * λ * rho * η + η**2 + 4 * λ**2)
-            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (6 * np.exp(-λ * tau) - 7) + 2 * u0)
+            # Table 11 of [1] prints (6 * exp(-λτ) - 7) which is not the second cumulant; the correct term is (4 * exp(-λτ) - 5)
+            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (4 * np.exp(-λ * tau) - 5) + 2 * u0)
             + 8 * λ**2 * (u0 - u_bar) * (1 - np.exp(-λ * tau))
         )
                 
-- 
2.43.0


From 6c91d686f26010059ba75907e465c2bfd405038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 069/123] fix: Carr-Madan Heston prices were integrated to an
 absolute precision, they were wrong for small spot rates

---
 frm/pricing_engine/heston.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 588b402..32fd3ac 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -353,7 +353,7 @@ def heston_carr_madan_price_vanilla_european(S0, tau, r, q, cp, K, var0, vv, kap
     if integration_method == 0:
         # Integrate using adaptive Gauss-Kronrod quadrature
         args = (cp, log_S0, log_K, tau, r, q, var0, vv, kappa, theta, rho, alpha)
-        result, _ = scipy.integrate.quad(func=heston_fft_vanilla_european_integral, a=0, b=np.inf, args=args)
+        result, _ = scipy.integrate.quad(func=heston_fft_vanilla_european_integral, a=0, b=np.inf, args=args, epsabs=0, epsrel=1e-8)
         y = np.exp(-cp * log_K * alpha) * result / np.pi
     elif integration_method == 1:
         # Fast Fourier Transform with Simpson's rule (as suggested in [2])
-- 
2.43.0


From dcdbe76df4736e74a49b252aaca05ed3f55ef04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 070/123] fix: Heston COS prices without put-call parity raised
 for only calls or only puts

---
 frm/pricing_engine/heston.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 32fd3ac..9d5052d 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -639,14 +639,15 @@ def heston_cosine_price_vanilla_european(S0, tau, r, q, cp, K, var0, vv, kappa,
         # Method by put-call parity is more stable
         put_px = K * np.multiply(Fk, Uk_put).sum(axis=0) * np.exp(-r * tau)
         call_px = put_px + S0 * np.exp(-q * tau) - K * np.exp(-r * tau)
+        result[cp == 1] = call_px[cp == 1]
+        result[cp == -1] = put_px[cp == -1]
     else:
         if (cp == 1).any():
             call_px = K * np.multiply(Fk, Uk_call).sum(axis=0) * np.exp(-r * tau)
+            result[cp == 1] = call_px[cp == 1]
         if (cp == -1).any():
             put_px = K * np.multiply(Fk, Uk_put).sum(axis=0) * np.exp(-r * tau)
-
-    result[cp == 1] = call_px[cp == 1]
-    result[cp == -1] = put_px[cp == -1]
+            result[cp == -1] = put_px[cp == -1]
 
     return result
 
-- 
2.43.0


From 12fecb61e7c92eeafa920e4b616d23c4b7cce988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 071/123] fix: SABR alpha solve returned a negative alpha when
 a positive one exists

---
 frm/pricing_engine/sabr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index ecd78d4..ec6a09c 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -179,6 +179,9 @@ def solve_alpha_from_sln_vol(
 
     roots = np.roots(cubic_polynomial)
     roots_real = np.extract(np.isreal(roots), np.real(roots))
+    roots_real = roots_real[roots_real > 0]
+    if roots_real.size == 0:
+        raise ValueError('No positive alpha attains the ATM volatility.')
 
     # Note: the double real roots case is not tested
     alpha_first_guess = vol_sln_atm * F**(1-β)
-- 
2.43.0


From ca4714c472b25f3e9ac40ea4e872cda90f9a1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 072/123] fix: normal_corr used the transposed Cholesky factor,
 correlated random numbers had the wrong variance

---
 frm/pricing_engine/monte_carlo_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 004003c..9bdd7e1 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -77,7 +77,7 @@ def normal_corr(C: np.array,
     np.ndarray: Correlated pseudo random normal variates.
     """    
     
-    M = np.linalg.cholesky(C).T
+    M = np.linalg.cholesky(C)
     return (M @ rand_nbs.T).T
 
 
-- 
2.43.0


From edafba6b63ec7eea8683cf5b2b4b59d7a1e34550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 073/123] fix: antithetic variates with an odd number of
 simulations were not paired and one simulation was lost

---
 frm/pricing_engine/monte_carlo_generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 9bdd7e1..3dee227 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -55,8 +55,10 @@ def generate_rand_nbs(nb_steps: int,
         rand_nbs_antithetic_variate = -1 * rand_nbs_normal[:,:,:nb_pairs]
         rand_nbs = np.concatenate([rand_nbs_normal, rand_nbs_antithetic_variate], axis=2)
 
-        # Reindex to pair normal with antithetic variates
-        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_pairs)).flatten()
+        # Reindex to pair normal with antithetic variates. For an odd number of simulations the last normal is unpaired
+        nb_normals = nb_simulations - nb_pairs
+        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_normals)).flatten()
+        idx = np.append(idx, np.arange(nb_pairs, nb_normals))
         rand_nbs = rand_nbs[:, :, idx]
     else:    
         rand_nbs = np.random.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
-- 
2.43.0


From 5073080aa21acc1a4d08d5f115c88eee1212ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 074/123] fix: GBM paths of several underlyings applied prices,
 drifts and volatilities across simulations, or raised

---
 .../geometric_brownian_motion.py              | 29 ++++++++-----------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/frm/pricing_engine/geometric_brownian_motion.py b/frm/pricing_engine/geometric_brownian_motion.py
index 4676e87..9455203 100644
--- a/frm/pricing_engine/geometric_brownian_motion.py
+++ b/frm/pricing_engine/geometric_brownian_motion.py
@@ -45,22 +45,16 @@ def simulate_gbm_path(initial_px: np.array,
     assert timestep_length.ndim == 1
 
     # Reshape inputs to 2D arrays so to support parallel simulation of multiple underlyings
-    drift = np.atleast_2d(drift)
-    forward_volatility = np.atleast_2d(forward_volatility)
-    initial_px = np.atleast_2d(initial_px)
-
-    # if drift.ndim == 1:
-    #     drift = drift.reshape(-1, 1)
-    # if forward_volatility.ndim == 1:
-    #     forward_volatility = forward_volatility.reshape(-1, 1)
-    # if initial_px.ndim == 1:
-    #     initial_px = initial_px.reshape(1, -1)
-
-    if drift.shape[0] == 1:
+    # 1D drift and volatility are one value per timestep (of a single underlying); 2D have shape (timesteps, underlyings)
+    drift = np.atleast_1d(drift)
+    forward_volatility = np.atleast_1d(forward_volatility)
+    initial_px = np.atleast_1d(initial_px)
+
+    if drift.ndim == 1:
         drift = drift.reshape(-1, 1)
-    if forward_volatility.shape[0] == 1:
+    if forward_volatility.ndim == 1:
         forward_volatility = forward_volatility.reshape(-1, 1)
-    if initial_px.shape[0] == 1:
+    if initial_px.ndim == 1:
         initial_px = initial_px.reshape(1, -1)
 
     # Shape checks
@@ -77,12 +71,13 @@ def simulate_gbm_path(initial_px: np.array,
 
     # Initialise shape and set initial value of underlying(s)
     x = np.zeros((rand_nbs.shape[0]+1, rand_nbs.shape[1], rand_nbs.shape[2]))
-    x[0, :, :] = initial_px
+    x[0, :, :] = initial_px.T
 
     # Simulate per geometric brownian motion process
     for i in range(0, nb_timesteps):
-        x[i+1, :, :] = x[i, :, :] * np.exp((drift[i, :] - 0.5 * (forward_volatility[i, :] ** 2)) *
-                                           timestep_length[i] + forward_volatility[i, :] * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
+        drift_i, vol_i = drift[i, :, np.newaxis], forward_volatility[i, :, np.newaxis]
+        x[i+1, :, :] = x[i, :, :] * np.exp((drift_i - 0.5 * (vol_i ** 2)) *
+                                           timestep_length[i] + vol_i * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
 
     return x
 
-- 
2.43.0


From ccf22b98dac1897e0e54eb3d4c014edb71216fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 075/123] fix: Heston simulation returned zeros or NaN for an
 unknown method

---
 frm/pricing_engine/heston.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 9d5052d..e059540 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -808,7 +808,7 @@ def heston_simulate_scalar(
                       np.sqrt(K3 * x[i - 1, 1] + K4 * x[i, 1]) * rand_nbs[i - 1, 0]
 
         x[:, 0] = np.exp(x[:, 0])
-    elif method[:5] == 'euler':
+    elif method in ['euler_with_absorption_of_volatility_process', 'euler_with_reflection_of_volatility_process']:
         x[0, :] = [S0, var0]
         for i in range(1, nb_timesteps + 1):
             if method == 'euler_with_absorption_of_volatility_process':
@@ -818,6 +818,8 @@ def heston_simulate_scalar(
 
             x[i, 1] = x[i - 1, 1] + kappa * (theta - x[i - 1, 1]) * dt + vv * np.sqrt(x[i - 1, 1]) * u[i - 1, 1]
             x[i, 0] = x[i - 1, 0] + x[i - 1, 0] * (mu * dt + np.sqrt(x[i - 1, 1]) * u[i - 1, 0])
+    else:
+        raise ValueError(f"Invalid 'method': {method}")
 
     return x
 
@@ -927,7 +929,7 @@ def heston_simulate(
 
         x[:, 0] = np.exp(x[:, 0])
 
-    elif method[:5] == 'euler':
+    elif method in ['euler_with_absorption_of_volatility_process', 'euler_with_reflection_of_volatility_process']:
         x[0, 0, :] = S0
         x[0, 1, :] = var0
 
@@ -942,6 +944,9 @@ def heston_simulate(
             x[i, 0, :] = x[i - 1, 0, :] \
                          + x[i - 1, 0, :] * (mu * dt + np.sqrt(x[i - 1, 1, :]) * u[i - 1, 0, :])
 
+    else:
+        raise ValueError(f"Invalid 'method': {method}")
+
     return x
 
 
-- 
2.43.0


From 0d35a3c1b8cb731a46f4cc4e57a2388b693afb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 076/123] fix: forward_volatility failed for scalars and missed
 t2 < t1 when other terms had t1 equal to t2

---
 frm/pricing_engine/volatility_generic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 1c91c05..376b8c6 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -35,14 +35,15 @@ def forward_volatility(t1: float | np.ndarray,
     - Negative values under the square root indicate inconsistent input volatilities and will raise an error.
     """
 
+    t1, vol_t1, t2, vol_t2 = np.broadcast_arrays(t1, vol_t1, t2, vol_t2)
     tau = t2 - t1
-    if np.any(tau == 0):
-        mask = tau == 0
-        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1[mask]}, t2 {t2[mask]}")
-    elif np.any(tau < 0):
+    if np.any(tau < 0):
         raise ValueError("t2 is less than t1.")
+    mask = tau == 0
+    if np.any(mask):
+        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1[mask]}, t2 {t2[mask]}")
 
-    var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / tau
+    var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / np.where(mask, np.nan, tau)
     if np.any(var_t1_t2 < 0):
         raise ValueError("Negative value encountered under square root.")
 
-- 
2.43.0


From f81536c52614659d0c0b58ad6457830e7f0a8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 077/123] fix: flat_forward_interp failed for scalars and
 integer volatilities and extrapolated outside the expiries

---
 frm/pricing_engine/volatility_generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 376b8c6..3f3faff 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -72,8 +72,10 @@ def flat_forward_interp(t1: float | np.ndarray,
     - If t is outside the range [t1, t2], the function will not compute interpolation and will use the input boundaries.
     - Assumes a flat forward interpolation model, where volatilities are averaged in a time-weighted manner.
     """
-    vol_t12 = np.zeros_like(vol_t1)
-    mask = (t1 != t2).flatten()
+    t1, vol_t1, t2, vol_t2, t = np.broadcast_arrays(t1, vol_t1, t2, vol_t2, t)
+    vol_t12 = np.zeros(t1.shape)
+    mask = t1 != t2
     vol_t12[mask] = forward_volatility(t1[mask], vol_t1[mask], t2[mask], vol_t2[mask])
+    t = np.clip(t, t1, t2)
     return np.sqrt((vol_t1 ** 2 * t1 + vol_t12 ** 2 * (t - t1)) / t)
 
-- 
2.43.0


From c6122b772ab33fd914c4271d753000906601553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 078/123] fix: percentage quote columns were labelled with the
 percentage as if it was basis points

---
 frm/term_structures/interest_rate_option_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index c8d0fb2..8861fbd 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -173,7 +173,7 @@ def standardise_relative_quote_col_names(col_names: list[str]):
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
@@ -195,7 +195,7 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
-- 
2.43.0


From b8f9b3d76438941b5956de86a47aaab8ea9acf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 079/123] fix: quote column labels lost a basis point to
 truncation (e.g. 29bps was labelled 28bps)

---
 frm/term_structures/interest_rate_option_helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index 8861fbd..899a463 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -167,13 +167,13 @@ def standardise_relative_quote_col_names(col_names: list[str]):
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
@@ -189,13 +189,13 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
-- 
2.43.0


From 24bfeecf9fcc884e7bc86f68dac86b2713fb2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 080/123] fix: upper case BPS quote columns matched the quote
 pattern but raised

---
 frm/term_structures/interest_rate_option_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index 899a463..e17455d 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -166,7 +166,7 @@ def standardise_relative_quote_col_names(col_names: list[str]):
     # Relative Quotes
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
-            v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
+            v = round(float(re.sub('bps|bp', '', col_name, flags=re.IGNORECASE).replace(' ', '')) / 10000,8)
             new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
@@ -188,7 +188,7 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
 
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
-            v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
+            v = round(float(re.sub('bps|bp', '', col_name, flags=re.IGNORECASE).replace(' ', '')) / 10000,8)
             new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
-- 
2.43.0


From b466d9db6514d7f812f652cf5553ec3e7c37578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 081/123] fix: fx term structures without a tenor column were
 rejected and the input dataframe was modified

---
 frm/term_structures/fx_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 8f26775..f3ea3eb 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,12 +21,15 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    df = df.copy()
 
     mandatory_columns_at_least_one_of = [['tenor',rate_set_date_str,'delivery_date']]
     for column_set in mandatory_columns_at_least_one_of:
         assert sum([column in df.columns for column in column_set]) >= 1, f'Specify at least one of {column_set}'
 
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
+
     for column in [rate_set_date_str,'delivery_date']:
         if column not in df.columns:
             df[column] = np.nan
@@ -42,14 +45,14 @@ def fx_term_structure_helper(df: pd.DataFrame,
         elif pd.notna(row[rate_set_date_str]):
             rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
-        elif pd.notna(row['tenor']):
+        elif 'tenor' in df.columns and pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
             rate_set_date_np = rate_set_date.to_numpy().astype('datetime64[D]')
             df.at[i,rate_set_date_str] = np.busday_offset(rate_set_date_np, offsets=0, roll='following',busdaycal=cal)
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
         else:
-            raise ValueError("'delivery_date', '{rate_set_date_str}' and 'tenor' are all missing")
+            raise ValueError(f"'delivery_date', '{rate_set_date_str}' and 'tenor' are all missing")
 
     if 'tenor' in df.columns:
         time_column_order = ['tenor'] + [rate_set_date_str,'delivery_date']
-- 
2.43.0


From 784761c96b3e6e0abf2ac161a18c63b6725a3669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 082/123] fix: fx term structures given by rate-set date raised
 and by delivery date had no rate-set date

---
 frm/term_structures/fx_helpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index f3ea3eb..59e8d6f 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -41,10 +41,12 @@ def fx_term_structure_helper(df: pd.DataFrame,
     # 3. Otherwise, calculate the rate-set date and delivery date from the tenor
     for i, row in df.iterrows():
         if pd.notna(row['delivery_date']):
-            pass
+            if pd.isna(row[rate_set_date_str]):
+                delivery_date_np = row['delivery_date'].to_numpy().astype('datetime64[D]')
+                df.at[i,rate_set_date_str] = np.busday_offset(delivery_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
         elif pd.notna(row[rate_set_date_str]):
-            rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
-            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
+            rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
+            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
         elif 'tenor' in df.columns and pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
-- 
2.43.0


From 6dc191b58b615db0edcd29f26b6ad580b7e68720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 083/123] fix: eurusd was missing from the currency pairs
 quoted with the regular delta ('nzdeur' was listed)

---
 frm/term_structures/fx_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 59e8d6f..ef38eef 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -109,7 +109,7 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
-    bool_cond = np.logical_and(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd'],
+    bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
@@ -119,7 +119,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
     conditions_for_premium_adjusted_delta_convention = [
-        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
+        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
         np.full(len(df), 'usd' in ccy_pair),
         df['delta_convention'].str.contains('regular').values]
     bool_cond = np.logical_and.reduce(conditions_for_premium_adjusted_delta_convention)
-- 
2.43.0


From 71fa8d5dac03b3f487c343dfa2bd99853fa091b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 084/123] fix: vol quote column names kept a leading zero of
 the delta (05_delta_rr did not pair with 5_delta_bf)

---
 frm/term_structures/fx_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index ef38eef..015c4a8 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -138,9 +138,9 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 def clean_vol_quotes_column_names(vol_quotes_df):
     patterns = {
         r'^(0?[1-9]|[1-4]\d)[_ ]?(delta|Δ)[_ ]?(call|c|put|p)$': lambda
-            m: f'{m.group(1)}_delta_{"call" if m.group(3) in ["call", "c"] else "put"}',
+            m: f'{int(m.group(1))}_delta_{"call" if m.group(3) in ["call", "c"] else "put"}',
         r'^(0?[1-9]|[1-4]\d)[_ ]?(delta|Δ)[_ ]?(risk[_ ]?reversal|rr|butterfly|bf)$': lambda
-            m: f'{m.group(1)}_delta_{m.group(3).replace("_", "").replace(" ", "").replace("rr", "riskreversal").replace("bf", "butterfly")}',
+            m: f'{int(m.group(1))}_delta_{m.group(3).replace("_", "").replace(" ", "").replace("rr", "riskreversal").replace("bf", "butterfly")}',
         r'^(a|at)[_ ]?(t|the)[_ ]?(m|money)[_ ]?(delta|Δ)[_ ]?neutral$': lambda _: 'atm_delta_neutral',
         r'^(a|at)[_ ]?(t|the)[_ ]?(m|money)[_ ]?(f|fwd|forward)$': lambda _: 'atm_forward'
     }
-- 
2.43.0


From b8597ebb6d7a3c5f2d94f5522eb477569cafc4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 085/123] fix: FXVolatilitySurface renamed and dropped columns
 of the vol quotes dataframe it was given

---
 frm/term_structures/fx_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 015c4a8..bdd1548 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -145,6 +145,7 @@ def clean_vol_quotes_column_names(vol_quotes_df):
         r'^(a|at)[_ ]?(t|the)[_ ]?(m|money)[_ ]?(f|fwd|forward)$': lambda _: 'atm_forward'
     }
 
+    vol_quotes_df = vol_quotes_df.copy()
     for col_name in vol_quotes_df.columns:
         for pattern, func in patterns.items():
             match = re.match(pattern, col_name)
-- 
2.43.0


From 64959161e078e014ed18896838dbc0e252efd6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 086/123] fix: implied business day offset from a non business
 day was one day too long

---
 frm/utils/tenor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 31f4855..f249500 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -110,6 +110,7 @@ def calc_implied_business_day_offset(
     assert offset_date >= date, "offset_date must be greater than or equal to date"
 
     offset = 0
+    date = pd.Timestamp(np.busday_offset(date.to_numpy().astype('datetime64[D]'), offsets=0, roll='following', busdaycal=cal))
     while date < offset_date:
         offset += 1
         date += pd.DateOffset(days=1)
-- 
2.43.0


From 5d56054f7298a1d72650facdef6162d98c0d78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 087/123] fix: FXVolatilitySurface failed for fx forward curves
 given by dates instead of tenors

---
 frm/term_structures/fx_volatility_surface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index 970ba78..2d25cdd 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -86,7 +86,10 @@ class FXVolatilitySurface:
                                                            curve_date=self.curve_date,
                                                            spot_offset=self.spot_offset,
                                                            cal=self.cal)
-        mask = self.fx_forward_curve_df['tenor'] == 'sp'
+        mask = self.fx_forward_curve_df['delivery_date'] == self.spot_date
+        if 'tenor' in self.fx_forward_curve_df.columns and (self.fx_forward_curve_df['tenor'] == 'sp').any():
+            mask = self.fx_forward_curve_df['tenor'] == 'sp'
+        assert mask.any(), f'the spot rate is missing in fx_forward_curve_df, spot date: {self.spot_date}'
         self.fx_spot_rate = self.fx_forward_curve_df.loc[mask, 'fx_forward_rate'].values[0]
 
         # Process volatility input and setup pillar dataframe and daily helper dataframe
-- 
2.43.0


From 473a06cd78f1d7e0c5d70bbc2367d4b2c8009239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 088/123] fix: the delta convention warning raised for vol
 quotes given by dates instead of tenors

---
 frm/term_structures/fx_helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index bdd1548..71edaa2 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -109,12 +109,14 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
+    term_column = [column for column in ['tenor', 'expiry_date', 'delivery_date'] if column in df.columns][0]
+
     bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
         warnings.warn('The delta_convention is premium_adjusted for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, term_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the regular delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
@@ -127,7 +129,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
     if bool_cond.any():
         warnings.warn('The delta_convention is regular for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, term_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the premium adjusted delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
-- 
2.43.0


From 9dfe770c5dca9f0b271e1cd927113c9d848fa37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 089/123] fix: simulate_gbm_fx_rate_path raised for every
 delivery date grid

---
 frm/term_structures/fx_volatility_surface.py | 33 +++++++++++---------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index 2d25cdd..eee6c1b 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -23,7 +23,7 @@ from frm.term_structures.fx_helpers import (clean_vol_quotes_column_names,
                                             solve_call_put_quotes_from_strategy_quotes)
 
 from scipy.interpolate import CubicSpline, InterpolatedUnivariateSpline
-from frm.utils import year_frac, get_busdaycal, resolve_fx_curve_dates
+from frm.utils import year_frac, get_busdaycal, resolve_fx_curve_dates, DEFAULT_NB_SIMULATIONS
 
 import numpy as np
 import pandas as pd
@@ -387,38 +387,43 @@ class FXVolatilitySurface:
 
     def simulate_gbm_fx_rate_path(self,
                                   delivery_date_grid: pd.DatetimeIndex,
-                                  nb_simulations: Optional[int]=None,
+                                  nb_simulations: int=DEFAULT_NB_SIMULATIONS,
                                   apply_antithetic_variates: bool=True):
 
-        delivery_date_grid = delivery_date_grid.unique().sort_values(ascending=True)
-        delivery_date_grid = delivery_date_grid.union(self.spot_date)
-        fixing_date_grid = np.busday_offset(delivery_date_grid, offsets=-1*self.spot_offset, roll='preceding', busdaycal=self.cal)
-        mask = self.vol_smile_daily_df['expiry_date'].isin(fixing_date_grid)
-        vol_smile_daily_df = self.vol_smile_daily_df.loc[mask].copy()
+        # The first row of the schedule is the spot rate, i.e. the rate fixed on the curve date and delivered on the spot date
+        delivery_date_grid = delivery_date_grid[delivery_date_grid > self.spot_date].unique().sort_values(ascending=True)
+        fixing_date_grid = pd.DatetimeIndex(np.busday_offset(delivery_date_grid.values.astype('datetime64[D]'), offsets=-1*self.spot_offset, roll='preceding', busdaycal=self.cal))
+        missing_dates = fixing_date_grid[~fixing_date_grid.isin(self.vol_smile_daily_df['expiry_date'])]
+        if len(missing_dates) > 0:
+            raise ValueError(f'The volatility surface is not defined for the fixing dates: {missing_dates}')
+        # The volatility at the curve date does not affect the forward volatilities, hence use that of the first fixing date
+        vol_smile_daily_df = self.vol_smile_daily_df.set_index('expiry_date').loc[fixing_date_grid[:1].append(fixing_date_grid)]
+        delivery_date_grid = delivery_date_grid.insert(0, self.spot_date)
+        fixing_date_grid = fixing_date_grid.insert(0, self.curve_date)
 
         schedule = pd.DataFrame({
             'fixing_date': fixing_date_grid,
             'delivery_date': delivery_date_grid,
-            'fixing_years': year_frac(self.curve_date, delivery_date_grid, self.day_count_basis).values,
+            'fixing_years': year_frac(self.curve_date, fixing_date_grid, self.day_count_basis),
             'domestic_zero_rates': vol_smile_daily_df['domestic_zero_rate'].values,
             'foreign_zero_rates': vol_smile_daily_df['foreign_zero_rate'].values,
             'fx_forward_rates:': vol_smile_daily_df['fx_forward_rate'].values,
         })
+        schedule.loc[0, 'fx_forward_rates:'] = self.fx_spot_rate
 
         if 'atm_forward' in self.vol_smile_daily_df.columns:
-            schedule['atm_forward'] = vol_smile_daily_df['atm_forward'].values
+            schedule['volatility'] = vol_smile_daily_df['atm_forward'].values
         elif 'atm_delta_neutral' in self.vol_smile_daily_df.columns:
             schedule['volatility'] = vol_smile_daily_df['atm_delta_neutral'].values
         else:
             raise ValueError
 
         schedule['dt'] = schedule['fixing_years'].diff()
-        schedule['dt'].iloc[0] = 0.0
+        schedule.loc[0, 'dt'] = 0.0
 
-        schedule['drift'] = np.log(schedule['fx_forward_rates:'].shift(-1) / schedule['fx_forward_rates:']) / schedule['dt']
-        schedule['drift'].iloc[0] = np.nan
+        schedule['drift'] = np.log(schedule['fx_forward_rates:'] / schedule['fx_forward_rates:'].shift(1)) / schedule['dt']
 
-        schedule['forward_volatility'] = forward_volatility(
+        schedule.loc[1:, 'forward_volatility'] = forward_volatility(
             t1=schedule['fixing_years'].values[:-1],
             vol_t1=schedule['volatility'].values[:-1],
             t2=schedule['fixing_years'].values[1:],
@@ -432,7 +437,7 @@ class FXVolatilitySurface:
                                      nb_simulations=nb_simulations,
                                      apply_antithetic_variates=apply_antithetic_variates)
 
-        fx_rate_simulation_paths = simulate_gbm_path(initial_px=self.fx_spot_rate,
+        fx_rate_simulation_paths = simulate_gbm_path(initial_px=np.array([self.fx_spot_rate]),
                                                      drift=schedule['drift'].values[1:],
                                                      forward_volatility=schedule['forward_volatility'].values[1:],
                                                      timestep_length=schedule['dt'].values[1:],
-- 
2.43.0


From c2badcb99ac663214a80882ea0aadc83e5a39159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 090/123] fix: simulate_heston_fx_rate_path raised for every
 delivery date grid and ignored the number of simulations

---
 frm/term_structures/fx_volatility_surface.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index eee6c1b..c368427 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -450,13 +450,12 @@ class FXVolatilitySurface:
 
     def simulate_heston_fx_rate_path(self,
                                      delivery_date_grid,
-                                     nb_simulations=None,
+                                     nb_simulations: int=10 * 1000,
                                      flag_apply_antithetic_variates=True):
 
 
-        delivery_date_grid = delivery_date_grid.unique().sort_values(ascending=True)
-        delivery_date_grid = delivery_date_grid.union(self.spot_date)
-        fixing_date_grid = np.busday_offset(delivery_date_grid, offsets=-1*self.spot_offset, roll='preceding', busdaycal=self.cal)
+        delivery_date_grid = delivery_date_grid[delivery_date_grid > self.spot_date].unique().sort_values(ascending=True)
+        fixing_date_grid = pd.DatetimeIndex(np.busday_offset(delivery_date_grid.values.astype('datetime64[D]'), offsets=-1*self.spot_offset, roll='preceding', busdaycal=self.cal))
         #mask = self.vol_smile_daily_df['expiry_date'].isin(fixing_date_grid)
         #vol_smile_daily_df = self.vol_smile_daily_df.loc[mask].copy()
         self._solve_vol_daily_smile_func(fixing_date_grid)
@@ -467,12 +466,10 @@ class FXVolatilitySurface:
         results = {}
 
         for i, (fixing_date, delivery_date) in enumerate(zip(fixing_date_grid,delivery_date_grid)):
-            print(i, fixing_date, delivery_date)
-
             expiry_years = year_frac(self.curve_date, fixing_date, self.day_count_basis)
             fx_forward_rate = interp_fx_forward_curve_df(self.fx_forward_curve_df,
-                                                         dates=fixing_date,
-                                                         date_type='fixing_date').values
+                                                         dates=pd.DatetimeIndex([fixing_date]),
+                                                         date_type='fixing_date')[0]
 
             mu = np.log(fx_forward_rate / self.fx_spot_rate) / expiry_years
 
@@ -487,8 +484,8 @@ class FXVolatilitySurface:
             rand_nbs = generate_rand_nbs(
                 nb_steps=100,
                 nb_rand_vars=2,
-                nb_simulations=10 * 1000,
-                apply_antithetic_variates=False)
+                nb_simulations=nb_simulations,
+                apply_antithetic_variates=flag_apply_antithetic_variates)
 
             sim_results = heston_simulate(
                 S0=self.fx_spot_rate,
-- 
2.43.0


From dd1fbf57489651db7b376c6105b60231506e7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 091/123] fix: Hull-White theta ignored the term structure
 (flat at the short rate), so the model did not reprice the zero curve

---
 frm/pricing_engine/hw1f.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index cd606b5..6f9bea3 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -135,14 +135,9 @@ class HullWhite1Factor:
         f_t_minus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years-self.dt)
         df_dt = (f_t_plus_dt - f_t_minus_dt) / (2 * self.dt)
 
-        if True:
-            f_t = np.full_like(years, self.r0)
-            return α * f_t + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
-        else:
-
-            return df_dt \
-                   + α * f_t \
-                   + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+        return df_dt \
+               + α * f_t \
+               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
 
 
     def get_forward_rate_by_integration(self,t, T):
-- 
2.43.0


From 4beab9af6312afb54ea463464e7a8a6a5dd6c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 092/123] fix: Hull-White optionlets and swaptions raised on
 the argument names of the zero coupon bond option

---
 frm/pricing_engine/hw1f.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 6f9bea3..229b92c 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -300,8 +300,8 @@ class HullWhite1Factor:
 
 
     def price_zero_coupon_bond_option(self,
-                                      option_expiry: float,
-                                      bond_maturity: float,
+                                      expiry_years: float,
+                                      maturity_years: float,
                                       K: float,
                                       cp: int,
                                       t0: float=0):
@@ -309,9 +309,9 @@ class HullWhite1Factor:
         Price (at time t) a European option on a zero-coupon bond using the Hull-White model.
 
         Parameters:
-        T : float
+        expiry_years : float
             expiry (in years) of the option, and the start of the underlying zero-coupon bond.
-        S : float
+        maturity_years : float
             Maturity (in years) of the underlying zero-coupon bond.
         K : float
             Strike price of the bond option.
@@ -331,8 +331,8 @@ class HullWhite1Factor:
 
         σ = self.vol
         α = self.mean_rev_lvl
-        T = np.atleast_1d(option_expiry) # Aligning to the notation in [1]
-        S = np.atleast_1d(bond_maturity) # Aligning to the notation in [1]
+        T = np.atleast_1d(expiry_years) # Aligning to the notation in [1]
+        S = np.atleast_1d(maturity_years) # Aligning to the notation in [1]
         K = np.atleast_1d(K)
         cp = np.atleast_1d(cp)
 
@@ -363,7 +363,7 @@ class HullWhite1Factor:
             price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[bond_maturity < option_expiry] = 0.0
+        price[maturity_years < expiry_years] = 0.0
 
         return price
 
-- 
2.43.0


From 921293cb16bd2ff5761ff792b4e499a1112bcbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 093/123] fix: Hull-White zero coupon bond options failed for a
 vector of strikes and did not discount the zero volatility value

---
 frm/pricing_engine/hw1f.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 229b92c..d94e520 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -338,6 +338,7 @@ class HullWhite1Factor:
 
         max_dim = np.maximum.reduce([x.size for x in [T, S, K, cp]])
         assert all((x.size == 1) or (x.size == max_dim) for x in [T, S, K, cp]), "Arrays must be of size 1 or match maximum dimension"
+        T, S, K, cp = np.broadcast_arrays(T, S, K, cp)
 
         if not np.all(S > T):
             warnings.warn("Bond maturities should be after the bond option expiries")
@@ -352,18 +353,18 @@ class HullWhite1Factor:
         σP = σ * np.sqrt((1 - np.exp(-2 * α * (T-t0))) / (2 * α)) * self.calc_b(t1=T, t2=S)
 
         zero_σ_mask = σP <= 0.0
-        h = (1/σP) * np.log(P_t_S / (K * P_t_T)) + 0.5 * σP
+        with np.errstate(divide='ignore', invalid='ignore'):
+            h = (1/σP) * np.log(P_t_S / (K * P_t_T)) + 0.5 * σP
 
         price = np.zeros(max_dim)
         price[~zero_σ_mask] = (cp * (P_t_S * norm.cdf(cp*h) - K * P_t_T * norm.cdf(cp*(h - σP))))[~zero_σ_mask]
 
         # Handle zero variance case (set to intrinsic value)
         if np.any(zero_σ_mask):
-            F = P_t_S / P_t_T # forward bond price
-            price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
+            price[zero_σ_mask] = np.maximum(cp * (P_t_S - K * P_t_T), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[maturity_years < expiry_years] = 0.0
+        price[S < T] = 0.0
 
         return price
 
-- 
2.43.0


From cd40bc8da8ed1b9bdffca4436aebf72c407792a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 094/123] fix: Hull-White swaptions with the notional paid on
 the last coupon date dropped the last coupon or raised

---
 frm/pricing_engine/hw1f.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index d94e520..2eabeb5 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -595,7 +595,7 @@ class HullWhite1Factor:
             fixed_rate: c, the fixed rate of the underlying swap
 
         Returns:
-            Array of critical bond prices (strikes) Kᵢ = P(T₀,Tᵢ,x*)
+            Array of critical bond prices (strikes) Kᵢ = P(T₀,Tᵢ,x*), one per coupon followed by the one of the notional
         """
 
         def _zero_function(r_t1):
@@ -640,12 +640,12 @@ class HullWhite1Factor:
             for T in coupon_payment_times
         ])
 
-        # Then for notional payment if it's different from last coupon
+        # Then for notional payment, which can be different from last coupon
         if notional_payment_time != coupon_payment_times[-1]:
             notional_strike = self.calc_discount_factor_by_solving_ode_1(t1=swaption_expiry, t2=notional_payment_time, r_t1=r_star)
-            critical_bond_prices = np.append(coupon_strikes, notional_strike)
         else:
-            critical_bond_prices = coupon_strikes
+            notional_strike = coupon_strikes[-1]
+        critical_bond_prices = np.append(coupon_strikes, notional_strike)
 
         return critical_bond_prices
 
-- 
2.43.0


From af719c9c1ef19e07975571343835bab494ca15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 095/123] fix: Hull-White swaptions with a single coupon raised
 an IndexError

---
 frm/pricing_engine/hw1f.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 2eabeb5..e81a52d 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -626,7 +626,7 @@ class HullWhite1Factor:
         if not all(x < y for x, y in zip(coupon_payment_times[:-1], coupon_payment_times[1:])):
             raise ValueError("coupon_payment_times must be strictly increasing")
 
-        if notional_payment_time < coupon_payment_times[-2]:
+        if any(notional_payment_time < T for T in coupon_payment_times[-2:-1]):
             raise ValueError("notional_payment_time must not be earlier than the 2nd to last coupon payment")
 
         # Find critical rate r* (x* in paper) by solving _zero_function(r*) = 0
-- 
2.43.0


From 3481baccc79df14b7e4eb15f6a29605c1584d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 096/123] fix: fit_theta raised at the t=0 pillar and left the
 last theta spline tried instead of the best one

---
 frm/pricing_engine/hw1f.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index e81a52d..bad6e2c 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -73,12 +73,15 @@ class HullWhite1Factor:
         dt, num, _ = results[0]
         self.dt = dt
         self.num = num
+        self.setup_theta()
 
 
     def calc_error_for_theta_fit(self, print_results=False):
         """Calculate the basis point error between the pillar zero rates and the theta fit."""
-        years_pillars = self.zero_curve.pillar_df['years'].values
-        cczr_pillars = self.zero_curve.pillar_df['cczr'].values
+        # The zero rate at t=0 is not recoverable from a discount factor
+        pillar_df = self.zero_curve.pillar_df[self.zero_curve.pillar_df['years'] > 0]
+        years_pillars = pillar_df['years'].values
+        cczr_pillars = pillar_df['cczr'].values
 
         cczr_recalcs = np.array([-1*np.log(self.calc_discount_factor_by_solving_ode_1(0, yr))/yr for yr in years_pillars])
         diff_bps = 1e4 * (cczr_pillars - cczr_recalcs)
-- 
2.43.0


From 9580dee61d80e19ecefec510730759ce5f27d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 097/123] fix: Hull-White without mean reversion divided by
 zero

---
 frm/pricing_engine/hw1f.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index bad6e2c..f253127 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -130,7 +130,6 @@ class HullWhite1Factor:
             In Section 3.3.1 'The Short-Rate Dynamics' on page 73 of [1] (page 121/1007 of the pdf), Eq, 3.34.
         """
         α = self.mean_rev_lvl
-        σ = self.vol
 
         # Calculate the derivative of the instantaneous forward rate  by numerical differentiation
         f_t = self.zero_curve.get_instantaneous_forward_rate(years=years)
@@ -140,7 +139,7 @@ class HullWhite1Factor:
 
         return df_dt \
                + α * f_t \
-               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+               + self.calc_short_rate_variance(years)
 
 
     def get_forward_rate_by_integration(self,t, T):
@@ -260,7 +259,7 @@ class HullWhite1Factor:
                 # conditional_mean = 0.01
 
                 # Conditional variance
-                conditional_var = (σ ** 2 / (2 * α)) * (1 - np.exp(-2 * α * Δt))
+                conditional_var = self.calc_short_rate_variance(Δt)
 
                 # Generate next value
                 R[i + 1, :] = conditional_mean + np.sqrt(conditional_var) * rand_nbs[i, :, :]
@@ -332,8 +331,6 @@ class HullWhite1Factor:
             In section 3.3.2 'Bond and Option Pricing, formulae 3.40 and 3.41, page 76 (124/1007 of the pdf)
         """
 
-        σ = self.vol
-        α = self.mean_rev_lvl
         T = np.atleast_1d(expiry_years) # Aligning to the notation in [1]
         S = np.atleast_1d(maturity_years) # Aligning to the notation in [1]
         K = np.atleast_1d(K)
@@ -353,7 +350,7 @@ class HullWhite1Factor:
             raise ValueError('Need to assess if different functionality (i.e. calc_discount_factor_by_solving_ode_1/2) needed for P_t_T and P_t_S when t>0')
 
         # Calculate bond price volatility between T and S
-        σP = σ * np.sqrt((1 - np.exp(-2 * α * (T-t0))) / (2 * α)) * self.calc_b(t1=T, t2=S)
+        σP = np.sqrt(self.calc_short_rate_variance(T-t0)) * self.calc_b(t1=T, t2=S)
 
         zero_σ_mask = σP <= 0.0
         with np.errstate(divide='ignore', invalid='ignore'):
@@ -436,6 +433,17 @@ class HullWhite1Factor:
             return (1/α) *(1-np.exp(-α*(t2- t1)))
 
 
+    def calc_short_rate_variance(self, t):
+        """Variance of the short rate over a term of t years. As for calc_b(), no mean reversion is the limit α → 0."""
+        α = self.mean_rev_lvl
+        σ = self.vol
+
+        if α < 1e-8:
+            return σ ** 2 * t
+        else:
+            return (σ ** 2 / (2 * α)) * (1 - np.exp(-2 * α * t))
+
+
     def calc_discount_factor_by_solving_ode_1(self, t1, t2, r_t1=None):
         """
         Calculates the discount factor (i.e. the zero coupon bond price), for the ODE:
@@ -507,12 +515,10 @@ class HullWhite1Factor:
             df_T = self.zero_curve.get_discount_factors(years=t2)
             f_t = self.zero_curve.get_instantaneous_forward_rate(years=t1)
             B_t_T = self.calc_b(t1, t2)
-            α = self.mean_rev_lvl
-            σ = self.vol
 
             return (df_T / df_t) \
                 * np.exp(
-                    B_t_T * f_t - (σ ** 2 / (4 * α)) * (1 - np.exp(-2 * α * t1)) * B_t_T ** 2
+                    B_t_T * f_t - 0.5 * self.calc_short_rate_variance(t1) * B_t_T ** 2
                 )
 
         assert t2 > t1, 't2 must be greater than t1'
-- 
2.43.0


From 15f78ec56dccbedfe18f66e7397b2cc0be7ef4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 098/123] fix: an unknown Hull-White simulation method silently
 simulated zero rates

---
 frm/pricing_engine/hw1f.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index f253127..1c3491f 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -264,6 +264,9 @@ class HullWhite1Factor:
                 # Generate next value
                 R[i + 1, :] = conditional_mean + np.sqrt(conditional_var) * rand_nbs[i, :, :]
 
+        else:
+            raise ValueError(f"Invalid simulation method '{method}'")
+
         # We integrate R over each simulation path, and calculate the cumulative path discount factor from t=0 to t=t.
         # The integration is optimised by being is vectorised and 'cumulative'.
         # By cumulative, we only calculate a periods integration once, and store it for future uses.
-- 
2.43.0


From 9430767fa1817ee4ec2c8bbf0fa33c36ea2906a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 099/123] fix: Hull-White swaptions multiplied the value of
 every coupon with the year fractions of all coupons

---
 frm/pricing_engine/hw1f.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 1c3491f..211af8a 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -713,14 +713,12 @@ class HullWhite1Factor:
         cp = -1 if is_payer else 1
 
         # Price the bond options for coupon payments
-        coupon_option_values = np.array([
-            self.price_zero_coupon_bond_option(
-                expiry_years=swaption_expiry,
-                maturity_years=payment_time,
-                K=strike,
-                cp=cp
-            ) for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
-        ])
+        coupon_option_values = self.price_zero_coupon_bond_option(
+            expiry_years=swaption_expiry,
+            maturity_years=coupon_payment_times,
+            K=coupon_strikes,
+            cp=cp
+        )
 
         # Price the bond option for notional payment
         notional_option_value = self.price_zero_coupon_bond_option(
@@ -728,7 +726,7 @@ class HullWhite1Factor:
             maturity_years=notional_payment_time,
             K=notional_strike,
             cp=cp
-        )
+        )[0]
 
         # Sum up the components with their coefficients:
         # 1. Coupon payments: multiply by fixed_rate * year_fraction
-- 
2.43.0


From 7bd6e6c6ba514a2b1505fa5aeafd5ec79c059763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 100/123] fix: Optionlet raised for every input as the schedule
 was made with a missing attribute

---
 frm/term_structures/optionlet.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 7121f2e..a5ba083 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -105,11 +105,13 @@ class Optionlet:
         self.quote_cols = list(quote_str_map.keys())
     
         nb_quotes = len(self.quote_vol_sln) - 1
-        self.term_structure = make_schedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
-                                           end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
-                                           freq=self.optionlet_freq,
-                                           cal=self.cal)
-        self.term_structure.add_period_yearfrac(day_count_basis=self.day_count_basis)
+        schedule = BaseSchedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
+                                end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
+                                freq=self.optionlet_freq,
+                                cal=self.busdaycal)
+        schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
+        schedule.add_payment_dates()
+        self.term_structure = schedule.df
 
         self.term_structure['discount_factors'] = self.zero_curve.get_discount_factors(dates=self.term_structure['payment_date'])
         self.term_structure['annuity_factor'] = self.term_structure['period_yearfrac'] * self.term_structure['discount_factors']
-- 
2.43.0


From 1af8f1e3a3519144035dbe8c84eda8f69672eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 101/123] fix: Optionlet modified the quotes dataframe it was
 given

---
 frm/term_structures/optionlet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index a5ba083..0c1c4e3 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -61,6 +61,7 @@ class Optionlet:
         # TODO This should be a setting - settlement_date + freq (as below) or effective at the settlement date.
         effective_date_np = (self.settlement_date + self.optionlet_freq.date_offset).to_numpy().astype('datetime64[D]')
         effective_date = np.busday_offset(effective_date_np, offsets=0, roll='following', busdaycal=self.busdaycal)
+        self.quote_vol_sln = self.quote_vol_sln.copy()
         self.quote_vol_sln['tenor'] = self.quote_vol_sln['tenor'].apply(clean_tenor)
         self.quote_vol_sln['settlement_date'] = self.settlement_date
         self.quote_vol_sln['effective_date'] = effective_date
-- 
2.43.0


From 4e754d42c9d744d61984d4072f441e5e8bafeba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 102/123] fix: Optionlet added a one day stub and dropped the
 last optionlet of quotes if the last termination date was rolled

---
 frm/term_structures/optionlet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 0c1c4e3..d5e47ad 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -13,7 +13,7 @@ import numbers
 from frm.pricing_engine.black76_bachelier import black76_price, bachelier_price, black76_solve_implied_vol, bachelier_solve_implied_vol, normal_vol_to_black76_sln, black76_sln_to_normal_vol, black76_sln_to_normal_vol_analytical, normal_vol_atm_to_black76_sln_atm, VOL_N_BOUNDS
 from frm.pricing_engine.sabr import solve_alpha_from_sln_vol, calc_sln_vol_for_strike_from_sabr_params
 from frm.utils import year_frac, clean_tenor, tenor_to_date_offset, convert_column_to_consistent_data_type, BaseSchedule, make_schedule
-from frm.enums import DayCountBasis, PeriodFreq, TermRate
+from frm.enums import DayCountBasis, PeriodFreq, RollConv, TermRate
 from frm.term_structures.zero_curve import ZeroCurve
 from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names
 
@@ -106,9 +106,12 @@ class Optionlet:
         self.quote_cols = list(quote_str_map.keys())
     
         nb_quotes = len(self.quote_vol_sln) - 1
-        schedule = BaseSchedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
-                                end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
+        # The schedule is of the unadjusted dates (rolled as above), as otherwise a rolled date shifts every optionlet off the quotes dates
+        schedule = BaseSchedule(start_date=effective_date_np,
+                                end_date=self.settlement_date + tenor_to_date_offset(self.quote_vol_sln.loc[nb_quotes, 'tenor']),
                                 freq=self.optionlet_freq,
+                                roll_conv=RollConv.FOLLOWING,
+                                roll_user_specified_dates=True,
                                 cal=self.busdaycal)
         schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
         schedule.add_payment_dates()
-- 
2.43.0


From 6a87b82cb6c5d4090159afe9671ab36c8da32576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 103/123] fix: Optionlet calibrated negative SABR betas

---
 frm/term_structures/optionlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index d5e47ad..9953b37 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -488,7 +488,7 @@ class Optionlet:
         # rho has a valid range of -1≤ρ≤1
         # volvol has a valid range of 0<v≤∞
         x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0),(0.0001, None)]
+        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0),(0.0001, None)]
         res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
                                       x0=x0,
                                       bounds=bounds,
-- 
2.43.0


From ecd76a87f7cc8bd2e26abdfdf7030e1a10b97d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 104/123] fix: Optionlet raised if the first quote is of a
 single optionlet

---
 frm/term_structures/optionlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 9953b37..9683e8b 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -321,7 +321,7 @@ class Optionlet:
                 F=optionlets.loc[N,'F'],
                 tau=optionlets.loc[N,'expiry_years'],
                 K=self.quote_strikes.loc[quote_nb, 'atmf'],
-                vol_sln=vol_sln[-1],
+                vol_sln=np.atleast_1d(vol_sln)[-1],
                 ln_shift=self.ln_shift)
 
             # The target of the numerical solve is (a) - (bi)
-- 
2.43.0


From 2b5bbeeda0935a573e3819eb22821f9bfdc81e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 105/123] fix: Optionlet calibrations evaluated the SABR smile
 at rho of one, where it is not defined

---
 frm/term_structures/optionlet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 9683e8b..626ed92 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -485,10 +485,10 @@ class Optionlet:
 
         # alpha has a valid range of 0≤α≤∞, though it is analytically calculated from the other SABR parameters.
         # beta has a valid range of 0≤β≤1 and is either solved or specified.
-        # rho has a valid range of -1≤ρ≤1
+        # rho has a valid range of -1≤ρ≤1 (the smile formula is singular at ρ=1, hence the bounds are inside the range)
         # volvol has a valid range of 0<v≤∞
         x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0),(0.0001, None)]
+        bounds = [(-0.9999, 0.9999), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-0.9999, 0.9999), (0.0001, None)]
         res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
                                       x0=x0,
                                       bounds=bounds,
-- 
2.43.0


From adde99320c1f8f814a6112cb9b8c3a7bd5ab98e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 106/123] fix: Optionlet smiles repriced the quotes to a few
 percent only, as the tolerance was not of the squared error

---
 frm/term_structures/optionlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 626ed92..aac87ca 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -492,7 +492,7 @@ class Optionlet:
         res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
                                       x0=x0,
                                       bounds=bounds,
-                                      tol=1e-5)
+                                      tol=1e-5 ** 2) # 0.001%^2, the objective is a squared relative error
         if res.success:
             beta_pillar, rho_pillar, volvol_pillar = (beta_overide, *res.x) if beta_overide is not None else res.x
         else:
-- 
2.43.0


From e92d3de3f7934cae9562f708a8a29f5abecbf8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 107/123] fix: ASX bank bill futures given in another than
 chronological order got the dates of another contract

---
 frm/term_structures/bootstrap_helpers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 6dc12fd..efc7ed9 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -155,7 +155,7 @@ def futures_helper_asx_90day(
 
 
 
-    expiry_dates, settlement_dates = [], []
+    expiry_dates, settlement_dates = {}, {}
     for years in range(df['years'].min(), df['years'].max()+1):
         for months in [3, 6, 9, 12]:
             if ((df['years'] == years) & (df['months'] == months)).any():
@@ -164,13 +164,14 @@ def futures_helper_asx_90day(
                 month_start = pd.Timestamp(year=years, month=months, day=1)
                 fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
                 settlement_date = fridays[1] # Get the second Friday
-                settlement_dates.append(settlement_date)
+                settlement_dates[(years, months)] = settlement_date
 
                 # Expiry date is the business day before settlement date
-                expiry_dates.append(settlement_date - pd.offsets.BDay(1))
+                expiry_dates[(years, months)] = settlement_date - pd.offsets.BDay(1)
 
-    df['expiry_date'] = expiry_dates
-    df['settlement_date'] = settlement_dates
+    # The loop above is over the contracts in chronological order, which needs not be the order of (or one per) row
+    df['expiry_date'] = [expiry_dates[contract] for contract in zip(df['years'], df['months'])]
+    df['settlement_date'] = [settlement_dates[contract] for contract in zip(df['years'], df['months'])]
 
     # Calculate the effective period of the BBSW 3M fixing of the contract.
     df['effective_date'] = df['settlement_date']
-- 
2.43.0


From 7f04ef317dfa2cc8b8d3c15cb856ea62b751e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 108/123] fix: ASX bank bill futures tickers with a 2 or 4
 digit year code were rejected

---
 frm/term_structures/bootstrap_helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index efc7ed9..539ff79 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -128,11 +128,11 @@ def futures_helper_asx_90day(
             assert futures_month_code.isin(['H', 'M', 'U', 'Z']).all() # 'H', 'M', 'U', 'Z' for Mar, Jun, Sep, Dec
             df['months'] = futures_month_code.map({'H': 3, 'M': 6, 'U': 9, 'Z': 12})
 
-            assert df['ticker'].str.len().isin([1, 2, 4]).all()
-            futures_year_code = df['ticker'].str[3:].astype(int)  # 1-4-digit year code
+            futures_year_code = df['ticker'].str[3:]  # 1, 2 or 4-digit year code
+            assert futures_year_code.str.len().isin([1, 2, 4]).all() and futures_year_code.str.isdigit().all()
 
             def resolve_year(year_code):
-                year_code_str = str(year_code)
+                year_code_str = year_code
                 if len(year_code_str) == 1:
                     # Map single-digit year codes to 2020-2029
                     # TODO: does not support cases where the futures schedule spans multiple decades. i.e from 2028-2031.
-- 
2.43.0


From 4ed3d8e1719de0ae8499e7b9be0eec7a8ccdca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 109/123] fix: bootstrap helpers modified the dataframes they
 were given

---
 frm/term_structures/bootstrap_helpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 539ff79..e613902 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -16,6 +16,7 @@ def cash_rates_quote_helper(
         settlement_date: Optional[pd.Timestamp]=None,
         cal: np.busdaycalendar=np.busdaycalendar):
 
+    df = df.copy()
     assert 'rate' in df.columns
     assert 'tenor' in df.columns or ('effective_date' in df.columns and 'maturity_date' in df.columns)
 
@@ -43,6 +44,7 @@ def bootstrap_cash_rates(
         curve_date: pd.Timestamp,
         day_count_basis_years: DayCountBasis=DayCountBasis.ACT_ACT):
 
+    df = df.copy()
     df['effective_date_years'] = year_frac(curve_date, df['effective_date'], day_count_basis_years)
     df['maturity_date_years'] = year_frac(curve_date, df['maturity_date'], day_count_basis_years)
     df['effective_date_discount_factor'] = np.nan
@@ -78,6 +80,7 @@ def bootstrap_futures(
         day_count_basis: DayCountBasis,
         day_count_basis_years: DayCountBasis=DayCountBasis.ACT_ACT):
 
+    df = df.copy()
     if 'futures_rate' not in df.columns:
         df['futures_rate'] = (100 - df['price']) / 100
     if 'convexity_bps' not in df.columns:
@@ -114,6 +117,8 @@ def futures_helper_asx_90day(
     # Helper function to setup contract details for ASX 90-day bank bill futures.
     # https://www.asx.com.au/content/dam/asx/participants/derivatives-market/90-Day-bank-bill-futures-factsheet.pdf
 
+    df = df.copy()
+
     # From the contract code, index the effective period of the BBSW 3M fixing of the contract.
 
     if 'months' not in df.columns or 'years' not in df.columns:
-- 
2.43.0


From 0f723678f522b1daac86744ed6595293bad2fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 110/123] fix: cash rates given by their dates instead of
 tenors raised, and the bootstrap of cash rates without a settlement delay
 raised

---
 frm/term_structures/bootstrap_helpers.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index e613902..013b1bc 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -20,16 +20,17 @@ def cash_rates_quote_helper(
     assert 'rate' in df.columns
     assert 'tenor' in df.columns or ('effective_date' in df.columns and 'maturity_date' in df.columns)
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
-
-    if settlement_date is None:
-        assert settlement_delay is not None
-        settlement_date = workday(dates=curve_date, offset=settlement_delay, cal=cal)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(clean_tenor)
 
     if 'effective_date' not in df.columns:
-        df['has_settlement_delay'] = df['tenor'] != 'on'
-        df.loc[~df['has_settlement_delay'],'effective_date'] = curve_date
-        df.loc[df['has_settlement_delay'],'effective_date'] = settlement_date
+        if settlement_date is None:
+            assert settlement_delay is not None
+            settlement_date = workday(dates=curve_date, offset=settlement_delay, cal=cal)
+        df['effective_date'] = settlement_date
+        df.loc[df['tenor'] == 'on', 'effective_date'] = curve_date
+
+    df['has_settlement_delay'] = df['effective_date'] > curve_date
 
     if 'maturity_date' not in df.columns:
         date_offset = df['tenor'].apply(tenor_to_date_offset).values
-- 
2.43.0


From f9578a8d223a4808f2b8a0393628e59488b03429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 111/123] fix: tomorrow-next cash rates started at the
 settlement date

---
 frm/term_structures/bootstrap_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 013b1bc..b253c0b 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -29,6 +29,7 @@ def cash_rates_quote_helper(
             settlement_date = workday(dates=curve_date, offset=settlement_delay, cal=cal)
         df['effective_date'] = settlement_date
         df.loc[df['tenor'] == 'on', 'effective_date'] = curve_date
+        df.loc[df['tenor'] == 'tn', 'effective_date'] = workday(dates=curve_date, offset=1, cal=cal)
 
     df['has_settlement_delay'] = df['effective_date'] > curve_date
 
-- 
2.43.0


From 48ef3547b984864b25ecba3a556a31fadc2909b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 112/123] fix: cash rates without a calendar raised as the
 default was the class of a calendar

---
 frm/term_structures/bootstrap_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index b253c0b..e2a585e 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -14,7 +14,7 @@ def cash_rates_quote_helper(
         day_count_basis: DayCountBasis,
         settlement_delay: Optional[int]=None,
         settlement_date: Optional[pd.Timestamp]=None,
-        cal: np.busdaycalendar=np.busdaycalendar):
+        cal: np.busdaycalendar=np.busdaycalendar()):
 
     df = df.copy()
     assert 'rate' in df.columns
-- 
2.43.0


From 5300ae128cd06767dcac630574a23519d1edd54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 113/123] fix: futures given by their rate instead of price
 raised

---
 frm/term_structures/bootstrap_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index e2a585e..d468183 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -86,7 +86,7 @@ def bootstrap_futures(
     if 'futures_rate' not in df.columns:
         df['futures_rate'] = (100 - df['price']) / 100
     if 'convexity_bps' not in df.columns:
-        df.insert(df.columns.get_loc('price') + 1, 'convexity_bps', 0)
+        df['convexity_bps'] = 0
     if 'forward_rate' not in df.columns:
         df['forward_rate'] = df['futures_rate'] - df['convexity_bps'] / 10000
 
-- 
2.43.0


From ea1e3fa86e6763abf72ec0e374c4dffeec6a8a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 114/123] fix: tomorrow-next cash rates matured two days after
 their start

---
 frm/term_structures/bootstrap_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index d468183..781399d 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -36,6 +36,8 @@ def cash_rates_quote_helper(
     if 'maturity_date' not in df.columns:
         date_offset = df['tenor'].apply(tenor_to_date_offset).values
         df['maturity_date'] = workday(dates=(df['effective_date'] + date_offset), offset=0, cal=cal)
+        mask_tn = df['tenor'] == 'tn' # the tenor offset of tomorrow-next is from the curve date, not from its effective date
+        df.loc[mask_tn, 'maturity_date'] = workday(dates=df.loc[mask_tn, 'effective_date'], offset=1, cal=cal)
 
     df['period_years'] = year_frac(df['effective_date'], df['maturity_date'], day_count_basis)
 
-- 
2.43.0


From 5cc81abd66b9797107658484d2b1f55387ceb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 115/123] fix: bootstrap of cash rates with repeated row labels
 mixed up the rates

---
 frm/term_structures/bootstrap_helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 781399d..2fecc96 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -55,6 +55,8 @@ def bootstrap_cash_rates(
     df['maturity_date_discount_factor'] = np.nan
 
     df.sort_values(by='maturity_date', inplace=True)
+    index = df.index
+    df.reset_index(inplace=True, drop=True)
     for i, row in df.iterrows():
         if not row['has_settlement_delay']:
             df.at[i, 'effective_date_discount_factor'] = 1.0
@@ -71,6 +73,7 @@ def bootstrap_cash_rates(
             df.at[i, 'maturity_date_discount_factor'] = df.at[i, 'effective_date_discount_factor'] \
                                                                 / (1 + row['rate'] * row['period_years'])
 
+    df.index = index
     #df = df.drop(columns=['effective_date_years', 'maturity_date_years'], errors='ignore')
 
     return df
-- 
2.43.0


From f3f6d7e361d08fcbdc9b23eac7ff129219355866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 116/123] fix: cos_method rejected an adequate range for points
 between the steps

---
 frm/pricing_engine/cosine_method_generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/cosine_method_generic.py b/frm/pricing_engine/cosine_method_generic.py
index 563a410..901953c 100644
--- a/frm/pricing_engine/cosine_method_generic.py
+++ b/frm/pricing_engine/cosine_method_generic.py
@@ -63,7 +63,8 @@ def cos_method(p, cf, dt, a, b, N=160):
 
     PDF_pts = np.array([np.sum(w * (Fk * C(x))) for x in pts]) # Equation 11 in [1]
 
-    integral_of_a_to_b = np.sum(PDF_pts * dt_pts)
+    # Integrate over the regular grid. The inserted point p makes the step uneven, which is an integration error unrelated to the range.
+    integral_of_a_to_b = np.sum(PDF_pts[np.isin(pts, np.arange(a, b + dt, dt))]) * dt
     if integral_of_a_to_b < norm.cdf(5):
         raise ValueError('The integral of the PDF over [a,b] is not close enough to 1. Please increase the range of [a,b]')
     
-- 
2.43.0


From 7f7a48256873341db7b1463eb609ff7d8c0d48f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 117/123] fix: Garman-Kohlhagen implied volatility was wrong
 where the price is flat around the guess

---
 frm/pricing_engine/garman_kohlhagen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 88a0e18..dc2af78 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -394,7 +394,11 @@ def garman_kohlhagen_solve_implied_vol(
 
     try:
         # Try Netwon's method first (it's faster but less robust)
-        return newton(lambda vol_: error_function(vol_), x0=vol_guess, tol=1e-4, maxiter=50).item()
+        vol = newton(lambda vol_: error_function(vol_), x0=vol_guess, tol=1e-4, maxiter=50).item()
+        # Newton's method also stops on small steps where the price is flat in the volatility, the solution must be within the tolerance of vol
+        if error_function(max(vol - 1e-4, 1e-8)) > 1e-12 * S0 or error_function(vol + 1e-4) < -1e-12 * S0:
+            raise RuntimeError("Newton's method did not converge to a solution.")
+        return vol
     except RuntimeError:
         # Fallback to Brent's method
         try:
-- 
2.43.0


From 14a293cae1c95af827c8048c6e622c874376339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:59 +0000
Subject: [PATCH 118/123] fix: ZeroCurve from years pillars gave discount
 factors to dates after its last pillar

---
 frm/term_structures/zero_curve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 6965507..bdfc314 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -165,8 +165,10 @@ class ZeroCurve:
             max_date = max(self.pillar_df['date'])
         else:
             max_years = max(self.pillar_df['years'])
-            max_date = self.curve_date + relativedelta(years=int(max_years))
-            while year_frac(self.curve_date, max_date, self.day_count_basis) < max_years:
+            # No day count basis has years shorter than 360 days, a whole number of calendar years may already be past the last pillar
+            max_date = self.curve_date + dt.timedelta(days=int(360 * max_years))
+            while (year_frac(self.curve_date, max_date, self.day_count_basis) < max_years
+                   or year_frac(self.curve_date, max_date + dt.timedelta(days=1), self.day_count_basis) <= max_years):
                 max_date += dt.timedelta(days=1)
                 
         date_range = pd.date_range(self.curve_date,max_date,freq='d')
-- 
2.43.0


From 4b2ec384d84068a421f620bdb7b755b3d715310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:51 +0000
Subject: [PATCH 119/123] fix: a simple zero rate pillar on the curve date was
 converted as if its term was one year

---
 frm/term_structures/zero_curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index bdfc314..2c189fd 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -96,6 +96,9 @@ class ZeroCurve:
             # The simple to continuous conversion depends on the term of the rate
             mask = pillar_df['years'] != 0
             pillar_df.loc[mask,'cczr'] = -1 * np.log(pillar_df['discount_factor'][mask]) / pillar_df['years'][mask]
+            if compounding_freq == CompoundingFreq.SIMPLE:
+                # A simple rate and a continuously compounded rate are the same at a term of zero
+                pillar_df.loc[~mask,'cczr'] = pillar_df['zero_rate'][~mask]
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # A discount factor on the curve date carries no rate information, that pillar point is added below
-- 
2.43.0


From f9d7d6e76a6da28023a01e37419ded750fb2839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 120/123] fix: create_date_grid_for_fx_exposures failed for
 every sampling frequency and day of value option

---
 frm/utils/schedule.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 2ed5303..4a88448 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -600,22 +600,22 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
     # There is a pototo/potata view on if a cashflow has value on the settlement date. 
     # Our default view is no, it should be in accounts receivable, but this can be toggled. 
     
-    delivery_dates = np.unique(delivery_dates) 
+    delivery_dates = pd.DatetimeIndex(delivery_dates).unique()
     max_settlement_date = delivery_dates.max()
     
     if sampling_freq is not None:    
         if sampling_freq == '1d':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'days', 'forward')
+            date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.DAILY, 'forward')
         elif sampling_freq == '1w':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'weeks', 'forward')
+            date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.WEEKLY, 'forward')
         elif sampling_freq == '1m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'months', 'forward')
+            date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.MONTHLY, 'forward')
         elif sampling_freq == '3m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 3, 'months', 'forward')    
+            date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.QUARTERLY, 'forward')    
         elif sampling_freq == '6m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 6, 'months', 'forward')
+             date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.SEMIANNUAL, 'forward')
         elif sampling_freq == '12m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 12, 'months', 'forward') 
+             date_grid = generate_date_schedule(curve_date, max_settlement_date, PeriodFreq.ANNUAL, 'forward') 
              
         date_grid = pd.DatetimeIndex([curve_date]).append(pd.DatetimeIndex(date_grid[1]))
         
@@ -630,14 +630,14 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
             last_day_of_value = delivery_dates
         else: 
             last_day_of_value = delivery_dates - pd.DateOffset(days=1)
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = pd.DatetimeIndex(np.concatenate((date_grid.values, last_day_of_value.values)))
 
     elif include_day_after_last_day_of_value:
         if payments_on_value_date_have_value:
             last_day_of_value = delivery_dates + pd.DateOffset(days=1)
         else: 
             last_day_of_value = delivery_dates 
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = pd.DatetimeIndex(np.concatenate((date_grid.values, last_day_of_value.values)))
 
     date_grid = date_grid.drop_duplicates().sort_values()
     return date_grid
-- 
2.43.0


From d81a290ddc2a06d56c31e726377b36c44bcb192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:33 +0000
Subject: [PATCH 121/123] fix: fx_forward_curve_helper changed the column types
 of the dataframe given

---
 frm/term_structures/fx_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 71edaa2..0751dc4 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -73,7 +73,7 @@ def fx_forward_curve_helper(fx_forward_curve_df: pd.DataFrame,
                             spot_offset: int,
                             cal: np.busdaycalendar) -> pd.DataFrame:
 
-    fx_forward_curve_df = convert_column_to_consistent_data_type(fx_forward_curve_df)
+    fx_forward_curve_df = convert_column_to_consistent_data_type(fx_forward_curve_df.copy())
 
     mandatory_columns = ['fx_forward_rate']
     for column in mandatory_columns:
-- 
2.43.0


From 3e227c90a1a28f3e0e7001a7bc69b175122e270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:33 +0000
Subject: [PATCH 122/123] fix: FXVolatilitySurface failed for quotes in columns
 of objects

---
 frm/term_structures/fx_volatility_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index c368427..a8dc064 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 import os
 
-from frm.utils import workday
+from frm.utils import convert_column_to_consistent_data_type, workday
 
 if __name__ == "__main__":
     os.chdir(os.environ.get('PROJECT_DIR_FRM')) 
@@ -93,7 +93,7 @@ class FXVolatilitySurface:
         self.fx_spot_rate = self.fx_forward_curve_df.loc[mask, 'fx_forward_rate'].values[0]
 
         # Process volatility input and setup pillar dataframe and daily helper dataframe
-        vol_quotes = clean_vol_quotes_column_names(vol_quotes)
+        vol_quotes = convert_column_to_consistent_data_type(clean_vol_quotes_column_names(vol_quotes))
         vol_quotes_call_put = solve_call_put_quotes_from_strategy_quotes(vol_quotes)
         delta_smile_quote_details = get_delta_smile_quote_details(vol_quotes_call_put)
         self.quotes_column_names = np.array(delta_smile_quote_details['quotes_column_names'].to_list())
-- 
2.43.0


From fd6471e7176cdaeb0c84a51656600544ac958bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:21 +0000
Subject: [PATCH 123/123] fix: leg values silently omitted the payments dated
 after the end of the discount curve

---
 frm/instruments/leg.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index ca5e5a0..79e72fe 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -186,9 +186,10 @@ class Leg(ABC):
                                                                self.schedule.df['notional_discount_factor'])
         self.schedule.df['coupon_payment_pv'] = (self.schedule.df['coupon_payment'] *
                                                             self.schedule.df['coupon_discount_factor'])
+        self.schedule.df.loc[self.schedule.df['notional_payment'] == 0, 'notional_payment_pv'] = 0.0
         self.schedule.df['total_payment_pv'] = (self.schedule.df['notional_payment_pv'] +
                                                            self.schedule.df['coupon_payment_pv'])
-        return self.schedule.df['total_payment_pv'].sum()
+        return self.schedule.df['total_payment_pv'].sum(skipna=False)
 
     def calc_clean_pv(self):
         return self.calc_dirty_pv() - self.calc_accrued_interest()
@@ -204,15 +205,15 @@ class Leg(ABC):
             current_period_idxs = self.schedule.df['notional_payment_date'] <= value_date_plus_one_year
         else:
             current_period_idxs = self.schedule.df['notional_payment_date'] < value_date_plus_one_year
-        current += self.schedule.df['notional_payment_pv'][current_period_idxs].sum()
-        non_current += self.schedule.df['notional_payment_pv'][~current_period_idxs].sum()
+        current += self.schedule.df['notional_payment_pv'][current_period_idxs].sum(skipna=False)
+        non_current += self.schedule.df['notional_payment_pv'][~current_period_idxs].sum(skipna=False)
 
         if frm.utils.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV:
             current_period_idxs = self.schedule.df['coupon_payment_date'] <= value_date_plus_one_year
         else:
             current_period_idxs = self.schedule.df['coupon_payment_date'] < value_date_plus_one_year
-        current += self.schedule.df['coupon_payment_pv'][current_period_idxs].sum()
-        non_current += self.schedule.df['coupon_payment_pv'][~current_period_idxs].sum()
+        current += self.schedule.df['coupon_payment_pv'][current_period_idxs].sum(skipna=False)
+        non_current += self.schedule.df['coupon_payment_pv'][~current_period_idxs].sum(skipna=False)
 
         return current, non_current
 
-- 
2.43.0

