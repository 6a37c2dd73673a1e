"""Documented ranges and orders of the outputs (P10), for bars with
0 < low <= open, close <= high, positive volume and whole-number periods.

An entry is a list of constraints:
  ('in', k, lo, hi)            output k lies in [lo, hi] (None: open end)
  ('le', j, k)                 output j <= output k at every bar
  ('win', k, inputs, n)        output k lies between the smallest and the largest value the
                               listed inputs take in the last n bars (n of the options; None: any bar so far)
  ('one', k, input, n)         output k is itself one of the last n values of that input
  ('ext', k, input, n, op)     and no value of the window exceeds / undercuts it"""

INF = None
R = {}


def r(name, *cs):
    R[name] = list(cs)


P1 = lambda o: int(o[0])
for _n in ('adx', 'adxr', 'dx', 'mfi', 'rsi', 'ultosc', 'arsi', 'rmi', 'rvi', 'posc', 'cmi'):
    r(_n, ('in', 0, 0, 100))
R['cmi'] = [('in', 0, INF, 100)]
R['posc'] = [('in', 0, 0, 100)]
r('aroon', ('in', 0, 0, 100), ('in', 1, 0, 100))
r('aroonosc', ('in', 0, -100, 100))
r('bop', ('in', 0, -1, 1))
r('cmf', ('in', 0, -1, 1))
r('cmo', ('in', 0, -100, 100))
r('smi', ('in', 0, -100, 100))
r('tsi', ('in', 0, -100, 100))
r('willr', ('in', 0, -100, 0))
r('stoch', ('in', 0, 0, 100), ('in', 1, 0, 100))
r('stochrsi', ('in', 0, 0, 1))
r('er', ('in', 0, 0, 1))
r('vhf', ('in', 0, 0, 1))
r('msw', ('in', 0, -1, 1), ('in', 1, -1, 1))
r('crossany', ('in', 0, 0, 1))
r('crossover', ('in', 0, 0, 1))
r('di', ('in', 0, 0, 100), ('in', 1, 0, 100))
r('dm', ('in', 0, 0, INF), ('in', 1, 0, INF))
for _n in ('atr', 'natr', 'tr', 'var', 'stddev', 'stderr', 'md', 'volatility', 'emsd', 'mass', 'marketfi', 'nvi', 'pvi', 'abs', 'sqrt', 'exp', 'max', 'min'):
    r(_n, ('in', 0, 0, INF))
r('vi', ('in', 0, 0, INF), ('in', 1, 0, INF))
r('sin', ('in', 0, -1, 1))
r('cos', ('in', 0, -1, 1))
r('tanh', ('in', 0, -1, 1))
# windows and histories
for _n in ('sma', 'wma', 'idwma', 'pwma', 'trima', 'md'):
    r(_n, ('win', 0, [0], P1))
R['md'] = [('in', 0, 0, INF)]
r('dwma', ('win', 0, [0], lambda o: 2 * int(o[0]) - 1))
r('vwma', ('win', 0, [0], P1))
r('vwap', ('win', 0, [0, 1], P1))
for _n in ('ema', 'wilders', 'kama', 'lf', 'ssmooth'):
    r(_n, ('win', 0, [0], None))
del R['ssmooth'], R['lf']
r('frama', ('win', 0, [0, 1], None))
r('edcf', ('win', 0, [0], P1))
r('hf', ('one', 0, 0, lambda o: 2 * int(o[0]) + 1))
r('hfema', ('win', 0, [0], None))
r('hfsma', ('win', 0, [0], None))
r('mhlma', ('win', 0, [0], None), ('win', 1, [0], None))
r('lag', ('one', 0, 0, lambda o: int(o[0]) + 1))
r('max', ('one', 0, 0, P1), ('ext', 0, 0, P1, 'max'))
r('min', ('one', 0, 0, P1), ('ext', 0, 0, P1, 'min'))
r('pc', ('one', 0, 1, P1), ('ext', 0, 1, P1, 'min'), ('one', 1, 0, P1), ('ext', 1, 0, P1, 'max'), ('le', 0, 1))
r('ichi', *[('win', k, [0, 1], lambda o: int(max(o)) + int(o[1]) + 1) for k in range(4)])
for _n in ('avgprice', 'medprice', 'typprice', 'wcprice'):
    r(_n, ('win', 0, [1, 2] if _n == 'avgprice' else [0, 1], lambda o: 1))
r('psar', ('win', 0, [0, 1], None))
r('decay', ('in', 0, 0, INF))
r('edecay', ('in', 0, 0, INF))
# bands
r('abands', ('le', 0, 2), ('le', 2, 1))
r('bbands', ('le', 0, 1), ('le', 1, 2), ('win', 1, [0], P1))
r('kc', ('le', 0, 1), ('le', 1, 2), ('win', 1, [2], None))
r('pbands', ('le', 0, 1))
