package tlc2.overrides;

import java.math.BigInteger;
import java.util.BitSet;
import tlc2.value.impl.*;

/** Evaluation of the operators of spec/Primes.tla. */
public final class PrimesOverrides {
  @TLAPlusOperator(identifier = "IsPrime", module = "Primes", warn = false)
  public static Value isPrime(Value a) {
    long n = BigVal.big(a).longValueExact();
    boolean p = n >= 2;
    for (long d = 2; p && d * d <= n; d++) p = n % d != 0;
    return p ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  private static BitSet composite = new BitSet();
  private static int limit = 0;
  private static synchronized void sieve(int to) {
    if (to <= limit) return;
    BitSet c = new BitSet(to + 1);
    for (int i = 2; (long) i * i <= to; i++)
      if (!c.get(i)) for (long j = (long) i * i; j <= to; j += i) c.set((int) j);
    composite = c;
    limit = to;
  }
  @TLAPlusOperator(identifier = "FirstPrimes", module = "Primes", warn = false)
  public static Value firstPrimes(Value a) {
    int n = BigVal.big(a).intValueExact();
    int to = 1000;
    StringBuilder s;
    for (;;) {
      sieve(to);
      s = new StringBuilder();
      int k = 0;
      for (int p = 2; p <= to && k < n; p++) if (!composite.get(p)) { if (k++ > 0) s.append(' '); s.append(p); }
      if (k == n) return new StringValue(s.toString());
      to *= 4;
    }
  }
}
