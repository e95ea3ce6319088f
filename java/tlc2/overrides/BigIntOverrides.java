package tlc2.overrides;

import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** Evaluation of the operators of spec/BigInt.tla on java.math.BigInteger. */
public final class BigIntOverrides {
  private static BigInteger g(Value v) { return BigVal.big(v); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "++", module = "BigInt", warn = false)
  public static Value add(Value a, Value c) { return BigVal.of(g(a).add(g(c))); }
  @TLAPlusOperator(identifier = "--", module = "BigInt", warn = false)
  public static Value sub(Value a, Value c) { return BigVal.of(g(a).subtract(g(c))); }
  @TLAPlusOperator(identifier = "**", module = "BigInt", warn = false)
  public static Value mul(Value a, Value c) { return BigVal.of(g(a).multiply(g(c))); }
  @TLAPlusOperator(identifier = "//", module = "BigInt", warn = false)
  public static Value div(Value a, Value c) {
    BigInteger d = g(c);
    if (d.signum() <= 0) throw new RuntimeException("BigInt // needs a positive divisor");
    BigInteger[] qr = g(a).divideAndRemainder(d);
    return BigVal.of(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }
  @TLAPlusOperator(identifier = "%%", module = "BigInt", warn = false)
  public static Value mod(Value a, Value c) { return BigVal.of(g(a).mod(g(c))); }
  @TLAPlusOperator(identifier = "^^", module = "BigInt", warn = false)
  public static Value pow(Value a, Value c) { return BigVal.of(g(a).pow(g(c).intValueExact())); }
  @TLAPlusOperator(identifier = "\\prec", module = "BigInt", warn = false)
  public static Value lt(Value a, Value c) { return b(g(a).compareTo(g(c)) < 0); }
  @TLAPlusOperator(identifier = "\\preceq", module = "BigInt", warn = false)
  public static Value le(Value a, Value c) { return b(g(a).compareTo(g(c)) <= 0); }
  @TLAPlusOperator(identifier = "\\succ", module = "BigInt", warn = false)
  public static Value gt(Value a, Value c) { return b(g(a).compareTo(g(c)) > 0); }
  @TLAPlusOperator(identifier = "\\succeq", module = "BigInt", warn = false)
  public static Value ge(Value a, Value c) { return b(g(a).compareTo(g(c)) >= 0); }
  @TLAPlusOperator(identifier = "\\doteq", module = "BigInt", warn = false)
  public static Value eq(Value a, Value c) { return b(g(a).compareTo(g(c)) == 0); }
  @TLAPlusOperator(identifier = "BAbs", module = "BigInt", warn = false)
  public static Value abs(Value a) { return BigVal.of(g(a).abs()); }
  @TLAPlusOperator(identifier = "BSgn", module = "BigInt", warn = false)
  public static Value sgn(Value a) { return IntValue.gen(g(a).signum()); }
  @TLAPlusOperator(identifier = "BMax", module = "BigInt", warn = false)
  public static Value max(Value a, Value c) { return g(a).compareTo(g(c)) < 0 ? c : a; }
  @TLAPlusOperator(identifier = "BMin", module = "BigInt", warn = false)
  public static Value min(Value a, Value c) { return g(a).compareTo(g(c)) < 0 ? a : c; }

  private static final ConcurrentHashMap<Integer, BigInteger> P = new ConcurrentHashMap<>();
  static BigInteger p10(int k) {
    if (k < 0) throw new RuntimeException("P10 of a negative exponent");
    if (k > 4000000) throw new RuntimeException("P10 of a huge exponent");
    if (k > 20000) return BigInteger.TEN.pow(k);
    return P.computeIfAbsent(k, q -> BigInteger.TEN.pow(q));
  }
  @TLAPlusOperator(identifier = "P10", module = "BigInt", warn = false)
  public static Value p10(Value k) { return BigVal.of(p10(g(k).intValueExact())); }

  static int ndig(BigInteger a) {
    a = a.abs();
    if (a.signum() == 0) return 0;
    int k = (int) ((a.bitLength() - 1) * 0.30102999566398119521);
    return a.compareTo(p10(k)) >= 0 ? (a.compareTo(p10(k + 1)) >= 0 ? k + 2 : k + 1) : k;
  }
  @TLAPlusOperator(identifier = "NDig", module = "BigInt", warn = false)
  public static Value ndig(Value a) { return IntValue.gen(ndig(g(a))); }
  @TLAPlusOperator(identifier = "ISqrt", module = "BigInt", warn = false)
  public static Value isqrt(Value a) { return BigVal.of(g(a).sqrt()); }
  @TLAPlusOperator(identifier = "Dec", module = "BigInt", warn = false)
  public static Value dec(Value s) { return BigVal.of(parse(((StringValue) s).val.toString())); }
  static BigInteger parse(String s) {
    if (s.length() < 4000) return new BigInteger(s);
    if (s.charAt(0) == '-') return parse(s.substring(1)).negate();
    int k = s.length() / 2;
    BigInteger lo = parse(s.substring(s.length() - k));
    if (lo.signum() < 0) throw new NumberFormatException(s.substring(0, 40));
    return parse(s.substring(0, s.length() - k)).multiply(p10(k)).add(lo);
  }
  @TLAPlusOperator(identifier = "Str", module = "BigInt", warn = false)
  public static Value str(Value n) { return new StringValue(g(n).toString()); }

  private static final BigInteger M = BigInteger.ONE.shiftLeft(127).subtract(BigInteger.ONE);
  private static final BigInteger K1 = BigInteger.valueOf(73939133), K2 = BigInteger.valueOf(433494437),
    K3 = BigInteger.valueOf(1597), K4 = BigInteger.valueOf(6700417), K5 = BigInteger.valueOf(104729);
  @TLAPlusOperator(identifier = "Hash", module = "BigInt", warn = false)
  public static Value hash(Value x, Value y) {
    BigInteger a = g(x), b = g(y);
    BigInteger u = a.multiply(K1).add(b.multiply(K2)).add(K3).mod(M);
    BigInteger v = u.multiply(u).add(u.multiply(K4)).add(b).mod(M);
    BigInteger w = v.multiply(v).add(v.multiply(K5)).add(a).mod(M);
    return BigVal.of(w.shiftRight(16));
  }
}
