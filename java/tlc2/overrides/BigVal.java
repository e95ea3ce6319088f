package tlc2.overrides;

import java.io.IOException;
import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.*;
import tlc2.value.impl.*;
import util.Assert;

/** A TLC value for an integer outside the 32-bit range (small ones stay IntValue). */
public final class BigVal extends Value {
  public final BigInteger v;

  private BigVal(BigInteger v) { this.v = v; }

  private static final BigInteger LO = BigInteger.valueOf(Integer.MIN_VALUE + 1);
  private static final BigInteger HI = BigInteger.valueOf(Integer.MAX_VALUE);

  public static Value of(BigInteger b) {
    if (b.bitLength() < 32 && b.compareTo(LO) >= 0 && b.compareTo(HI) <= 0) return IntValue.gen(b.intValue());
    return new BigVal(b);
  }

  public static BigInteger big(Value x) {
    if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val);
    if (x instanceof BigVal) return ((BigVal) x).v;
    Assert.fail("BigInt operator applied to a non-integer: " + x);
    return null;
  }

  public byte getKind() { return INTVALUE; }
  public int compareTo(Object o) { return v.compareTo(big((Value) o)); }
  public boolean equals(Object o) { return (o instanceof BigVal) && v.equals(((BigVal) o).v); }
  public boolean member(Value x) { Assert.fail("member of an integer"); return false; }
  public boolean isFinite() { Assert.fail("isFinite of an integer"); return false; }
  public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) Assert.fail("EXCEPT on an integer"); return ex.value; }
  public Value takeExcept(ValueExcept[] exs) { return this; }
  public int size() { Assert.fail("size of an integer"); return 0; }
  public boolean mutates() { return false; }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public void write(IValueOutputStream s) throws IOException { throw new IOException("big integers do not go to disk"); }
  public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, INTVALUE);
    for (byte b : v.toByteArray()) fp = FP64.Extend(fp, b);
    return fp;
  }
  public IValue permute(IMVPerm p) { return this; }
  public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append(v); }
}
