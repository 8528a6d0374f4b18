import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** BigInteger implementations of the primitive operators of module Rat (meaning: RatPure.tla). */
public class VerifOverrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { VerifOverrides.class }; }

  /** A rational as the tuple RatPure defines, remembering its BigInteger form. */
  static final class RatV extends TupleValue {
    final transient BigInteger n, d;
    RatV(BigInteger n, BigInteger d) { super(new Value[] { big(n), big(d) }); this.n = n; this.d = d; }
  }

  static final int MASK = 32767;

  static TupleValue big(BigInteger b) {
    int s = b.signum();
    if (s == 0) return new TupleValue(new Value[] { IntValue.gen(0) });
    BigInteger m = b.abs();
    int k = (m.bitLength() + 14) / 15;
    Value[] v = new Value[k + 1];
    v[0] = IntValue.gen(s);
    byte[] le = m.toByteArray(); // big endian
    int len = le.length;
    for (int i = 0; i < k; i++) {
      int bit = 15 * i, by = bit >> 3, off = bit & 7, w = 0;
      for (int j = 0; j < 3; j++) {
        int idx = len - 1 - by - j;
        if (idx >= 0) w |= (le[idx] & 0xff) << (8 * j);
      }
      v[i + 1] = IntValue.gen((w >> off) & MASK);
    }
    return new TupleValue(v);
  }

  static int iv(Value v) { return ((IntValue) v).val; }

  static BigInteger limbs(Value[] e, int from) {
    int k = e.length - from;
    if (k <= 4) {
      long r = 0;
      for (int i = e.length - 1; i >= from; i--) r = (r << 15) | iv(e[i]);
      return BigInteger.valueOf(r);
    }
    BigInteger r = BigInteger.ZERO;
    for (int i = e.length - 1; i >= from; i--) r = r.shiftLeft(15).or(BigInteger.valueOf(iv(e[i])));
    return r;
  }

  static BigInteger toBig(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int s = iv(e[0]);
    if (s == 0) return BigInteger.ZERO;
    BigInteger m = limbs(e, 1);
    return s < 0 ? m.negate() : m;
  }

  static BigInteger num(Value v) { return v instanceof RatV ? ((RatV) v).n : toBig(((TupleValue) v.toTuple()).elems[0]); }
  static BigInteger den(Value v) { return v instanceof RatV ? ((RatV) v).d : toBig(((TupleValue) v.toTuple()).elems[1]); }

  static RatV mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new ArithmeticException("rational division by zero");
    if (n.signum() == 0) return new RatV(BigInteger.ZERO, BigInteger.ONE);
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (d.bitCount() == 1) { // power of two: cheap normalisation
      int s = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
      if (s > 0) { n = n.shiftRight(s); d = d.shiftRight(s); }
      return new RatV(n, d);
    }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return new RatV(n, d);
  }

  @TLAPlusOperator(identifier = "RInt", module = "Rat", warn = false)
  public static Value rInt(Value i) { return mk(BigInteger.valueOf(iv(i)), BigInteger.ONE); }

  @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
  public static Value rAdd(Value x, Value y) {
    BigInteger a = num(x), b = den(x), c = num(y), d = den(y);
    if (b.equals(d)) return mk(a.add(c), b);
    return mk(a.multiply(d).add(c.multiply(b)), b.multiply(d));
  }

  @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
  public static Value rSub(Value x, Value y) {
    BigInteger a = num(x), b = den(x), c = num(y), d = den(y);
    if (b.equals(d)) return mk(a.subtract(c), b);
    return mk(a.multiply(d).subtract(c.multiply(b)), b.multiply(d));
  }

  @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
  public static Value rNeg(Value x) { return new RatV(num(x).negate(), den(x)); }

  @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
  public static Value rMul(Value x, Value y) { return mk(num(x).multiply(num(y)), den(x).multiply(den(y))); }

  @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
  public static Value rDiv(Value x, Value y) { return mk(num(x).multiply(den(y)), den(x).multiply(num(y))); }

  @TLAPlusOperator(identifier = "RCmp", module = "Rat", warn = false)
  public static Value rCmp(Value x, Value y) {
    return IntValue.gen(num(x).multiply(den(y)).compareTo(num(y).multiply(den(x))));
  }

  @TLAPlusOperator(identifier = "RTrunc", module = "Rat", warn = false)
  public static Value rTrunc(Value x, Value bits) {
    BigInteger n = num(x), d = den(x);
    int s = n.signum();
    if (s == 0) return x;
    BigInteger m = n.abs();
    int e = m.bitLength() - d.bitLength() - iv(bits);
    BigInteger q = e >= 0 ? m.divide(d.shiftLeft(e)) : m.shiftLeft(-e).divide(d);
    if (s < 0) q = q.negate();
    return e >= 0 ? mk(q.shiftLeft(e), BigInteger.ONE) : mk(q, BigInteger.ONE.shiftLeft(-e));
  }

  @TLAPlusOperator(identifier = "RFloat", module = "Rat", warn = false)
  public static Value rFloat(Value t) {
    Value[] e = ((TupleValue) t.toTuple()).elems;
    int s = iv(e[0]);
    BigInteger m = limbs(e, 2);
    if (s == 0 || m.signum() == 0) return mk(BigInteger.ZERO, BigInteger.ONE);
    if (s < 0) m = m.negate();
    int ex = iv(e[1]);
    return ex >= 0 ? mk(m.shiftLeft(ex), BigInteger.ONE) : mk(m, BigInteger.ONE.shiftLeft(-ex));
  }
}
