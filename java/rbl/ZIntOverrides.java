package rbl;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Faster versions of operators that spec/ZInt.tla defines in TLA+. */
public class ZIntOverrides {
  private static final TupleValue EMPTY = new TupleValue(new Value[0]);
  private static final IntValue M1 = IntValue.gen(-1), Z0 = IntValue.gen(0), P1 = IntValue.gen(1);
  private static final TupleValue ZERO = new TupleValue(new Value[] {Z0, EMPTY});

  private static int i(Value v) { return ((IntValue) v).val; }

  private static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    return ((TupleValue) v.toTuple()).elems;
  }

  private static BigInteger big(Value v) {
    Value[] p = elems(v);
    int s = i(p[0]);
    if (s == 0) return BigInteger.ZERO;
    Value[] l = elems(p[1]);
    int n = l.length;
    if (n <= 4) {
      long r = 0;
      for (int k = n - 1; k >= 0; k--) r = (r << 15) | i(l[k]);
      return BigInteger.valueOf(s < 0 ? -r : r);
    }
    int bits = 15 * n;
    byte[] b = new byte[bits / 8 + 1];
    int top = b.length - 1;
    for (int k = 0; k < n; k++) {
      int x = i(l[k]);
      int pos = 15 * k;
      int byt = pos >> 3, off = pos & 7;
      long y = ((long) x) << off;
      for (int q = 0; y != 0; q++) {
        b[top - byt - q] |= (byte) (y & 0xff);
        y >>>= 8;
      }
    }
    return new BigInteger(s, b);
  }

  private static Value val(BigInteger x) {
    int s = x.signum();
    if (s == 0) return ZERO;
    BigInteger m = x.abs();
    int n = (m.bitLength() + 14) / 15;
    Value[] l = new Value[n];
    if (n <= 4) {
      long r = m.longValue();
      for (int k = 0; k < n; k++) {
        l[k] = IntValue.gen((int) (r & 0x7fff));
        r >>>= 15;
      }
    } else {
      byte[] b = m.toByteArray();
      int top = b.length - 1;
      for (int k = 0; k < n; k++) {
        int pos = 15 * k;
        int byt = pos >> 3, off = pos & 7;
        int y = 0;
        for (int q = 0; q < 3; q++) {
          int idx = top - byt - q;
          if (idx >= 0) y |= (b[idx] & 0xff) << (8 * q);
        }
        l[k] = IntValue.gen((y >> off) & 0x7fff);
      }
    }
    return new TupleValue(new Value[] {s < 0 ? M1 : P1, new TupleValue(l)});
  }

  @TLAPlusOperator(identifier = "ZOfInt", module = "ZInt", warn = false)
  public static Value ofInt(final Value n) { return val(BigInteger.valueOf(i(n))); }

  @TLAPlusOperator(identifier = "ZAdd", module = "ZInt", warn = false)
  public static Value add(final Value a, final Value b) { return val(big(a).add(big(b))); }

  @TLAPlusOperator(identifier = "ZSub", module = "ZInt", warn = false)
  public static Value sub(final Value a, final Value b) { return val(big(a).subtract(big(b))); }

  @TLAPlusOperator(identifier = "ZMul", module = "ZInt", warn = false)
  public static Value mul(final Value a, final Value b) { return val(big(a).multiply(big(b))); }

  @TLAPlusOperator(identifier = "ZShl", module = "ZInt", warn = false)
  public static Value shl(final Value a, final Value n) { return val(big(a).shiftLeft(i(n))); }

  @TLAPlusOperator(identifier = "ZShr", module = "ZInt", warn = false)
  public static Value shr(final Value a, final Value n) { return val(big(a).shiftRight(i(n))); }

  @TLAPlusOperator(identifier = "ZCmp", module = "ZInt", warn = false)
  public static Value cmp(final Value a, final Value b) { return IntValue.gen(big(a).compareTo(big(b))); }

  @TLAPlusOperator(identifier = "ZBits", module = "ZInt", warn = false)
  public static Value bits(final Value a) { return IntValue.gen(big(a).abs().bitLength()); }

  @TLAPlusOperator(identifier = "ZDivisible", module = "ZInt", warn = false)
  public static Value divisible(final Value a, final Value n) {
    BigInteger x = big(a);
    return (x.signum() == 0 || x.getLowestSetBit() >= i(n)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "ZRha", module = "ZInt", warn = false)
  public static Value rha(final Value a, final Value n) {
    int k = i(n);
    if (k == 0) return a;
    BigInteger x = big(a);
    BigInteger q = x.abs().add(BigInteger.ONE.shiftLeft(k - 1)).shiftRight(k);
    return val(x.signum() < 0 ? q.negate() : q);
  }

  @TLAPlusOperator(identifier = "ZOfWords", module = "ZInt", warn = false)
  public static Value ofWords(final Value ws) {
    BigInteger r = BigInteger.ZERO;
    Value[] e = elems(ws);
    if (e.length <= 3) {
      long q = 0;
      for (Value v : e) q = (q << 16) | i(v);
      return val(BigInteger.valueOf(q));
    }
    for (Value v : e) r = r.shiftLeft(16).add(BigInteger.valueOf(i(v)));
    return val(r);
  }
}
