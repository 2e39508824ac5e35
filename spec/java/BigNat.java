import tlc2.value.impl.*;
import java.math.BigInteger;
/** Accelerates spec/BigNat.tla.  Cross-checked with the TLA+ definitions by SelfCheck.tla. */
public class BigNat {
  static BigInteger big(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems; byte[] b = new byte[e.length];
    for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) e[i]).val;
    return new BigInteger(1, b);
  }
  static Value val(BigInteger x) {
    byte[] b = x.toByteArray(); int o = b[0] == 0 ? 1 : 0; Value[] e = new Value[b.length - o];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(b[i + o] & 255);
    return new TupleValue(e);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BNorm(Value a) { return val(big(a)); }
  public static Value BAdd(Value a, Value b) { return val(big(a).add(big(b))); }
  public static Value BSub(Value a, Value b) { return val(big(a).subtract(big(b))); }
  public static Value BMul(Value a, Value b) { return val(big(a).multiply(big(b))); }
  public static Value BMod(Value a, Value m) { return val(big(a).mod(big(m))); }
  public static Value BDiv(Value a, Value m) { return val(big(a).divide(big(m))); }
  public static Value BLt(Value a, Value b) { return bool(big(a).compareTo(big(b)) < 0); }
  public static Value BBits(Value a) {
    Value[] s = ((TupleValue) a.toTuple()).elems, e = new Value[8 * s.length];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen((((IntValue) s[i / 8]).val >> (7 - i % 8)) & 1);
    return new TupleValue(e);
  }
  public static Value BAddMod(Value a, Value b, Value m) { return val(big(a).add(big(b)).mod(big(m))); }
  public static Value BSubMod(Value a, Value b, Value m) { return val(big(a).subtract(big(b)).mod(big(m))); }
  public static Value BMulMod(Value a, Value b, Value m) { return val(big(a).multiply(big(b)).mod(big(m))); }
  public static Value BExpMod(Value a, Value e, Value m) { return val(big(a).modPow(big(e), big(m))); }
  public static Value BInvMod(Value a, Value m) { BigInteger x = big(a).mod(big(m)); return x.signum() == 0 ? val(x) : val(x.modInverse(big(m))); }
}
