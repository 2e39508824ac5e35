import tlc2.value.impl.*;
import java.security.MessageDigest;
import javax.crypto.Cipher;
import javax.crypto.spec.*;
/** Accelerates spec/P12Crypto.tla.  Cross-checked with the TLA+ definitions by SelfCheck.tla. */
public class P12Crypto {
  static int num(Value v) { return ((IntValue) v).val; }
  static Value cbc(String alg, byte[] key, java.security.spec.AlgorithmParameterSpec p, Value b) throws Exception {
    byte[] x = Hashes.bytes(b);
    Cipher c = Cipher.getInstance(alg + "/CBC/NoPadding");
    c.init(Cipher.DECRYPT_MODE, new SecretKeySpec(key, alg), p);
    return Hashes.val(c.doFinal(x, 0, x.length - x.length % 8));
  }
  public static Value RC2CBC(Value key, Value t1, Value iv, Value b) throws Exception {
    return cbc("RC2", Hashes.bytes(key), new RC2ParameterSpec(num(t1), Hashes.bytes(iv)), b);
  }
  public static Value DES3CBC(Value key, Value iv, Value b) throws Exception {
    return cbc("DESede", Hashes.bytes(key), new IvParameterSpec(Hashes.bytes(iv)), b);
  }
  static byte[] fill(byte[] s) {
    byte[] o = new byte[s.length == 0 ? 0 : 64 * ((s.length + 63) / 64)];
    for (int i = 0; i < o.length; i++) o[i] = s[i % s.length];
    return o;
  }
  public static Value P12KDF(Value id, Value salt, Value pw, Value r, Value n) throws Exception {
    MessageDigest h = MessageDigest.getInstance("SHA-1");
    byte[] s = fill(Hashes.bytes(salt)), p = fill(Hashes.bytes(pw)), out = new byte[num(n)];
    byte[] m = new byte[64 + s.length + p.length];
    java.util.Arrays.fill(m, 0, 64, (byte) num(id));
    System.arraycopy(s, 0, m, 64, s.length);
    System.arraycopy(p, 0, m, 64 + s.length, p.length);
    for (int at = 0; at < out.length; at += 20) {
      byte[] a = h.digest(m);
      for (int j = 1; j < num(r); j++) a = h.digest(a);
      System.arraycopy(a, 0, out, at, Math.min(20, out.length - at));
      for (int k = 64; k < m.length; k += 64)
        for (int j = 63, c = 1; j >= 0; j--) {
          c += (m[k + j] & 255) + (a[j % 20] & 255);
          m[k + j] = (byte) c;
          c >>= 8;
        }
    }
    return Hashes.val(out);
  }
}
