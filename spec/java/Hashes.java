import tlc2.value.impl.*;
import java.security.MessageDigest;
/** Accelerates spec/Hashes.tla.  Cross-checked with the TLA+ definitions by SelfCheck.tla. */
public class Hashes {
  static byte[] bytes(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems; byte[] b = new byte[e.length];
    for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) e[i]).val;
    return b;
  }
  static Value val(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(e);
  }
  static Value hash(String a, Value m) {
    try { return val(MessageDigest.getInstance(a).digest(bytes(m))); } catch (Exception x) { throw new RuntimeException(x); }
  }
  public static Value MD5(Value m) { return hash("MD5", m); }
  public static Value SHA1(Value m) { return hash("SHA-1", m); }
  public static Value SHA224(Value m) { return hash("SHA-224", m); }
  public static Value SHA256(Value m) { return hash("SHA-256", m); }
  public static Value SHA384(Value m) { return hash("SHA-384", m); }
  public static Value SHA512(Value m) { return hash("SHA-512", m); }
  public static Value SHA512t224(Value m) { return hash("SHA-512/224", m); }
  public static Value SHA512t256(Value m) { return hash("SHA-512/256", m); }
  public static Value SHA3n224(Value m) { return hash("SHA3-224", m); }
  public static Value SHA3n256(Value m) { return hash("SHA3-256", m); }
  public static Value SHA3n384(Value m) { return hash("SHA3-384", m); }
  public static Value SHA3n512(Value m) { return hash("SHA3-512", m); }

  static int[] table(String s) { return java.util.Arrays.stream(s.split(" ")).mapToInt(Integer::parseInt).toArray(); }
  static final int[] RL = table("0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 7 4 13 1 10 6 15 3 12 0 9 5 2 14 11 8 3 10 14 4 9 15 8 1 2 7 0 6 13 11 5 12 1 9 11 10 0 8 12 4 13 3 7 15 14 5 6 2 4 0 5 9 7 12 2 10 14 1 3 8 11 6 15 13");
  static final int[] RR = table("5 14 7 0 9 2 11 4 13 6 15 8 1 10 3 12 6 11 3 7 0 13 5 10 14 15 8 12 4 9 1 2 15 5 1 3 7 14 6 9 11 8 12 2 10 0 4 13 8 6 4 1 3 11 15 0 5 12 2 13 9 7 10 14 12 15 10 4 1 5 8 7 6 2 13 14 0 3 9 11");
  static final int[] SL = table("11 14 15 12 5 8 7 9 11 13 14 15 6 7 9 8 7 6 8 13 11 9 7 15 7 12 15 9 11 7 13 12 11 13 6 7 14 9 13 15 14 8 13 6 5 12 7 5 11 12 14 15 14 15 9 8 9 14 5 6 8 6 5 12 9 15 5 11 6 8 13 12 5 12 13 14 11 8 5 6");
  static final int[] SR = table("8 9 9 11 13 15 15 5 7 7 8 11 14 14 12 6 9 13 15 7 12 8 9 11 7 7 12 7 6 15 13 11 9 7 15 11 8 6 6 14 12 13 5 14 13 13 7 5 15 5 8 11 14 14 6 14 6 9 12 9 12 5 15 8 8 5 12 9 12 5 14 6 8 13 6 5 15 13 11 11");
  static final int[] KL = { 0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E }, KR = { 0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0 };
  static int f(int q, int x, int y, int z) {
    switch (q) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
  }
  static int[] line(int[] h, int[] w, boolean left) {
    int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int j = 0; j < 80; j++) {
      int q = j / 16, t = a + f(left ? q : 4 - q, b, c, d) + w[left ? RL[j] : RR[j]] + (left ? KL[q] : KR[q]);
      t = Integer.rotateLeft(t, left ? SL[j] : SR[j]) + e;
      a = e; e = d; d = Integer.rotateLeft(c, 10); c = b; b = t;
    }
    return new int[] { a, b, c, d, e };
  }
  public static Value RIPEMD160(Value v) {
    byte[] m = bytes(v);
    java.nio.ByteBuffer p = java.nio.ByteBuffer.allocate((m.length + 9 + 63) / 64 * 64).order(java.nio.ByteOrder.LITTLE_ENDIAN);
    p.put(m).put((byte) 128);
    p.putLong(p.capacity() - 8, 8L * m.length);
    int[] h = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
    for (int o = 0; o < p.capacity(); o += 64) {
      int[] w = new int[16];
      for (int j = 0; j < 16; j++) w[j] = p.getInt(o + 4 * j);
      int[] l = line(h, w, true), r = line(h, w, false);
      h = new int[] { h[1] + l[2] + r[3], h[2] + l[3] + r[4], h[3] + l[4] + r[0], h[4] + l[0] + r[1], h[0] + l[1] + r[2] };
    }
    java.nio.ByteBuffer out = java.nio.ByteBuffer.allocate(20).order(java.nio.ByteOrder.LITTLE_ENDIAN);
    for (int x : h) out.putInt(x);
    return val(out.array());
  }
}
