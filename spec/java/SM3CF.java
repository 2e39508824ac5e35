import tlc2.value.impl.*;
/** Accelerates spec/SM3CF.tla: CF and CFIter.  Cross-checked with the TLA+ definitions by SelfCheck.tla. */
public class SM3CF {
  static int word(Value v) { TupleValue t = (TupleValue) v.toTuple(); return (((IntValue) t.elems[0]).val << 16) | ((IntValue) t.elems[1]).val; }
  static int[] state(Value v) { TupleValue t = (TupleValue) v.toTuple(); int[] s = new int[8]; for (int i = 0; i < 8; i++) s[i] = word(t.elems[i]); return s; }
  static Value pack(int[] s) { Value[] r = new Value[8]; for (int i = 0; i < 8; i++) r[i] = new TupleValue(IntValue.gen(s[i] >>> 16), IntValue.gen(s[i] & 0xffff)); return new TupleValue(r); }
  static byte[] bytes(Value v) { TupleValue t = (TupleValue) v.toTuple(); byte[] b = new byte[t.elems.length]; for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val; return b; }
  static int rl(int x, int n) { return Integer.rotateLeft(x, n); }
  static int p1(int x) { return x ^ rl(x, 15) ^ rl(x, 23); }
  static int p0(int x) { return x ^ rl(x, 9) ^ rl(x, 17); }
  static void cf(int[] v, byte[] p, int o, int[] w) {
    for (int i = 0; i < 16; i++) w[i] = ((p[o + 4*i] & 255) << 24) | ((p[o + 4*i + 1] & 255) << 16) | ((p[o + 4*i + 2] & 255) << 8) | (p[o + 4*i + 3] & 255);
    for (int i = 16; i < 68; i++) w[i] = p1(w[i-16] ^ w[i-9] ^ rl(w[i-3], 15)) ^ rl(w[i-13], 7) ^ w[i-6];
    int a = v[0], b = v[1], c = v[2], d = v[3], e = v[4], f = v[5], g = v[6], h = v[7];
    for (int j = 0; j < 64; j++) {
      int t = j < 16 ? 0x79cc4519 : 0x7a879d8a;
      int ss1 = rl(rl(a, 12) + e + rl(t, j % 32), 7), ss2 = ss1 ^ rl(a, 12);
      int ff = j < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c);
      int gg = j < 16 ? e ^ f ^ g : (e & f) | (~e & g);
      int t1 = ff + d + ss2 + (w[j] ^ w[j+4]), t2 = gg + h + ss1 + w[j];
      d = c; c = rl(b, 9); b = a; a = t1; h = g; g = rl(f, 19); f = e; e = p0(t2);
    }
    v[0] ^= a; v[1] ^= b; v[2] ^= c; v[3] ^= d; v[4] ^= e; v[5] ^= f; v[6] ^= g; v[7] ^= h;
  }
  public static Value CF(Value v, Value b) { int[] s = state(v); cf(s, bytes(b), 0, new int[68]); return pack(s); }
  public static Value CFIter(Value v, Value p, IntValue n) {
    int[] s = state(v), w = new int[68]; byte[] b = bytes(p); int blocks = b.length / 64;
    for (int i = 0; i < n.val; i++) for (int j = 0; j < blocks; j++) cf(s, b, 64 * j, w);
    return pack(s);
  }
}
