import tlc2.value.impl.*;

/** TLC evaluates the operators of Hashes.tla through this class. */
public class Hashes {
  static byte[] in(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    final byte[] b = new byte[t.elems.length];
    for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
    return b;
  }
  static Value out(final byte[] r) {
    final Value[] o = new Value[r.length];
    for (int i = 0; i < o.length; i++) o[i] = IntValue.gen(r[i] & 255);
    return new TupleValue(o);
  }
  public static Value Sha1(final Value v) throws Exception {
    return out(java.security.MessageDigest.getInstance("SHA-1").digest(in(v)));
  }
  public static Value Sha256(final Value v) throws Exception {
    return out(java.security.MessageDigest.getInstance("SHA-256").digest(in(v)));
  }
  public static Value Ripemd160(final Value v) {
    return out(ripemd160(in(v)));
  }

  static final int[] RL = {
    0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
    3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,
    4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static final int[] RR = {
    5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
    15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,
    12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static final int[] SL = {
    11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
    11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,
    9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static final int[] SR = {
    8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
    9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,
    8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static final int[] KL = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e};
  static final int[] KR = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
  static int f(final int j, final int x, final int y, final int z) {
    switch (j) {
      case 0: return x ^ y ^ z;
      case 1: return (x & y) | (~x & z);
      case 2: return (x | ~y) ^ z;
      case 3: return (x & z) | (y & ~z);
      default: return x ^ (y | ~z);
    }
  }
  static byte[] ripemd160(final byte[] m) {
    final int n = ((m.length + 8) / 64 + 1) * 64;
    final byte[] p = java.util.Arrays.copyOf(m, n);
    p[m.length] = (byte) 0x80;
    final long bits = 8L * m.length;
    for (int i = 0; i < 8; i++) p[n - 8 + i] = (byte) (bits >>> (8 * i));
    final int[] h = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    for (int o = 0; o < n; o += 64) {
      final int[] x = new int[16];
      for (int i = 0; i < 16; i++)
        x[i] = (p[o+4*i] & 255) | (p[o+4*i+1] & 255) << 8 | (p[o+4*i+2] & 255) << 16 | (p[o+4*i+3] & 255) << 24;
      int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
      int a2 = a, b2 = b, c2 = c, d2 = d, e2 = e, t;
      for (int j = 0; j < 80; j++) {
        t = Integer.rotateLeft(a + f(j / 16, b, c, d) + x[RL[j]] + KL[j / 16], SL[j]) + e;
        a = e; e = d; d = Integer.rotateLeft(c, 10); c = b; b = t;
        t = Integer.rotateLeft(a2 + f(4 - j / 16, b2, c2, d2) + x[RR[j]] + KR[j / 16], SR[j]) + e2;
        a2 = e2; e2 = d2; d2 = Integer.rotateLeft(c2, 10); c2 = b2; b2 = t;
      }
      t = h[1] + c + d2; h[1] = h[2] + d + e2; h[2] = h[3] + e + a2;
      h[3] = h[4] + a + b2; h[4] = h[0] + b + c2; h[0] = t;
    }
    final byte[] r = new byte[20];
    for (int i = 0; i < 20; i++) r[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
    return r;
  }
}
