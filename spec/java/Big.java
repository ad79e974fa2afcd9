import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC evaluates the operators of Big.tla through this class (32-byte big-endian numbers). */
public class Big {
  static BigInteger in(final Value v) { return new BigInteger(1, Hashes.in(v)); }
  static Value out(final BigInteger x) {
    final byte[] r = new byte[32], m = x.toByteArray();
    for (int i = 0; i < m.length; i++) {
      final int at = 32 - m.length + i;
      if (at >= 0) r[at] = m[i];
      else if (m[i] != 0) throw new RuntimeException("number of more than 32 bytes");
    }
    return Hashes.out(r);
  }
  public static Value ModAdd(final Value a, final Value b, final Value m) { return out(in(a).add(in(b)).mod(in(m))); }
  public static Value ModSub(final Value a, final Value b, final Value m) { return out(in(a).subtract(in(b)).mod(in(m))); }
  public static Value ModMul(final Value a, final Value b, final Value m) { return out(in(a).multiply(in(b)).mod(in(m))); }
  public static Value ModInv(final Value a, final Value m) { return out(in(a).modInverse(in(m))); }
  public static Value ModRed(final Value a, final Value m) { return out(in(a).mod(in(m))); }
  public static Value BigLess(final Value a, final Value b) { return in(a).compareTo(in(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
