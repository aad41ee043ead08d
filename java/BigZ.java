import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import tlc2.value.impl.*;

/**
 * TLC implementation of the operators of module BigZ: natural numbers of any size as lower-case
 * hexadecimal strings without leading zeros.
 */
public class BigZ {
    static BigInteger z(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        return new BigInteger(((StringValue) v).val.toString(), 16);
    }

    static Value s(BigInteger b) {
        if (b.signum() < 0) throw new RuntimeException("BigZ: negative number");
        return new StringValue(b.toString(16));
    }

    public static Value ZInt(final Value a) { return s(z(a)); }
    public static Value ZAdd(final Value a, final Value b) { return s(z(a).add(z(b))); }
    public static Value ZSub(final Value a, final Value b) { return s(z(a).subtract(z(b))); }
    public static Value ZMul(final Value a, final Value b) { return s(z(a).multiply(z(b))); }
    public static Value ZMod(final Value a, final Value m) { return s(z(a).mod(z(m))); }
    public static Value ZDiv(final Value a, final Value m) { return s(z(a).divide(z(m))); }
    public static Value ZLess(final Value a, final Value b) { return z(a).compareTo(z(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value ZInvM(final Value a, final Value m) { return s(z(a).modInverse(z(m))); }
    public static Value ZPowM(final Value a, final Value e, final Value m) { return s(z(a).modPow(z(e), z(m))); }
    public static Value ZNat(final Value a) { return IntValue.gen(z(a).intValueExact()); }
    public static Value ZBitLen(final Value a) { return IntValue.gen(z(a).bitLength()); }
    public static Value ZBit(final Value a, final Value i) { return IntValue.gen(z(a).testBit(((IntValue) i).val) ? 1 : 0); }

    /** The number of bit positions in which the numbers of a sequence do not all agree. */
    public static Value ZVary(final Value seq) {
        TupleValue t = (TupleValue) seq.toTuple();
        BigInteger diff = BigInteger.ZERO;
        for (Value v : t.elems) diff = diff.or(z(v).xor(z(t.elems[0])));
        return IntValue.gen(diff.bitCount());
    }

    /** The n lowest bytes of a number in hexadecimal, with leading zeros. */
    public static Value ZHex(final Value a, final Value n) {
        int k = 2 * ((IntValue) n).val;
        StringBuilder h = new StringBuilder(z(a).toString(16));
        while (h.length() < k) h.insert(0, '0');
        return new StringValue(h.substring(h.length() - k));
    }

    /** A number below m that depends on the name only: SHA-256 in counter mode, 64 bits longer than m. */
    public static Value ZAtom(final Value name, final Value m) {
        try {
            BigInteger mod = z(m);
            String n = ((StringValue) name).val.toString();
            int want = mod.bitLength() + 64;
            BigInteger acc = BigInteger.ZERO;
            for (int i = 0, have = 0; have < want; i++, have += 256) {
                MessageDigest d = MessageDigest.getInstance("SHA-256");
                d.update((n + "#" + i).getBytes(StandardCharsets.UTF_8));
                acc = acc.shiftLeft(256).or(new BigInteger(1, d.digest()));
            }
            return s(acc.mod(mod));
        } catch (java.security.NoSuchAlgorithmException e) {
            throw new RuntimeException(e);
        }
    }

    /**
     * k * (x, y) on y^2 = x^3 + 7 over the integers mod p, in Jacobian coordinates.
     * A point is a sequence: << >> is the neutral element, <<x, y>> any other.
     * Module EC defines the same function by affine double-and-add; MCEC compares the two.
     */
    public static Value ZPointMul(final Value k, final Value pt, final Value p) {
        BigInteger m = z(p), e = z(k);
        TupleValue t = (TupleValue) pt.toTuple();
        if (t.elems.length == 0 || e.signum() == 0) return new TupleValue(new Value[0]);
        BigInteger[] base = { z(t.elems[0]).mod(m), z(t.elems[1]).mod(m), BigInteger.ONE };
        String name = base[0].toString(32) + " " + base[1].toString(32) + " " + m.toString(32), product = e.toString(32) + " " + name;
        synchronized (PRODUCTS) {
            Value[] known = PRODUCTS.get(product);
            if (known != null) return new TupleValue(known.clone());
        }
        BigInteger[][] table = table(name, base, e, m);
        BigInteger[] acc = { BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
        if (table != null) {
            for (int w = 0; 4 * w < e.bitLength(); w++) {
                int d = e.shiftRight(4 * w).intValue() & 15;
                if (d != 0) acc = jadd(acc, table[15 * w + d - 1], m);
            }
        } else {
            for (int i = e.bitLength() - 1; i >= 0; i--) {
                acc = jdouble(acc, m);
                if (e.testBit(i)) acc = jadd(acc, base, m);
            }
        }
        Value[] out = new Value[0];
        if (acc[2].signum() != 0) {
            BigInteger[] q = affine(acc, m);
            out = new Value[] { s(q[0]), s(q[1]) };
        }
        synchronized (PRODUCTS) { PRODUCTS.put(product, out.clone()); }
        return new TupleValue(out);
    }

    /** products and, of points that are multiplied often, the multiples d * 16^w, kept because the same ones are asked for again */
    private static final java.util.LinkedHashMap<String, Value[]> PRODUCTS = new java.util.LinkedHashMap<String, Value[]>(1024, 0.75f, true) {
        protected boolean removeEldestEntry(java.util.Map.Entry<String, Value[]> x) { return size() > 50000; }
    };
    private static final java.util.LinkedHashMap<String, Integer> USES = new java.util.LinkedHashMap<String, Integer>(64, 0.75f, true) {
        protected boolean removeEldestEntry(java.util.Map.Entry<String, Integer> x) { return size() > 1000; }
    };
    private static final java.util.LinkedHashMap<String, BigInteger[][]> TABLES = new java.util.LinkedHashMap<String, BigInteger[][]>(16, 0.75f, true) {
        protected boolean removeEldestEntry(java.util.Map.Entry<String, BigInteger[][]> x) { return size() > 24; }
    };

    private static BigInteger[][] table(String name, BigInteger[] base, BigInteger e, BigInteger m) {
        if (e.bitLength() > 256) return null;
        synchronized (TABLES) {
            BigInteger[][] t = TABLES.get(name);
            if (t != null) return t;
            int n = USES.merge(name, 1, Integer::sum);
            if (n < 40) return null;
            t = new BigInteger[64 * 15][];
            BigInteger[] b = base;
            for (int w = 0; w < 64; w++) {
                BigInteger[] q = b;
                for (int d = 1; d <= 15; d++) {
                    // a small multiple may be neutral on a curve of small order
                    t[15 * w + d - 1] = q[2].signum() == 0 ? q : affine(q, m);
                    q = jadd(q, b, m);
                }
                b = q[2].signum() == 0 ? q : affine(q, m);
            }
            TABLES.put(name, t);
            return t;
        }
    }

    private static BigInteger[] affine(BigInteger[] a, BigInteger m) {
        if (a[2].equals(BigInteger.ONE)) return a;
        BigInteger zi = a[2].modInverse(m), zi2 = zi.multiply(zi).mod(m);
        return new BigInteger[] { a[0].multiply(zi2).mod(m), a[1].multiply(zi2).mod(m).multiply(zi).mod(m), BigInteger.ONE };
    }

    private static BigInteger[] jdouble(BigInteger[] a, BigInteger m) {
        if (a[2].signum() == 0 || a[1].signum() == 0) return new BigInteger[] { BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
        BigInteger yy = a[1].multiply(a[1]).mod(m);
        BigInteger ss = a[0].multiply(yy).shiftLeft(2).mod(m);
        BigInteger mm = a[0].multiply(a[0]).multiply(BigInteger.valueOf(3)).mod(m);
        BigInteger x3 = mm.multiply(mm).subtract(ss.shiftLeft(1)).mod(m);
        BigInteger y3 = mm.multiply(ss.subtract(x3)).subtract(yy.multiply(yy).shiftLeft(3)).mod(m);
        return new BigInteger[] { x3, y3, a[1].multiply(a[2]).shiftLeft(1).mod(m) };
    }

    private static BigInteger[] jadd(BigInteger[] a, BigInteger[] b, BigInteger m) {
        if (a[2].signum() == 0) return b;
        if (b[2].signum() == 0) return a;
        BigInteger z1z1 = a[2].multiply(a[2]).mod(m), z2z2 = b[2].multiply(b[2]).mod(m);
        BigInteger u1 = a[0].multiply(z2z2).mod(m), u2 = b[0].multiply(z1z1).mod(m);
        BigInteger s1 = a[1].multiply(z2z2).mod(m).multiply(b[2]).mod(m), s2 = b[1].multiply(z1z1).mod(m).multiply(a[2]).mod(m);
        if (u1.equals(u2)) {
            if (!s1.equals(s2) || s1.signum() == 0) return new BigInteger[] { BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
            return jdouble(a, m);
        }
        BigInteger h = u2.subtract(u1).mod(m), r = s2.subtract(s1).mod(m);
        BigInteger hh = h.multiply(h).mod(m), hhh = hh.multiply(h).mod(m), v = u1.multiply(hh).mod(m);
        BigInteger x3 = r.multiply(r).subtract(hhh).subtract(v.shiftLeft(1)).mod(m);
        BigInteger y3 = r.multiply(v.subtract(x3)).subtract(s1.multiply(hhh)).mod(m);
        return new BigInteger[] { x3, y3, a[2].multiply(b[2]).mod(m).multiply(h).mod(m) };
    }

    /** n bytes of HKDF-SHA256 (RFC 5869) of a key given in hexadecimal, as a number; salt is text, info in hexadecimal. */
    public static Value ZHkdf(final Value key, final Value salt, final Value info, final Value n) {
        try {
            javax.crypto.Mac mac = javax.crypto.Mac.getInstance("HmacSHA256");
            mac.init(new javax.crypto.spec.SecretKeySpec(str(salt).getBytes(StandardCharsets.UTF_8), "HmacSHA256"));
            byte[] prk = mac.doFinal(bytes(str(key)));
            mac.init(new javax.crypto.spec.SecretKeySpec(prk, "HmacSHA256"));
            int want = ((IntValue) n).val;
            byte[] out = new byte[0], t = new byte[0];
            for (int i = 1; out.length < want; i++) {
                mac.update(t);
                mac.update(bytes(str(info)));
                t = mac.doFinal(new byte[] { (byte) i });
                byte[] more = java.util.Arrays.copyOf(out, out.length + t.length);
                System.arraycopy(t, 0, more, out.length, t.length);
                out = more;
            }
            return s(new BigInteger(1, java.util.Arrays.copyOf(out, want)));
        } catch (java.security.GeneralSecurityException e) {
            throw new RuntimeException(e);
        }
    }

    private static String str(Value v) { return ((StringValue) v).val.toString(); }

    private static byte[] bytes(String hex) {
        byte[] b = new byte[hex.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(hex.substring(2 * i, 2 * i + 2), 16);
        return b;
    }
}
