package owc;

import java.math.BigInteger;
import java.util.HashMap;
import java.util.Map;

/** Short-Weierstrass curves and edwards25519 over BigInteger, written independently of the Go code under test. */
final class EC {
    private EC() {}
    static BigInteger h(String s) { return new BigInteger(s, 16); }
    static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3);

    static final class Curve {
        final BigInteger p, a, b, n; final BigInteger[] g; final int len;
        Curve(String p, String a, String b, String n, String gx, String gy, int len) {
            this.p = h(p); this.a = h(a); this.b = h(b); this.n = h(n); this.g = new BigInteger[]{h(gx), h(gy)}; this.len = len;
        }
        // Jacobian arithmetic; null Z (Z = 0) is infinity
        BigInteger[] dbl(BigInteger[] P) {
            if (P[2].signum() == 0 || P[1].signum() == 0) return new BigInteger[]{ONE, ONE, ZERO};
            BigInteger X = P[0], Y = P[1], Z = P[2];
            BigInteger Y2 = Y.multiply(Y).mod(p);
            BigInteger S = X.multiply(Y2).shiftLeft(2).mod(p);
            BigInteger M = X.multiply(X).multiply(THREE);
            if (a.signum() != 0) { BigInteger Z2 = Z.multiply(Z).mod(p); M = M.add(a.multiply(Z2).multiply(Z2)); }
            M = M.mod(p);
            BigInteger X3 = M.multiply(M).subtract(S.shiftLeft(1)).mod(p);
            BigInteger Y3 = M.multiply(S.subtract(X3)).subtract(Y2.multiply(Y2).shiftLeft(3)).mod(p);
            BigInteger Z3 = Y.multiply(Z).shiftLeft(1).mod(p);
            return new BigInteger[]{X3, Y3, Z3};
        }
        BigInteger[] addJ(BigInteger[] P, BigInteger[] Q) {
            if (P[2].signum() == 0) return Q;
            if (Q[2].signum() == 0) return P;
            BigInteger Z1 = P[2].multiply(P[2]).mod(p), Z2 = Q[2].multiply(Q[2]).mod(p);
            BigInteger U1 = P[0].multiply(Z2).mod(p), U2 = Q[0].multiply(Z1).mod(p);
            BigInteger S1 = P[1].multiply(Z2).multiply(Q[2]).mod(p), S2 = Q[1].multiply(Z1).multiply(P[2]).mod(p);
            if (U1.equals(U2)) {
                if (S1.equals(S2)) return dbl(P);
                return new BigInteger[]{ONE, ONE, ZERO};
            }
            BigInteger H = U2.subtract(U1), R = S2.subtract(S1);
            BigInteger H2 = H.multiply(H).mod(p), H3 = H2.multiply(H).mod(p), V = U1.multiply(H2).mod(p);
            BigInteger X3 = R.multiply(R).subtract(H3).subtract(V.shiftLeft(1)).mod(p);
            BigInteger Y3 = R.multiply(V.subtract(X3)).subtract(S1.multiply(H3)).mod(p);
            BigInteger Z3 = H.multiply(P[2]).multiply(Q[2]).mod(p);
            return new BigInteger[]{X3, Y3, Z3};
        }
        BigInteger[] jac(BigInteger[] A) { return A == null ? new BigInteger[]{ONE, ONE, ZERO} : new BigInteger[]{A[0], A[1], ONE}; }
        BigInteger[] aff(BigInteger[] J) {
            if (J[2].signum() == 0) return null;
            BigInteger zi = J[2].modInverse(p), z2 = zi.multiply(zi).mod(p);
            return new BigInteger[]{J[0].multiply(z2).mod(p), J[1].multiply(z2).multiply(zi).mod(p)};
        }
        BigInteger[] mulJ(BigInteger[] A, BigInteger k) {
            BigInteger[] r = jac(null), q = jac(A);
            for (int i = k.bitLength() - 1; i >= 0; i--) { r = dbl(r); if (k.testBit(i)) r = addJ(r, q); }
            return r;
        }
        BigInteger[] mul(BigInteger[] A, BigInteger k) { return aff(mulJ(A, k)); }
        BigInteger[] add(BigInteger[] A, BigInteger[] B) { return aff(addJ(jac(A), jac(B))); }
        boolean on(BigInteger[] A) {
            if (A[0].compareTo(p) >= 0 || A[1].compareTo(p) >= 0) return false;
            return A[1].multiply(A[1]).subtract(rhs(A[0])).mod(p).signum() == 0;
        }
        BigInteger rhs(BigInteger x) { return x.multiply(x).multiply(x).add(a.multiply(x)).add(b).mod(p); }
        /** 33-byte SEC compressed -> affine, or null */
        BigInteger[] dec(byte[] c) {
            if (c.length != len + 1 || (c[0] != 2 && c[0] != 3)) return null;
            BigInteger x = new BigInteger(1, java.util.Arrays.copyOfRange(c, 1, c.length));
            if (x.compareTo(p) >= 0) return null;
            BigInteger y = sqrt(rhs(x), p);
            if (y == null) return null;
            if (y.testBit(0) != (c[0] == 3)) y = p.subtract(y);
            return new BigInteger[]{x, y};
        }
        byte[] enc(BigInteger[] A) {
            byte[] r = new byte[len + 1];
            r[0] = (byte) (A[1].testBit(0) ? 3 : 2);
            System.arraycopy(fix(A[0], len), 0, r, 1, len);
            return r;
        }
    }
    static byte[] fix(BigInteger v, int len) {
        byte[] b = v.toByteArray(), r = new byte[len];
        for (int i = 0; i < len && i < b.length; i++) r[len - 1 - i] = b[b.length - 1 - i];
        return r;
    }
    /** Tonelli-Shanks */
    static BigInteger sqrt(BigInteger v, BigInteger p) {
        if (v.signum() == 0) return ZERO;
        if (!v.modPow(p.subtract(ONE).shiftRight(1), p).equals(ONE)) return null;
        if (p.testBit(1) && p.testBit(0)) return v.modPow(p.add(ONE).shiftRight(2), p);
        int s = p.subtract(ONE).getLowestSetBit();
        BigInteger q = p.subtract(ONE).shiftRight(s), z = TWO;
        while (z.modPow(p.subtract(ONE).shiftRight(1), p).equals(ONE)) z = z.add(ONE);
        BigInteger c = z.modPow(q, p), r = v.modPow(q.add(ONE).shiftRight(1), p), t = v.modPow(q, p);
        int m = s;
        while (!t.equals(ONE)) {
            int i = 0; BigInteger u = t;
            while (!u.equals(ONE)) { u = u.multiply(u).mod(p); i++; }
            BigInteger b = c;
            for (int j = 0; j < m - i - 1; j++) b = b.multiply(b).mod(p);
            m = i; c = b.multiply(b).mod(p); t = t.multiply(c).mod(p); r = r.multiply(b).mod(p);
        }
        return r;
    }

    static final Map<String, Curve> CURVES = new HashMap<>();
    static {
        CURVES.put("k1", new Curve("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0", "7",
            "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
            "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
            "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 32));
        CURVES.put("r1", new Curve("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
            "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc",
            "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
            "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
            "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
            "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", 32));
        CURVES.put("sm2", new Curve("fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff",
            "fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc",
            "28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93",
            "fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123",
            "32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7",
            "bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0", 32));
        CURVES.put("pasta", new Curve("40000000000000000000000000000000224698fc094cf91b992d30ed00000001", "0", "5",
            "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", "1",
            "1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb", 32));
        CURVES.put("bls", new Curve("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", "0", "4",
            "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001",
            "17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb",
            "08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1", 48));
    }

    /** ECDSA verification, z the 32-byte digest, pub affine. */
    static boolean ecdsa(Curve c, BigInteger[] pub, byte[] z, BigInteger r, BigInteger s) {
        if (r.signum() <= 0 || s.signum() <= 0 || r.compareTo(c.n) >= 0 || s.compareTo(c.n) >= 0) return false;
        if (pub == null || !c.on(pub)) return false;
        BigInteger w = s.modInverse(c.n), e = new BigInteger(1, z);
        BigInteger[] R = c.aff(c.addJ(c.mulJ(c.g, e.multiply(w).mod(c.n)), c.mulJ(pub, r.multiply(w).mod(c.n))));
        return R != null && R[0].mod(c.n).equals(r);
    }
    static byte[] blsEnc(BigInteger[] A) {
        Curve c = CURVES.get("bls");
        byte[] r = fix(A[0], 48);
        r[0] |= (byte) 0x80;
        if (A[1].shiftLeft(1).compareTo(c.p) > 0) r[0] |= 0x20;
        return r;
    }
    static BigInteger[] blsDec(byte[] in) {
        Curve c = CURVES.get("bls");
        if (in.length != 48 || (in[0] & 0x80) == 0) return null;
        byte[] b = in.clone(); boolean big = (b[0] & 0x20) != 0; b[0] &= 0x1f;
        BigInteger x = new BigInteger(1, b), y = sqrt(c.rhs(x), c.p);
        if (y == null) return null;
        if ((y.shiftLeft(1).compareTo(c.p) > 0) != big) y = c.p.subtract(y);
        return new BigInteger[]{x, y};
    }

    // ---- edwards25519 ----
    static final BigInteger EP = ONE.shiftLeft(255).subtract(BigInteger.valueOf(19));
    static final BigInteger EL = ONE.shiftLeft(252).add(new BigInteger("27742317777372353535851937790883648493"));
    static final BigInteger ED = BigInteger.valueOf(-121665).multiply(BigInteger.valueOf(121666).modInverse(EP)).mod(EP);
    static final BigInteger[] EB;
    static {
        BigInteger y = BigInteger.valueOf(4).multiply(BigInteger.valueOf(5).modInverse(EP)).mod(EP);
        EB = new BigInteger[]{recoverX(y, false), y};
    }
    static BigInteger recoverX(BigInteger y, boolean odd) {
        BigInteger y2 = y.multiply(y).mod(EP);
        BigInteger u = y2.subtract(ONE).mod(EP), v = ED.multiply(y2).add(ONE).mod(EP);
        BigInteger x = sqrt(u.multiply(v.modInverse(EP)).mod(EP), EP);
        if (x == null) return null;
        if (x.testBit(0) != odd) x = EP.subtract(x).mod(EP);
        return x;
    }
    // extended coordinates X,Y,Z,T
    static BigInteger[] eext(BigInteger[] A) { return new BigInteger[]{A[0], A[1], ONE, A[0].multiply(A[1]).mod(EP)}; }
    static BigInteger[] eaddE(BigInteger[] P, BigInteger[] Q) {
        BigInteger A = P[0].multiply(Q[0]).mod(EP), B = P[1].multiply(Q[1]).mod(EP);
        BigInteger C = P[3].multiply(ED).mod(EP).multiply(Q[3]).mod(EP), D = P[2].multiply(Q[2]).mod(EP);
        BigInteger E = P[0].add(P[1]).multiply(Q[0].add(Q[1])).subtract(A).subtract(B).mod(EP);
        BigInteger F = D.subtract(C), G = D.add(C), H = B.add(A);
        return new BigInteger[]{E.multiply(F).mod(EP), G.multiply(H).mod(EP), F.multiply(G).mod(EP), E.multiply(H).mod(EP)};
    }
    static BigInteger[] emulE(BigInteger[] A, BigInteger k) {
        BigInteger[] r = {ZERO, ONE, ONE, ZERO}, q = eext(A);
        for (int i = k.bitLength() - 1; i >= 0; i--) { r = eaddE(r, r); if (k.testBit(i)) r = eaddE(r, q); }
        return r;
    }
    static BigInteger[] eaff(BigInteger[] P) {
        BigInteger zi = P[2].modInverse(EP);
        return new BigInteger[]{P[0].multiply(zi).mod(EP), P[1].multiply(zi).mod(EP)};
    }
    static byte[] rev(byte[] b) { byte[] r = new byte[b.length]; for (int i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i]; return r; }
    static BigInteger le(byte[] b) { return new BigInteger(1, rev(b)); }
    static byte[] eenc(BigInteger[] A) {
        byte[] r = rev(fix(A[1], 32));
        if (A[0].testBit(0)) r[31] |= (byte) 0x80;
        return r;
    }
    static BigInteger[] edec(byte[] in) {
        if (in.length != 32) return null;
        byte[] b = in.clone(); boolean odd = (b[31] & 0x80) != 0; b[31] &= 0x7f;
        BigInteger y = le(b).mod(EP), x = recoverX(y, odd);
        return x == null ? null : new BigInteger[]{x, y};
    }
    static boolean edverify(byte[] pub, byte[] msg, byte[] sig) {
        if (sig.length != 64 || pub.length != 32) return false;
        BigInteger[] A = edec(pub);
        if (A == null) return false;
        BigInteger s = le(java.util.Arrays.copyOfRange(sig, 32, 64));
        if (s.compareTo(EL) >= 0) return false;
        byte[] buf = new byte[64 + msg.length];
        System.arraycopy(sig, 0, buf, 0, 32); System.arraycopy(pub, 0, buf, 32, 32); System.arraycopy(msg, 0, buf, 64, msg.length);
        BigInteger k = le(Hashes.sha512(buf)).mod(EL);
        BigInteger[] nA = {EP.subtract(A[0]).mod(EP), A[1]};
        byte[] R = eenc(eaff(eaddE(emulE(EB, s), emulE(nA, k))));
        for (int i = 0; i < 32; i++) if (R[i] != sig[i]) return false;
        return true;
    }
    /** XEd25519 as used by the Waves/V Systems family: montgomery public key, sign bit carried in sig[63]. */
    static boolean xverify(byte[] xpub, byte[] msg, byte[] sig) {
        if (sig.length != 64 || xpub.length != 32) return false;
        byte[] up = xpub.clone(); up[31] &= 0x7f;
        BigInteger u = le(up).mod(EP);
        BigInteger den = u.add(ONE).mod(EP);
        if (den.signum() == 0) return false;
        BigInteger y = u.subtract(ONE).multiply(den.modInverse(EP)).mod(EP);
        byte[] ed = rev(fix(y, 32));
        ed[31] |= (byte) (sig[63] & 0x80);
        byte[] s2 = sig.clone(); s2[63] &= 0x7f;
        return edverify(ed, msg, s2);
    }
    static byte[] edToX(byte[] ed) {
        byte[] b = ed.clone(); b[31] &= 0x7f;
        BigInteger y = le(b).mod(EP);
        BigInteger u = ONE.add(y).multiply(ONE.subtract(y).mod(EP).modInverse(EP)).mod(EP);
        return rev(fix(u, 32));
    }
}
