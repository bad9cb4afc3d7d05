package owc;

import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.Arrays;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.*;

/** TLC overrides for module Prims: conversions and the trusted cryptographic primitives. */
public final class Prims {
    private Prims() {}
    private static final IntValue[] B = new IntValue[256];
    static { for (int i = 0; i < 256; i++) B[i] = IntValue.gen(i); }

    static byte[] by(IValue v) {
        TupleValue t = (TupleValue) ((Value) v).toTuple();
        if (t == null) throw new RuntimeException("not a byte sequence: " + v);
        byte[] r = new byte[t.elems.length];
        for (int i = 0; i < r.length; i++) {
            int x = ((IntValue) t.elems[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
            r[i] = (byte) x;
        }
        return r;
    }
    static TupleValue tv(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = B[b[i] & 255];
        return new TupleValue(e);
    }
    static String st(IValue v) { return ((StringValue) v).val.toString(); }
    static BoolValue bo(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "HexBytes", module = "Prims", warn = false)
    public static Value hexBytes(final StringValue v) {
        String s = st(v);
        if (s.length() % 2 != 0) throw new RuntimeException("odd hex: " + s);
        byte[] r = new byte[s.length() / 2];
        for (int i = 0; i < r.length; i++) {
            int a = Character.digit(s.charAt(2 * i), 16), b = Character.digit(s.charAt(2 * i + 1), 16);
            if (a < 0 || b < 0) throw new RuntimeException("bad hex: " + s);
            r[i] = (byte) (a << 4 | b);
        }
        return tv(r);
    }
    @TLAPlusOperator(identifier = "IsHex", module = "Prims", warn = false)
    public static Value isHex(final StringValue v) {
        String s = st(v);
        if (s.length() % 2 != 0) return bo(false);
        for (int i = 0; i < s.length(); i++) if ("0123456789abcdefABCDEF".indexOf(s.charAt(i)) < 0) return bo(false);
        return bo(true);
    }
    @TLAPlusOperator(identifier = "ToHex", module = "Prims", warn = false)
    public static Value toHex(final Value v) {
        byte[] b = by(v); StringBuilder sb = new StringBuilder();
        for (byte x : b) sb.append(String.format("%02x", x & 255));
        return new StringValue(sb.toString());
    }
    @TLAPlusOperator(identifier = "StrBytes", module = "Prims", warn = false)
    public static Value strBytes(final StringValue v) { return tv(st(v).getBytes(StandardCharsets.UTF_8)); }
    @TLAPlusOperator(identifier = "BytesStr", module = "Prims", warn = false)
    public static Value bytesStr(final Value v) { return new StringValue(new String(by(v), StandardCharsets.UTF_8)); }
    @TLAPlusOperator(identifier = "StrCat", module = "Prims", warn = false)
    public static Value strCat(final StringValue a, final StringValue b) { return new StringValue(st(a) + st(b)); }
    @TLAPlusOperator(identifier = "Upper", module = "Prims", warn = false)
    public static Value upper(final StringValue v) { return new StringValue(st(v).toUpperCase(java.util.Locale.ROOT)); }
    @TLAPlusOperator(identifier = "Lower", module = "Prims", warn = false)
    public static Value lower(final StringValue v) { return new StringValue(st(v).toLowerCase(java.util.Locale.ROOT)); }
    @TLAPlusOperator(identifier = "SubStr", module = "Prims", warn = false)
    public static Value subStr(final StringValue v, final IntValue a, final IntValue b) {
        String s = st(v); int i = Math.max(1, a.val), j = Math.min(s.length(), b.val);
        return new StringValue(i > j ? "" : s.substring(i - 1, j));
    }
    @TLAPlusOperator(identifier = "StrLen", module = "Prims", warn = false)
    public static Value strLen(final StringValue v) { return IntValue.gen(st(v).length()); }
    @TLAPlusOperator(identifier = "JsonStr", module = "Prims", warn = false)
    public static Value jsonStr(final StringValue v) {
        // a JSON string literal exactly as Go's encoding/json writes it (HTML escaping on)
        StringBuilder sb = new StringBuilder("\"");
        for (char c : st(v).toCharArray()) {
            switch (c) {
                case '"': sb.append("\\\""); break;
                case '\\': sb.append("\\\\"); break;
                case '\n': sb.append("\\n"); break;
                case '\r': sb.append("\\r"); break;
                case '\t': sb.append("\\t"); break;
                case '\b': sb.append("\\b"); break;
                case '\f': sb.append("\\f"); break;
                default:
                    if (c < 0x20 || c == '<' || c == '>' || c == '&' || c == 0x2028 || c == 0x2029) sb.append(String.format("\\u%04x", (int) c));
                    else sb.append(c);
            }
        }
        return new StringValue(sb.append('"').toString());
    }
    /** big-endian byte sequence of any length -> decimal string */
    @TLAPlusOperator(identifier = "DecStr", module = "Prims", warn = false)
    public static Value decStr(final Value v) { return new StringValue(new BigInteger(1, by(v)).toString()); }
    /** decimal string -> minimal big-endian bytes (zero is the empty sequence) */
    @TLAPlusOperator(identifier = "DecBytes", module = "Prims", warn = false)
    public static Value decBytes(final StringValue v) {
        BigInteger b = new BigInteger(st(v));
        return tv(b.signum() == 0 ? new byte[0] : EC.fix(b, (b.bitLength() + 7) / 8));
    }
    @TLAPlusOperator(identifier = "BigAdd", module = "Prims", warn = false)
    public static Value bigAdd(final Value a, final Value b) {
        BigInteger r = new BigInteger(1, by(a)).add(new BigInteger(1, by(b)));
        return tv(r.signum() == 0 ? new byte[0] : EC.fix(r, (r.bitLength() + 7) / 8));
    }
    @TLAPlusOperator(identifier = "BigMulInt", module = "Prims", warn = false)
    public static Value bigMulInt(final Value a, final IntValue b) {
        BigInteger r = new BigInteger(1, by(a)).multiply(BigInteger.valueOf(b.val));
        return tv(r.signum() == 0 ? new byte[0] : EC.fix(r, (r.bitLength() + 7) / 8));
    }
    /** a - b, for a >= b */
    @TLAPlusOperator(identifier = "BigSub", module = "Prims", warn = false)
    public static Value bigSub(final Value a, final Value b) {
        BigInteger r = new BigInteger(1, by(a)).subtract(new BigInteger(1, by(b)));
        if (r.signum() < 0) throw new RuntimeException("BigSub underflow");
        return tv(r.signum() == 0 ? new byte[0] : EC.fix(r, (r.bitLength() + 7) / 8));
    }
    @TLAPlusOperator(identifier = "BigCmp", module = "Prims", warn = false)
    public static Value bigCmp(final Value a, final Value b) {
        return IntValue.gen(new BigInteger(1, by(a)).compareTo(new BigInteger(1, by(b))));
    }
    @TLAPlusOperator(identifier = "BigMod", module = "Prims", warn = false)
    public static Value bigMod(final Value a, final Value b) {
        BigInteger r = new BigInteger(1, by(a)).mod(new BigInteger(1, by(b)));
        return tv(r.signum() == 0 ? new byte[0] : EC.fix(r, (r.bitLength() + 7) / 8));
    }

    @TLAPlusOperator(identifier = "SHA256", module = "Prims", warn = false)
    public static Value sha256(final Value v) { return tv(Hashes.sha256(by(v))); }
    @TLAPlusOperator(identifier = "SHA512", module = "Prims", warn = false)
    public static Value sha512(final Value v) { return tv(Hashes.sha512(by(v))); }
    @TLAPlusOperator(identifier = "RIPEMD160", module = "Prims", warn = false)
    public static Value ripemd160(final Value v) { return tv(Hashes.ripemd160(by(v))); }
    @TLAPlusOperator(identifier = "KECCAK256", module = "Prims", warn = false)
    public static Value keccak256(final Value v) { return tv(Hashes.keccak256(by(v))); }
    @TLAPlusOperator(identifier = "SHA3x256", module = "Prims", warn = false)
    public static Value sha3(final Value v) { return tv(Hashes.sha3_256(by(v))); }
    @TLAPlusOperator(identifier = "BLAKE256", module = "Prims", warn = false)
    public static Value blake256(final Value v) { return tv(Hashes.blake256(by(v))); }
    @TLAPlusOperator(identifier = "BLAKEx", module = "Prims", warn = false)
    public static Value blakex(final Value v, final IntValue n, final Value salt) { return tv(Hashes.blake(by(v), n.val, by(salt))); }
    @TLAPlusOperator(identifier = "BLAKE2B", module = "Prims", warn = false)
    public static Value blake2b(final Value v, final IntValue n) { return tv(Hashes.blake2b(by(v), n.val)); }
    @TLAPlusOperator(identifier = "HMACSHA512", module = "Prims", warn = false)
    public static Value hmac(final Value k, final Value v) { return tv(Hashes.hmacSha512(by(k), by(v))); }

    static EC.Curve cv(StringValue c) {
        EC.Curve r = EC.CURVES.get(st(c));
        if (r == null) throw new RuntimeException("unknown curve " + c);
        return r;
    }
    static byte[] enc(String c, BigInteger[] A) {
        if (A == null) return new byte[0];
        return c.equals("bls") ? EC.blsEnc(A) : EC.CURVES.get(c).enc(A);
    }
    static BigInteger[] dec(String c, byte[] b) { return c.equals("bls") ? EC.blsDec(b) : EC.CURVES.get(c).dec(b); }

    /** compressed public key of a big-endian scalar (edwards: little-endian scalar); <<>> for infinity */
    @TLAPlusOperator(identifier = "PubOf", module = "Prims", warn = false)
    public static Value pubOf(final StringValue c, final Value k) {
        if (st(c).equals("ed")) return tv(EC.eenc(EC.eaff(EC.emulE(EC.EB, EC.le(by(k))))));
        EC.Curve cc = cv(c);
        return tv(enc(st(c), cc.mul(cc.g, new BigInteger(1, by(k)).mod(cc.n))));
    }
    /** P + kG on compressed encodings; <<>> for infinity */
    @TLAPlusOperator(identifier = "PointAddG", module = "Prims", warn = false)
    public static Value pointAddG(final StringValue c, final Value p, final Value k) {
        if (st(c).equals("ed")) {
            BigInteger[] A = EC.edec(by(p));
            if (A == null) throw new RuntimeException("bad ed point");
            return tv(EC.eenc(EC.eaff(EC.eaddE(EC.eext(A), EC.emulE(EC.EB, EC.le(by(k)))))));
        }
        EC.Curve cc = cv(c);
        BigInteger[] A = dec(st(c), by(p));
        if (A == null) throw new RuntimeException("bad point");
        return tv(enc(st(c), cc.add(A, cc.mul(cc.g, new BigInteger(1, by(k)).mod(cc.n)))));
    }
    @TLAPlusOperator(identifier = "CurveOrder", module = "Prims", warn = false)
    public static Value curveOrder(final StringValue c) {
        return tv(EC.fix(st(c).equals("ed") ? EC.EL : cv(c).n, 32));
    }
    /** 33-byte compressed -> 64-byte X||Y, or <<>> when it is not a point */
    @TLAPlusOperator(identifier = "Decompress", module = "Prims", warn = false)
    public static Value decompress(final StringValue c, final Value p) {
        BigInteger[] A = cv(c).dec(by(p));
        if (A == null) return tv(new byte[0]);
        byte[] r = new byte[64];
        System.arraycopy(EC.fix(A[0], 32), 0, r, 0, 32); System.arraycopy(EC.fix(A[1], 32), 0, r, 32, 32);
        return tv(r);
    }
    /** pub: 33-byte compressed or 64-byte X||Y; sig: 64-byte r||s */
    @TLAPlusOperator(identifier = "EcdsaOK", module = "Prims", warn = false)
    public static Value ecdsaOK(final StringValue c, final Value pub, final Value dig, final Value sig) {
        byte[] p = by(pub), z = by(dig), s = by(sig);
        if (s.length != 64 || z.length != 32) return bo(false);
        EC.Curve cc = cv(c);
        BigInteger[] A;
        if (p.length == 64) A = new BigInteger[]{new BigInteger(1, Arrays.copyOf(p, 32)), new BigInteger(1, Arrays.copyOfRange(p, 32, 64))};
        else A = cc.dec(p);
        return bo(A != null && EC.ecdsa(cc, A, z, new BigInteger(1, Arrays.copyOf(s, 32)), new BigInteger(1, Arrays.copyOfRange(s, 32, 64))));
    }
    /** the compressed key under which (r, s) with parity v signs the digest, or <<>> */
    @TLAPlusOperator(identifier = "Recover", module = "Prims", warn = false)
    public static Value recover(final StringValue c, final Value dig, final Value sig, final IntValue v) {
        byte[] z = by(dig), g = by(sig);
        EC.Curve cc = cv(c);
        BigInteger r = new BigInteger(1, Arrays.copyOf(g, 32)), s = new BigInteger(1, Arrays.copyOfRange(g, 32, 64));
        if (r.signum() <= 0 || s.signum() <= 0 || r.compareTo(cc.n) >= 0 || s.compareTo(cc.n) >= 0) return tv(new byte[0]);
        byte[] e = new byte[33];
        e[0] = (byte) (2 + v.val); System.arraycopy(EC.fix(r, 32), 0, e, 1, 32);
        BigInteger[] R = cc.dec(e);
        if (R == null) return tv(new byte[0]);
        BigInteger ri = r.modInverse(cc.n), zz = new BigInteger(1, z).mod(cc.n);
        BigInteger[] Q = cc.aff(cc.addJ(cc.mulJ(R, s.multiply(ri).mod(cc.n)), cc.mulJ(cc.g, cc.n.subtract(zz).multiply(ri).mod(cc.n))));
        return Q == null ? tv(new byte[0]) : tv(cc.enc(Q));
    }
    @TLAPlusOperator(identifier = "EdOK", module = "Prims", warn = false)
    public static Value edOK(final Value pub, final Value msg, final Value sig) { return bo(EC.edverify(by(pub), by(msg), by(sig))); }
    @TLAPlusOperator(identifier = "XEdOK", module = "Prims", warn = false)
    public static Value xedOK(final Value pub, final Value msg, final Value sig) { return bo(EC.xverify(by(pub), by(msg), by(sig))); }
    @TLAPlusOperator(identifier = "EdToX", module = "Prims", warn = false)
    public static Value edToX(final Value pub) { return tv(EC.edToX(by(pub))); }

    @TLAPlusOperator(identifier = "Emit", module = "Prims", warn = false)
    public static Value emit(final StringValue v) {
        synchronized (Prims.class) { System.out.println("\n@@" + st(v)); System.out.flush(); }
        return bo(true);
    }
    /** Radix conversion; same function as the TLA+ definition in module Bytes (checked by spec/models/LibTest). */
    @TLAPlusOperator(identifier = "Convert", module = "Bytes", warn = false)
    public static Value convert(final Value d, final IntValue from, final IntValue to) {
        byte[] b = by(d);
        BigInteger x = BigInteger.ZERO, f = BigInteger.valueOf(from.val), t = BigInteger.valueOf(to.val);
        for (byte y : b) x = x.multiply(f).add(BigInteger.valueOf(y & 255));
        java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        while (x.signum() > 0) {
            BigInteger[] qr = x.divideAndRemainder(t);
            out.add(IntValue.gen(qr[1].intValue())); x = qr[0];
        }
        java.util.Collections.reverse(out);
        return new TupleValue(out.toArray(new Value[0]));
    }
    @TLAPlusOperator(identifier = "Cat", module = "Bytes", warn = false)
    public static Value cat(final Value ss) {
        TupleValue t = (TupleValue) ss.toTuple();
        java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        for (Value e : t.elems) for (Value x : ((TupleValue) e.toTuple()).elems) out.add(x);
        return new TupleValue(out.toArray(new Value[0]));
    }
    @TLAPlusOperator(identifier = "Regroup", module = "Bytes", warn = false)
    public static Value regroup(final Value d, final IntValue w, final IntValue v) {
        byte[] b = by(d); int acc = 0, n = 0; java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        for (byte y : b) for (int k = w.val - 1; k >= 0; k--) {
            acc = acc << 1 | ((y >> k) & 1);
            if (++n == v.val) { out.add(IntValue.gen(acc)); acc = 0; n = 0; }
        }
        if (n > 0) out.add(IntValue.gen(acc << (v.val - n)));
        return new TupleValue(out.toArray(new Value[0]));
    }
    private static final java.util.concurrent.ConcurrentHashMap<String, Value> TRACES = new java.util.concurrent.ConcurrentHashMap<>();
    /** ndJsonDeserialize, read once. */
    @TLAPlusOperator(identifier = "LoadTrace", module = "Prims", warn = false)
    public static Value loadTrace(final StringValue path) {
        return TRACES.computeIfAbsent(st(path), k -> {
            try {
                Value v = (Value) tlc2.overrides.Json.ndDeserialize(path);
                v.deepNormalize(); return v;
            } catch (java.io.IOException e) { throw new RuntimeException(e); }
        });
    }
}
