package owc;

import java.security.MessageDigest;
import java.util.Arrays;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;

/** Hash functions, written independently of the Go code under test. */
final class Hashes {
    private Hashes() {}

    static byte[] jdk(String alg, byte[] in) {
        try { return MessageDigest.getInstance(alg).digest(in); } catch (Exception e) { throw new RuntimeException(e); }
    }
    static byte[] sha256(byte[] in) { return jdk("SHA-256", in); }
    static byte[] sha512(byte[] in) { return jdk("SHA-512", in); }
    static byte[] sha3_256(byte[] in) { return keccak(in, 32, 0x06); }
    static byte[] keccak256(byte[] in) { return keccak(in, 32, 0x01); }

    static byte[] hmacSha512(byte[] key, byte[] in) {
        try {
            Mac m = Mac.getInstance("HmacSHA512");
            m.init(new SecretKeySpec(key.length == 0 ? new byte[1] : key, "HmacSHA512"));
            return m.doFinal(in);
        } catch (Exception e) { throw new RuntimeException(e); }
    }

    // ---- Keccak-f[1600] ----
    private static final long[] RC = new long[24];
    private static final int[] ROT = new int[25];
    static {
        int r = 1;
        for (int i = 0; i < 24; i++) {
            long c = 0;
            for (int j = 0; j < 7; j++) {
                if ((r & 1) != 0) c |= 1L << ((1 << j) - 1);
                r = (r << 1) ^ ((r >> 7) * 0x171);
            }
            RC[i] = c;
        }
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
            int nx = y, ny = (2 * x + 3 * y) % 5;
            x = nx; y = ny;
        }
    }
    private static void keccakF(long[] a) {
        long[] b = new long[25], c = new long[5];
        for (int rnd = 0; rnd < 24; rnd++) {
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int x = 0; x < 5; x++) {
                long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
                for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d;
            }
            for (int x = 0; x < 5; x++)
                for (int y = 0; y < 5; y++)
                    b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[x + 5 * y], ROT[x + 5 * y]);
            for (int y = 0; y < 5; y++)
                for (int x = 0; x < 5; x++)
                    a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            a[0] ^= RC[rnd];
        }
    }
    static byte[] keccak(byte[] in, int outLen, int pad) {
        int rate = 200 - 2 * outLen;
        long[] a = new long[25];
        int blocks = in.length / rate + 1;
        byte[] p = Arrays.copyOf(in, blocks * rate);
        p[in.length] ^= (byte) pad;
        p[p.length - 1] ^= (byte) 0x80;
        for (int b = 0; b < blocks; b++) {
            for (int i = 0; i < rate; i++) a[i / 8] ^= (p[b * rate + i] & 0xffL) << (8 * (i % 8));
            keccakF(a);
        }
        byte[] out = new byte[outLen];
        for (int i = 0; i < outLen; i++) out[i] = (byte) (a[i / 8] >>> (8 * (i % 8)));
        return out;
    }

    // ---- RIPEMD-160 ----
    private static final int[] RL = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
        3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
    private static final int[] RR = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
        15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
    private static final int[] SL = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
        11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
    private static final int[] SR = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
        9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
    private static final int[] KL = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e};
    private static final int[] KR = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
    private static int f(int j, int x, int y, int z) {
        switch (j) {
            case 0: return x ^ y ^ z;
            case 1: return (x & y) | (~x & z);
            case 2: return (x | ~y) ^ z;
            case 3: return (x & z) | (y & ~z);
            default: return x ^ (y | ~z);
        }
    }
    static byte[] ripemd160(byte[] in) {
        int len = ((in.length + 8) / 64 + 1) * 64;
        byte[] p = Arrays.copyOf(in, len);
        p[in.length] = (byte) 0x80;
        long bits = (long) in.length * 8;
        for (int i = 0; i < 8; i++) p[len - 8 + i] = (byte) (bits >>> (8 * i));
        int[] h = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
        int[] w = new int[16];
        for (int o = 0; o < len; o += 64) {
            for (int i = 0; i < 16; i++)
                w[i] = (p[o + 4 * i] & 255) | (p[o + 4 * i + 1] & 255) << 8 | (p[o + 4 * i + 2] & 255) << 16 | (p[o + 4 * i + 3] & 255) << 24;
            int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
            int a2 = a, b2 = b, c2 = c, d2 = d, e2 = e;
            for (int j = 0; j < 80; j++) {
                int t = Integer.rotateLeft(a + f(j / 16, b, c, d) + w[RL[j]] + KL[j / 16], SL[j]) + e;
                a = e; e = d; d = Integer.rotateLeft(c, 10); c = b; b = t;
                t = Integer.rotateLeft(a2 + f(4 - j / 16, b2, c2, d2) + w[RR[j]] + KR[j / 16], SR[j]) + e2;
                a2 = e2; e2 = d2; d2 = Integer.rotateLeft(c2, 10); c2 = b2; b2 = t;
            }
            int t = h[1] + c + d2;
            h[1] = h[2] + d + e2; h[2] = h[3] + e + a2; h[3] = h[4] + a + b2; h[4] = h[0] + b + c2; h[0] = t;
        }
        byte[] out = new byte[20];
        for (int i = 0; i < 20; i++) out[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
        return out;
    }

    // ---- BLAKE-256 (SHA-3 finalist, 14 rounds) ----
    private static final int[] BC = {0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89,
        0x452821E6, 0x38D01377, 0xBE5466CF, 0x34E90C6C, 0xC0AC29B7, 0xC97C50DD, 0x3F84D5B5, 0xB5470917};
    static final int[][] SIGMA = {
        {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
        {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
        {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
        {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
        {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
    private static void bg(int[] v, int[] m, int r, int i, int a, int b, int c, int d) {
        int[] s = SIGMA[r % 10];
        v[a] += v[b] + (m[s[2 * i]] ^ BC[s[2 * i + 1]]);
        v[d] = Integer.rotateRight(v[d] ^ v[a], 16);
        v[c] += v[d];
        v[b] = Integer.rotateRight(v[b] ^ v[c], 12);
        v[a] += v[b] + (m[s[2 * i + 1]] ^ BC[s[2 * i]]);
        v[d] = Integer.rotateRight(v[d] ^ v[a], 8);
        v[c] += v[d];
        v[b] = Integer.rotateRight(v[b] ^ v[c], 7);
    }
    static byte[] blake256(byte[] in) { return blake(in, 256, new byte[16]); }
    static byte[] blake(byte[] in, int size, byte[] salt) {
        int[] h = size == 256 ? new int[]{0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19}
            : new int[]{0xC1059ED8, 0x367CD507, 0x3070DD17, 0xF70E5939, 0xFFC00B31, 0x68581511, 0x64F98FA7, 0xBEFA4FA4};
        int[] sl = new int[4];
        for (int i = 0; i < 16; i++) sl[i / 4] |= (salt[i] & 255) << (24 - 8 * (i % 4));
        int len = ((in.length + 1 + 8 + 63) / 64) * 64;
        byte[] p = Arrays.copyOf(in, len);
        p[in.length] |= (byte) 0x80;
        if (size == 256) p[len - 9] |= 1;
        long bits = (long) in.length * 8;
        for (int i = 0; i < 8; i++) p[len - 1 - i] = (byte) (bits >>> (8 * i));
        for (int o = 0; o < len; o += 64) {
            long t;
            if ((long) o >= in.length && !(o == 0 && in.length == 0)) t = 0;       // block with no message bits
            else t = Math.min((long) o + 64, in.length) * 8;
            if (in.length == 0) t = 0;
            int[] m = new int[16], v = new int[16];
            for (int i = 0; i < 16; i++)
                m[i] = (p[o + 4 * i] & 255) << 24 | (p[o + 4 * i + 1] & 255) << 16 | (p[o + 4 * i + 2] & 255) << 8 | (p[o + 4 * i + 3] & 255);
            System.arraycopy(h, 0, v, 0, 8);
            for (int i = 0; i < 8; i++) v[8 + i] = BC[i];
            for (int i = 0; i < 4; i++) v[8 + i] ^= sl[i];
            v[12] ^= (int) t; v[13] ^= (int) t; v[14] ^= (int) (t >>> 32); v[15] ^= (int) (t >>> 32);
            for (int r = 0; r < 14; r++) {
                bg(v, m, r, 0, 0, 4, 8, 12); bg(v, m, r, 1, 1, 5, 9, 13); bg(v, m, r, 2, 2, 6, 10, 14); bg(v, m, r, 3, 3, 7, 11, 15);
                bg(v, m, r, 4, 0, 5, 10, 15); bg(v, m, r, 5, 1, 6, 11, 12); bg(v, m, r, 6, 2, 7, 8, 13); bg(v, m, r, 7, 3, 4, 9, 14);
            }
            for (int i = 0; i < 8; i++) h[i] ^= sl[i % 4] ^ v[i] ^ v[i + 8];
        }
        byte[] out = new byte[size / 8];
        for (int i = 0; i < out.length; i++) out[i] = (byte) (h[i / 4] >>> (24 - 8 * (i % 4)));
        return out;
    }

    // ---- BLAKE2b ----
    private static final long[] IV = {0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L,
        0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L};
    private static void b2g(long[] v, int a, int b, int c, int d, long x, long y) {
        v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32);
        v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 24);
        v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16);
        v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 63);
    }
    static byte[] blake2b(byte[] in, int n) {
        long[] h = IV.clone();
        h[0] ^= 0x01010000L ^ n;
        int blocks = Math.max(1, (in.length + 127) / 128);
        byte[] p = Arrays.copyOf(in, blocks * 128);
        for (int b = 0; b < blocks; b++) {
            boolean last = b == blocks - 1;
            long t = last ? in.length : (b + 1) * 128L;
            long[] m = new long[16], v = new long[16];
            for (int i = 0; i < 128; i++) m[i / 8] |= (p[b * 128 + i] & 0xffL) << (8 * (i % 8));
            System.arraycopy(h, 0, v, 0, 8);
            System.arraycopy(IV, 0, v, 8, 8);
            v[12] ^= t;
            if (last) v[14] = ~v[14];
            for (int r = 0; r < 12; r++) {
                int[] s = SIGMA[r % 10];
                b2g(v, 0, 4, 8, 12, m[s[0]], m[s[1]]); b2g(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
                b2g(v, 2, 6, 10, 14, m[s[4]], m[s[5]]); b2g(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
                b2g(v, 0, 5, 10, 15, m[s[8]], m[s[9]]); b2g(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
                b2g(v, 2, 7, 8, 13, m[s[12]], m[s[13]]); b2g(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
            }
            for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
        }
        byte[] out = new byte[n];
        for (int i = 0; i < n; i++) out[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
        return out;
    }
}
