package vf;

/** SplitMix64: small, fast, reproducible. */
final class Rng {
    private long s;

    Rng(final long seed) {
        s = mix(seed + 0x9E3779B97F4A7C15L);
    }

    static long mix(long z) {
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        return z ^ (z >>> 31);
    }

    long nextLong() {
        s += 0x9E3779B97F4A7C15L;
        return mix(s);
    }

    int nextInt(final int bound) {
        return (int) ((nextLong() >>> 33) % bound);
    }

    int range(final int lo, final int hi) { // inclusive
        return lo + nextInt(hi - lo + 1);
    }

    boolean nextBoolean() {
        return nextLong() < 0;
    }

    boolean chance(final int oneIn) {
        return nextInt(oneIn) == 0;
    }

    double nextDouble() {
        return (nextLong() >>> 11) * 0x1.0p-53;
    }

    @SafeVarargs
    final <X> X pick(final X... xs) {
        return xs[nextInt(xs.length)];
    }

    int pickInt(final int... xs) {
        return xs[nextInt(xs.length)];
    }
}
