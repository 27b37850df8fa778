package vf;

/** An observation the property forbids. */
final class Violation extends RuntimeException {
    private static final long serialVersionUID = 1;

    Violation(final String msg) {
        super(msg);
    }

    Violation(final String msg, final Throwable cause) {
        super(msg, cause);
    }
}
