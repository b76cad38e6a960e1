package sx;

/** The program does something the engine has no encoding for: never turned into a verdict. */
final class Unsupported extends RuntimeException {
    private static final long serialVersionUID = 1L;

    Unsupported(final String m) {
        super(m);
    }
}
