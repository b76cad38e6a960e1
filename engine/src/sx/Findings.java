package sx;

import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.List;

/** The findings that are recorded and not repaired: "known: property=ID harness=CLASS what=MESSAGE". */
final class Findings {
    private final List<String[]> entries = new ArrayList<>();

    static Findings load(final Path file) throws IOException {
        final Findings f = new Findings();
        if (Files.exists(file)) {
            for (String l : Files.readAllLines(file)) {
                if (l.startsWith("known: property=")) {
                    final int h = l.indexOf(" harness=");
                    final int w = l.indexOf(" what=");
                    f.entries.add(new String[] {l.substring(16, h), l.substring(h + 9, w), l.substring(w + 6)});
                }
            }
        }
        return f;
    }

    boolean matches(final String prop, final String harness, final String message) {
        for (String[] e : entries) {
            if (e[0].equals(prop) && e[1].equals(harness) && e[2].equals(message)) {
                return true;
            }
        }
        return false;
    }
}
