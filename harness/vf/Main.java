package vf;

import java.nio.file.Files;
import java.nio.file.Path;
import java.util.HashMap;
import java.util.Map;

/** Main ID | Main --replay FILE */
public final class Main {
    interface Check {
        int run(Ctx x) throws Throwable;
    }

    static final Map<String, Check> CHECKS = new HashMap<>();

    static {
        HashChecks.register();
        HeapChecks.register();
        SeqChecks.register();
        BiChecks.register();
        SortChecks.register();
        TypeChecks.register();
        SnowflakeChecks.register();
        CrossChecks.register();
        ModuleChecks.register();
        CostChecks.register();
        AllocChecks.register();
        ComposeChecks.register();
    }

    public static void main(final String[] args) throws Throwable {
        final Path root = Path.of(System.getProperty("vf.root", ".")).toAbsolutePath().normalize();
        String id = args[0];
        long seed = Long.parseLong(System.getenv().getOrDefault("VERIF_SEED", "1"));
        boolean thorough = "thorough".equals(System.getenv("VERIF_TIER"));
        String family = null;
        int index = 0;
        if (id.equals("--replay")) {
            final Map<String, String> kv = new HashMap<>();
            for (String line : Files.readAllLines(Path.of(args[1]))) {
                final int eq = line.indexOf('=');
                if (eq > 0) {
                    kv.putIfAbsent(line.substring(0, eq), line.substring(eq + 1));
                }
            }
            id = kv.get("property");
            seed = Long.parseLong(kv.get("seed"));
            thorough = "thorough".equals(kv.get("tier"));
            family = kv.get("family");
            index = Integer.parseInt(kv.get("index"));
        }
        final Check check = CHECKS.get(id);
        if (check == null) {
            System.out.println("ERROR: no check for " + id);
            System.exit(3);
        }
        final Ctx x = new Ctx(id, seed, thorough, root, family, index);
        int rc;
        try {
            rc = check.run(x);
        } catch (Throwable t) {
            t.printStackTrace(System.out);
            rc = 3;
        }
        System.out.flush();
        Runtime.getRuntime().halt(rc);
    }
}
