import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.InputStreamReader;
import java.io.OutputStreamWriter;
import java.nio.charset.StandardCharsets;
import java.util.Base64;

import qiniu.uip.db.IpInfo;
import qiniu.uip.db.IPFormatException;
import qiniu.uip.db.InvalidDatabaseException;
import qiniu.uip.db.NotFoundException;
import qiniu.uip.db.Query;
import qiniu.uip.db.VersionInfo;

/** Answers requests: one line each, base64 arguments; L database, F file name, S text, B bytes, M bytes asked again after the first answer was changed, T texts asked by several threads at once; O another database beside the first, P bytes asked of it. */
public final class Driver {
    static final BufferedWriter OUT = new BufferedWriter(new OutputStreamWriter(System.out, StandardCharsets.US_ASCII));

    static String enc(String s) {
        return s == null ? "!" : "=" + Base64.getEncoder().encodeToString(s.getBytes(StandardCharsets.UTF_8));
    }

    static String record(IpInfo i) {
        String text = i.toString();
        for (String s : new String[]{i.country, i.province, i.city, i.isp, i.asn, i.continent, i.line, i.district}) {
            if (s != null && !text.contains(s)) {
                return "x " + enc("the text of the record, " + text + ", lacks " + s);
            }
        }
        return "r " + enc(i.country) + " " + enc(i.province) + " " + enc(i.city) + " " + enc(i.isp) + " " + enc(i.asn) + " "
            + enc(i.continent) + " " + enc(i.line) + " " + enc(i.district);
    }

    static void spoil(String[] a) {
        if (a != null) {
            java.util.Arrays.fill(a, "spoilt");
        }
    }

    static String ask(Query q, String s) {
        try {
            return record(q.query(s));
        } catch (IPFormatException | InvalidDatabaseException e) {
            return e.getMessage();
        }
    }

    static String threads(Query q, String[] texts) throws Exception {
        String[] want = new String[texts.length];
        for (int i = 0; i < texts.length; i++) {
            want[i] = ask(q, texts[i]);
        }
        Thread[] t = new Thread[4];
        String[] wrong = new String[t.length];
        for (int k = 0; k < t.length; k++) {
            final int n = k;
            t[k] = new Thread(() -> {
                try {
                    for (int j = 0; j < 3 * texts.length; j++) {
                        int i = (j + n * 7) % texts.length;
                        String got = ask(q, texts[i]);
                        if (!String.valueOf(got).equals(String.valueOf(want[i]))) {
                            wrong[n] = texts[i] + " is answered " + got + " instead of " + want[i];
                            return;
                        }
                    }
                } catch (Throwable e) {
                    wrong[n] = e.toString();
                }
            });
            t[k].start();
        }
        for (Thread x : t) {
            x.join();
        }
        for (String w : wrong) {
            if (w != null) {
                return "x " + enc("asked by several threads: " + w);
            }
        }
        return "t";
    }

    public static void main(String[] args) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII));
        Query q = null;
        Query other = null;
        String line;
        while ((line = in.readLine()) != null) {
            String answer;
            try {
                byte[] arg = Base64.getDecoder().decode(line.substring(1));
                switch (line.charAt(0)) {
                    case 'L':
                    case 'F':
                        q = null;
                        other = null;
                        if (line.charAt(0) == 'L') {
                            q = Query.create(arg, ".ipdb");
                        } else {
                            q = Query.create(new String(arg, StandardCharsets.UTF_8));
                        }
                        VersionInfo v = q.version();
                        spoil(v.extraInfo);
                        spoil(v.languages);
                        v = q.version();
                        if (!v.toString().contains(String.valueOf(v.build)) || !v.toString().contains(String.valueOf(v.version))) {
                            answer = "x " + enc("the text of the version information: " + v);
                            break;
                        }
                        StringBuilder b = new StringBuilder("v " + v.ipType + " " + v.count + " " + v.build + " " + enc(v.version));
                        if (v.extraInfo != null) {
                            for (String s : v.extraInfo) {
                                b.append(" ").append(enc(s));
                            }
                        }
                        answer = b.toString();
                        if (v.hasIpV4() != ((v.ipType & 1) != 0) || v.hasIpV6() != ((v.ipType & 2) != 0)) {
                            answer = "x " + enc("hasIpV4 " + v.hasIpV4() + ", hasIpV6 " + v.hasIpV6() + ", family " + v.ipType);
                        }
                        break;
                    case 'S': {
                        IpInfo i = q.query(new String(arg, StandardCharsets.UTF_8));
                        answer = i == null ? "x null" : record(i);
                        break;
                    }
                    case 'B': {
                        IpInfo i = q.query(arg);
                        answer = i == null ? "x null" : record(i);
                        break;
                    }
                    case 'M': {
                        IpInfo i = q.query(arg);
                        if (i != null) {
                            i.country = i.province = i.city = i.isp = i.asn = i.continent = i.line = i.district = "spoilt";
                        }
                        i = q.query(arg);
                        answer = i == null ? "x null" : record(i);
                        break;
                    }
                    case 'O':
                        other = Query.create(arg, ".ipdb");
                        answer = "t";
                        break;
                    case 'P': {
                        IpInfo i = other.query(arg);
                        answer = i == null ? "x null" : record(i);
                        break;
                    }
                    case 'T':
                        answer = threads(q, new String(arg, StandardCharsets.UTF_8).split(" "));
                        break;
                    default:
                        answer = "? request";
                }
            } catch (Throwable e) {
                if (q == null && e instanceof NullPointerException && line.charAt(0) != 'L' && line.charAt(0) != 'F') {
                    OUT.write("@@n");
                    OUT.newLine();
                    if (!in.ready()) {
                        OUT.flush();
                    }
                    continue;
                }
                if (e instanceof IPFormatException || e instanceof InvalidDatabaseException || e instanceof NotFoundException || e instanceof java.io.IOException && line.charAt(0) == 'F') {
                    OUT.write("@@e " + enc(e.getClass().getSimpleName() + ": " + e.getMessage()));
                    OUT.newLine();
                    if (!in.ready()) {
                        OUT.flush();
                    }
                    continue;
                }
                StringBuilder b = new StringBuilder(e.toString());
                StackTraceElement[] st = e.getStackTrace();
                for (int i = 0; i < st.length && i < 6; i++) {
                    b.append(" at ").append(st[i]);
                }
                answer = "x " + enc(b.toString());
            }
            OUT.write("@@" + answer);
            OUT.newLine();
            if (!in.ready()) {
                OUT.flush();
            }
        }
        OUT.flush();
    }
}
