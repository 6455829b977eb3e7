import java.io.*;
import java.util.*;
import org.puimula.libvoikko.*;

/** The Java classes driven by commands, one per line, with the answers as JSON (texts as lists of code points; surrogates without a partner as themselves). */
public class BindDriver {
    static final Map<String, Voikko> H = new HashMap<String, Voikko>();

    static String text(String s) {
        StringBuilder b = new StringBuilder();
        for (String x : s.trim().split(" +")) if (!x.isEmpty()) b.appendCodePoint(Integer.parseInt(x));
        return b.toString();
    }

    static String out(String s) {
        if (s == null) return "null";
        StringBuilder b = new StringBuilder("[");
        for (int i = 0; i < s.length(); i = s.offsetByCodePoints(i, 1)) b.append(i > 0 ? "," : "").append(s.codePointAt(i));
        return b.append("]").toString();
    }

    static String str(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) b.append(String.format("\\u%04x", (int) c));
        return b.append("\"").toString();
    }

    static String list(List<String> l) { return "[" + String.join(",", l) + "]"; }

    static String bytes(String s) throws Exception {
        StringBuilder b = new StringBuilder("[");
        for (byte x : s.getBytes("UTF-8")) b.append(b.length() > 1 ? "," : "").append(x & 255);
        return b.append("]").toString();
    }

    static String run(String[] a) throws Exception {
        List<String> l = new ArrayList<String>();
        if (a[0].equals("binit")) {
            try {
                H.put(a[1], new Voikko(a[2], a[3]));
            } catch (VoikkoException e) {
                return "{\"ok\":0,\"err\":" + (e.getMessage().isEmpty() ? 0 : 1) + "}";
            }
            return "{\"ok\":1,\"err\":0}";
        }
        if (a[0].equals("blistd")) {
            for (org.puimula.libvoikko.Dictionary d : Voikko.listDicts(a[1]))
                l.add("{\"lang\":" + bytes(d.getLanguage()) + ",\"script\":" + bytes(d.getScript()) + ",\"variant\":" + bytes(d.getVariant()) + ",\"desc\":" + bytes(d.getDescription()) + "}");
            return list(l);
        }
        if (a[0].equals("bsort")) {
            List<org.puimula.libvoikko.Dictionary> ds = new ArrayList<org.puimula.libvoikko.Dictionary>();
            for (int i = 1; i < a.length; i++) {
                String[] p = a[i].split(",", -1);
                ds.add(new org.puimula.libvoikko.Dictionary(p[0], p[1], p[2], p[3]));
            }
            Collections.sort(ds);
            for (org.puimula.libvoikko.Dictionary d : ds) l.add("[" + out(d.getLanguage()) + "," + out(d.getScript()) + "," + out(d.getVariant()) + "," + out(d.getDescription()) + "]");
            return list(l);
        }
        Voikko v = H.get(a[1]);
        switch (a[0]) {
        case "bterm": v.terminate(); return "1";
        case "bdel": H.remove(a[1]); v.terminate(); return "1";
        case "bset":
            if (a[2].equals("setSuggestionStrategy")) v.setSuggestionStrategy(a[3].equals("0") ? SuggestionStrategy.TYPO : SuggestionStrategy.OCR);
            else if (a[2].equals("setMinHyphenatedWordLength")) v.setMinHyphenatedWordLength(Integer.parseInt(a[3]));
            else if (a[2].equals("setSpellerCacheSize")) v.setSpellerCacheSize(Integer.parseInt(a[3]));
            else try {
                Voikko.class.getMethod(a[2], boolean.class).invoke(v, !a[3].equals("0"));
            } catch (java.lang.reflect.InvocationTargetException e) {
                throw (Exception) e.getCause();
            }
            return "1";
        case "bspell": return v.spell(text(a[2])) ? "1" : "0";
        case "bsugg": for (String s : v.suggest(text(a[2]))) l.add(out(s)); return list(l);
        case "bhyph": return out(v.getHyphenationPattern(text(a[2])));
        case "binsh":
            if (a[3].isEmpty() && a[4].equals("default")) return out(v.hyphenate(text(a[2])));
            return out(v.hyphenate(text(a[2]), text(a[3]), a[4].equals("1")));
        case "bana":
            for (Analysis m : v.analyze(text(a[2]))) {
                List<String> x = new ArrayList<String>();
                for (Map.Entry<String, String> e : m.entrySet()) x.add(str(e.getKey()) + ":" + out(e.getValue()));
                l.add("{" + String.join(",", x) + "}");
            }
            return list(l);
        case "btok":
            for (Token t : v.tokens(text(a[2])))
                if (t.getEndOffset() != t.getStartOffset() + t.getText().length()) l.add("{\"type\":-1,\"text\":[],\"pos\":-1}");
                else l.add("{\"type\":" + t.getType().getId() + ",\"text\":" + out(t.getText()) + ",\"pos\":" + t.getStartOffset() + "}");
            return list(l);
        case "bsent":
            for (Sentence s : v.sentences(text(a[2]))) l.add("{\"type\":" + s.getNextStartType().ordinal() + ",\"text\":" + out(s.getText()) + "}");
            return list(l);
        case "bgram":
            for (GrammarError e : v.grammarErrors(text(a[2]), a[3])) {
                List<String> x = new ArrayList<String>();
                for (String s : e.getSuggestions()) x.add(out(s));
                l.add("{\"code\":" + e.getErrorCode() + ",\"pos\":" + e.getStartPos() + ",\"len\":" + e.getErrorLen() + ",\"sugg\":" + list(x) + ",\"descr\":" + out(e.getShortDescription()) + "}");
            }
            return list(l);
        case "battr":
            List<String> x = v.attributeValues(text(a[2]));
            if (x == null) return "null";
            for (String s : x) l.add(str(s));
            return list(l);
        }
        System.exit(97);
        return null;
    }

    public static void main(String[] args) throws Exception {
        BufferedReader r = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
        for (String line = r.readLine(); line != null; line = r.readLine()) {
            String s;
            try {
                s = run(line.split("\t", -1));
            } catch (Exception e) {
                s = "{\"exc\":" + str(e.getClass().getSimpleName()) + "}";
            }
            System.out.println(s);
        }
        System.out.flush();
        for (Voikko v : H.values()) v.terminate();
        H.clear();
        System.gc();
    }
}
