package verif;

import score.Address;
import java.math.BigInteger;
import java.util.*;

/** JSON with the types of values in the first letter of a string: i number, s text, b bytes, a address. */
public class Json {
    private final String s;
    private int p;
    private Json(String s) { this.s = s; }
    public static Object parse(String s) { Json j = new Json(s); return j.value(); }
    private void ws() { while (p < s.length() && s.charAt(p) <= ' ') p++; }
    private Object value() {
        ws();
        char c = s.charAt(p);
        if (c == '{') {
            Map<String, Object> m = new LinkedHashMap<>();
            p++; ws();
            if (s.charAt(p) == '}') { p++; return m; }
            while (true) {
                ws();
                String k = str();
                ws(); p++;
                m.put(k, value());
                ws();
                if (s.charAt(p++) == '}') return m;
            }
        }
        if (c == '[') {
            List<Object> l = new ArrayList<>();
            p++; ws();
            if (s.charAt(p) == ']') { p++; return l; }
            while (true) {
                l.add(value());
                ws();
                if (s.charAt(p++) == ']') return l;
            }
        }
        if (c == '"') return str();
        int q = p;
        while (p < s.length() && ",]} ".indexOf(s.charAt(p)) < 0) p++;
        String t = s.substring(q, p);
        if (t.equals("null")) return null;
        if (t.equals("true")) return true;
        if (t.equals("false")) return false;
        return new BigInteger(t);
    }
    private String str() {
        StringBuilder sb = new StringBuilder();
        p++;
        while (true) {
            char c = s.charAt(p++);
            if (c == '"') return sb.toString();
            if (c != '\\') { sb.append(c); continue; }
            c = s.charAt(p++);
            switch (c) {
                case 'n': sb.append('\n'); break; case 't': sb.append('\t'); break; case 'r': sb.append('\r'); break;
                case 'b': sb.append('\b'); break; case 'f': sb.append('\f'); break;
                case 'u': sb.append((char) Integer.parseInt(s.substring(p, p + 4), 16)); p += 4; break;
                default: sb.append(c);
            }
        }
    }
    public static void quote(StringBuilder sb, String s) {
        sb.append('"');
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            if (c == '"' || c == '\\') sb.append('\\').append(c);
            else if (c < ' ' || c > 126) sb.append(String.format("\\u%04x", (int) c));
            else sb.append(c);
        }
        sb.append('"');
    }
    /** typed value of a contract */
    public static void val(StringBuilder sb, Object v) {
        if (v == null) sb.append("null");
        else if (v instanceof Boolean) sb.append(v);
        else if (v instanceof BigInteger) quote(sb, "i" + v);
        else if (v instanceof String) quote(sb, "s" + v);
        else if (v instanceof byte[]) quote(sb, "b" + HexFormat.of().formatHex((byte[]) v));
        else if (v instanceof Address) quote(sb, "a" + v);
        else if (v instanceof List) {
            sb.append('[');
            boolean f = true;
            for (Object o : (List<?>) v) { if (!f) sb.append(','); f = false; val(sb, o); }
            sb.append(']');
        } else if (v instanceof Map) {
            sb.append('{');
            boolean f = true;
            for (var e : ((Map<?, ?>) v).entrySet()) {
                if (!f) sb.append(','); f = false;
                quote(sb, String.valueOf(e.getKey()));
                sb.append(':');
                val(sb, e.getValue());
            }
            sb.append('}');
        } else throw new IllegalArgumentException(v.getClass().toString());
    }
    public static Object typed(Object v) {
        if (v instanceof String) {
            String t = ((String) v).substring(1);
            switch (((String) v).charAt(0)) {
                case 'i': return new BigInteger(t);
                case 's': return t;
                case 'b': return HexFormat.of().parseHex(t);
                case 'a': return Address.fromString(t);
            }
            throw new IllegalArgumentException((String) v);
        }
        if (v instanceof List) {
            List<Object> l = new ArrayList<>();
            for (Object o : (List<?>) v) l.add(typed(o));
            return l;
        }
        if (v instanceof Map) {
            Map<String, Object> m = new LinkedHashMap<>();
            for (var e : ((Map<?, ?>) v).entrySet()) m.put((String) e.getKey(), typed(e.getValue()));
            return m;
        }
        return v;
    }
}
