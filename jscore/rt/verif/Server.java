package verif;

import score.*;
import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Reads one command a line and answers with a line; a call of a mock is asked back over the same pipe. */
public class Server {
    static BufferedReader in;
    static PrintStream out;

    public static void main(String[] a) throws Exception {
        in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        System.setOut(System.err);
        Thread t = new Thread(null, () -> {
            try {
                String l;
                while ((l = in.readLine()) != null) out(exec((Map<?, ?>) Json.parse(l)));
            } catch (IOException e) {
                throw new UncheckedIOException(e);
            }
        }, "main", 256 << 20);
        t.start();
        t.join();
        System.exit(0);
    }

    static void out(StringBuilder sb) {
        out.print(sb.append('\n'));
        out.flush();
    }

    @SuppressWarnings("unchecked")
    static List<Object> args(Map<?, ?> m) {
        Object a = m.get("args");
        return a == null ? new ArrayList<>() : (List<Object>) Json.typed(a);
    }
    static Address addr(Map<?, ?> m, String k) { return Address.fromString((String) m.get(k)); }
    static BigInteger big(Map<?, ?> m, String k) { return m.get(k) == null ? BigInteger.ZERO : new BigInteger((String) m.get(k)); }

    static StringBuilder exec(Map<?, ?> m) {
        StringBuilder sb = new StringBuilder("{");
        int n = Rt.events.size();
        boolean top = Rt.frames.isEmpty();
        try {
            Object ret = null;
            switch ((String) m.get("op")) {
                case "reset": Rt.reset(); break;
                case "mock": {
                    Address at = addr(m, "to");
                    Rt.mocks.put(at, (Rt.Handler) Server::ask);
                    break;
                }
                case "deploy": {
                    Rt.txcount++;
                    Rt.deploy(addr(m, "to"), (String) m.get("class"), addr(m, "from"), args(m));
                    break;
                }
                case "call": case "query": {
                    if (top) { Rt.txcount++; Rt.events.clear(); n = 0; }
                    ret = Rt.invoke(addr(m, "to"), addr(m, "from"), big(m, "value"), m.get("op").equals("query"), (String) m.get("method"), args(m));
                    break;
                }
                case "queries": {
                    List<Object> rs = new ArrayList<>();
                    for (Object q : args(m)) {
                        List<?> l = (List<?>) q;
                        List<Object> r = new ArrayList<>();
                        try {
                            Object v = Rt.invoke(addr(m, "to"), addr(m, "from"), BigInteger.ZERO, true, (String) l.get(0), new ArrayList<>(l.subList(1, l.size())));
                            r.add(true);
                            r.add(v);
                        } catch (RuntimeException | Rt.Reverted e) {
                            r.add(false);
                        }
                        rs.add(r);
                    }
                    ret = rs;
                    break;
                }
                case "block": Rt.height = big(m, "height").longValue(); Rt.timestamp = Rt.height * 2_000_000L; break;
                case "mint": { Address to = addr(m, "to"); Rt.balances.put(to, Rt.balances.getOrDefault(to, BigInteger.ZERO).add(big(m, "value"))); break; }
                case "balance": ret = Rt2.balance(addr(m, "to")); break;
                case "owner": Rt.owners.put(addr(m, "to"), addr(m, "from")); break;
                case "hash": ret = Sha.hash((String) m.get("method"), (byte[]) args(m).get(0)); break;
                case "recover": ret = Sha.recover((byte[]) args(m).get(0), (byte[]) args(m).get(1), false); break;
                default: throw new IllegalArgumentException("op " + m.get("op"));
            }
            sb.append("\"ok\":true,\"ret\":");
            Json.val(sb, ret);
            if (top) {
                sb.append(",\"events\":[");
                for (int i = n; i < Rt.events.size(); i++) {
                    Rt.Event e = Rt.events.get(i);
                    if (i > n) sb.append(',');
                    sb.append("{\"addr\":\"").append(e.addr).append("\",\"name\":");
                    Json.quote(sb, e.name);
                    sb.append(",\"args\":");
                    Json.val(sb, e.args);
                    sb.append("}");
                }
                sb.append(']');
            }
        } catch (Rt.Reverted e) {
            fail(sb, "revert", e.code, e);
        } catch (UserRevertException e) {
            fail(sb, "revert", e.getCode(), e);
        } catch (RuntimeException | Error e) {
            fail(sb, "fail", -1, e);
        }
        return sb.append('}');
    }

    static void fail(StringBuilder sb, String kind, int code, Throwable e) {
        if (Rt.verbose) e.printStackTrace();
        sb.setLength(0);
        sb.append("{\"ok\":false,\"kind\":\"").append(kind).append("\",\"code\":").append(code).append(",\"msg\":");
        Json.quote(sb, e.getClass().getName() + ": " + e.getMessage());
    }

    static Object ask(Rt.Frame f, String method, List<Object> args) {
        StringBuilder sb = new StringBuilder("{\"cb\":{\"to\":\"").append(f.addr).append("\",\"from\":\"").append(f.caller)
                .append("\",\"value\":\"").append(f.value).append("\",\"method\":");
        Json.quote(sb, method);
        sb.append(",\"args\":");
        Json.val(sb, args);
        out(sb.append("}}"));
        try {
            while (true) {
                String l = in.readLine();
                if (l == null) System.exit(3);
                Map<?, ?> m = (Map<?, ?>) Json.parse(l);
                if (m.containsKey("op")) { out(exec(m)); continue; }
                if (m.containsKey("revert")) throw new Rt.Reverted(((BigInteger) m.get("revert")).intValue(), (String) m.get("msg"));
                if (m.containsKey("fail")) throw new Rt.Failure((String) m.get("fail"));
                return Json.typed(m.get("ret"));
            }
        } catch (IOException e) {
            throw new UncheckedIOException(e);
        }
    }
}
