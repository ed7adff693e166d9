package verif;

import score.*;
import score.annotation.*;
import java.io.File;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.net.*;
import java.nio.file.*;
import java.util.*;
import java.util.function.Function;

/** A small SCORE runtime: contracts, storage, balances, events, nested calls and their rollback. */
public class Rt {
    /** A revert by Context.revert, which a contract cannot catch. */
    public static class Reverted extends Error {
        public final int code;
        public Reverted(int code, String msg) { super(msg, null, false, false); this.code = code; }
    }
    /** A failure of the runtime in the callee (not a user revert). */
    public static class Failure extends RuntimeException {
        public Failure(String msg) { super(msg); }
        public Failure(String msg, Throwable c) { super(msg, c); }
    }
    public interface Handler { Object call(Frame f, String method, List<Object> args); }
    public static class Event {
        public Address addr; public String name; public List<Object> args; public int indexed;
    }
    public static class Frame {
        public Address addr, caller, origin; public BigInteger value; public boolean readonly;
    }

    static Map<String, byte[]> store = new HashMap<>();
    static Map<Address, BigInteger> balances = new HashMap<>();
    static List<Event> events = new ArrayList<>();
    static Map<Address, Object> contracts = new HashMap<>();
    static Map<Address, Address> owners = new HashMap<>();
    static Map<Address, Object> mocks = new HashMap<>();
    static Deque<Frame> frames = new ArrayDeque<>();
    static long height = 1, timestamp = 1_000_000, txcount = 0;
    static boolean verbose = System.getenv("VERIF_JLOG") != null;

    public static void reset() {
        store.clear(); balances.clear(); events.clear(); contracts.clear(); owners.clear(); mocks.clear(); frames.clear();
        height = 1; timestamp = 1_000_000; txcount = 0;
    }

    @SuppressWarnings("unchecked")
    static <T extends Throwable> RuntimeException sneak0(Throwable t) throws T { throw (T) t; }
    public static RuntimeException sneak(Throwable t) { return Rt.<RuntimeException>sneak0(t); }

    public static Frame cur() {
        Frame f = frames.peek();
        if (f == null) throw new IllegalStateException("no frame");
        return f;
    }

    // ---- values -------------------------------------------------------------------------------------------------
    public static Object toWire(Object v) {
        if (v == null || v instanceof Boolean || v instanceof BigInteger || v instanceof String || v instanceof Address) return v;
        if (v instanceof byte[]) return ((byte[]) v).clone();
        if (v instanceof Byte || v instanceof Short || v instanceof Integer || v instanceof Long) return BigInteger.valueOf(((Number) v).longValue());
        if (v instanceof Character) return BigInteger.valueOf((Character) v);
        if (v.getClass().isArray()) {
            List<Object> l = new ArrayList<>();
            for (int i = 0; i < Array.getLength(v); i++) l.add(toWire(Array.get(v, i)));
            return l;
        }
        if (v instanceof Collection) {
            List<Object> l = new ArrayList<>();
            for (Object o : (Collection<?>) v) l.add(toWire(o));
            return l;
        }
        if (v instanceof Map) {
            Map<String, Object> m = new LinkedHashMap<>();
            for (var e : ((Map<?, ?>) v).entrySet()) m.put(String.valueOf(e.getKey()), toWire(e.getValue()));
            return m;
        }
        Map<String, Object> m = new TreeMap<>();
        try {
            for (Method g : v.getClass().getMethods()) {
                if (Modifier.isStatic(g.getModifiers()) || g.getParameterCount() != 0 || g.getDeclaringClass() == Object.class) continue;
                String n = g.getName();
                if (n.startsWith("get") && n.length() > 3) n = n.substring(3);
                else if (n.startsWith("is") && n.length() > 2) n = n.substring(2);
                else continue;
                g.setAccessible(true);
                m.put(n.substring(0, 1).toLowerCase() + n.substring(1), toWire(g.invoke(v)));
            }
        } catch (ReflectiveOperationException e) {
            throw new Failure("cannot convert " + v.getClass(), e);
        }
        return m;
    }

    static long num(Object v, int bits) {
        BigInteger b = (BigInteger) v;
        if (b.bitLength() >= bits) throw new Failure("number out of range");
        return b.longValue();
    }

    public static Object fromWire(Object v, Class<?> c) {
        if (c == Object.class) return v;
        if (v == null) {
            if (c.isPrimitive()) {
                if (c == boolean.class) return false;
                return fromWire(BigInteger.ZERO, c);
            }
            return null;
        }
        try {
            if (c == boolean.class || c == Boolean.class) return v instanceof BigInteger ? ((BigInteger) v).signum() != 0 : (Boolean) v;
            if (c == byte.class || c == Byte.class) return (byte) num(v, 8);
            if (c == short.class || c == Short.class) return (short) num(v, 16);
            if (c == char.class || c == Character.class) return (char) num(v, 17);
            if (c == int.class || c == Integer.class) return (int) num(v, 32);
            if (c == long.class || c == Long.class) return num(v, 64);
            if (c == BigInteger.class || c == String.class || c == Address.class || c == byte[].class) return c.cast(v);
            if (c.isArray()) {
                List<?> l = (List<?>) v;
                Object a = Array.newInstance(c.getComponentType(), l.size());
                for (int i = 0; i < l.size(); i++) Array.set(a, i, fromWire(l.get(i), c.getComponentType()));
                return a;
            }
            if (c == List.class || c == Collection.class) return new scorex.util.ArrayList<Object>((List<?>) v);
            if (c == Map.class) return v;
            Object o = c.getConstructor().newInstance();
            Map<?, ?> m = (Map<?, ?>) v;
            for (Method s : c.getMethods()) {
                if (!s.getName().startsWith("set") || s.getParameterCount() != 1 || s.getName().length() < 4) continue;
                String n = s.getName().substring(3);
                n = n.substring(0, 1).toLowerCase() + n.substring(1);
                if (m.containsKey(n)) {
                    s.setAccessible(true);
                    s.invoke(o, fromWire(m.get(n), s.getParameterTypes()[0]));
                }
            }
            return o;
        } catch (ClassCastException | ReflectiveOperationException e) {
            throw new Failure("invalid value for " + c.getName(), e);
        }
    }

    // ---- contracts ----------------------------------------------------------------------------------------------
    static class Loader extends URLClassLoader {
        Loader(URL[] u, ClassLoader p) { super(u, p); }
        @Override protected Class<?> findClass(String name) throws ClassNotFoundException {
            try {
                URL u = findResource(name.replace('.', '/') + ".class");
                if (u == null) throw new ClassNotFoundException(name);
                byte[] b = cache.computeIfAbsent(name, n -> {
                    try (var in = u.openStream()) { return Weave.events(in.readAllBytes()); }
                    catch (java.io.IOException e) { throw new RuntimeException(e); }
                });
                return defineClass(name, b, 0, b.length);
            } catch (RuntimeException e) {
                throw new ClassNotFoundException(name, e);
            }
        }
    }
    static final Map<String, byte[]> cache = new HashMap<>();
    static URL[] appPath;
    static {
        try {
            List<URL> us = new ArrayList<>();
            for (String p : System.getProperty("verif.app").split(File.pathSeparator)) us.add(Paths.get(p).toUri().toURL());
            appPath = us.toArray(new URL[0]);
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    }

    static Object[] bind(Executable m, List<Object> args) {
        Parameter[] ps = m.getParameters();
        if (args.size() > ps.length) throw new Failure("too many parameters for " + m.getName());
        Object[] out = new Object[ps.length];
        for (int i = 0; i < ps.length; i++) {
            if (i < args.size()) out[i] = fromWire(args.get(i), ps[i].getType());
            else if (ps[i].isAnnotationPresent(score.annotation.Optional.class)) out[i] = fromWire(null, ps[i].getType());
            else throw new Failure("missing parameter for " + m.getName());
        }
        return out;
    }

    public static void deploy(Address addr, String cls, Address from, List<Object> args) {
        run(addr, from, BigInteger.ZERO, false, f -> {
            try {
                Class<?> c = new Loader(appPath, Rt.class.getClassLoader()).loadClass(cls);
                owners.put(addr, from);
                Constructor<?> k = c.getConstructors()[0];
                contracts.put(addr, k.newInstance(bind(k, args)));
                return null;
            } catch (InvocationTargetException e) {
                throw sneak(e.getCause());
            } catch (ReflectiveOperationException e) {
                throw new Failure("cannot deploy " + cls, e);
            }
        });
    }

    static <T> T run(Address addr, Address caller, BigInteger value, boolean readonly, Function<Frame, T> body) {
        boolean ro = readonly && value.signum() == 0; // nothing to undo
        var s = ro ? store : new HashMap<>(store);
        var b = ro ? balances : new HashMap<>(balances);
        var c = ro ? contracts : new HashMap<>(contracts);
        int n = events.size();
        Frame f = new Frame();
        f.addr = addr; f.caller = caller; f.value = value;
        f.readonly = readonly || !frames.isEmpty() && frames.peek().readonly;
        f.origin = frames.isEmpty() ? caller : frames.peek().origin;
        if (frames.size() > 200) throw new Failure("too deep");
        frames.push(f);
        boolean ok = false;
        try {
            if (value.signum() > 0) move(caller, addr, value);
            T r = body.apply(f);
            ok = true;
            return r;
        } catch (StackOverflowError e) {
            throw new Failure("stack overflow");
        } finally {
            frames.pop();
            if (!ok) {
                store = s; balances = b; contracts = c;
                while (events.size() > n) events.remove(events.size() - 1);
            }
        }
    }

    static void move(Address from, Address to, BigInteger v) {
        BigInteger b = balances.getOrDefault(from, BigInteger.ZERO);
        if (b.compareTo(v) < 0) throw new Failure("out of balance");
        balances.put(from, b.subtract(v));
        balances.put(to, balances.getOrDefault(to, BigInteger.ZERO).add(v));
    }

    static Method find(Object o, String name) {
        Method r = null;
        for (Method m : o.getClass().getMethods()) {
            if (!m.getName().equals(name) || m.isBridge() || m.isSynthetic()) continue;
            if (m.isAnnotationPresent(External.class) || name.equals("fallback") && m.isAnnotationPresent(Payable.class)) r = m;
        }
        return r;
    }

    /** Calls a method of a contract; throws UserRevertException, Reverted or any failure of the callee. */
    public static Object invoke(Address to, Address from, BigInteger value, boolean query, String method, List<Object> args) {
        if (!contracts.containsKey(to) && !mocks.containsKey(to)) {
            if (method.equals("fallback") && args.isEmpty() ) {
                return run(to, from, value, query, f -> null);
            }
            throw new Failure("no contract at " + to);
        }
        return run(to, from, value, query, f -> {
            if (mocks.containsKey(to)) return ((Handler) mocks.get(to)).call(f, method, args);
            Object o = contracts.get(to);
            Method m = find(o, method);
            if (m == null) throw new Failure("no method " + method);
            External ext = m.getAnnotation(External.class);
            boolean ro = ext != null && ext.readonly();
            if (query && !ro) throw new Failure("not a readonly method " + method);
            if (value.signum() > 0 && !m.isAnnotationPresent(Payable.class)) throw new Failure("not payable " + method);
            f.readonly = f.readonly || ro;
            try {
                return toWire(m.invoke(o, bind(m, args)));
            } catch (InvocationTargetException e) {
                throw sneak(e.getCause());
            } catch (IllegalAccessException e) {
                throw new Failure("no access", e);
            }
        });
    }

    /** Context.call */
    public static <T> T call(Class<T> c, BigInteger value, Address to, String method, Object... args) {
        if (to == null || method == null) throw new NullPointerException();
        if (value == null) value = BigInteger.ZERO;
        if (value.signum() < 0) throw new IllegalArgumentException("negative value");
        List<Object> w = new ArrayList<>();
        for (Object a : args == null ? new Object[]{null} : args) w.add(toWire(a));
        Object r;
        try {
            r = invoke(to, cur().addr, value, false, method, w);
        } catch (Reverted e) {
            throw new UserRevertedException(e.code, e.getMessage());
        } catch (UserRevertException e) {
            throw new UserRevertedException(e.getCode(), e.getMessage());
        } catch (RuntimeException | StackOverflowError e) {
            if (verbose) e.printStackTrace();
            throw new RevertedException(String.valueOf(e.getMessage()));
        }
        if (c == null) return null;
        Object v = fromWire(r, c);
        @SuppressWarnings("unchecked") T t = (T) v;
        return t;
    }

    public static void event(String name, Object[] args, int indexed) {
        Frame f = cur();
        if (f.readonly) throw new Failure("event in a readonly call");
        Event e = new Event();
        e.addr = f.addr; e.name = name; e.indexed = indexed; e.args = new ArrayList<>();
        for (Object a : args) e.args.add(toWire(a));
        events.add(e);
    }

    // ---- storage ------------------------------------------------------------------------------------------------
    static String part(Object k) {
        byte[] b;
        if (k instanceof String) b = ((String) k).getBytes(java.nio.charset.StandardCharsets.UTF_8);
        else if (k instanceof byte[]) b = (byte[]) k;
        else { Rlp.Writer w = new Rlp.Writer(); w.write(k); b = w.toByteArray(); }
        if (k == null) throw new NullPointerException();
        return "/" + HexFormat.of().formatHex(b);
    }
    static <V> V load(String key, Class<V> c) {
        byte[] b = store.get(cur().addr + key);
        return b == null ? null : new Rlp.Reader(b).read(c);
    }
    static void save(String key, Object v) {
        if (cur().readonly) throw new Failure("write in a readonly call");
        if (v == null) { store.remove(cur().addr + key); return; }
        Rlp.Writer w = new Rlp.Writer();
        w.write(v);
        store.put(cur().addr + key, w.toByteArray());
    }

    public static class DB<K, V> implements VarDB<V>, DictDB<K, V>, ArrayDB<V>, BranchDB<K, Object> {
        private final String path;
        private final Class<V> cls;
        private final boolean varOrLeaf;
        public DB(String path, Class<V> cls, boolean v) { this.path = path; this.cls = cls; this.varOrLeaf = v; }
        public void set(V v) { save(path, v); }
        public V get() { return load(path, cls); }
        public V getOrDefault(V d) { V v = get(); return v == null ? d : v; }
        public void set(K k, V v) { save(path + part(k), v); }
        public V get(K k) { return load(path + part(k), cls); }
        public V getOrDefault(K k, V d) { V v = get(k); return v == null ? d : v; }
        public int size() { Integer n = load(path + "#", Integer.class); return n == null ? 0 : n; }
        private void check(int i) { if (i < 0 || i >= size()) throw new IllegalArgumentException("index out of range"); }
        public void add(V v) { int n = size(); save(path + "#" + n, v); save(path + "#", n + 1); }
        public void set(int i, V v) { check(i); save(path + "#" + i, v); }
        public V get(int i) { check(i); return load(path + "#" + i, cls); }
        public void removeLast() { pop(); }
        public V pop() {
            int n = size();
            if (n == 0) throw new IllegalStateException("empty");
            V v = get(n - 1);
            save(path + "#" + (n - 1), null);
            save(path + "#", n - 1);
            return v;
        }
        public V top() { int n = size(); if (n == 0) throw new IllegalStateException("empty"); return get(n - 1); }
        public Object at(K k) { return new DB<Object, V>(path + part(k), cls, varOrLeaf); }
    }
}
