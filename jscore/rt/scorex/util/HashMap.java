package scorex.util;
import java.util.Map;
public class HashMap<K, V> extends java.util.LinkedHashMap<K, V> {
    public HashMap() { super(); }
    public HashMap(int n) { super(n); }
    public HashMap(Map<? extends K, ? extends V> m) { super(m); }
}
