package score;
public interface BranchDB<K, V> {
    V at(K key);
}
