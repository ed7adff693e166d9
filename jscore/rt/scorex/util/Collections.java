package scorex.util;
import java.util.List;
public class Collections {
    public static <E> List<E> emptyList() { return java.util.Collections.emptyList(); }
}
