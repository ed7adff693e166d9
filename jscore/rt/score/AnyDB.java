package score;
public interface AnyDB {}
