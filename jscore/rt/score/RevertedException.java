package score;
public class RevertedException extends RuntimeException {
    public RevertedException() { super(); }
    public RevertedException(String message) { super(message); }
    public RevertedException(String message, Throwable cause) { super(message, cause); }
    public RevertedException(Throwable cause) { super(cause); }
}
