package score;
public class UserRevertException extends RuntimeException {
    public UserRevertException() { super(); }
    public UserRevertException(String message) { super(message); }
    public UserRevertException(String message, Throwable cause) { super(message, cause); }
    public UserRevertException(Throwable cause) { super(cause); }
    public int getCode() { return 0; }
}
