package score;
public class UserRevertedException extends RevertedException {
    private final int code;
    public UserRevertedException() { this(0); }
    public UserRevertedException(int code) { super(); this.code = code; }
    public UserRevertedException(int code, String message) { super(message); this.code = code; }
    public UserRevertedException(int code, String message, Throwable cause) { super(message, cause); this.code = code; }
    public UserRevertedException(int code, Throwable cause) { super(cause); this.code = code; }
    public int getCode() { return code; }
}
