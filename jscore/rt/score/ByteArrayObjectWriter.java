package score;
public interface ByteArrayObjectWriter extends ObjectWriter {
    byte[] toByteArray();
}
