package verif;

import score.*;
import java.io.ByteArrayOutputStream;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.ArrayDeque;
import java.util.Arrays;
import java.util.Deque;

/** The "RLPn" codec: RLP with two's complement integers and F8 00 for null. */
public class Rlp {
    public static class Writer implements ByteArrayObjectWriter {
        private final Deque<ByteArrayOutputStream> st = new ArrayDeque<>();
        public Writer() { st.push(new ByteArrayOutputStream()); }
        private void header(ByteArrayOutputStream o, int base, int len) {
            if (len <= 55) { o.write(base + len); return; }
            byte[] l = BigInteger.valueOf(len).toByteArray();
            if (l[0] == 0) l = Arrays.copyOfRange(l, 1, l.length);
            o.write(base + 55 + l.length);
            o.writeBytes(l);
        }
        private void bytes(byte[] b) {
            var o = st.peek();
            if (b.length == 1 && (b[0] & 0x80) == 0) { o.write(b[0]); return; }
            header(o, 0x80, b.length);
            o.writeBytes(b);
        }
        public void write(boolean v) { bytes(new byte[]{(byte) (v ? 1 : 0)}); }
        public void write(byte v) { write((long) v); }
        public void write(short v) { write((long) v); }
        public void write(char v) { write((long) v); }
        public void write(int v) { write((long) v); }
        public void write(float v) { throw new UnsupportedOperationException(); }
        public void write(long v) { bytes(BigInteger.valueOf(v).toByteArray()); }
        public void write(double v) { throw new UnsupportedOperationException(); }
        public void write(BigInteger v) { bytes(v.toByteArray()); }
        public void write(String v) { bytes(v.getBytes(StandardCharsets.UTF_8)); }
        public void write(byte[] v) { if (v == null) throw new NullPointerException(); bytes(v); }
        public void write(Address v) { bytes(v.toByteArray()); }
        public void write(Object v) {
            if (v == null) throw new NullPointerException();
            if (v instanceof Boolean) write((boolean) v);
            else if (v instanceof Byte || v instanceof Short || v instanceof Integer || v instanceof Long) write(((Number) v).longValue());
            else if (v instanceof Character) write((char) v);
            else if (v instanceof BigInteger) write((BigInteger) v);
            else if (v instanceof String) write((String) v);
            else if (v instanceof byte[]) write((byte[]) v);
            else if (v instanceof Address) write((Address) v);
            else {
                try {
                    Method m = v.getClass().getMethod("writeObject", ObjectWriter.class, v.getClass());
                    m.setAccessible(true);
                    m.invoke(null, this, v);
                } catch (InvocationTargetException e) {
                    throw Rt.sneak(e.getCause());
                } catch (ReflectiveOperationException e) {
                    throw new IllegalArgumentException("not writable " + v.getClass(), e);
                }
            }
        }
        public void writeNullable(Object v) { if (v == null) writeNull(); else write(v); }
        public void write(Object... v) { for (Object o : v) write(o); }
        public void writeNullable(Object... v) { for (Object o : v) writeNullable(o); }
        public void writeNull() { st.peek().write(0xf8); st.peek().write(0); }
        public void beginList(int l) { st.push(new ByteArrayOutputStream()); }
        public void beginNullableList(int l) { beginList(l); }
        public void writeListOf(Object... v) { beginList(v.length); write(v); end(); }
        public void writeListOfNullable(Object... v) { beginList(v.length); writeNullable(v); end(); }
        public void beginMap(int l) { beginList(l); }
        public void beginNullableMap(int l) { beginList(l); }
        public void end() {
            if (st.size() < 2) throw new IllegalStateException();
            byte[] b = st.pop().toByteArray();
            header(st.peek(), 0xc0, b.length);
            st.peek().writeBytes(b);
        }
        public byte[] toByteArray() {
            if (st.size() != 1) throw new IllegalStateException();
            return st.peek().toByteArray();
        }
    }

    public static class Reader implements ObjectReader {
        private final byte[] b;
        private int pos;
        private final Deque<Integer> ends = new ArrayDeque<>();
        public Reader(byte[] b) { if (b == null) throw new NullPointerException(); this.b = b; ends.push(b.length); }
        private int start, len; // payload of the item read last
        private boolean list, nul;

        private void header() {
            int end = ends.peek();
            if (pos >= end) throw new IllegalStateException("no more item");
            int h = b[pos] & 0xff;
            nul = false;
            if (h < 0x80) { list = false; start = pos; len = 1; }
            else {
                list = h >= 0xc0;
                int n = h - (list ? 0xc0 : 0x80);
                start = pos + 1;
                if (n <= 55) len = n;
                else {
                    int ll = n - 55;
                    if (ll > 4 || start + ll > end) throw new IllegalStateException("bad length");
                    long l = 0;
                    for (int i = 0; i < ll; i++) l = l << 8 | b[start + i] & 0xff;
                    start += ll;
                    if (l > Integer.MAX_VALUE) throw new IllegalStateException("bad length");
                    len = (int) l;
                    nul = h == 0xf8 && len == 0;
                }
            }
            if ((long) start + len > end) throw new IllegalStateException("short input");
        }
        private byte[] bytes() {
            header();
            if (list) throw new IllegalStateException("not bytes");
            pos = start + len;
            return Arrays.copyOfRange(b, start, start + len);
        }
        private boolean takeNull() {
            header();
            if (nul) { pos = start; return true; }
            return false;
        }
        private long integer(int max) {
            byte[] v = bytes();
            if (v.length == 0) return 0;
            if (v.length > max) throw new IllegalStateException("integer too big");
            return new BigInteger(v).longValue();
        }
        public boolean readBoolean() {
            long v = integer(8);
            if (v != 0 && v != 1) throw new IllegalStateException("not boolean");
            return v == 1;
        }
        public byte readByte() { return (byte) integer(1); }
        public short readShort() { return (short) integer(2); }
        public char readChar() { return (char) integer(3); }
        public int readInt() { return (int) integer(4); }
        public float readFloat() { throw new UnsupportedOperationException(); }
        public long readLong() { return integer(8); }
        public double readDouble() { throw new UnsupportedOperationException(); }
        public BigInteger readBigInteger() {
            byte[] v = bytes();
            if (v.length > 64) throw new IllegalStateException("integer too big");
            return v.length == 0 ? BigInteger.ZERO : new BigInteger(v);
        }
        public String readString() { return new String(bytes(), StandardCharsets.UTF_8); }
        public byte[] readByteArray() { return bytes(); }
        public Address readAddress() { return new Address(bytes()); }
        @SuppressWarnings("unchecked")
        public <T> T read(Class<T> c) {
            Object r;
            if (c == Boolean.class || c == boolean.class) r = readBoolean();
            else if (c == Byte.class || c == byte.class) r = readByte();
            else if (c == Short.class || c == short.class) r = readShort();
            else if (c == Character.class || c == char.class) r = readChar();
            else if (c == Integer.class || c == int.class) r = readInt();
            else if (c == Long.class || c == long.class) r = readLong();
            else if (c == BigInteger.class) r = readBigInteger();
            else if (c == String.class) r = readString();
            else if (c == byte[].class) r = readByteArray();
            else if (c == Address.class) r = readAddress();
            else {
                try {
                    Method m = c.getMethod("readObject", ObjectReader.class);
                    m.setAccessible(true);
                    r = m.invoke(null, this);
                } catch (InvocationTargetException e) {
                    throw Rt.sneak(e.getCause());
                } catch (ReflectiveOperationException e) {
                    throw new IllegalArgumentException("not readable " + c, e);
                }
            }
            return (T) r;
        }
        public <T> T readOrDefault(Class<T> c, T def) { return hasNext() ? read(c) : def; }
        public <T> T readNullable(Class<T> c) { return takeNull() ? null : read(c); }
        public <T> T readNullableOrDefault(Class<T> c, T def) { return hasNext() ? readNullable(c) : def; }
        public void beginList() {
            header();
            if (!list || nul) throw new IllegalStateException("not a list");
            ends.push(start + len);
            pos = start;
        }
        public boolean beginNullableList() {
            if (takeNull()) return false;
            beginList();
            return true;
        }
        public void beginMap() { beginList(); }
        public boolean beginNullableMap() { return beginNullableList(); }
        public boolean hasNext() { return pos < ends.peek(); }
        public void end() {
            if (ends.size() < 2) throw new IllegalStateException();
            pos = ends.pop();
        }
        public void skip() { header(); pos = start + len; }
        public void skip(int n) { while (n-- > 0) skip(); }
    }
}
