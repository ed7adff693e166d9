package score;

import java.util.Arrays;

public class Address {
    public static final int LENGTH = 21;
    private final byte[] raw;

    public Address(byte[] raw) throws IllegalArgumentException {
        if (raw == null) throw new NullPointerException();
        if (raw.length != LENGTH) throw new IllegalArgumentException("invalid length of address");
        if (raw[0] != 0 && raw[0] != 1) throw new IllegalArgumentException("invalid type of address");
        this.raw = raw.clone();
    }

    public static Address fromString(String str) {
        if (str == null) throw new NullPointerException();
        if (str.length() != LENGTH * 2) throw new IllegalArgumentException("invalid address " + str);
        byte[] b = new byte[LENGTH];
        if (str.startsWith("cx")) b[0] = 1;
        else if (!str.startsWith("hx")) throw new IllegalArgumentException("invalid address " + str);
        for (int i = 1; i < LENGTH; i++) {
            int hi = Character.digit(str.charAt(2 * i), 16), lo = Character.digit(str.charAt(2 * i + 1), 16);
            if (hi < 0 || lo < 0) throw new IllegalArgumentException("invalid address " + str);
            b[i] = (byte) (hi << 4 | lo);
        }
        return new Address(b);
    }

    public boolean isContract() { return raw[0] == 1; }
    public byte[] toByteArray() { return raw.clone(); }
    @Override public int hashCode() { return Arrays.hashCode(raw); }
    @Override public boolean equals(Object o) { return o instanceof Address && Arrays.equals(raw, ((Address) o).raw); }
    @Override public String toString() {
        StringBuilder sb = new StringBuilder(raw[0] == 1 ? "cx" : "hx");
        for (int i = 1; i < LENGTH; i++) {
            sb.append(Character.forDigit(raw[i] >> 4 & 15, 16)).append(Character.forDigit(raw[i] & 15, 16));
        }
        return sb.toString();
    }
}
