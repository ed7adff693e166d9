package com.iconloop.score.token.irc31;
import score.Address;
import java.math.BigInteger;
/** The multi token standard IRC31, as of javaee-tokens, which is not installed. */
public interface IRC31 {
    BigInteger balanceOf(Address _owner, BigInteger _id);
    BigInteger[] balanceOfBatch(Address[] _owners, BigInteger[] _ids);
    String tokenURI(BigInteger _id);
    void transferFrom(Address _from, Address _to, BigInteger _id, BigInteger _value, byte[] _data);
    void transferFromBatch(Address _from, Address _to, BigInteger[] _ids, BigInteger[] _values, byte[] _data);
    void setApprovalForAll(Address _operator, boolean _approved);
    boolean isApprovedForAll(Address _owner, Address _operator);
}
