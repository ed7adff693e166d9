package com.iconloop.score.token.irc31;
import score.*;
import score.annotation.*;
import java.math.BigInteger;
public abstract class IRC31Basic implements IRC31 {
    private final BranchDB<BigInteger, DictDB<Address, BigInteger>> balances = Context.newBranchDB("balances", BigInteger.class);
    private final BranchDB<Address, DictDB<Address, Boolean>> approvals = Context.newBranchDB("approval", Boolean.class);
    private final DictDB<BigInteger, String> uris = Context.newDictDB("token_uri", String.class);

    @External(readonly = true)
    public BigInteger balanceOf(Address _owner, BigInteger _id) { return balances.at(_id).getOrDefault(_owner, BigInteger.ZERO); }
    @External(readonly = true)
    public BigInteger[] balanceOfBatch(Address[] _owners, BigInteger[] _ids) {
        Context.require(_owners.length == _ids.length);
        BigInteger[] r = new BigInteger[_owners.length];
        for (int i = 0; i < r.length; i++) r[i] = balanceOf(_owners[i], _ids[i]);
        return r;
    }
    @External(readonly = true)
    public String tokenURI(BigInteger _id) { return uris.get(_id); }
    private void move(Address from, Address to, BigInteger id, BigInteger v) {
        Context.require(v.signum() >= 0 && v.compareTo(balanceOf(from, id)) <= 0, "Insufficient funds");
        balances.at(id).set(from, balanceOf(from, id).subtract(v));
        balances.at(id).set(to, balanceOf(to, id).add(v));
    }
    private void allowed(Address from) {
        Address c = Context.getCaller();
        Context.require(from.equals(c) || isApprovedForAll(from, c), "Need operator approval for 3rd party transfers");
    }
    @External
    public void transferFrom(Address _from, Address _to, BigInteger _id, BigInteger _value, @Optional byte[] _data) {
        allowed(_from);
        move(_from, _to, _id, _value);
        TransferSingle(Context.getCaller(), _from, _to, _id, _value);
        if (_to.isContract()) Context.call(_to, "onIRC31Received", Context.getCaller(), _from, _id, _value, _data == null ? new byte[0] : _data);
    }
    @External
    public void transferFromBatch(Address _from, Address _to, BigInteger[] _ids, BigInteger[] _values, @Optional byte[] _data) {
        Context.require(_ids.length == _values.length, "id/value pairs mismatch");
        allowed(_from);
        for (int i = 0; i < _ids.length; i++) move(_from, _to, _ids[i], _values[i]);
        TransferBatch(Context.getCaller(), _from, _to, new byte[0], new byte[0]);
        if (_to.isContract()) Context.call(_to, "onIRC31BatchReceived", Context.getCaller(), _from, _ids, _values, _data == null ? new byte[0] : _data);
    }
    @External
    public void setApprovalForAll(Address _operator, boolean _approved) { approvals.at(Context.getCaller()).set(_operator, _approved); }
    @External(readonly = true)
    public boolean isApprovedForAll(Address _owner, Address _operator) { return approvals.at(_owner).getOrDefault(_operator, false); }
    protected void _mint(Address owner, BigInteger id, BigInteger amount) {
        Context.require(amount.signum() > 0);
        balances.at(id).set(owner, balanceOf(owner, id).add(amount));
    }
    protected void _mintBatch(Address owner, BigInteger[] ids, BigInteger[] amounts) {
        for (int i = 0; i < ids.length; i++) _mint(owner, ids[i], amounts[i]);
    }
    protected void _burn(Address owner, BigInteger id, BigInteger amount) {
        BigInteger b = balanceOf(owner, id);
        Context.require(amount.signum() > 0 && amount.compareTo(b) <= 0, "Not enough funds");
        balances.at(id).set(owner, b.subtract(amount));
    }
    protected void _burnBatch(Address owner, BigInteger[] ids, BigInteger[] amounts) {
        for (int i = 0; i < ids.length; i++) _burn(owner, ids[i], amounts[i]);
    }
    protected void _setTokenURI(BigInteger id, String uri) { uris.set(id, uri); }
    public void TransferSingle(Address _operator, Address _from, Address _to, BigInteger _id, BigInteger _value) { }
    public void TransferBatch(Address _operator, Address _from, Address _to, byte[] _ids, byte[] _values) { }
    public void ApprovalForAll(Address _owner, Address _operator, boolean _approved) { }
    public void URI(BigInteger _id, String _value) { }
}
