package com.iconloop.score.token.irc31;

import java.math.BigInteger;
import score.Address;
import score.BranchDB;
import score.Context;
import score.DictDB;
import score.annotation.EventLog;
import score.annotation.External;
import score.annotation.Optional;

/** Stand-in of the token library's base contract: balances by token and owner, with operators. */
public class IRC31Basic implements IRC31 {
    private final BranchDB<BigInteger, DictDB<Address, BigInteger>> balances = Context.newBranchDB("balances", BigInteger.class);
    private final BranchDB<Address, DictDB<Address, Boolean>> operators = Context.newBranchDB("approval", Boolean.class);
    private final DictDB<BigInteger, String> uris = Context.newDictDB("token_uri", String.class);

    @External(readonly = true)
    public BigInteger balanceOf(Address _owner, BigInteger _id) {
        return balances.at(_id).getOrDefault(_owner, BigInteger.ZERO);
    }

    @External(readonly = true)
    public BigInteger[] balanceOfBatch(Address[] _owners, BigInteger[] _ids) {
        Context.require(_owners.length == _ids.length);
        BigInteger[] r = new BigInteger[_owners.length];
        for (int i = 0; i < r.length; i++) {
            r[i] = balanceOf(_owners[i], _ids[i]);
        }
        return r;
    }

    @External(readonly = true)
    public String tokenURI(BigInteger _id) { return uris.get(_id); }

    private void move(Address from, Address to, BigInteger id, BigInteger value) {
        BigInteger b = balanceOf(from, id);
        Context.require(value.signum() >= 0 && value.compareTo(b) <= 0, "Insufficient funds");
        balances.at(id).set(from, b.subtract(value));
        balances.at(id).set(to, balanceOf(to, id).add(value));
    }

    @External
    public void transferFrom(Address _from, Address _to, BigInteger _id, BigInteger _value, @Optional byte[] _data) {
        Address c = Context.getCaller();
        Context.require(c.equals(_from) || isApprovedForAll(_from, c), "Need operator approval");
        move(_from, _to, _id, _value);
        TransferSingle(c, _from, _to, _id, _value);
        if (_to.isContract()) {
            Context.call(_to, "onIRC31Received", c, _from, _id, _value, _data == null ? new byte[0] : _data);
        }
    }

    @External
    public void transferFromBatch(Address _from, Address _to, BigInteger[] _ids, BigInteger[] _values, @Optional byte[] _data) {
        Address c = Context.getCaller();
        Context.require(_ids.length == _values.length, "id/value pairs mismatch");
        Context.require(c.equals(_from) || isApprovedForAll(_from, c), "Need operator approval");
        for (int i = 0; i < _ids.length; i++) {
            move(_from, _to, _ids[i], _values[i]);
        }
        TransferBatch(c, _from, _to, null, null);
        if (_to.isContract()) {
            Context.call(_to, "onIRC31BatchReceived", c, _from, _ids, _values, _data == null ? new byte[0] : _data);
        }
    }

    @External
    public void setApprovalForAll(Address _operator, boolean _approved) {
        operators.at(Context.getCaller()).set(_operator, _approved);
        ApprovalForAll(Context.getCaller(), _operator, _approved);
    }

    @External(readonly = true)
    public boolean isApprovedForAll(Address _owner, Address _operator) { return operators.at(_owner).getOrDefault(_operator, false); }

    protected void _mint(Address _owner, BigInteger _id, BigInteger _amount) {
        balances.at(_id).set(_owner, balanceOf(_owner, _id).add(_amount));
        if (_owner.isContract()) {
            Context.call(_owner, "onIRC31Received", Context.getCaller(), _owner, _id, _amount, new byte[0]);
        }
    }

    protected void _mintBatch(Address _owner, BigInteger[] _ids, BigInteger[] _amounts) {
        Context.require(_ids.length == _amounts.length, "id/amount pairs mismatch");
        for (int i = 0; i < _ids.length; i++) {
            balances.at(_ids[i]).set(_owner, balanceOf(_owner, _ids[i]).add(_amounts[i]));
        }
        if (_owner.isContract()) {
            Context.call(_owner, "onIRC31BatchReceived", Context.getCaller(), _owner, _ids, _amounts, new byte[0]);
        }
    }

    private void take(Address owner, BigInteger id, BigInteger amount) {
        BigInteger b = balanceOf(owner, id);
        Context.require(amount.signum() > 0 && amount.compareTo(b) <= 0, "Insufficient funds");
        balances.at(id).set(owner, b.subtract(amount));
    }

    protected void _burn(Address _owner, BigInteger _id, BigInteger _amount) { take(_owner, _id, _amount); }

    protected void _burnBatch(Address _owner, BigInteger[] _ids, BigInteger[] _amounts) {
        Context.require(_ids.length == _amounts.length, "id/amount pairs mismatch");
        for (int i = 0; i < _ids.length; i++) {
            take(_owner, _ids[i], _amounts[i]);
        }
    }

    protected void _setTokenURI(BigInteger _id, String _uri) {
        uris.set(_id, _uri);
        URI(_id, _uri);
    }

    @EventLog
    public void TransferSingle(Address _operator, Address _from, Address _to, BigInteger _id, BigInteger _value) { }

    @EventLog
    public void TransferBatch(Address _operator, Address _from, Address _to, byte[] _ids, byte[] _values) { }

    @EventLog
    public void ApprovalForAll(Address _owner, Address _operator, boolean _approved) { }

    @EventLog
    public void URI(BigInteger _id, String _value) { }
}
