package com.iconloop.score.token.irc31;

import java.math.BigInteger;
import score.Address;
import score.annotation.EventLog;
import score.annotation.External;
import score.annotation.Optional;

/** Stand-in of the token library's interface. */
public interface IRC31 {
    @External(readonly = true)
    BigInteger balanceOf(Address _owner, BigInteger _id);

    @External(readonly = true)
    BigInteger[] balanceOfBatch(Address[] _owners, BigInteger[] _ids);

    @External(readonly = true)
    String tokenURI(BigInteger _id);

    @External
    void transferFrom(Address _from, Address _to, BigInteger _id, BigInteger _value, @Optional byte[] _data);

    @External
    void transferFromBatch(Address _from, Address _to, BigInteger[] _ids, BigInteger[] _values, @Optional byte[] _data);

    @External
    void setApprovalForAll(Address _operator, boolean _approved);

    @External(readonly = true)
    boolean isApprovedForAll(Address _owner, Address _operator);

    @EventLog
    void TransferSingle(Address _operator, Address _from, Address _to, BigInteger _id, BigInteger _value);

    @EventLog
    void TransferBatch(Address _operator, Address _from, Address _to, byte[] _ids, byte[] _values);

    @EventLog
    void ApprovalForAll(Address _owner, Address _operator, boolean _approved);

    @EventLog
    void URI(BigInteger _id, String _value);
}
