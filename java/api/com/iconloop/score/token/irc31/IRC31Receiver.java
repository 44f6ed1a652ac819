package com.iconloop.score.token.irc31;

import java.math.BigInteger;
import score.Address;
import score.annotation.External;

/** Stand-in of the token library's interface. */
public interface IRC31Receiver {
    @External
    void onIRC31Received(Address _operator, Address _from, BigInteger _id, BigInteger _value, byte[] _data);

    @External
    void onIRC31BatchReceived(Address _operator, Address _from, BigInteger[] _ids, BigInteger[] _values, byte[] _data);
}
