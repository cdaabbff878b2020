import java.security.MessageDigest;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC module override of Sha256Fast!Digest. */
public class Sha256Fast {
    public static Value Digest(final Value v) throws Exception {
        final TupleValue t = (TupleValue) v.toTuple();
        final byte[] in = new byte[t.size()];
        for (int i = 0; i < in.length; i++) in[i] = (byte) ((IntValue) t.elems[i]).val;
        if (in.length != 64) throw new RuntimeException("Digest of a message of " + in.length + " bytes");
        final byte[] d = MessageDigest.getInstance("SHA-256").digest(in);
        final Value[] out = new Value[d.length];
        for (int i = 0; i < d.length; i++) out[i] = IntValue.gen(d[i] & 0xff);
        return new TupleValue(out);
    }
}
