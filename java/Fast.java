// Evaluates the operator of spec/Fast.tla for TLC: a CRC with any polynomial, bit by bit.
import tlc2.value.impl.*;

public class Fast {
    public static Value CrcFast(Value data, Value n, Value poly, Value init, Value xor, Value refin, Value refout) {
        Value[] d = ((TupleValue) data.toTuple()).elems;
        int w = 8 * ((TupleValue) poly.toTuple()).elems.length;
        long mask = (1L << w) - 1, top = 1L << (w - 1), p = Flt.word(poly), r = Flt.word(init);
        boolean ri = ((BoolValue) refin).val, ro = ((BoolValue) refout).val;
        for (int i = 0; i < ((IntValue) n).val; i++) {
            int b = ((IntValue) d[i]).val;
            for (int j = 0; j < 8; j++) {
                long bit = (b >>> (ri ? j : 7 - j)) & 1, out = (r & top) != 0 ? 1 : 0;
                r = (r << 1) & mask;
                if (bit != out) r ^= p;
            }
        }
        if (ro) r = Long.reverse(r) >>> (64 - w);
        return Flt.tup((r ^ Flt.word(xor)) & mask, w / 8);
    }
}
