package verif;

import java.math.BigInteger;
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Unbounded-precision evaluation of the three OVERRIDDEN operators of Fix.tla. */
public class FixOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {FixOverrides.class};
    }

    private static TupleValue tup(Value v) {
        if (v instanceof TupleValue) return (TupleValue) v;
        Value t = v.toTuple();
        if (t == null) throw new IllegalArgumentException("Fix: not a sequence: " + v);
        return (TupleValue) t;
    }

    private static long iv(Value v) {
        return ((IntValue) v).val;
    }

    private static BigInteger prodBig(TupleValue t) {
        BigInteger r = BigInteger.ONE;
        for (Value v : t.elems) r = r.multiply(BigInteger.valueOf(iv(v)));
        return r;
    }

    private static BigInteger sumBig(TupleValue ts) {
        BigInteger s = BigInteger.ZERO;
        for (Value t : ts.elems) s = s.add(prodBig(tup(t)));
        return s;
    }

    /** Long evaluation; throws ArithmeticException on overflow. */
    private static long prodLong(TupleValue t) {
        long r = 1;
        for (Value v : t.elems) r = Math.multiplyExact(r, iv(v));
        return r;
    }

    private static long sumLong(TupleValue ts) {
        long s = 0;
        for (Value t : ts.elems) s = Math.addExact(s, prodLong(tup(t)));
        return s;
    }

    private static IntValue sat(BigInteger n) {
        if (n.bitLength() > 31 || n.abs().bitLength() > 31)
            return IntValue.gen(n.signum() > 0 ? Integer.MAX_VALUE : -Integer.MAX_VALUE);
        return IntValue.gen(n.intValue());
    }

    private static BigInteger floorDiv(BigInteger n, BigInteger d) {
        BigInteger[] qr = n.divideAndRemainder(d);
        return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }

    @Evaluation(definition = "Guard", module = "TraceBase", warn = false, silent = true)
    public static Value guard(
            final Tool tool,
            final ExprOrOpArgNode[] args,
            final Context c,
            final TLCState s0,
            final TLCState s1,
            final int control,
            final CostModel cm) {
        try {
            Value v = (Value) tool.eval(args[0], c, s0, s1, control, cm);
            v.deepNormalize();
            return v;
        } catch (RuntimeException e) {
            String m = String.valueOf(e.getMessage());
            int k = m.indexOf("Overflow");
            if (k < 0) throw e;
            UniqueString[] names = {UniqueString.of("bad"), UniqueString.of("tags")};
            Value bad = new SetEnumValue(new Value[] {new StringValue("result out of range")}, true);
            return new RecordValue(names, new Value[] {bad, new SetEnumValue(new Value[0], true)}, false);
        }
    }

    @TLAPlusOperator(identifier = "SgnSum", module = "Fix", warn = false)
    public static Value sgnSum(final Value ts) {
        TupleValue t = tup(ts);
        int s;
        try {
            s = Long.signum(sumLong(t));
        } catch (ArithmeticException e) {
            s = sumBig(t).signum();
        }
        return IntValue.gen(s);
    }

    @TLAPlusOperator(identifier = "DivSum", module = "Fix", warn = false)
    public static Value divSum(final Value ts, final Value ds) {
        try {
            long n = sumLong(tup(ts));
            long d = sumLong(tup(ds));
            if (d < 0) {
                n = Math.negateExact(n);
                d = Math.negateExact(d);
            }
            if (d != 0) {
                long q = Math.floorDiv(Math.addExact(Math.multiplyExact(n, 2L), d), Math.multiplyExact(d, 2L));
                if (q > Integer.MAX_VALUE) q = Integer.MAX_VALUE;
                if (q < -Integer.MAX_VALUE) q = -Integer.MAX_VALUE;
                return IntValue.gen((int) q);
            }
        } catch (ArithmeticException e) {
            // fall through to the unbounded evaluation
        }
        BigInteger n = sumBig(tup(ts));
        BigInteger d = sumBig(tup(ds));
        if (d.signum() < 0) {
            n = n.negate();
            d = d.negate();
        }
        if (d.signum() == 0) return IntValue.gen(n.signum() * Integer.MAX_VALUE);
        return sat(floorDiv(n.shiftLeft(1).add(d), d.shiftLeft(1)));
    }

    @TLAPlusOperator(identifier = "SqrtSum", module = "Fix", warn = false)
    public static Value sqrtSum(final Value ts) {
        try {
            long m = sumLong(tup(ts));
            if (m <= 0) return IntValue.gen(0);
            long k = (long) Math.sqrt((double) m);
            while (k > 0 && (k > 3037000499L || k * k > m)) k--;
            while (k < 3037000499L && (k + 1) * (k + 1) <= m) k++;
            return k > Integer.MAX_VALUE ? IntValue.gen(Integer.MAX_VALUE) : IntValue.gen((int) k);
        } catch (ArithmeticException e) {
            BigInteger n = sumBig(tup(ts));
            if (n.signum() <= 0) return IntValue.gen(0);
            return sat(n.sqrt());
        }
    }
}
