package vnum;

import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.tool.EvalControl;
import tlc2.value.impl.IntervalValue;
import tlc2.value.impl.OpValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Primitive arithmetic for the TLA+ module Num. Only scalars: every formula of
 * the specification is written in TLA+ on top of these. An integer is a TLC
 * integer; a real is an IEEE double held as <<high word, low word>>; a string is
 * a decimal literal, read as a double.
 */
public final class Num {
    private static final ConcurrentHashMap<String, Double> LIT = new ConcurrentHashMap<>();

    static double lit(String s) {
        Double d = LIT.get(s);
        if (d == null) {
            switch (s) {
            case "nan": d = Double.NaN; break;
            case "inf": d = Double.POSITIVE_INFINITY; break;
            case "-inf": d = Double.NEGATIVE_INFINITY; break;
            default: d = Double.valueOf(s);
            }
            if (LIT.size() < 4000000) LIT.put(s, d);
        }
        return d;
    }

    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof TupleValue) {
            final Value[] e = ((TupleValue) v).elems;
            if (e.length == 2 && e[0] instanceof IntValue && e[1] instanceof IntValue)
                return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
        }
        if (v instanceof StringValue) return lit(((StringValue) v).val.toString());
        Value t = v.toTuple() instanceof Value ? (Value) v.toTuple() : null;
        if (t instanceof TupleValue && t != v) return d(t);
        throw new RuntimeException("Num: not a number: " + v);
    }

    static Value r(double x) {
        final long b = Double.doubleToRawLongBits(x == 0.0 ? 0.0 : x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }

    static boolean ii(Value a, Value b) { return a instanceof IntValue && b instanceof IntValue; }
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "+", module = "Num", warn = false)
    public static Value add(Value a, Value b) {
        if (ii(a, b)) return IntValue.gen(Math.addExact(((IntValue) a).val, ((IntValue) b).val));
        return r(d(a) + d(b));
    }
    @TLAPlusOperator(identifier = "-", module = "Num", warn = false)
    public static Value sub(Value a, Value b) {
        if (ii(a, b)) return IntValue.gen(Math.subtractExact(((IntValue) a).val, ((IntValue) b).val));
        return r(d(a) - d(b));
    }
    @TLAPlusOperator(identifier = "*", module = "Num", warn = false)
    public static Value mul(Value a, Value b) {
        if (ii(a, b)) return IntValue.gen(Math.multiplyExact(((IntValue) a).val, ((IntValue) b).val));
        return r(d(a) * d(b));
    }
    @TLAPlusOperator(identifier = "/", module = "Num", warn = false)
    public static Value div(Value a, Value b) { return r(d(a) / d(b)); }
    @TLAPlusOperator(identifier = "-.", module = "Num", warn = false)
    public static Value neg(Value a) {
        if (a instanceof IntValue) return IntValue.gen(Math.negateExact(((IntValue) a).val));
        return r(-d(a));
    }
    @TLAPlusOperator(identifier = "^", module = "Num", warn = false)
    public static Value pow(Value a, Value b) {
        if (ii(a, b) && ((IntValue) b).val >= 0) {
            int x = 1;
            for (int i = 0; i < ((IntValue) b).val; i++) x = Math.multiplyExact(x, ((IntValue) a).val);
            return IntValue.gen(x);
        }
        double y = d(b);
        if (y == 2.0) { double x = d(a); return r(x * x); }
        return r(Math.pow(d(a), y));
    }
    @TLAPlusOperator(identifier = "<", module = "Num", warn = false)
    public static Value lt(Value a, Value b) { return ii(a, b) ? b(((IntValue) a).val < ((IntValue) b).val) : b(d(a) < d(b)); }
    @TLAPlusOperator(identifier = ">", module = "Num", warn = false)
    public static Value gt(Value a, Value b) { return lt(b, a); }
    @TLAPlusOperator(identifier = "\\leq", module = "Num", warn = false)
    public static Value le(Value a, Value b) { return ii(a, b) ? b(((IntValue) a).val <= ((IntValue) b).val) : b(d(a) <= d(b)); }
    @TLAPlusOperator(identifier = "\\geq", module = "Num", warn = false)
    public static Value ge(Value a, Value b) { return le(b, a); }
    @TLAPlusOperator(identifier = "..", module = "Num", warn = false)
    public static Value range(Value a, Value b) { return new IntervalValue(((IntValue) a).val, ((IntValue) b).val); }
    @TLAPlusOperator(identifier = "\\div", module = "Num", warn = false)
    public static Value idiv(Value a, Value b) { return IntValue.gen(Math.floorDiv(((IntValue) a).val, ((IntValue) b).val)); }
    @TLAPlusOperator(identifier = "%", module = "Num", warn = false)
    public static Value mod(Value a, Value b) { return IntValue.gen(Math.floorMod(((IntValue) a).val, ((IntValue) b).val)); }

    @TLAPlusOperator(identifier = "Real", module = "Num", warn = false)
    public static Value real(Value a) { return r(d(a)); }
    @TLAPlusOperator(identifier = "NumEq", module = "Num", warn = false)
    public static Value eq(Value a, Value b) { return b(d(a) == d(b)); }
    @TLAPlusOperator(identifier = "SameNum", module = "Num", warn = false)
    public static Value same(Value a, Value b) { double x = d(a), y = d(b); return b(x == y || (x != x && y != y)); }
    @TLAPlusOperator(identifier = "Close", module = "Num", warn = false)
    public static Value close(Value a, Value b, Value rtol, Value atol) {
        double x = d(a), y = d(b);
        if (x == y) return BoolValue.ValTrue;
        if (x != x || y != y) return b(x != x && y != y);
        if (Double.isInfinite(x) || Double.isInfinite(y)) return BoolValue.ValFalse;
        return b(Math.abs(x - y) <= d(atol) + d(rtol) * Math.max(Math.abs(x), Math.abs(y)));
    }
    @TLAPlusOperator(identifier = "IsNaN", module = "Num", warn = false)
    public static Value isNaN(Value a) { return b(Double.isNaN(d(a))); }
    @TLAPlusOperator(identifier = "IsFinite", module = "Num", warn = false)
    public static Value isFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    @TLAPlusOperator(identifier = "Exp", module = "Num", warn = false)
    public static Value exp(Value a) { return r(Math.exp(d(a))); }
    @TLAPlusOperator(identifier = "Ln", module = "Num", warn = false)
    public static Value ln(Value a) { return r(Math.log(d(a))); }
    @TLAPlusOperator(identifier = "Log10", module = "Num", warn = false)
    public static Value log10(Value a) { return r(Math.log10(d(a))); }
    @TLAPlusOperator(identifier = "Sqrt", module = "Num", warn = false)
    public static Value sqrt(Value a) { return r(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "Sin", module = "Num", warn = false)
    public static Value sin(Value a) { return r(Math.sin(d(a))); }
    @TLAPlusOperator(identifier = "Cos", module = "Num", warn = false)
    public static Value cos(Value a) { return r(Math.cos(d(a))); }
    @TLAPlusOperator(identifier = "Tan", module = "Num", warn = false)
    public static Value tan(Value a) { return r(Math.tan(d(a))); }
    @TLAPlusOperator(identifier = "ATan", module = "Num", warn = false)
    public static Value atan(Value a) { return r(Math.atan(d(a))); }
    @TLAPlusOperator(identifier = "ASin", module = "Num", warn = false)
    public static Value asin(Value a) { return r(Math.asin(d(a))); }
    @TLAPlusOperator(identifier = "Tanh", module = "Num", warn = false)
    public static Value tanh(Value a) { return r(Math.tanh(d(a))); }
    @TLAPlusOperator(identifier = "Abs", module = "Num", warn = false)
    public static Value abs(Value a) {
        return a instanceof IntValue ? IntValue.gen(Math.abs(((IntValue) a).val)) : r(Math.abs(d(a)));
    }
    @TLAPlusOperator(identifier = "Floor", module = "Num", warn = false)
    public static Value floor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "NumStr", module = "Num", warn = false)
    public static Value str(Value a) { return new StringValue(Double.toString(d(a))); }
    @TLAPlusOperator(identifier = "Sum", module = "Num", warn = false)
    public static Value sum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("Num!Sum: not a sequence: " + s);
        double x = 0, c = 0;
        for (Value v : t.elems) { double y = d(v) - c, z = x + y; c = (z - x) - y; x = z; if (Double.isNaN(c) || Double.isInfinite(z)) c = 0; }
        return r(x);
    }

    @TLAPlusOperator(identifier = "ATan2", module = "Num", warn = false)
    public static Value atan2(Value y, Value x) { return r(Math.atan2(d(y), d(x))); }

    static Value force(Value v) {
        if (v instanceof tlc2.value.impl.FcnLambdaValue) {
            Value t = (Value) v.toTuple();
            if (t == null) t = (Value) v.toFcnRcd();
            if (t != null) return t;
        }
        if (v instanceof tlc2.value.impl.LazyValue) throw new RuntimeException("Num: lazy value");
        return v;
    }
    static int n(Value v) { return ((IntValue) v).val; }

    @TLAPlusOperator(identifier = "Vec", module = "Num", warn = false)
    public static Value vec(Value n, OpValue op) {
        final Value[] out = new Value[Math.max(0, n(n))];
        for (int i = 0; i < out.length; i++) out[i] = force(op.eval(new Value[] { IntValue.gen(i + 1) }, EvalControl.Clear));
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "Scan", module = "Num", warn = false)
    public static Value scan(Value n, Value base, OpValue op) {
        final Value[] out = new Value[Math.max(0, n(n))];
        Value acc = base;
        for (int i = 0; i < out.length; i++) out[i] = acc = force(op.eval(new Value[] { acc, IntValue.gen(i + 1) }, EvalControl.Clear));
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "Fold", module = "Num", warn = false)
    public static Value fold(Value n, Value base, OpValue op) {
        Value acc = base;
        for (int i = 1; i <= n(n); i++) acc = force(op.eval(new Value[] { acc, IntValue.gen(i) }, EvalControl.Clear));
        return acc;
    }
    @TLAPlusOperator(identifier = "SumN", module = "Num", warn = false)
    public static Value sumN(Value n, OpValue op) {
        double x = 0;
        for (int i = 1; i <= n(n); i++) x += d(op.eval(new Value[] { IntValue.gen(i) }, EvalControl.Clear));
        return r(x);
    }
    /** 0, or the first index at which two sequences of equal length are not close. */
    @TLAPlusOperator(identifier = "FirstFar", module = "Num", warn = false)
    public static Value firstFar(Value a, Value b, Value rtol, Value atol) {
        TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
        if (x == null || y == null || x.elems.length != y.elems.length) return IntValue.gen(-1);
        for (int i = 0; i < x.elems.length; i++)
            if (close(x.elems[i], y.elems[i], rtol, atol) != BoolValue.ValTrue) return IntValue.gen(i + 1);
        return IntValue.gen(0);
    }
}
