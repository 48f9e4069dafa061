package vt;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Java implementation of module Rational (exact arithmetic) and of the
 *  untrusted search oracles of module Oracle. */
public final class RatOverrides implements ITLCOverrides {
  @Override
  public Class[] get() { return new Class[] {RatOverrides.class}; }

  static Rat rat(Value v) {
    if (v instanceof UserValue && ((UserValue) v).userObj instanceof RatObj)
      return ((RatObj) ((UserValue) v).userObj).r;
    if (v instanceof IntValue) return Rat.of(((IntValue) v).val);
    if (v instanceof StringValue) return Rat.parse(((StringValue) v).val.toString());
    throw new RuntimeException("not a number: " + v);
  }
  static Value val(Rat r) { return new UserValue(new RatObj(r)); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static Rat[] vec(Value v) {
    Value[] s = seq(v);
    Rat[] r = new Rat[s.length];
    for (int i = 0; i < r.length; i++) r[i] = rat(s[i]);
    return r;
  }
  static Rat[][] mat(Value v) {
    Value[] s = seq(v);
    Rat[][] r = new Rat[s.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(s[i]);
    return r;
  }
  static Value vval(Rat[] r) {
    Value[] s = new Value[r.length];
    for (int i = 0; i < s.length; i++) s[i] = val(r[i]);
    return new TupleValue(s);
  }

  @TLAPlusOperator(identifier = "R", module = "Rational", warn = false)
  public static Value R(Value v) {
    if (v instanceof UserValue || v instanceof IntValue || v instanceof StringValue)
      return val(rat(v));
    Value[] s = seq(v);
    Value[] o = new Value[s.length];
    for (int i = 0; i < s.length; i++) o[i] = R(s[i]);
    return new TupleValue(o);
  }
  @TLAPlusOperator(identifier = "RQ", module = "Rational", warn = false)
  public static Value RQ(Value p, Value q) {
    return val(Rat.of(BigInteger.valueOf(((IntValue) p).val), BigInteger.valueOf(((IntValue) q).val)));
  }
  @TLAPlusOperator(identifier = "RAdd", module = "Rational", warn = false)
  public static Value RAdd(Value a, Value b) { return val(rat(a).add(rat(b))); }
  @TLAPlusOperator(identifier = "RSub", module = "Rational", warn = false)
  public static Value RSub(Value a, Value b) { return val(rat(a).sub(rat(b))); }
  @TLAPlusOperator(identifier = "RMul", module = "Rational", warn = false)
  public static Value RMul(Value a, Value b) { return val(rat(a).mul(rat(b))); }
  @TLAPlusOperator(identifier = "RDiv", module = "Rational", warn = false)
  public static Value RDiv(Value a, Value b) { return val(rat(a).div(rat(b))); }
  @TLAPlusOperator(identifier = "RLe", module = "Rational", warn = false)
  public static Value RLe(Value a, Value b) { return bool(rat(a).le(rat(b))); }
  @TLAPlusOperator(identifier = "RLt", module = "Rational", warn = false)
  public static Value RLt(Value a, Value b) { return bool(rat(a).lt(rat(b))); }
  @TLAPlusOperator(identifier = "REq", module = "Rational", warn = false)
  public static Value REq(Value a, Value b) { return bool(rat(a).eq(rat(b))); }
  @TLAPlusOperator(identifier = "RIsNum", module = "Rational", warn = false)
  public static Value RIsNum(Value a) { return bool(!rat(a).nan); }
  @TLAPlusOperator(identifier = "RPair", module = "Rational", warn = false)
  public static Value RPair(Value a) {
    Rat r = rat(a);
    return new TupleValue(new Value[] {IntValue.gen(r.num().intValueExact()), IntValue.gen(r.den().intValueExact())});
  }
  @TLAPlusOperator(identifier = "RFloorInt", module = "Rational", warn = false)
  public static Value RFloorInt(Value a) {
    Rat r = rat(a);
    BigInteger[] qr = r.num().divideAndRemainder(r.den());
    BigInteger q = qr[0];
    if (qr[1].signum() < 0) q = q.subtract(BigInteger.ONE);
    return IntValue.gen(q.intValueExact());
  }
  @TLAPlusOperator(identifier = "RShow", module = "Rational", warn = false)
  public static Value RShow(Value a) {
    if (a instanceof UserValue) return new StringValue(rat(a).toString());
    if (a instanceof TupleValue) {
      Value[] s = seq(a), o = new Value[s.length];
      for (int i = 0; i < s.length; i++) o[i] = RShow(s[i]);
      return new TupleValue(o);
    }
    return a;
  }

  @TLAPlusOperator(identifier = "RSqrt", module = "Rational", warn = false)
  public static Value RSqrt(Value a) {
    Rat r = rat(a);
    if (r.signum() == 0) return val(r);
    Rat y = Rat.of(Math.sqrt(r.toDouble()));
    for (int i = 0; i < 2; i++) y = y.add(r.div(y)).mul(Rat.of(0.5)).round(120);
    Rat e = y.mul(y).sub(r).abs();
    if (!e.mul(Rat.of(1000000000000L)).le(r)) throw new RuntimeException("RSqrt");
    return val(y);
  }

  // ---- vectors -----------------------------------------------------------
  @TLAPlusOperator(identifier = "VAdd", module = "Rational", warn = false)
  public static Value VAdd(Value a, Value b) {
    Rat[] x = vec(a), y = vec(b), z = new Rat[x.length];
    for (int i = 0; i < z.length; i++) z[i] = x[i].add(y[i]);
    return vval(z);
  }
  @TLAPlusOperator(identifier = "VSub", module = "Rational", warn = false)
  public static Value VSub(Value a, Value b) {
    Rat[] x = vec(a), y = vec(b), z = new Rat[x.length];
    for (int i = 0; i < z.length; i++) z[i] = x[i].sub(y[i]);
    return vval(z);
  }
  @TLAPlusOperator(identifier = "VScale", module = "Rational", warn = false)
  public static Value VScale(Value k, Value b) {
    Rat q = rat(k);
    Rat[] y = vec(b), z = new Rat[y.length];
    for (int i = 0; i < z.length; i++) z[i] = q.mul(y[i]);
    return vval(z);
  }
  static Rat dot(Rat[] x, Rat[] y) {
    if (x.length != y.length) throw new RuntimeException("dot: sizes " + x.length + " " + y.length);
    Rat s = Rat.ZERO;
    for (int i = 0; i < x.length; i++)
      if (x[i].signum() != 0 || x[i].nan) s = s.add(x[i].mul(y[i]));
    return s;
  }
  @TLAPlusOperator(identifier = "VDot", module = "Rational", warn = false)
  public static Value VDot(Value a, Value b) { return val(dot(vec(a), vec(b))); }
  @TLAPlusOperator(identifier = "MV", module = "Rational", warn = false)
  public static Value MV(Value m, Value v) {
    Value[] s = seq(m);
    Rat[] y = vec(v);
    Value[] o = new Value[s.length];
    for (int i = 0; i < o.length; i++) o[i] = val(dot(vec(s[i]), y));
    return new TupleValue(o);
  }
  @TLAPlusOperator(identifier = "VLe", module = "Rational", warn = false)
  public static Value VLe(Value a, Value b) {
    Rat[] x = vec(a), y = vec(b);
    if (x.length != y.length) return bool(false);
    for (int i = 0; i < x.length; i++)
      if (!x[i].le(y[i])) return bool(false);
    return bool(true);
  }
  @TLAPlusOperator(identifier = "VMaxAbs", module = "Rational", warn = false)
  public static Value VMaxAbs(Value a) {
    Rat m = Rat.ZERO;
    for (Rat x : vec(a)) {
      if (x.nan) return val(Rat.NAN);
      if (m.lt(x.abs())) m = x.abs();
    }
    return val(m);
  }
  @TLAPlusOperator(identifier = "VMin", module = "Rational", warn = false)
  public static Value VMin(Value a) {
    Rat m = null;
    for (Rat x : vec(a)) {
      if (x.nan) return val(Rat.NAN);
      if (m == null || x.lt(m)) m = x;
    }
    return val(m);
  }
  @TLAPlusOperator(identifier = "VSum", module = "Rational", warn = false)
  public static Value VSum(Value a) {
    Rat m = Rat.ZERO;
    for (Rat x : vec(a)) m = m.add(x);
    return val(m);
  }
  @TLAPlusOperator(identifier = "LinComb", module = "Rational", warn = false)
  public static Value LinComb(Value ks, Value vs) {
    Rat[] k = vec(ks);
    Value[] v = seq(vs);
    Rat[] z = null;
    for (int i = 0; i < k.length; i++) {
      Rat[] y = vec(v[i]);
      if (z == null) {
        z = new Rat[y.length];
        java.util.Arrays.fill(z, Rat.ZERO);
      }
      if (k[i].signum() == 0 && !k[i].nan) continue;
      for (int j = 0; j < z.length; j++) z[j] = z[j].add(k[i].mul(y[j]));
    }
    return vval(z);
  }
  @TLAPlusOperator(identifier = "FlattenSeqs", module = "Rational", warn = false)
  public static Value FlattenSeqs(Value a) {
    java.util.ArrayList<Value> o = new java.util.ArrayList<>();
    for (Value s : seq(a))
      for (Value x : seq(s)) o.add(x);
    return new TupleValue(o.toArray(new Value[0]));
  }

  // ---- oracles (their answers are checked in TLA+) ------------------------
  @TLAPlusOperator(identifier = "QPSearch", module = "Oracle", warn = false)
  public static Value QPSearch(Value H, Value g, Value A, Value b) {
    return result(Fast.qp(mat(H), vec(g), mat(A), vec(b)));
  }
  @TLAPlusOperator(identifier = "LPSearch", module = "Oracle", warn = false)
  public static Value LPSearch(Value c, Value A, Value b) {
    return result(Fast.lp(vec(c), mat(A), vec(b)));
  }
  @TLAPlusOperator(identifier = "QPExact", module = "Oracle", warn = false)
  public static Value QPExact(Value H, Value g, Value A, Value b) {
    return result(Solve.qp(mat(H), vec(g), mat(A), vec(b)));
  }
  @TLAPlusOperator(identifier = "LPExact", module = "Oracle", warn = false)
  public static Value LPExact(Value c, Value A, Value b) {
    return result(Solve.lp(vec(c), mat(A), vec(b)));
  }
  static Value result(Solve.Result r) {
    UniqueString[] names = {UniqueString.uniqueStringOf("status"), UniqueString.uniqueStringOf("x"),
                            UniqueString.uniqueStringOf("lam")};
    java.util.ArrayList<Value> lam = new java.util.ArrayList<>();
    if (r.lam != null)
      for (int i = 0; i < r.lam.length; i++)
        if (r.lam[i].signum() != 0)
          lam.add(new TupleValue(new Value[] {IntValue.gen(i + 1), val(r.lam[i])}));
    Value[] vals = {new StringValue(r.status), r.x == null ? new TupleValue(new Value[0]) : vval(r.x),
                    new TupleValue(lam.toArray(new Value[0]))};
    return new RecordValue(names, vals, false);
  }
}
