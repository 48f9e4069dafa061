package vt;

import tlc2.value.impl.IntValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;

public final class RatObj extends UserObj {
  public final Rat r;
  public RatObj(Rat r) { this.r = r; }
  @Override
  public int compareTo(Value v) {
    if (v instanceof UserValue && ((UserValue) v).userObj instanceof RatObj)
      return r.cmp(((RatObj) ((UserValue) v).userObj).r);
    if (v instanceof IntValue) return r.cmp(Rat.of(((IntValue) v).val));
    return 1;
  }
  @Override
  public boolean member(Value v) { return false; }
  @Override
  public boolean isFinite() { return true; }
  @Override
  public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append('"').append(r.toString()).append('"');
  }
}
