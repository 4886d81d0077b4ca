import tlc2.value.impl.*;
import util.UniqueString;

/** Fast evaluation of operators of Bytes.tla. TLC uses these methods instead of the definitions of the same name;
    MC_Bytes checks that they agree with the definitions (a copy of the module under another name, BytesRef). */
public class Bytes {
  private static int[] arr(Value v) {
    TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
    int[] r = new int[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) t.elems[i]).val;
    return r;
  }
  private static Value[] elems(Value v) {
    TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
    return t.elems;
  }
  private static int at(Value[] e, int i) { return ((IntValue) e[i]).val; }
  private static int num(Value v) { return ((IntValue) v).val; }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static int low(int c) { return c >= 65 && c <= 90 ? c + 32 : c; }
  private static Value sub(Value[] e, int from, int to) { // 1-based, inclusive
    if (to < from) return new TupleValue(new Value[0]);
    Value[] r = new Value[to - from + 1];
    System.arraycopy(e, from - 1, r, 0, r.length);
    return new TupleValue(r);
  }
  private static boolean atp(Value[] s, Value[] p, int i, boolean nc) {
    if (i + p.length - 1 > s.length) return false;
    for (int k = 0; k < p.length; k++) {
      int a = at(s, i - 1 + k), b = at(p, k);
      if (nc ? low(a) != low(b) : a != b) return false;
    }
    return true;
  }
  public static Value At(Value s, Value p, Value i) { return bool(atp(elems(s), elems(p), num(i), false)); }
  public static Value AtNC(Value s, Value p, Value i) { return bool(atp(elems(s), elems(p), num(i), true)); }
  public static Value FindC(Value s, Value c, Value from) {
    Value[] e = elems(s);
    int ch = num(c);
    for (int i = num(from); i <= e.length; i++) if (at(e, i - 1) == ch) return IntValue.gen(i);
    return IntValue.gen(0);
  }
  public static Value HasC(Value s, Value c) { return bool(num(FindC(s, c, IntValue.gen(1))) != 0); }
  public static Value Find(Value s, Value p, Value from) {
    Value[] e = elems(s), q = elems(p);
    int f = num(from);
    if (q.length == 0) return IntValue.gen(f <= e.length + 1 ? f : 0);
    for (int i = f; i + q.length - 1 <= e.length; i++) if (atp(e, q, i, false)) return IntValue.gen(i);
    return IntValue.gen(0);
  }
  public static Value FindNC(Value s, Value p, Value from) {
    Value[] e = elems(s), q = elems(p);
    for (int i = num(from); i + q.length - 1 <= e.length; i++) if (atp(e, q, i, true)) return IntValue.gen(i);
    return IntValue.gen(0);
  }
  private static boolean sp(int c) { return c >= 9 && c <= 13 || c == 32; }
  public static Value Trim(Value s) {
    Value[] e = elems(s);
    int a = 1, b = e.length;
    while (a <= b && sp(at(e, a - 1))) a++;
    while (b >= a && sp(at(e, b - 1))) b--;
    return sub(e, a, b);
  }
  public static Value CStr(Value s) {
    Value[] e = elems(s);
    for (int i = 0; i < e.length; i++) if (at(e, i) == 0) return sub(e, 1, i);
    return new TupleValue(e);
  }
  public static Value Pieces(Value s, Value c) {
    Value[] e = elems(s);
    int ch = num(c);
    java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    int from = 1;
    for (int i = 1; i <= e.length; i++) if (at(e, i - 1) == ch) { out.add(sub(e, from, i - 1)); from = i + 1; }
    out.add(sub(e, from, e.length));
    return new TupleValue(out.toArray(new Value[0]));
  }
  public static Value Lower(Value s) {
    Value[] e = elems(s), r = new Value[e.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(low(at(e, i)));
    return new TupleValue(r);
  }
  public static Value CrLfLines(Value h) {
    Value[] e = elems(h);
    for (int i = 0; i < e.length; i++) {
      int c = at(e, i);
      if (c == 0) return BoolValue.ValFalse;
      if (c == 13 && (i + 1 == e.length || at(e, i + 1) != 10)) return BoolValue.ValFalse;
      if (c == 10 && (i == 0 || at(e, i - 1) != 13)) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
  public static Value EmptyLine(Value s) {
    Value[] e = elems(s);
    for (int i = 0; i < e.length; i++)
      if (at(e, i) == 10) {
        if (i + 1 < e.length && at(e, i + 1) == 10) return BoolValue.ValTrue;
        if (i + 2 < e.length && at(e, i + 1) == 13 && at(e, i + 2) == 10) return BoolValue.ValTrue;
      }
    return BoolValue.ValFalse;
  }
  public static Value Visible(Value s) {
    Value[] e = elems(s);
    for (Value v : e) { int c = ((IntValue) v).val; if (c <= 32 || c >= 127) return BoolValue.ValFalse; }
    return BoolValue.ValTrue;
  }
}
