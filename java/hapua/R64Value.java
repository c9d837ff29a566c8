package hapua;
import tlc2.value.*; import tlc2.value.impl.*; import util.*; import tlc2.util.FP64;
public final class R64Value extends Value {
  public final double v;
  public R64Value(double v){ this.v = v; }
  @Override public byte getKind(){ return REALVALUE; }
  @Override public int compareTo(Object o){ 
    if (o instanceof R64Value) return Double.compare(v, ((R64Value)o).v);
    if (o instanceof IntValue) return Double.compare(v, ((IntValue)o).val);
    return 1; }
  @Override public boolean equals(Object o){
    if (o instanceof R64Value) { double w=((R64Value)o).v; return v==w || (v!=v && w!=w); }
    if (o instanceof IntValue) return v==((IntValue)o).val;
    return false; }
  @Override public boolean member(Value x){ throw new RuntimeException("real is not a set"); }
  @Override public boolean isFinite(){ return true; }
  @Override public Value takeExcept(ValueExcept e){ if (e.idx < e.path.length) throw new RuntimeException("EXCEPT on real"); return e.value; }
  @Override public Value takeExcept(ValueExcept[] e){ throw new RuntimeException("EXCEPT on real"); }
  @Override public int size(){ throw new RuntimeException("size of real"); }
  @Override public boolean isNormalized(){ return true; }
  @Override public Value normalize(){ return this; }
  @Override public boolean isDefined(){ return true; }
  @Override public IValue deepCopy(){ return this; }
  @Override public long fingerPrint(long fp){ return FP64.Extend(FP64.Extend(fp, REALVALUE), Double.doubleToLongBits(v)); }
  @Override public IValue permute(IMVPerm p){ return this; }
  @Override public boolean mutates(){ return false; }
  @Override public StringBuffer toString(StringBuffer sb,int off,boolean sw){ return sb.append(Double.toString(v)); }
}
