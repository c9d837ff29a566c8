package hapua;
import java.io.*; import java.nio.charset.StandardCharsets; import java.nio.file.*; import java.util.*;
import tlc2.overrides.*; import tlc2.value.impl.*; import util.UniqueString;
/** Executable (IEEE-754 binary64) meaning of the operators of Real64.tla. */
public final class Real64 implements ITLCOverrides {
  @Override public Class[] get(){ return new Class[]{ Real64.class }; }
  static boolean i(Value a){ return a instanceof IntValue; }
  static double d(Value a){
    if (a instanceof R64Value) return ((R64Value)a).v;
    if (a instanceof IntValue) return ((IntValue)a).val;
    throw new RuntimeException("Real64: not a number: " + a); }
  static int n(Value a){
    if (a instanceof IntValue) return ((IntValue)a).val;
    throw new RuntimeException("Real64: not an integer: " + a); }
  static Value r(double x){ return new R64Value(x); }
  static Value l(long x){ return (x>=Integer.MIN_VALUE && x<=Integer.MAX_VALUE) ? IntValue.gen((int)x) : new R64Value((double)x); }
  static Value b(boolean x){ return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static final String M="Real64";
  @TLAPlusOperator(identifier="+",module=M,warn=false) public static Value add(Value a, Value b){ return i(a)&&i(b) ? l((long)n(a)+n(b)) : r(d(a)+d(b)); }
  @TLAPlusOperator(identifier="-",module=M,warn=false) public static Value sub(Value a, Value b){ return i(a)&&i(b) ? l((long)n(a)-n(b)) : r(d(a)-d(b)); }
  @TLAPlusOperator(identifier="-.",module=M,warn=false) public static Value neg(Value a){ return i(a) ? l(-(long)n(a)) : r(-d(a)); }
  @TLAPlusOperator(identifier="*",module=M,warn=false) public static Value mul(Value a, Value b){ return i(a)&&i(b) ? l((long)n(a)*n(b)) : r(d(a)*d(b)); }
  @TLAPlusOperator(identifier="/",module=M,warn=false) public static Value div(Value a, Value b){ return r(d(a)/d(b)); }
  @TLAPlusOperator(identifier="^",module=M,warn=false) public static Value pow(Value a, Value b){ return r(Math.pow(d(a),d(b))); }
  @TLAPlusOperator(identifier="\\div",module=M,warn=false) public static Value idiv(Value a, Value b){ return l(Math.floorDiv((long)n(a),(long)n(b))); }
  @TLAPlusOperator(identifier="%",module=M,warn=false) public static Value mod(Value a, Value b){
    if (i(a)&&i(b)) return l(Math.floorMod((long)n(a),(long)n(b)));
    double y=d(b), x=d(a)%y; if (x!=0 && (x<0)!=(y<0)) x+=y; return r(x); }
  @TLAPlusOperator(identifier="<",module=M,warn=false) public static Value lt(Value a, Value b){ return b(d(a)<d(b)); }
  @TLAPlusOperator(identifier=">",module=M,warn=false) public static Value gt(Value a, Value b){ return b(d(a)>d(b)); }
  @TLAPlusOperator(identifier="\\leq",module=M,warn=false) public static Value le(Value a, Value b){ return b(d(a)<=d(b)); }
  @TLAPlusOperator(identifier="\\geq",module=M,warn=false) public static Value ge(Value a, Value b){ return b(d(a)>=d(b)); }
  @TLAPlusOperator(identifier="..",module=M,warn=false) public static Value upto(Value a, Value b){ return new IntervalValue(n(a),n(b)); }
  @TLAPlusOperator(identifier="REq",module=M,warn=false) public static Value req(Value a, Value b){ return b(d(a)==d(b)); }
  @TLAPlusOperator(identifier="IsNaN",module=M,warn=false) public static Value isnan(Value a){ return b(Double.isNaN(d(a))); }
  @TLAPlusOperator(identifier="IsFin",module=M,warn=false) public static Value isfin(Value a){ double x=d(a); return b(!Double.isNaN(x)&&!Double.isInfinite(x)); }
  @TLAPlusOperator(identifier="NaN",module=M,warn=false) public static Value nan(){ return r(Double.NaN); }
  @TLAPlusOperator(identifier="Pi",module=M,warn=false) public static Value pi(){ return r(Math.PI); }
  @TLAPlusOperator(identifier="RMax",module=M,warn=false) public static Value max(Value a, Value b){ return d(a)>=d(b) ? a : b; }
  @TLAPlusOperator(identifier="RMin",module=M,warn=false) public static Value min(Value a, Value b){ return d(a)<=d(b) ? a : b; }
  @TLAPlusOperator(identifier="RAbs",module=M,warn=false) public static Value abs(Value a){ return r(Math.abs(d(a))); }
  @TLAPlusOperator(identifier="Sqrt",module=M,warn=false) public static Value sqrt(Value a){ return r(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier="Sin",module=M,warn=false) public static Value sin(Value a){ return r(Math.sin(d(a))); }
  @TLAPlusOperator(identifier="Cos",module=M,warn=false) public static Value cos(Value a){ return r(Math.cos(d(a))); }
  @TLAPlusOperator(identifier="Tanh",module=M,warn=false) public static Value tanh(Value a){ return r(Math.tanh(d(a))); }
  @TLAPlusOperator(identifier="Asin",module=M,warn=false) public static Value asin(Value a){ return r(Math.asin(d(a))); }
  @TLAPlusOperator(identifier="Atan",module=M,warn=false) public static Value atan(Value a){ return r(Math.atan(d(a))); }
  @TLAPlusOperator(identifier="Atan2",module=M,warn=false) public static Value atan2(Value a, Value b){ return r(Math.atan2(d(a),d(b))); }
  @TLAPlusOperator(identifier="Exp",module=M,warn=false) public static Value exp(Value a){ return r(Math.exp(d(a))); }
  @TLAPlusOperator(identifier="Ln",module=M,warn=false) public static Value ln(Value a){ return r(Math.log(d(a))); }
  @TLAPlusOperator(identifier="Floor",module=M,warn=false) public static Value floor(Value a){ return l((long)Math.floor(d(a))); }
  @TLAPlusOperator(identifier="ToF32",module=M,warn=false) public static Value f32(Value a){ return r((double)(float)d(a)); }
  @TLAPlusOperator(identifier="Near",module=M,warn=false) public static Value near(Value a, Value b, Value rt, Value at){
    double x=d(a), y=d(b); if (Double.isNaN(x)||Double.isNaN(y)) return b(Double.isNaN(x)&&Double.isNaN(y));
    if (x==y) return b(true);
    return b(Math.abs(x-y) <= d(at)+d(rt)*Math.max(Math.abs(x),Math.abs(y))); }
  static Value[] vals(Value f){
    if (f instanceof TupleValue) return ((TupleValue)f).elems;
    Value g=f.toFcnRcd(); if (g==null) throw new RuntimeException("Real64: not a function: "+f);
    return ((FcnRcdValue)g).values; }
  @TLAPlusOperator(identifier="Sum",module=M,warn=false) public static Value sum(Value f){
    Value s=IntValue.ValZero; for (Value v: vals(f)) s=add(s,v); return s; }
  @TLAPlusOperator(identifier="MaxOf",module=M,warn=false) public static Value maxof(Value f){
    double m=Double.NEGATIVE_INFINITY; for (Value v: vals(f)) m=Math.max(m,d(v)); return r(m); }
  @TLAPlusOperator(identifier="MinOf",module=M,warn=false) public static Value minof(Value f){
    double m=Double.POSITIVE_INFINITY; for (Value v: vals(f)) m=Math.min(m,d(v)); return r(m); }
  @TLAPlusOperator(identifier="Size",module=M,warn=false) public static Value size(Value f){ return IntValue.gen(vals(f).length); }
  /** Eager copy of a function with domain 0..n-1 (or any interval / finite domain). */
  @TLAPlusOperator(identifier="V",module=M,warn=false) public static Value eager(Value f){
    if (f instanceof TupleValue) return f;
    Value g=f.toFcnRcd(); return g==null ? f : g; }
  /** The elements of a finite set of integers, ascending, as a function with domain 0..n-1. */
  @TLAPlusOperator(identifier="Asc",module=M,warn=false) public static Value asc(Value s){
    SetEnumValue e=(SetEnumValue)s.toSetEnum(); e=(SetEnumValue)e.normalize();
    int k=e.size(); if (k==0) return TupleValue.EmptyTuple;
    int[] a=new int[k]; for(int j=0;j<k;j++) a[j]=n(e.elems.elementAt(j));
    Arrays.sort(a); Value[] v=new Value[k]; for(int j=0;j<k;j++) v[j]=IntValue.gen(a[j]);
    return new FcnRcdValue(new IntervalValue(0,k-1),v); }
  @TLAPlusOperator(identifier="Rev",module=M,warn=false) public static Value rev(Value f){
    Value[] a=vals(f); int k=a.length; if(k==0) return TupleValue.EmptyTuple; Value[] v=new Value[k];
    for(int j=0;j<k;j++) v[j]=a[k-1-j]; return new FcnRcdValue(new IntervalValue(0,k-1),v); }
  /** Concatenation of two zero-based functions. */
  @TLAPlusOperator(identifier="Cat",module=M,warn=false) public static Value cat(Value f, Value g){
    Value[] a=vals(f), b2=vals(g); int k=a.length+b2.length; if(k==0) return TupleValue.EmptyTuple;
    Value[] v=new Value[k]; System.arraycopy(a,0,v,0,a.length); System.arraycopy(b2,0,v,a.length,b2.length);
    return new FcnRcdValue(new IntervalValue(0,k-1),v); }
  /** f[i..j] (inclusive) as a zero-based function. */
  @TLAPlusOperator(identifier="Slice",module=M,warn=false) public static Value slice(Value f, Value from, Value to){
    Value[] a=vals(f); int x=n(from), y=n(to); if(y<x) return TupleValue.EmptyTuple;
    return new FcnRcdValue(new IntervalValue(0,y-x),Arrays.copyOfRange(a,x,y+1)); }
  @TLAPlusOperator(identifier="VNear",module=M,warn=false) public static Value vnear(Value f, Value g, Value rt, Value at){
    Value[] a=vals(f), c=vals(g); if(a.length!=c.length) return b(false);
    for(int j=0;j<a.length;j++) if(near(a[j],c[j],rt,at)!=BoolValue.ValTrue) return b(false);
    return b(true); }
  @TLAPlusOperator(identifier="ToJ",module=M,warn=false) public static Value toj(Value x){ StringBuilder sb=new StringBuilder(); js(x,sb); return new StringValue(sb.toString()); }
  static void js(Value x, StringBuilder sb){
    if (x instanceof R64Value){ double q=((R64Value)x).v; sb.append(Double.isNaN(q)?"NaN":Double.isInfinite(q)?(q>0?"Infinity":"-Infinity"):Double.toString(q)); return; }
    if (x instanceof IntValue || x instanceof BoolValue){ sb.append(x.toString().toLowerCase()); return; }
    if (x instanceof StringValue){ sb.append('"').append(((StringValue)x).val.toString().replace("\\","\\\\").replace("\"","\\\"")).append('"'); return; }
    if (x instanceof RecordValue){ RecordValue r2=(RecordValue)x; sb.append('{'); for(int j=0;j<r2.names.length;j++){ if(j>0) sb.append(','); sb.append('"').append(r2.names[j].toString()).append("\":"); js(r2.values[j],sb);} sb.append('}'); return; }
    if (x instanceof FcnRcdValue || x instanceof FcnLambdaValue){ RecordValue r2=(RecordValue)x.toRcd(); if(r2!=null && r2.names.length>0){ js(r2,sb); return; } }
    if (x instanceof TupleValue || x instanceof FcnRcdValue || x instanceof FcnLambdaValue){ Value[] a=vals(x); sb.append('['); for(int j=0;j<a.length;j++){ if(j>0) sb.append(','); js(a[j],sb);} sb.append(']'); return; }
    Value s=x.toSetEnum(); if (s!=null){ SetEnumValue e=(SetEnumValue)s.normalize(); sb.append('['); for(int j=0;j<e.size();j++){ if(j>0) sb.append(','); js(e.elems.elementAt(j),sb);} sb.append(']'); return; }
    sb.append('"').append(x.toString().replace("\"","'")).append('"'); }
  /** Print one line "@@TAG json" and return TRUE. */
  @TLAPlusOperator(identifier="Say",module=M,warn=false) public static Value say(Value tag, Value v){
    StringBuilder sb=new StringBuilder("@@"); sb.append(((StringValue)tag).val.toString()).append(' '); js(v,sb);
    synchronized(System.out){ System.out.println(sb); } return BoolValue.ValTrue; }
  @TLAPlusOperator(identifier="RLoad",module=M,warn=false) public static Value load(Value f) throws IOException {
    String s=new String(Files.readAllBytes(Paths.get(((StringValue)f).val.toString())),StandardCharsets.UTF_8);
    return new P(s).top(); }
  static final class P { final String s; int p=0; P(String s){this.s=s;}
    Value top(){ Value v=val(); return v; }
    void ws(){ while(p<s.length() && s.charAt(p)<=' ') p++; }
    Value val(){ ws(); char c=s.charAt(p);
      if (c=='{') return obj(); if (c=='[') return arr(); if (c=='"') return new StringValue(str());
      if (s.startsWith("true",p)){p+=4;return BoolValue.ValTrue;} if (s.startsWith("false",p)){p+=5;return BoolValue.ValFalse;}
      if (s.startsWith("null",p)){p+=4;return new StringValue("null");}
      int q=p; while(q<s.length() && ",]} \n\r\t".indexOf(s.charAt(q))<0) q++;
      String t=s.substring(p,q); p=q;
      boolean isInt=true; for(int k=0;k<t.length();k++){ char e=t.charAt(k); if(!(Character.isDigit(e)||(k==0&&e=='-'))) isInt=false; }
      return isInt ? l(Long.parseLong(t)) : r(Double.parseDouble(t)); }
    String str(){ StringBuilder b=new StringBuilder(); p++; while(s.charAt(p)!='"'){ char c=s.charAt(p++); if(c=='\\'){ char e=s.charAt(p++); switch(e){ case 'n': b.append('\n'); break; case 't': b.append('\t'); break; case 'r': b.append('\r'); break; case 'b': case 'f': b.append(' '); break; case 'u': b.append((char)Integer.parseInt(s.substring(p,p+4),16)); p+=4; break; default: b.append(e);} } else b.append(c);} p++; return b.toString(); }
    Value obj(){ p++; ArrayList<UniqueString> k=new ArrayList<>(); ArrayList<Value> v=new ArrayList<>(); ws();
      if(s.charAt(p)=='}'){p++; return new RecordValue(new UniqueString[0],new Value[0],true);}
      while(true){ ws(); k.add(UniqueString.of(str())); ws(); p++; v.add(val()); ws(); if(s.charAt(p++)=='}') break; }
      Value x=new RecordValue(k.toArray(new UniqueString[0]),v.toArray(new Value[0]),false); x.deepNormalize(); return x; }
    Value arr(){ p++; ArrayList<Value> v=new ArrayList<>(); boolean recs=false; ws();
      if(s.charAt(p)==']'){p++; return TupleValue.EmptyTuple;}
      while(true){ Value x=val(); if(x instanceof RecordValue) recs=true; v.add(x); ws(); if(s.charAt(p++)==']') break; }
      Value[] a=v.toArray(new Value[0]);
      return recs ? new TupleValue(a) : new FcnRcdValue(new IntervalValue(0,a.length-1),a); } }
}
