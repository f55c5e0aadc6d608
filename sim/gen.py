#!/usr/bin/env python3
# The committed src/corpus.rs: python3 gen.py 7 45 src/corpus.rs
"""Generates src/corpus.rs: the Rust types under test (with the derives), their descriptions for the
reference model, and the conversion between them. usage: gen.py SEED NRANDOM OUT
(src/corpus.rs: gen.py 7 45 src/corpus.rs)"""
import random, sys
SEED=int(sys.argv[1]); NR=int(sys.argv[2]); OUT=sys.argv[3]
SC={"String":"Str","bool":"Bool","i8":"I8","u8":"U8","i16":"I16","u16":"U16","i32":"I32","u32":"U32","i64":"I64","u64":"U64","f32":"F32","f64":"F64"}
types=[]; index={}
def F(name,ty,**k):
    d=dict(name=name,ty=ty,rename=None,prefix=None,role="elem",cdata=False,default=None,skip=False,skip_if=None,rust=None); d.update(k); return d
def add(t):
    assert t["name"] not in index,t["name"]
    t.setdefault("rename",None);t.setdefault("prefix",None);t.setdefault("ns",{});t.setdefault("dns",None)
    t.setdefault("flatten",False);t.setdefault("tags","");t.setdefault("enc",True);t.setdefault("dec",True)
    t["idx"]=len(types); index[t["name"]]=t; types.append(t); return t["name"]
def S(name,*fields,**k): return add(dict(name=name,kind="struct",fields=list(fields),**k))
def V(label,payload=None,**k):
    d=dict(label=label,payload=payload,rename=None,prefix=None,flatten=False,rust=None); d.update(k); return d
def E(name,*vs,**k):
    k.setdefault("tag",None); k.setdefault("default",0)
    return add(dict(name=name,kind="enum",variants=[v if isinstance(v,dict) else V(v) for v in vs],**k))
def P(name,sc,**k): return add(dict(name=name,kind="prim",sc=sc,**k))
def C(name,sc,style="text"): return add(dict(name=name,kind="prim",sc=sc,custom=style,tags="custom"))
generics=[]
def G(name,par,fields,*args):
    generics.append((name,par,fields))
    for a in args:
        S(name+a,*[F(**dict(f,ty=f["ty"].replace("{}",a))) for f in fields],rename=name,generic=f"{name}<{a}>")
A=dict(role="attr")
# defaults of fields that are not scalars: (rust expression, model value)
def slit(sc,d): return f"{d}.to_string()" if sc=="String" else d+(sc if sc!="bool" else "")
def sval(sc,d):
    if sc=="String": return f"Val::Str({d}.to_string())"
    if sc=="bool": return f"Val::Bool({d})"
    if sc=="f32": return f"Val::F32({d})"
    if sc=="f64": return f"Val::F64({d})"
    return f"Val::Int({d})"
def DO(sc,d): return (f"Some({slit(sc,d)})",f"Val::Opt(Some(Box::new({sval(sc,d)})))")
def DV(sc,*ds): return ("vec!["+", ".join(slit(sc,d) for d in ds)+"]","Val::Vec(vec!["+", ".join(sval(sc,d) for d in ds)+"])")
NONE=("None","Val::Opt(None)")
SCALARS=list(SC)
# written but not read by the derive
SC.update({"usize":"Usize","isize":"Isize","char":"Char"})
ENCSC=["usize","isize","char"]

# ------------------------------------------------------------------ systematic catalogue
S("Scalars",*[F("s_"+t.lower(),t) for t in SCALARS])
S("OptScalars",*[F("o_"+t.lower(),f"Option<{t}>") for t in SCALARS])
S("VecScalars",*[F("v_"+t.lower(),f"Vec<{t}>") for t in SCALARS])
S("AttrScalars",*[F("a_"+t.lower(),t,**A) for t in SCALARS])
S("AttrOptScalars",*[F("b_"+t.lower(),f"Option<{t}>",**A) for t in SCALARS])
S("AttrVecs",F("id","u32",**A),*[F("l_"+t.lower(),f"Vec<{t}>",**A) for t in SCALARS],F("body","Option<String>"))
S("OneStr",F("item","String"))
S("OneInt",F("count","i32"))
S("OneVec",F("line","Vec<String>"))
S("OneVecU8",F("byte","Vec<u8>"),rename="bytes")
S("EmptyStruct")
S("Renamed",F("a_field","String",rename="first-name"),F("b_field","u16",rename="maj.min.bug"),F("type_","Option<String>",rename="type"),F("attr_one","String",rename="the-attr",**A),F("attr_two","Option<bool>",rename="x.y",**A),rename="root-elem")
S("Raw",F("r#type","String"),F("r#mod","Option<i32>"),rename="raw")
DSC={"String":'"dflt"',"bool":"true","i8":"-7","u8":"200","i16":"-300","u16":"40000","i32":"-70000","u32":"3000000000","i64":"-5000000000","u64":"10000000000000000000","f32":"1.25","f64":"-2.5"}
S("DefScalars",*[F("d_"+t.lower(),t,default=DSC[t]) for t in SCALARS])
S("DefAttrs",*[F("e_"+t.lower(),t,default=DSC[t],**A) for t in SCALARS])
S("SkipIf",F("n","Option<String>",skip_if="none"),F("w","Vec<u32>",skip_if="empty"),F("z","i32",default="0",skip_if="default"),F("s","String",default='"none"',skip_if="default"),F("q","Option<u8>",skip_if="none",**A),F("keep","bool"),F("at","String",default='"dd"',skip_if="default",**A))
S("Skip",F("visible","String"),F("hid","Option<String>",skip=True),F("hidv","Vec<u8>",skip=True),F("hidd","u32",skip=True,default="9"),F("after","Option<i64>"))
S("SkipAttr",F("shown","String",**A),F("hida","Option<String>",skip=True,**A),F("hidb","u32",skip=True,default="5",**A),F("tail","String"))
S("TextOnly",F("value","String",role="text"))
S("TextAttr",F("lang","String",**A),F("n","Option<u32>",**A),F("value","String",role="text"))
S("TextOpt",F("k","Option<String>",**A),F("value","Option<String>",role="text"))
S("CData",F("plain","String"),F("data","String",cdata=True),F("tail","Option<String>"))
S("CDataMany",F("d1","String",cdata=True),F("d2","String",cdata=True,rename="second"),F("num","u8"))
E("Color","Red","Green","Blue")
E("Level",V("Low",rename="low"),V("MidRange",rename="mid-range"),V("High",rename="HIGH 9"),default=1,rename="lvl")
E("OneUnit","Only")
E("Tagged",V("Alpha",rename="alpha"),"Beta",V("Gamma",rename="g g"),tag="kind")
E("NewScalars",*[V("N"+t.capitalize(),t) for t in SCALARS],default=0)
P("Meters","u32"); P("Name","String"); P("Ratio","f64"); P("Flag","bool"); P("Signed","i64"); P("Small","i8")
P("DisplayMeters","u16",derive="display")
P("HexFlags","u16",derive="hex",mask=0x0fff)
P("HexWide","u64",derive="hex",mask=0xffffffffffffffff)
P("HexByte","u8",derive="hex",mask=0xff)
S("Inner",F("left","String"),F("right","i32"))
S("InnerAttr",F("key","String",**A),F("val","String"))
S("Nested",F("one","Inner"),F("two","InnerAttr"),F("name","String"))
S("NestedOpt",F("one","Option<Inner>"),F("two","Option<InnerAttr>"),F("last","Option<String>"))
S("NestedVec",F("row","Vec<Inner>"),F("col","Vec<InnerAttr>"),F("sum","u32"))
S("Deep1",F("l1","Inner")); S("Deep2",F("l2","Deep1")); S("Deep3",F("l3","Vec<Deep2>")); S("Deep4",F("l4","Deep3"),F("l4b","Option<Deep2>")); S("Deep5",F("l5","Vec<Deep4>"),F("tag5","String",**A))
S("TextKids",F("t1","TextOnly"),F("t2","Vec<TextAttr>"),F("t3","Option<TextOpt>"))
S("EnumKids",F("color","Color"),F("lv","Option<Level>"),F("many","Vec<Color>"),F("tail","String"))
S("TaggedKids",F("t","Tagged"),F("ot","Option<Tagged>"),F("vt","Vec<Tagged>"),F("x","u8"))
S("PrimKids",F("len","Meters"),F("nm","Option<Name>"),F("rs","Vec<Ratio>"),F("fl","Flag"),F("sg","Option<Signed>"),F("end","Option<u8>"))
S("HexKids",F("hx","HexFlags"),F("hs","Vec<HexByte>"),F("hw","Option<HexWide>"))
S("AttrKinds",F("ts","TextOnly",**A),F("col","Color",**A),F("ocol","Option<Level>",**A),F("mt","Meters",**A),F("onm","Option<Name>",**A),F("sm","Option<Small>",**A),F("ots","Option<TextOnly>",**A))
S("AttrDefault",F("mode","String",default='"auto"',**A),F("w","u32",default="1",**A),F("body","Option<Inner>"))
S("AttrVecKinds",F("cols","Vec<Color>",**A),F("lens","Vec<Meters>",**A),F("names","Vec<Name>",**A),F("words","Vec<TextOnly>",**A),F("wl","Vec<u16>",skip_if="empty",**A),F("tail","Option<Inner>"))
C("Stamp","u32"); C("Token","String",style="end")
S("CustomKids",F("st","Stamp"),F("tk","Option<Token>"),F("sts","Vec<Stamp>"),F("mid","u8"),F("tks","Vec<Token>"),F("end","Option<String>"))
G("GenBox","T",[F("gid","u32",**A),F("inside","{}"),F("gopt","Option<{}>"),F("gvec","Vec<{}>"),F("glast","Option<u8>")],"Inner","TextAttr","Meters","Color","OneStr")
S("GenKids",F("gb","GenBoxInner"),F("gbs","Vec<GenBoxTextAttr>"),F("gbo","Option<GenBoxMeters>"),F("z","u8"))
E("NewKinds",V("Text","String"),V("Inn","Inner"),V("OptI","Option<i32>"),V("List","Vec<String>"),V("Rows","Vec<Inner>"),V("OptIn","Option<Inner>"),V("Nums","Vec<u16>"),V("OptS","Option<String>"),default=0)
E("Shape",V("Circle","Inner",rename="circle"),V("Square","u32",rename="square-1"),default=1)
E("Mixed",V("Empty"),V("Full","Inner"),V("Val","String",rename="val"),default=0)
E("VecEnum",V("Items","Vec<Inner>",rename="it"),default=0)
E("PrimEnum",V("Pm","Meters"),V("Pn","Vec<Name>"),V("Pt","TextOnly"),default=0)
S("EnumStruct",F("shape","Shape"),F("oshape","Option<Shape>"),F("shapes","Vec<Shape>"),F("note","Option<String>"))
S("EnumStruct2",F("nk","NewKinds"),F("nks","Vec<NewKinds>"),F("id","u32",**A))
S("EnumStruct3",F("m","Mixed"),F("ms","Vec<Mixed>"),F("v","VecEnum"),F("pe","Option<PrimEnum>"))
E("EnumOfEnum",V("Sh","Shape"),V("Co","Color"),V("Tg","Tagged"),V("VSh","Vec<Shape>"),V("OCo","Option<Color>"),default=1)
E("EnumAttrPay",V("Ia","InnerAttr"),V("Ta","TextAttr"),V("Oa","Option<TextAttr>"),V("La","Vec<InnerAttr>",rename="l.a"),V("Ak","AttrKinds"),default=0)
S("EnumStruct4",F("ee","EnumOfEnum"),F("eo","Option<EnumOfEnum>"),F("ea","Vec<EnumAttrPay>"),F("last","Option<Inner>"))
S("Tree",F("name","String",**A),F("weight","Option<i32>"),F("kid","Vec<Tree>"),rename="tree",tags="rec")
S("Chain",F("v","u8"),F("chain","Vec<Chain>"),F("z","Option<String>"),rename="chain",tags="rec")
E("Expr",V("Num","i32",rename="num"),V("Group","Group",rename="group"),V("Sym","String"),default=0,tags="rec")
S("Group",F("op","String",**A),F("arg","Vec<Expr>"),F("note","Option<String>"),tags="rec")
S("Forest",F("tree","Vec<Tree>"),F("ex","Option<Expr>"),F("cc","Option<Chain>"),tags="rec")
# flatten
S("FlatInner",F("year","i32"),F("month","i32"))
S("FlatOpt",F("lunar","i32"),F("phase","Option<String>"))
S("FlatAttr",F("bold","bool",**A),F("size","Option<u32>",**A))
S("FlatVec",F("tagv","Vec<String>"),F("opt","Option<u8>"))
S("FlatStruct",F("sub","Inner"),F("subs","Vec<InnerAttr>"))
E("FlatKind",V("Holidays","Vec<String>",rename="holidays"),V("Working","String",rename="working"),V("Off","Inner",rename="off"),default=1)
S("Flat1",F("d","FlatInner",role="flatten"),F("time","String"))
S("Flat2",F("time","String"),F("d","FlatInner",role="flatten"),F("o","Option<FlatOpt>",role="flatten"),F("last","Option<bool>"))
S("Flat3",F("base","FlatAttr",role="flatten"),F("id","String",**A),F("value","TextOnly"))
S("Flat4",F("fv","FlatVec",role="flatten"),F("fs","FlatStruct",role="flatten"),F("mid","Vec<u32>"))
S("Flat5",F("k","FlatKind",role="flatten"),F("hour","u8"))
S("FlatNest1",F("week","i32"),F("extra","FlatInner",role="flatten"))
S("FlatNest2",F("fn1","FlatNest1",role="flatten"),F("k","FlatKind",role="flatten"),F("when","String"),F("oo","Option<FlatOpt>",role="flatten"))
S("FlatSib",F("col","Color"),F("d","FlatInner",role="flatten"),F("mm","Meters"),F("tg","Option<Tagged>"),F("es","Vec<Shape>"))
S("FlatDefault",F("dd","u8",default="4"),F("fa","FlatAttr",role="flatten"),F("fi","FlatInner",role="flatten"))
S("FlatInside",F("flat","Flat2"),F("flats","Vec<Flat1>"),F("endf","Option<String>"))
S("RootFlat",F("binary_data","String"),F("string_data","String"),F("maybe_data","Option<u32>"),F("many_data","Vec<i16>"),flatten=True)
S("RootFlat2",F("one","Inner"),F("onev","Vec<InnerAttr>"),F("s","Option<String>"),flatten=True)
S("RootFlat3",F("none","Option<Inner>"),F("shape","Shape"),F("txt","Vec<TextAttr>"),F("z","Color"),flatten=True)
S("RootFlat4",F("kids","Vec<Inner>"),F("tx","TextOnly"),F("m","Meters"),flatten=True)
S("FlatMarked",F("host","Option<Inner>"),F("more","Vec<TextOnly>"),F("zz","u8"),flatten=True)
S("FlatMarkHost",F("fm","FlatMarked",role="flatten"),F("y","Option<u8>"),rename="host")
S("FlatPlain",F("host2","Option<Inner>"),F("q","u8"))
S("FlatPlainHost",F("fp","FlatPlain",role="flatten"),F("l","Vec<u8>"),rename="host2")
E("RootFlatEnum",V("Bin","Inner"),V("Dat","String"),V("Lst","Vec<u8>"),flatten=True,default=1)
E("FlatEnumAttr",V("Fe","Inner",rename="fe"),V("Fg","u64"),flatten=True,default=1)
S("FlatEnumHolder",F("cont","FlatEnumAttr",role="flatten"),F("z","Option<String>"))
# default, skip and text together
S("DefKinds",F("ko","Option<String>",default=DO("String",'"dflt"')),F("ki","Option<u32>",default=DO("u32","7")),F("kb","Option<bool>",default=DO("bool","true")),F("kn","Option<i8>",default=NONE),F("kv","Vec<u16>",default=DV("u16","1","2")),F("ks","Vec<String>",default=DV("String",'"a"','"b c"')),F("ke","Vec<u8>",default=("vec![]","Val::Vec(vec![])")))
S("DefAttrKinds",F("ao","Option<String>",default=DO("String",'"dflt"'),**A),F("ai","Option<i64>",default=DO("i64","-7"),**A),F("an","Option<bool>",default=NONE,**A),F("av","Vec<u16>",default=DV("u16","1","2"),**A),F("aw","Vec<String>",default=DV("String",'"on"'),**A),F("tail","Option<u8>"))
S("DefStructs",F("ds","Inner",default=('Inner { left: "l".to_string(), right: 3 }','Val::Struct(vec![Val::Str("l".to_string()), Val::Int(3)])')),F("dc","Color",default=("Color::Blue","Val::Enum(2, vec![])")),F("dm","Meters",default=("Meters(12)","Val::Int(12)")),F("dh","Shape",default=("Shape::Square(4)","Val::Enum(1, vec![Val::Int(4)])")),F("dl","Vec<Inner>",default=('vec![Inner { left: "x".to_string(), right: 1 }]','Val::Vec(vec![Val::Struct(vec![Val::Str("x".to_string()), Val::Int(1)])])')),F("dq","Option<Inner>",default=('Some(Inner { left: "y".to_string(), right: 2 })','Val::Opt(Some(Box::new(Val::Struct(vec![Val::Str("y".to_string()), Val::Int(2)]))))')),F("after","u8"))
S("DefAttrStructs",F("dc","Color",default=("Color::Blue","Val::Enum(2, vec![])"),**A),F("dm","Option<Meters>",default=("Some(Meters(12))","Val::Opt(Some(Box::new(Val::Int(12))))"),**A),F("dn","Name",default=('Name("n m".to_string())','Val::Str("n m".to_string())'),**A),F("z","Option<u8>"))
S("DefOptSkip",F("so","Option<u32>",skip=True,default=DO("u32","3")),F("sv","Vec<u8>",skip=True,default=DV("u8","9")),F("si","Option<String>",skip_if="none",default=DO("String",'"q"')),F("sw","Vec<i32>",skip_if="empty",default=DV("i32","-1")),F("end","u8"))
S("TextDefault",F("id","Option<u32>",**A),F("value","String",role="text",default='"dflt"'))
S("TextOptDefault",F("id","Option<u32>",**A),F("value","Option<String>",role="text",default=DO("String",'"dflt"')))
S("TextSkip",F("id","Option<u32>",**A),F("value","String",role="text",skip=True,default='"fixed"'))
S("TextSkipIf",F("id","Option<u32>",**A),F("value","Option<String>",role="text",skip_if="none"))
S("TextDefKids",F("a","TextDefault"),F("b","Vec<TextSkip>"),F("c","Option<TextOptDefault>"),F("d","Vec<TextSkipIf>"),F("e","Vec<TextOptDefault>"))
S("FlatReqAttr",F("reqat","u32",**A),F("optat","Option<String>",**A),F("fel","Option<bool>"))
S("FlatOptAttr",F("part","Option<FlatReqAttr>",role="flatten"),F("own","String",**A),F("item","Vec<u8>"))
S("FlatOptAttr2",F("name","Option<String>"),F("part","Option<FlatReqAttr>",role="flatten"),F("part2","Option<FlatInner>",role="flatten"),rename="f.o.a")
S("FlatSkipPart",F("body","u8"),F("part","Option<FlatReqAttr>",role="flatten",skip_if="none"),F("hidden","Option<FlatInner>",role="flatten",skip=True))
S("FlatTextIn",F("lang","String",**A),F("opt","Option<u8>",**A),F("value","String",role="text"))
S("FlatTextHost",F("id","u32",**A),F("part","FlatTextIn",role="flatten"))
S("FlatTag",F("part","Tagged",role="flatten"),F("n","u8"))
S("FlatTagOpt",F("part","Option<Tagged>",role="flatten"),F("n","u8"))
S("FlatDeepAttr1",F("mid","FlatReqAttr",role="flatten"),F("da","bool",**A),F("de","String"))
S("FlatDeepAttr",F("top","FlatDeepAttr1",role="flatten"),F("ta","Option<String>",**A),F("te","Vec<Inner>"))
S("FlatKids",F("x","FlatOptAttr"),F("ys","Vec<FlatTextHost>"),F("z","Option<FlatTag>"),F("w","Vec<FlatTagOpt>"),F("v","FlatDeepAttr"))
# paths and macro fragments as the types of fields
S("Paths",F("ps","String",rust="::std::string::String"),F("po","Option<u32>",rust="::std::option::Option<u32>"),F("pv","Vec<String>",rust="std::vec::Vec<std::string::String>"),F("pi","Inner",rust="self::Inner"),F("pc","Option<Color>",rust="Option<crate::corpus::Color>"),F("pl","Vec<InnerAttr>",rust="::std::vec::Vec<self::InnerAttr>"),F("pn","i64",rust="::core::primitive::i64"))
S("PathAttrs",F("ps","String",rust="std::string::String",**A),F("po","Option<u8>",rust="std::option::Option<u8>",**A),F("pc","Color",rust="crate::corpus::Color",**A),F("pt","Option<TextOnly>",rust="Option<self::TextOnly>",**A),F("pm","Vec<Meters>",rust="Vec<self::Meters>",**A),F("z","Option<String>"))
E("PathEnum",V("Pa","Inner",rust="self::Inner"),V("Pb","Option<String>",rust="std::option::Option<std::string::String>"),V("Pc","Vec<InnerAttr>",rust="::std::vec::Vec<crate::corpus::InnerAttr>"),default=0)
S("PathKids",F("pe","PathEnum",rust="self::PathEnum"),F("pp","Option<Paths>",rust="Option<self::Paths>"))
S("MacroTypes",F("m1","String",rust="$t0"),F("m2","u32",rust="$t1"),F("m3","Option<u32>",rust="Option<$t1>"),F("m4","Vec<String>",rust="Vec<$t0>"),F("m5","Inner",rust="$t2"),F("m6","Vec<Inner>",rust="Vec<$t2>"),F("m7","Option<Inner>",rust="Option<$t2>"),F("m8","Option<u8>",rust="$t3"),F("m9","Vec<i16>",rust="$t4"),macro=[("t0","String"),("t1","u32"),("t2","Inner"),("t3","Option<u8>"),("t4","Vec<i16>")])
S("MacroAttrs",F("m1","String",rust="$t0",**A),F("m2","u32",rust="$t1",**A),F("m3","Option<u32>",rust="Option<$t1>",**A),F("m5","Color",rust="$t2",**A),F("m8","Option<u8>",rust="$t3",**A),F("mz","Option<Color>",rust="Option<$t2>",**A),F("mv","Vec<u32>",rust="Vec<$t1>",**A),macro=[("t0","String"),("t1","u32"),("t2","Color"),("t3","Option<u8>")])
# encode-only shapes
S("OptVecs",*[F("ov_"+t.lower(),f"Option<Vec<{t}>>") for t in SCALARS],F("last","u8"),dec=False)
S("FlatVecPart",F("n","u8"),F("parts","Vec<FlatInner>",role="flatten"),F("z","Option<String>"),dec=False)
E("NamedVariants",V("Va",[F("na","u32"),F("nb","String"),F("nc","bool")]),V("Vb",[F("nd","Inner"),F("ne","Vec<InnerAttr>"),F("nf","f64")]),V("Vc",[F("ng","i64",rename="g-g")]),dec=False,default=0)
E("FlatVariant",V("BinV","Inner",flatten=True),V("DatV","InnerAttr",flatten=True),flatten=True,dec=False,default=0)
S("NamedHolder",F("nv","NamedVariants"),F("nvs","Vec<NamedVariants>"),F("on","Option<NamedVariants>"),dec=False)
S("EncScalars",*[F("s_"+t,t) for t in ENCSC],*[F("o_"+t,f"Option<{t}>") for t in ENCSC],*[F("v_"+t,f"Vec<{t}>") for t in ENCSC],dec=False)
S("EncAttrs",*[F("a_"+t,t,**A) for t in ENCSC],*[F("b_"+t,f"Option<{t}>",**A) for t in ENCSC],F("body","usize"),dec=False)
S("EncNs",F("u","usize",prefix="p"),F("c","Vec<char>",prefix="q",rename="c.h"),F("i","Option<isize>",prefix="q",skip_if="none"),F("at","usize",prefix="p",**A),prefix="p",ns={"p":"http://example.com/p","q":"urn:example:q"},dec=False)
E("EncPayloads",V("Pu","usize"),V("Pc","Vec<char>"),V("Pi","Option<isize>"),V("Ps","EncScalars",rename="p-s"),default=0,dec=False)
E("NamedLists",V("Va",[F("la","Vec<u32>"),F("lc","Vec<bool>"),F("ld","Vec<char>")]),V("Vb",[F("le","usize",rename="l.e"),F("lf","char"),F("lg","Inner"),F("lh","Vec<Inner>",rename="l-h"),F("li","Vec<f32>")]),V("Vu"),V("Vn","u8"),default=2,dec=False)
E("NamedFlat",V("Fa",[F("fb","Inner"),F("fc","usize"),F("fd","Vec<i8>")]),V("Fe",[F("fg","String"),F("fh","Vec<InnerAttr>")]),flatten=True,default=0,dec=False)
S("NamedFlatHost",F("kind","NamedFlat",role="flatten"),F("z","Option<u8>"),dec=False)
S("EncKids",F("es","Vec<EncScalars>"),F("ea","Option<EncAttrs>"),F("en","EncNs"),F("ep","EncPayloads"),F("eps","Vec<EncPayloads>"),F("nl","NamedLists"),F("nls","Vec<NamedLists>"),F("nf","Option<NamedFlatHost>"),dec=False)
# namespaces
NS={"p":"http://example.com/p","q":"urn:example:q"}
S("NsRoot",F("item","String",prefix="p"),F("other","Option<i32>",prefix="q"),F("plain","Vec<String>"),prefix="p",ns=NS)
S("NsAttr",F("at","String",prefix="p",**A),F("bt","Option<u32>",prefix="q",**A),F("ct","bool",**A),F("v","String"),ns=NS)
S("NsInner",F("in1","String",prefix="q"),F("in2","Vec<u8>"),ns={"q":NS["q"]})
S("NsNest",F("child","NsInner",prefix="p"),F("kids","Vec<NsInner>"),F("okid","Option<NsInner>",prefix="q"),prefix="q",ns=NS)
S("NsDefInner",F("di","String",prefix="d"),F("dv","Vec<u16>",prefix="d"),ns={"d":"http://example.com/d"},dns="d",prefix="d")
S("NsDef",F("x","i32",prefix="d"),F("n","NsDefInner",prefix="d"),F("ns_","Vec<NsDefInner>",prefix="d"),F("at","String",**A),ns={"d":"http://example.com/d"},dns="d",prefix="d")
S("NsDef2",F("x","i32",prefix="d"),F("y","Option<String>",prefix="e"),F("n","Option<NsDefInner>",prefix="d"),ns={"d":"http://example.com/d","e":"http://example.com/e"},dns="d",prefix="d",rename="nsdef-two")
S("SameLocal",F("a1","String",rename="same",prefix="p"),F("a2","Option<u32>",rename="same",prefix="q"),F("a3","Vec<bool>",rename="same"),prefix="p",ns=NS)
E("NsEnum",V("Alt","String",prefix="p"),V("Blt","Inner",prefix="q",rename="b.lt"),ns=NS,prefix="p",default=0)
E("NsPayEnum",V("Np","NsInner"),V("Na","NsAttr"),V("Nr","Option<NsRoot>"),V("Nv","Vec<NsInner>"),V("Ns","u8"),default=4)
S("NsPayHolder",F("np","NsPayEnum"),F("nps","Vec<NsPayEnum>",prefix="q"),ns=NS)
S("NsEnumHolder",F("ne","NsEnum"),F("nes","Vec<NsEnum>",prefix="p"),ns=NS)
S("NsFlatAttr",F("fsz","u32",prefix="ns",**A),ns={"ns":"http://www.sample.com/ns/domain"})
S("NsFlat",F("fa","NsFlatAttr",role="flatten"),F("dsp","String",**A),F("v","Option<String>"))
S("NsFlatElem",F("fe","String",prefix="p"),F("ff","Option<u8>"),ns=NS)
S("NsFlat2",F("b","NsFlatElem",role="flatten"),F("c","u8",prefix="p"),ns=NS)
S("NsFlat3",F("b","NsFlatElem",role="flatten"),F("c","u8"))
S("NsFlat4",F("c","u8"),F("b","Option<NsFlatElem>",role="flatten"),F("d","NsFlatAttr",role="flatten"))
S("NsFlat5",F("k","u8"),F("m","NsFlat3",role="flatten"))
S("NsFlatKids",F("f3","NsFlat3"),F("f4","Option<NsFlat4>"),F("f5","Vec<NsFlat5>"))
S("NsEnumAttrs",F("ce","Color",prefix="p"),F("te","Tagged",prefix="q"),F("pm","Meters",prefix="p"),ns=NS,prefix="p")
# repeated names through the levels
S("SubSub",F("leaf","String",**A),rename="subsub")
S("Sub",F("sub","Option<SubSub>"),F("subitem","String",**A),rename="sub")
S("SameName",F("sub","Sub"),rename="base")
S("SelfName",F("before","String"),F("selfname","Inner"),F("after","Option<u8>"))
S("SelfName2",F("a1","Option<u8>"),F("item","String"),F("z1","Vec<String>"))
S("SelfName3",F("lead","Inner"),F("kid","Vec<InnerAttr>"))
S("SelfHolder",F("selfname","SelfName"),F("item","Vec<SelfName2>"),F("kid","Option<SelfName3>"))
S("SelfRoot",F("lead","Option<String>"),F("SelfRoot","Vec<Inner>"),F("tail","Option<SelfName2>"))
S("AttrSame",F("attribute","Option<String>",rename="content",**A),F("content","Option<String>"))
S("Book",F("isbn","String",**A),F("title","String"),F("author","Vec<String>"),F("price","f32"),F("stock","Option<u64>"),F("genre","Color"),F("series","Option<Inner>"))
S("Library",F("name","String",**A),F("book","Vec<Book>"),F("curator","Option<NestedOpt>"),F("motto","TextAttr"))
S("Wide",*[F(f"w{i}","Option<u32>" if i%2 else "Option<String>") for i in range(40)])
# version pairs: V2 adds and removes optional, repeated or defaulted parts
S("VerA",F("id","u32",**A),F("name","String"),F("old","Option<String>"),F("tags","Vec<String>"),F("mode","i32",default="3"),F("sub","Option<Inner>"),rename="Ver",tags="ver0")
S("VerB",F("id","u32",**A),F("rev","Option<u8>",**A),F("name","String"),F("tags","Vec<String>"),F("mode","i32",default="3"),F("extra","Option<InnerAttr>"),F("more","Vec<Inner>"),F("speed","f64",default="0.5"),F("sub","Option<Inner>"),rename="Ver",tags="ver0")
S("VerC",F("rev","Option<u8>",**A),F("id","u32",**A),F("more","Vec<Inner>"),F("name","String"),F("flat","FlatVec",role="flatten"),F("sub","Option<Inner>"),rename="Ver",tags="ver0")
S("VerKidA",F("kid","Vec<VerA>"),F("n","Option<u8>"),rename="VerKid",tags="ver1")
S("VerKidB",F("kid","Vec<VerB>"),F("m","Option<String>"),F("n","Option<u8>"),rename="VerKid",tags="ver1")
# names beyond ASCII, names that differ in case or by one character, long names
E("IntlLevel",V("Low",rename="низкий"),V("Mid",rename="中"),V("High",rename="haut-élevé"),default=1,rename="niveau")
E("IntlPay",V("Txt","String",rename="文字"),V("Num","i32",rename="числo"),V("Kid","Inner",rename="Örtchen"),V("Nil",rename="ø"),default=3)
E("NamedOpts",V("Oa",[F("oa","Option<u32>"),F("ob","Option<String>"),F("oc","Option<Inner>"),F("od","u8")]),V("Ob",[F("oe","Option<Vec<i16>>",rename="o-e"),F("of","Option<Vec<InnerAttr>>"),F("og","Option<Color>"),F("oh","Option<Meters>"),F("oi","Option<f32>"),F("om","u16",skip=True),F("on","Option<Inner>",skip=True),F("oj","Option<Vec<String>>")]),V("Oc",[F("ok","Option<bool>")]),V("Od",[F("ol","Option<NamedLists>")]),V("Ou"),default=4,dec=False)
S("NamedOptsHost",F("x1","NamedOpts"),F("x2","Option<NamedOpts>"),F("x3","Vec<NamedOpts>"),dec=False)
E("IntlNamed",V("Rec",[F("a1","Option<u8>",rename="größe"),F("b1","String",rename="GRÖSSE")],rename="Örtchen"),V("Nil",rename="ø"),default=1,dec=False)
S("Intl",F("groesse","u16",rename="größe"),F("name_","Option<String>",rename="名前"),F("elan","String",rename="élan",**A),F("e2","Option<bool>",rename="ėlan",**A),F("ort","Vec<Inner>",rename="Örtchen"),F("stufe","IntlLevel",rename="stufe"),F("pay","Vec<IntlPay>",rename="文"),rename="страна")
S("IntlNs",F("a1","String",rename="名前",prefix="p"),F("b1","Option<i64>",rename="é",prefix="p",**A),F("c1","Option<Intl>"),rename="größe",ns={"p":"http://example.com/größe"},prefix="p")
# (the derive names its visitors by the camel case of a name and the type, so the types must differ)
S("Cases",F("item_a","Option<u8>",rename="item"),F("item_b","Option<Inner>",rename="Item"),F("item_c","Vec<InnerAttr>",rename="ITEM"),F("item_d","Option<Color>",rename="item_"),F("item_e","Option<TextAttr>",rename="_item"),F("id_a","Option<u8>",rename="id",**A),F("id_b","Option<Color>",rename="ID",**A),F("id_c","Option<Level>",rename="Id",**A),rename="cases")
LN="a-name-of-some-length."*14
S("LongKid",F("v1","Option<u8>",rename=LN+"v",**A),F("v2","Option<u8>",rename=LN+"w",**A),F("w1","String",rename=LN+"k"),rename=LN+"kid")
E("LongPay",V("One","String",rename=LN+"1"),V("Two","u32",rename=LN+"2"),V("Nil",rename=LN+"0"),default=2)
S("LongNames",F("f1","u32",rename=LN+"x"),F("f2","Option<String>",rename=LN+"y"),F("f3","Vec<LongKid>",rename=LN+"z"),F("f4","Vec<u8>",rename=LN+"xx"),F("f5","Option<LongPay>",rename=LN),F("f6","Option<bool>",rename=LN+"x",**A),rename=LN+"x")

# ------------------------------------------------------------------ random types
R=random.Random(SEED)
cnt=[0]
WORDS="alpha beta gamma delta omega node list part ref size kind data meta info slot unit zone area".split()
def fname():
    cnt[0]+=1
    return f"{R.choice(WORDS)}{cnt[0]}"
def usable(pred): return [t["name"] for t in types if pred(t)]
def nsfree(t): return not t["ns"]
def plain_struct(t):
    return t["kind"]=="struct" and t["enc"] and t["dec"] and not t["flatten"] and nsfree(t) and not t["tags"]
def unitenum(t): return t["kind"]=="enum" and not t["tags"] and t["enc"] and t["dec"] and not t["flatten"] and nsfree(t)
def has_attr(t):
    return any(f["role"] in("attr","flatten") for f in t.get("fields",[])) or t.get("tag")
MAXD={}
def depth(n):
    t=index[n]
    if n in MAXD: return MAXD[n]
    d=0
    fs=t.get("fields",[]) if t["kind"]=="struct" else [dict(ty=v["payload"]) for v in t.get("variants",[]) if isinstance(v["payload"],str)]
    for f in fs:
        b=base(f["ty"])
        if b in index: d=max(d,1+depth(b))
    MAXD[n]=d
    return d
def base(ty):
    while "<" in ty: ty=ty[ty.index("<")+1:-1]
    return ty
def wrap(ty): return R.choice(["{}","Option<{}>","Vec<{}>","{}"]).format(ty)
def labels_below(n,seen=None):
    # names of the direct element fields / variants of a type
    t=index[n]; out=set()
    if t["kind"]=="struct":
        for f in t["fields"]:
            if f["role"]=="flatten": out|=labels_below(base(f["ty"]))
            elif f["role"]=="elem": out.add(f["rename"] or f["name"])
    elif t["kind"]=="enum":
        for v in t["variants"]: out.add(v["rename"] or v["label"])
    return out
def rand_default(sc):
    return {"String":f'"def{R.randint(0,9)}"',"bool":R.choice(["true","false"])}.get(sc) or (f"{R.randint(1,100)}.5" if sc[0]=="f" else str(R.randint(1,100)))
def rand_struct(i):
    n=R.randint(1,9); fs=[]; used=set()
    usens=R.random()<0.25; ns={}; pre=None
    if usens:
        ns=dict(R.sample(sorted({"p":"http://example.com/p","q":"urn:example:q","r":"urn:r?x=1&amp;y".replace("&amp;","-")}.items()),R.randint(1,3)))
        pre=R.choice([None]+sorted(ns))
    text=R.random()<0.12
    structs=[x for x in usable(plain_struct) if depth(x)<5]
    enums=usable(unitenum); prims=usable(lambda t:t["kind"]=="prim" and t.get("custom")!="end")
    for _ in range(n):
        nm=fname(); k=R.random(); f=None
        if k<0.30 or (text and k>=0.55):
            sc=R.choice(SCALARS); f=F(nm,wrap(sc))
            if "<" not in f["ty"] and R.random()<0.3:
                f["default"]=rand_default(sc)
                if R.random()<0.3: f["skip_if"]="default"
            elif "<" in f["ty"] and R.random()<0.15:
                f["default"]=DO(sc,rand_default(sc)) if f["ty"][0]=="O" else DV(sc,*[rand_default(sc) for _ in range(R.randint(0,2))])
            elif f["ty"].startswith("Option") and R.random()<0.2: f["skip_if"]="none"
            elif f["ty"].startswith("Vec") and R.random()<0.2: f["skip_if"]="empty"
            elif f["ty"]=="String" and R.random()<0.25: f["cdata"]=True
        elif k<0.55:
            r=R.random()
            if r<0.7: f=F(nm,R.choice(["{}","Option<{}>"]).format(R.choice(SCALARS)),**A)
            elif r<0.85: f=F(nm,R.choice(["{}","Option<{}>"]).format(R.choice(prims+["TextOnly"])),**A)
            else: f=F(nm,R.choice(["{}","Option<{}>"]).format(R.choice(["Color","Level","OneUnit"])),**A)
            if f["ty"] in SC and R.random()<0.25: f["default"]=rand_default(f["ty"])
            if R.random()<0.12: f=F(nm,f"Vec<{R.choice(SCALARS+['Color','Meters','Small'])}>",**A)
        elif k<0.75: f=F(nm,wrap(R.choice(structs)))
        elif k<0.87: f=F(nm,wrap(R.choice(enums)))
        else: f=F(nm,wrap(R.choice(prims)))
        if R.random()<0.2: f["rename"]=f["name"].replace(f["name"][:1],f["name"][:1].upper(),1)+R.choice(["","-x",".y"])
        if usens and f["role"] in("elem","attr") and R.random()<0.6: f["prefix"]=R.choice(sorted(ns))
        fs.append(f)
    if text: fs.append(F(fname(),R.choice(["String","Option<String>"]),role="text")); fs=[f for f in fs if f["role"] in ("attr","text")]
    # flatten members: fresh inner structs so that names stay unique
    if not text and pre is None and not usens and R.random()<0.3:
        inner=[F(fname(),"String")]+[F(fname(),wrap(R.choice(SCALARS))) for _ in range(R.randint(0,3))]
        o=R.random()<0.4
        if R.random()<0.5: inner.append(F(fname(),"Option<u16>",**A))
        S(f"RF{i}",*inner)
        fs.insert(R.randint(0,len(fs)),F(fname(),f"Option<RF{i}>" if o else f"RF{i}",role="flatten"))
    # a child element may not be named like one of the direct parts of its own type
    for f in fs:
        b=base(f["ty"])
        if b in index: assert (f["rename"] or f["name"]) not in labels_below(b)
    S(f"R{i}",*fs,prefix=pre,ns=ns,rename=R.choice([None,None,f"r-{i}",f"root.{i}"]))
def rand_enum(i):
    vs=[]; cands=[x for x in usable(lambda t: plain_struct(t)) if depth(x)<4]
    for j in range(R.randint(1,5)):
        r=R.random(); lab=f"Vr{i}x{j}"
        if r<0.4: p=R.choice(["{}","{}","Option<{}>","Vec<{}>"]).format(R.choice(SCALARS))
        elif r<0.9: p=R.choice(["{}","{}","Option<{}>","Vec<{}>"]).format(R.choice(cands))
        else: p=R.choice(["{}","Vec<{}>"]).format(R.choice(["Meters","Name","Ratio"]))
        vs.append(V(lab,p,rename=R.choice([None,None,f"v-{i}-{j}"])))
    E(f"RE{i}",*vs,default=0)
def rand_versions(i):
    # a pool of parts; every version has the required ones and some of the others, in its own order
    pool=[F(fname(),R.choice(["String","u32","Inner","Color"])) for _ in range(R.randint(1,2))]
    req=len(pool)
    structs=["Inner","InnerAttr","TextAttr","OneStr","NestedOpt"]
    for _ in range(R.randint(4,8)):
        nm=fname(); r=R.random()
        if r<0.25: f=F(nm,R.choice(["Option<{}>","Vec<{}>"]).format(R.choice(SCALARS)))
        elif r<0.45: f=F(nm,f"Option<{R.choice(SCALARS)}>",**A)
        elif r<0.70: f=F(nm,R.choice(["Option<{}>","Vec<{}>"]).format(R.choice(structs)))
        elif r<0.85:
            sc=R.choice(SCALARS); f=F(nm,sc,default=rand_default(sc))
        else: f=F(nm,R.choice(["Option<{}>","Vec<{}>"]).format(R.choice(["Shape","Color","Tagged"])))
        pool.append(f)
    for v in range(R.randint(2,3)):
        fs=pool[:req]+[f for f in pool[req:] if R.random()<0.65]
        R.shuffle(fs)
        S(f"RV{i}v{v}",*[dict(f) for f in fs],rename=f"rv-{i}",tags=f"verR{i}")
for i in range(max(2,NR//8)): rand_versions(i)
for i in range(NR):
    if i%5==3: rand_enum(i)
    else: rand_struct(i)

# ------------------------------------------------------------------ emission
o=[]
w=o.append
w("// @generated by gen.py - do not edit")
w("#![allow(dead_code, non_snake_case, unused_imports, clippy::all)]")
w("use crate::val::*; use crate::ops::{Ops, full, enc_only, dec_only};")
w("use yaserde::{YaDeserialize, YaSerialize};")
w("use yaserde_derive_shim::*;")
w(f"/// seed and number of random types of this corpus\npub const CORPUS: [u64; 2] = [{SEED}, {NR}];")
w("mod yaserde_derive_shim { pub use yaserde::{HexBinaryYaSerde, PrimitiveYaSerde, DefaultYaSerde}; }")
def rid(n): return n[2:] if n.startswith("r#") else n
def lit(ty,d): return d[0] if isinstance(d,tuple) else slit(ty,d)
def vlit(ty,d): return d[1] if isinstance(d,tuple) else sval(ty,d)
def tyexpr(ty):
    if ty.startswith("Option<"): return f"opt({tyexpr(ty[7:-1])})"
    if ty.startswith("Vec<"): return f"vec_({tyexpr(ty[4:-1])})"
    if ty in SC: return f"sc(Sc::{SC[ty]})"
    t=index[ty]
    return f"rf({t['idx']})"
def fattrs(t,f):
    a=[]
    if f["role"]=="attr": a.append("attribute = true")
    if f["role"]=="text": a.append("text = true")
    if f["role"]=="flatten": a.append("flatten = true")
    if f["cdata"]: a.append("cdata = true")
    if f["rename"]: a.append(f'rename = "{f["rename"]}"')
    if f["prefix"]: a.append(f'prefix = "{f["prefix"]}"')
    if f["default"] is not None: a.append(f'default = "dflt_{t["name"]}_{rid(f["name"])}"')
    if f["skip"]: a.append("skip_serializing = true")
    if f["skip_if"]: a.append(f'skip_serializing_if = "skip_{rid(f["name"])}"')
    return f"#[yaserde({', '.join(a)})] " if a else ""
def tattrs(t):
    a=[]
    if t["flatten"]: a.append("flatten = true")
    if t["rename"]: a.append(f'rename = "{t["rename"]}"')
    if t["prefix"]: a.append(f'prefix = "{t["prefix"]}"')
    if t["dns"]: a.append(f'default_namespace = "{t["dns"]}"')
    if t.get("tag"): a.append(f'tag = "{t["tag"]}"')
    if t["ns"]: a.append("namespaces = { "+", ".join(f'"{k}" = "{v}"' for k,v in sorted(t["ns"].items()))+" }")
    return f"#[yaserde({', '.join(a)})]" if a else ""
def derives(t):
    d=["Debug","Clone","PartialEq"]
    if t["kind"]!="prim":
        if t["enc"]: d.append("YaSerialize")
        if t["dec"]: d.append("YaDeserialize")
    return f"#[derive({', '.join(d)})]"
def fdef(t,f):
    nsu=t["ns"].get(f["prefix"],"") if f["prefix"] else ""
    role={"elem":"Elem","attr":"Attr","text":"Text","flatten":"Flatten"}[f["role"]]
    e=f'fd("{f["rename"] or rid(f["name"])}", "{nsu}", {tyexpr(f["ty"])}, Role::{role})'
    if f["cdata"]: e+=".cdata()"
    if f["default"] is not None: e+=f".default({vlit(f['ty'],f['default'])})"
    if f["skip"]: e+=".skip()"
    if f["skip_if"] in("none","empty"): e+=".skip_if(val_empty)"
    if f["skip_if"]=="default": e+=f".skip_if(|v| *v == {vlit(f['ty'],f['default'])})"
    return e
def custom_impl(t):
    n=t["name"]; sc=t["sc"]
    left="" if t["custom"]=="text" else "reader.next_event()?;"
    return f"""#[derive(Debug, Clone, PartialEq)]
pub struct {n}(pub {sc});
impl YaSerialize for {n} {{
  fn serialize<W: std::io::Write>(&self, writer: &mut yaserde::ser::Serializer<W>) -> Result<(), String> {{
    let label = writer.get_start_event_name().unwrap_or_else(|| "{n}".to_string());
    let skip = writer.skip_start_end();
    if !skip {{
      writer.write(yaserde::__xml::writer::XmlEvent::start_element(label.as_str())).map_err(|e| e.to_string())?;
    }}
    writer.write(yaserde::__xml::writer::XmlEvent::characters(&self.0.to_string())).map_err(|e| e.to_string())?;
    if !skip {{
      writer.write(yaserde::__xml::writer::XmlEvent::end_element()).map_err(|e| e.to_string())?;
    }}
    Ok(())
  }}
  fn serialize_attributes(&self, a: Vec<yaserde::__xml::attribute::OwnedAttribute>, n: yaserde::__xml::namespace::Namespace)
    -> Result<(Vec<yaserde::__xml::attribute::OwnedAttribute>, yaserde::__xml::namespace::Namespace), String> {{ Ok((a, n)) }}
}}
impl YaDeserialize for {n} {{
  fn deserialize<R: std::io::Read>(reader: &mut yaserde::de::Deserializer<R>) -> Result<Self, String> {{
    match reader.next_event()? {{
      yaserde::__xml::reader::XmlEvent::StartElement {{ .. }} => {{}}
      e => return Err(format!("unexpected {{e:?}}")),
    }}
    let text = match reader.peek()? {{
      yaserde::__xml::reader::XmlEvent::Characters(s) => Some(s.clone()),
      _ => None,
    }};
    if text.is_some() {{ {left} }}
    text.unwrap_or_default().parse().map({n}).map_err(|_| "bad text".to_string())
  }}
}}
impl Glue for {n} {{ fn to_val(&self) -> Val {{ self.0.to_val() }} fn from_val(v: &Val) -> Self {{ {n}(Glue::from_val(v)) }} }}"""
def rootattr(n): return f'#[yaserde(rename = "{n}")]'
for (n,par,fs) in generics:
    w("#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]")
    w(rootattr(n))
    w(f"pub struct {n}<{par}> where {par}: YaSerialize + YaDeserialize {{")
    for f in fs: w(f"  {fattrs(None,f)}pub {f['name']}: {f['ty'].format(par)},")
    w("}")
    w(f"impl<{par}: Glue + YaSerialize + YaDeserialize> Glue for {n}<{par}> {{")
    w("  fn to_val(&self) -> Val { Val::Struct(vec!["+", ".join(f"self.{f['name']}.to_val()" for f in fs)+"]) }")
    w("  fn from_val(v: &Val) -> Self { let _f = v.fields(); "+n+" { "+", ".join(f"{f['name']}: Glue::from_val(&_f[{i}])" for i,f in enumerate(fs))+" } }")
    w("}")
sch=[]; ops=[]
for t in types:
    n=t["name"]; rns=t["ns"].get(t["prefix"],"") if t["prefix"] else ""
    root=t["rename"] or n
    if t.get("generic"):
        w(f"pub type {n} = {t['generic']};")
        kind="Kind::Struct(vec!["+", ".join(fdef(t,f) for f in t["fields"])+"])"
    elif t.get("custom"):
        w(custom_impl(t))
        kind=f"Kind::Prim(Sc::{SC[t['sc']]})"
    elif t["kind"]=="struct":
        mac=t.get("macro")
        for f in t["fields"]:
            if f["default"] is not None: w(f"fn dflt_{n}_{rid(f['name'])}() -> {f['ty']} {{ {lit(f['ty'],f['default'])} }}")
        if mac: w(f"macro_rules! mac_{n} {{ ("+", ".join(f"${a}:ty" for a,_ in mac)+") => {")
        w(derives(t)); 
        if tattrs(t): w(tattrs(t))
        w(f"pub struct {n} {{")
        for f in t["fields"]: w(f"  {fattrs(t,f)}pub {f['name']}: {f['rust'] or f['ty']},")
        w("}")
        if mac: w(f"}} }}\nmac_{n}!("+", ".join(b for _,b in mac)+");")
        sk=[f for f in t["fields"] if f["skip_if"]]
        if sk:
            w(f"impl {n} {{")
            for f in sk:
                body={"none":"v.is_none()","empty":"v.is_empty()"}.get(f["skip_if"]) or f"*v == dflt_{n}_{rid(f['name'])}()"
                w(f"  fn skip_{rid(f['name'])}(&self, v: &{f['ty']}) -> bool {{ {body} }}")
            w("}")
        w(f"impl Glue for {n} {{")
        w("  fn to_val(&self) -> Val { Val::Struct(vec!["+", ".join(f"self.{f['name']}.to_val()" for f in t["fields"])+"]) }")
        w("  fn from_val(v: &Val) -> Self { let _f = v.fields(); "+n+" { "+", ".join(f"{f['name']}: Glue::from_val(&_f[{i}])" for i,f in enumerate(t["fields"]))+" } }")
        w("}")
        kind="Kind::Struct(vec!["+", ".join(fdef(t,f) for f in t["fields"])+"])"
    elif t["kind"]=="prim":
        d=t.get("derive","prim")
        w(derives(t)[:-2]+{"prim":", PrimitiveYaSerde","display":", DefaultYaSerde","hex":", HexBinaryYaSerde"}[d]+")]")
        w(f"pub struct {n}(pub {t['sc']});")
        if d=="display":
            w(f"impl std::fmt::Display for {n} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ write!(f, \"{{}}\", self.0) }} }}")
            w(f"impl std::str::FromStr for {n} {{ type Err = String; fn from_str(s: &str) -> Result<Self, String> {{ s.parse().map({n}).map_err(|_| \"bad\".to_string()) }} }}")
        if d=="hex":
            cond = f"if b & !{t['mask']}{t['sc']} == 0 {{ Some({n}(b)) }} else {{ None }}"
            w(f"impl {n} {{ pub fn from_bits(b: {t['sc']}) -> Option<Self> {{ {cond} }} }}")
        w(f"impl Glue for {n} {{ fn to_val(&self) -> Val {{ self.0.to_val() }} fn from_val(v: &Val) -> Self {{ {n}(Glue::from_val(v)) }} }}")
        scx=f"Sc::Hex({t['sc'][1:]}, {t['mask']})" if d=="hex" else f"Sc::{SC[t['sc']]}"
        kind=f"Kind::Prim({scx})"
        def prim_ty(scx=scx): return scx
    else:
        w(derives(t))
        if tattrs(t): w(tattrs(t))
        w(f"pub enum {n} {{")
        for v in t["variants"]:
            a=[]
            if v["rename"]: a.append(f'rename = "{v["rename"]}"')
            if v["prefix"]: a.append(f'prefix = "{v["prefix"]}"')
            if v["flatten"]: a.append("flatten = true")
            at=f"#[yaserde({', '.join(a)})] " if a else ""
            p=v["payload"]
            if p is None: w(f"  {at}{v['label']},")
            elif isinstance(p,str): w(f"  {at}{v['label']}({v['rust'] or p}),")
            else: w(f"  {at}{v['label']} {{ "+", ".join(f"{fattrs(t,f)}{f['name']}: {f['ty']}" for f in p)+" },")
        w("}")
        def dval(ty):
            if ty.startswith("Option<"): return "Val::Opt(None)"
            if ty.startswith("Vec<"): return "Val::Vec(vec![])"
            if ty in SC: return {"String":"Val::Str(String::new())","bool":"Val::Bool(false)","f32":"Val::F32(0.0)","f64":"Val::F64(0.0)"}.get(ty,"Val::Int(0)")
            x=index[ty]
            if x["kind"]=="struct": return "Val::Struct(vec!["+", ".join(dval(f["ty"]) for f in x["fields"])+"])"
            if x["kind"]=="prim": return dval(x["sc"])
            dv=x["variants"][x["default"]]
            if dv["payload"] is None: return f"Val::Enum({x['default']}, vec![])"
            return f"Val::Enum({x['default']}, vec![{dval(dv['payload'])}])"
        dv=t["variants"][t["default"]]
        if dv["payload"] is None: de=f"Val::Enum({t['default']}, vec![])"
        elif isinstance(dv["payload"],str): de=f"Val::Enum({t['default']}, vec![{dval(dv['payload'])}])"
        else: de=f"Val::Enum({t['default']}, vec!["+", ".join(dval(f['ty']) for f in dv['payload'])+"])"
        w(f"impl Default for {n} {{ fn default() -> Self {{ Glue::from_val(&{de}) }} }}")
        w(f"impl Glue for {n} {{")
        arms=[];brms=[]
        for i,v in enumerate(t["variants"]):
            p=v["payload"]
            if p is None: arms.append(f"{n}::{v['label']} => Val::Enum({i}, vec![])"); brms.append(f"{i} => {n}::{v['label']}")
            elif isinstance(p,str): arms.append(f"{n}::{v['label']}(x) => Val::Enum({i}, vec![x.to_val()])"); brms.append(f"{i} => {n}::{v['label']}(Glue::from_val(&_p[0]))")
            else:
                arms.append(f"{n}::{v['label']} {{ "+", ".join(f['name'] for f in p)+f" }} => Val::Enum({i}, vec!["+", ".join(f['name']+".to_val()" for f in p)+"])")
                brms.append(f"{i} => {n}::{v['label']} {{ "+", ".join(f"{f['name']}: Glue::from_val(&_p[{k}])" for k,f in enumerate(p))+" }")
        w("  fn to_val(&self) -> Val { match self { "+", ".join(arms)+" } }")
        w("  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { "+", ".join(brms)+", _ => panic!(\"variant\") } }")
        w("}")
        vds=[]
        for v in t["variants"]:
            nsu=t["ns"].get(v["prefix"],"") if v["prefix"] else ""
            p=v["payload"]
            pe="Payload::Unit" if p is None else f"Payload::New({tyexpr(p)})" if isinstance(p,str) else "Payload::Named(vec!["+", ".join(fdef(t,f) for f in p)+"])"
            vds.append(f'VariantDef {{ label: "{v["rename"] or v["label"]}", ns: "{nsu}", payload: {pe}, flatten: {str(v["flatten"]).lower()} }}')
        tag=f'Some("{t["tag"]}")' if t["tag"] else "None"
        kind=f"Kind::Enum {{ variants: vec![{', '.join(vds)}], tag: {tag}, default: {de} }}"
    sch.append(f'    TypeDef {{ name: "{n}", root: "{root}", root_ns: "{rns}", kind: {kind}, flatten: {str(t["flatten"]).lower()}, enc: {str(t["enc"]).lower()}, dec: {str(t["dec"]).lower()}, tags: "{t["tags"]}" }},')
    ops.append(f'    {"full" if t["enc"] and t["dec"] else "enc_only" if t["enc"] else "dec_only"}::<{n}>(),')
w("pub fn schema() -> Vec<TypeDef> {\n  let mut v = Vec::new();")
for s in sch: w("  v.push("+s.strip().rstrip(",")+");")
w("  v\n}")
w("pub fn ops() -> Vec<Ops> {\n  vec![\n"+"\n".join(ops)+"\n  ]\n}")
open(OUT,"w").write("\n".join(o)+"\n")
print(len(types),"types")
