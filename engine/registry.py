"""Which contracts (units) and which native replay oracle decide each property."""
from vlib import Unit
TRUSTED=["clang 18 front end (C++ -> LLVM IR at -O0, mem2reg, loop-simplify)","engine/ll2c.py (LLVM IR -> C)","CBMC 6.11 incl. its SAT solver",
 "executable contracts of the C++ standard library in engine/stl","the specifications in harness/spec_*.h"]
ASSUMPTIONS=["x86-64 machine model (LP64, little endian)","C++ exceptions are modelled as end of the path after the throw (no unwinding), but for the units with handlers in the code (StdInputStream), where they are followed",
 "code compiled by g++ behaves as the clang IR says (cross-checked on samples by the native oracle)"]
CHECKS={}
ASAN=["-fsanitize=address,undefined"]
CS=[("UTF8",8),("UTF16LE",160),("UTF16BE",161),("UCS2LE",20),("UCS2BE",21),("UCS4LE",40),("UCS4BE",41)]
def csu(entry,only=None): return [Unit("charset.cpp",entry,["CS="+c,"KIND=%d"%k]) for c,k in CS if only is None or c in only]
CHECKS["C01"]=dict(units=csu("h_print")+csu("h_decode"),oracle=["o_charset.cpp","C01"])
CHECKS["C02"]=dict(units=csu("h_arbitrary")+csu("h_decode"),oracle=["o_charset.cpp","C02"])
CHECKS["C06"]=dict(units=csu("h_print")+[Unit("encoder.cpp","h_encode")],oracle=["o_charset.cpp","C06"])


IL=[Unit("isolatin.cpp",e,["PAGE=%d"%k],unwind=70) for k in range(1,10) for e in("h_decode","h_print")]
CHECKS["C05"]=dict(units=IL+[Unit("isolatin.cpp","h_index",[],unwind=70)],oracle=["o_isolatin.cpp","C05"])
TS=[Unit("textscan.cpp",e,["CS=%s"%c,"KIND=%d"%k]) for c,k in CS for e in("h_views","h_skip","h_ctor","h_ready")]
TS+=[Unit("textscan.cpp",e,["CS=IsoLatin","KIND=1","PAGE=%d"%p]) for p in(1,9) for e in("h_views","h_skip","h_ctor","h_ready")]
TSR=[Unit("textscan.cpp","h_recode",["CS=IsoLatin","KIND=1","OPAGE=%d"%p],unwind=70) for p in range(1,10)]
CHECKS["C03"]=dict(units=TS+TSR,oracle=["o_textscan.cpp","C03"])
CHECKS["C04"]=dict(units=TS,oracle=["o_textscan.cpp","C04"])
SCCFG=dict(cut=["^_ZL10on_consumev$"],nocut=[],inv_check="h_inv_check",havoc="h_havoc",inv_assume="h_inv_assume",snap="h_snap",nsnaps=3,unwind=True)
def SC(kind,same,entry="h_next",params=(201,10,0),defs=(),**k): return Unit("scanner.cpp",entry,["KIND=%d"%kind,"SAMECS=%d"%same,"V_MAP_CAP=2"]+list(defs),unwind=21,cfg=SCCFG,timeout=600,params=params,**k)
NLOOPS=12
def SEGS(kind,same): return [SC(kind,same,maxcut=True,params=(201,10,k)) for k in [255]+list(range(1,NLOOPS+1))]+[SC(kind,same,maxcut=True,params=(201,16,k)) for k in range(1,NLOOPS+1)]
SC0=SEGS(0,0)
SC1=SEGS(0,1)
CHECKS["C07"]=dict(units=SC0+SC1+[SC(0,0,"h_ctor")],oracle=["o_scanner.cpp","C07"])
CHECKS["C08"]=dict(units=SC0+SC1+[SC(0,0,"h_ctor")],oracle=["o_scanner.cpp","C08"])
CHECKS["C09"]=dict(units=SEGS(1,0)+[SC(0,0,"h_copy")],oracle=["o_scanner.cpp","C09"],gate=SC0)
CHECKS["C10"]=dict(units=SC0+[SC(0,0,"h_ctor")],oracle=["o_scanner.cpp","C10"])
CHECKS["C11"]=dict(units=SEGS(2,0)+SEGS(3,0),oracle=["o_scanner.cpp","C11"],gate=SC0)
CHECKS["C12"]=dict(units=SC0+[SC(0,0,"h_ctor")],oracle=["o_scanner.cpp","C12"])
CHECKS["C15"]=dict(units=[Unit("tagstack.cpp","h_"+e,unwind=41,opts=["--sat-solver","cadical"]) for e in("push","top","pop","clear","ctor","copy","assign")],oracle=["o_tagstack.cpp","C15"],oracle_flags=ASAN+["-Wl,--wrap=malloc","-Wl,--wrap=realloc"])
SBCFG=dict(cutfn=["StaticBuffer6resize"],nocut=[],inv_check="h_inv_check",havoc="h_havoc",inv_assume="h_inv_assume")
CHECKS["C16"]=dict(units=[Unit("staticbuffer.cpp","h_"+e,unwind=6,cfg=SBCFG if e=="resize" else {}) for e in("push_back","append","resize","clear","index","ctor","copy","assign")],oracle=["o_staticbuffer.cpp","C16"],oracle_flags=ASAN+["-Wl,--wrap=malloc","-Wl,--wrap=calloc","-Wl,--wrap=free"])
CHECKS["C17"]=dict(units=[Unit("iterators.cpp",e,["KIND_"+k],unwind=24) for e,k in(("h_cstring","CSTR"),("h_source","SRC"),("h_chunk","SRC"),("h_stream","STREAM"),("h_stream_ctor","STREAM"),("h_stream_copy","STREAM"))]+[Unit("iterators.cpp","h_std",["KIND_STD"],unwind=9,cfg=dict(eh=True),opts=["-DV_EH"])],oracle=["o_iterators.cpp","C17"],oracle_flags=ASAN)
CHECKS["C21"]=dict(units=[Unit("diag.cpp","h_"+e,unwind=70) for e in("exception","names","automaton","geterror","iterator")],oracle=["o_diag.cpp","C21"])
OOCFG=dict(cutfn=["OstreamOutput6append"],nocut=[],inv_check="h_inv_check",havoc="h_havoc",inv_assume="h_inv_assume",snap="h_snap",nsnaps=2,psnap="h_psnap",npsnaps=2)
CHECKS["C22"]=dict(units=[Unit("ostreamout.cpp","h_"+e,unwind=9,cfg=OOCFG if e=="append" else {}) for e in("push_back","append")],oracle=["o_ostreamout.cpp","C22"],oracle_flags=ASAN)
HDCFG=dict(cutfn=["XmlHdrParser5parse"],nocut=[],inv_check="h_inv_check",havoc="h_havoc",inv_assume="h_inv_assume",snap="h_snap",nsnaps=1)
CHECKS["C18"]=dict(units=[Unit("xmlhdr.cpp","h_"+e,unwind=6,cfg=HDCFG if e=="parse" else {}) for e in("parse","putinput","ctor")],oracle=["o_xmlhdr.cpp","C18"],oracle_flags=ASAN)
PTCFG=dict(cutfn=["XMLPrinter.*13printToBufferE","XMLPrinter.*21printToBufferSubstChr"],nocut=[],inv_check="h_inv_check",havoc="h_havoc",inv_assume="h_inv_assume",snap="h_snap",nsnaps=1)
PTU=[Unit("printtext.cpp","h_"+e,unwind=18,cfg=PTCFG if e!="char" else {}) for e in("attr","content","plain","char")]
CHECKS["C13"]=dict(units=PTU,oracle=["o_printer.cpp","C13"],oracle_flags=ASAN)
CHECKS["C14"]=dict(units=[Unit("printer.cpp","h_"+e,unwind=18) for e in("header","doctype","opentag","attribute","value","closetag","exit","ctor")],oracle=["o_printer.cpp","C14"],oracle_flags=ASAN)
PSCFG=dict(cutfn=["XMLPathSelect"],nocut=[],inv_check="h_inv_check",havoc="h_havoc",inv_assume="h_inv_assume",snap="h_snap",nsnaps=1,snaple=True)
PSU=[Unit("pathselect.cpp","h_"+e,[d],unwind=6,cfg=PSCFG if e in("expand","match","fetch") else {}) for e,d in(("expand","U_EXPAND"),("match","U_MATCH"),("fetch","U_FETCH"),("init","U_ELEM"),("close","U_ELEM"),("iter","U_ITER"),("ctor","U_CTOR"))]
PACFG=dict(cutfn=["XMLPathSelectAutomaton","parseStatic"],nocut=[],inv_check="h_inv_check",havoc="h_havoc",inv_assume="h_inv_assume",snap="h_snap",nsnaps=4,snaple=True)
PSU+=[Unit("pathatm.cpp","h_"+e,d.split(" -D"),unwind=18,cfg=PACFG if e in("key","next","output","token","entity") else {}) for e,d in(("key","U_KEY"),("state","U_STATE"),("next","U_NEXT"),("output","U_NEXT"),("path","U_PATH"),("token","U_TOKEN"),("entity","U_TOKEN -DU_ENTITY=10"),("entity","U_TOKEN -DU_ENTITY=16"))]
CHECKS["C19"]=dict(units=PSU,oracle=["o_pathselect.cpp","C19"],oracle_flags=ASAN)
PPCFG=dict(cutfn=["XMLPathSelectAutomatonParser"],nocut=[],inv_check="h_inv_check",havoc="h_havoc",inv_assume="h_inv_assume",snap="h_snap",nsnaps=2)
PPU=[Unit("pathparse.cpp","h_"+e,d.split(" -D"),unwind=12,cfg=dict(PPCFG,nsnaps=4) if e=="add" else dict(PPCFG,psnap="h_psnap",npsnaps=1) if e=="op" else {} if e=="idchar" else PPCFG) for e,d in(("spaces","U_LEX"),("idchar","U_LEX"),("num","U_LEX"),("ident","U_LEX"),("value","U_VALUE"),("list","U_LIST"),("op","U_EXPR"),("op","U_EXPR -DU_ALT"),("add","U_ADD"))]
CHECKS["C20"]=dict(units=PPU,oracle=["o_pathparse.cpp","C20"],oracle_flags=ASAN)
NOT_APPLICABLE={}
