"""C14: memory. Live heap bytes sampled between repetitions of an operation, and around whole interpreters, in a C harness linked to the
library built with AddressSanitizer (whose allocator counts every block; double frees and uses after free stop the run)."""
import os, re
from vf import build, gen

SETUP = '''
var G = {n:0, o:{a:[1,2,3]}, s:"text"}, garr=[3,1,2];
function id(x:any=void) { return x; }
function two(a:any, b:any) { return a>b?1:(a<b?-1:0); }
function even(x:any) { return x%2==0; }
function add(a:any, b:any) { return a+b; }
function thrower(x:any) { throw x; }
function rec(n:number) { if (n<=0) { return [n]; }; var l={n:n}; return rec(n-1).concat([l.n]); }
function fin(x:any) { try { return [x]; } finally { G.n+=1; } }
function catcher(x:any) { try { thrower(x); } catch(e) { return e; } }
function Pt(x:any,y:any) { this.x=x; this.y=y; }
Pt.prototype.sum=function() { return this.x+this.y; };
function va() { return arguments.length; }
function rest(a:any, ...) { return arguments; }
function dflt(a=1, b="x", c=null) { return [a,b,c]; }
function typed(a:number, b:string|number, c:object=void) { return a; }
function swap(m:any, n:any) { return "<"+m+">"; }
function nil() { }
'''

OPS = r'''
1+2; "a"+1; [1]+"x"; 3*"4"; -"5"; !0; ~7; 1<<3; "b">"a"; 1==="1"; typeof {}; void 0;
var a=[1,"two",{three:3,four:[5]}]; a[0]=9; a.push(a.length); a[2].four[0]=[]; a.pop();
var o={a:1,b:"c",d:{e:[1,{f:2}]}}; o.a=o.b; delete o.b; o.d.e[1].g=o.a; o["x"+1]=o.d; o.d=null;
var o={}; for (var i=0;i<10;i++) { o["k"+i]=[i]; }; for (var k in o) { delete o[k]; }
var s=""; for (var i=0;i<20;i++) { s+=i+","; }; s=s.split(",").join("-");
var a=[]; for (var i=0;i<30;i++) { a[i]={i:i}; }; a.length=3; a.splice(0,1); a.shift(); a.unshift("q");
return [1,2,3].map(id);
return garr.slice(0).sort(two).reverse().filter(even).concat([4,[5]]);
return [1,2,3].reduce(add)+[4,5].reduceRight(add);
return [[1,2],[3,[4]]].flat(2);
return [1,2,3].some(even)+[2].every(even)+[1,2].find(even)+[1,2].findIndex(even);
[1,2,3].forEach(id); [3,1].indexOf(1); [1].includes(2); new Array(5).fill(0); Array.isArray([]); [1,2].lastIndexOf(2);
for (var x of [1,[2],{c:3}]) { G.n+=1; }
var s="hello world"; return [s.toUpperCase(),s.substr(1,3),s.indexOf("o"),s.charAt(2),s.replace("l","L"),s.split(" "),s.trim(),s.length];
return "abcabc".replace(/b/g,swap) + "xay".replace(/a/,"[&]");
return "a1b22c333".match(/[0-9]+/g);
var r=/([a-z])([0-9])/; return [r.exec("a1"), r.test("zz"), "q b2".search(/[0-9]/)];
return "a,b;c".split(/[,;]/);
return new RegExp("x+","i").test("XX");
return JSON.parse('{"a":[1,2,{"b":null}],"c":"d\\u0041"}');
return JSON.stringify({a:[1,"x",{b:true}],c:"\n"});
return JSON.stringify(JSON.parse("[1,[2,[3]],{\"x\":{}}]"));
try { JSON.parse("{bad"); } catch(e) { G.e=e; }
try { JSON.parse("[1,2,{\"a\":[}"); } catch(e) { G.e=e; }
try { throw {a:[1]}; } catch(e) { return e.a; } finally { G.f=[1]; }
try { thrower([1,2]); } catch(e) { return e; }
try { try { thrower("a"); } finally { G.f={}; } } catch(e) { return e; }
for (var i=0;i<3;i++) { try { if (i==1) { continue; }; if (i==2) { break; }; var q=[i]; } finally { G.q=i; } }
return fin({a:1});
return catcher("err")+catcher(["x"]);
throw "uncaught";
throw {a:[1,2,3]};
thrower([1]);
var l=[1,2]; l.map(thrower);
garr.slice(0).sort(thrower);
"abc".replace(/b/,thrower);
[1,2].forEach(thrower);
var x=[1,{a:2}]; nosuch(x,[3]);
var x=[1,{a:2}]; x.nosuch([3]);
var x={a:[1]}; x.a.b.c=1;
null.x([1],{a:2});
id([1],2,3);
typed("str","x");
typed(1,[2]);
typed([1,2]);
va(1,[2],{c:3}); rest(1,[2],{q:3}); dflt(); dflt(2,"y",[1]);
return rec(10);
return rec(100000);
return new Pt([1],{y:2});
var p=new Pt(1,2); return p.sum();
new Pt(1);
new nosuchctor([1]);
return Pt.call({},1,2);
return add.apply(null,[[1],"x"]);
return add.call(null,{a:1},"x");
thrower.call(null,[1]);
thrower.apply({a:1},[[1]]);
return Object.keys({a:1,b:[2]}).concat(Object.keys(G));
return Object.freeze({a:[1]});
var o=Object.create({q:1}); o.z=[1]; return o.q;
var f={a:1}; Object.freeze(f); f.a=2;
return [1,2].concat({a:1}).toString()+String({a:1})+Number("12");
return parseInt("12px")+parseFloat("1.5")+(255).toString(16)+(3.14159).toFixed(2);
return isNaN(NaN)+Math.max(1,2)+Math.floor(2.5)+Math.pow(2,8);
return format("%d %s %5.2f %q",5,"abc",3.14159,"q");
return format("%d","x");
return quote("a\"b")+Util.hexStr("abc")+Util.base64("hello")+Util.md5("x")+Util.sha256("y")+Util.sha1("z")+Util.crc32("q");
return Util.decrypt(Util.encrypt("hello there","0123456789abcdef"),"0123456789abcdef");
Util.decrypt("short","0123456789abcdef");
return strftime(1000000,{fmt:"%Y-%m-%d",utc:true})+strptime("2020-01-02",{fmt:"%Y-%m-%d",utc:true});
return strptime("junk",{fmt:"%Y"});
return Info.vars()+Info.funcs("i*")+Info.cmds("puts");
return Info.lookup("id")==id;
return Info.funcs("id").length+Info.version().length;
return Object.keys(Info.locals());
return Info.error();
return Info.level();
return Info.interp();
return Info.options();
return Info.script();
return Info.argv0();
return Info.obj({a:1});
return Info.named();
return Info.event();
return Info.files();
return Info.platform();
return Info.package("nosuch");
return eval("1+2");
return eval("var zz=[1,2]; zz");
eval("throw [1]");
eval("1+");
eval("var s='abc");
eval("{ if (");
eval("x=[1,{");
eval("nosuch()");
return eval("G.n+1")+eval("[1,{a:2}]").length;
assert(1==1); 
puts("");
printf("%s","");
var t=setTimeout(nil,0); update({maxEvents:2});
var t=setInterval(nil,0); update({maxPasses:1,minTime:1}); clearInterval(t);
var t=setTimeout(id,100000); clearInterval(t);
clearInterval(99999);
var i=new Interp({noInterp:1});
var i=new Interp(); i.eval("var x=[1,{a:2}]; x"); delete i;
var i=new Interp(); var r=i.eval("1+2",{}); return r;
var i=new Interp(); i.eval("throw 'x'");
var i=new Interp(); try { i.eval("nosuch()"); } catch(e) { }; delete i;
var i=new Interp({safeMode:"safe"}); try { i.eval("File.read('/etc/passwd')"); } catch(e) { };
var i=new Interp(); i.alias("foo",add); var r=i.eval("foo(1,'x')"); return r;
var i=new Interp(); i.alias("foo",thrower); try { i.eval("foo(1)"); } catch(e) {};
var i=new Interp(); i.eval("function ff(a:any) { return [a]; }"); return i.call("ff",[[1,2]]);
var i=new Interp(); i.eval("var v={a:[1]};"); return i.value("v");
var i=new Interp({nosuchopt:1});
File.write("T1","hello\nworld\n"); var s=File.read("T1"); File.remove("T1"); return s;
File.write("T1","a\nb\nc\n"); var f=new Channel("T1","r"); var s=[f.gets(),f.gets(),f.read(1)]; f.close(); File.remove("T1"); return s;
File.write("T1","a\nb\n"); var f=new Channel("T1","r"); f.gets(); File.remove("T1");
var f=new Channel("T2","w"); f.puts("x"); f.write("y"); f.seek(0); f.tell(); f.flush(); f.close(); File.remove("T2");
new Channel("/nosuch/dir/file","r");
File.read("/nosuch/file");
File.write("/nosuch/dir/f","x");
return File.stat("/etc/passwd"); 
return File.exists("/nosuch")+File.isdir("/")+File.dirname("/a/b")+File.tail("/a/b")+File.extension("x.y")+File.rootname("x.y")+File.realpath("/etc/../etc")+File.join("a","b");
return File.glob("*","/etc",{limit:5});
return File.glob("*",{dir:"/etc",limit:5,retTypes:true}); 
File.glob("*",{dir:"/nosuch"});
File.mkdir("D1"); File.write("D1/x","1"); File.rename("D1/x","D1/y"); File.copy("D1/y","D1/z"); File.remove("D1",true);
File.rename("/nosuch/a","/nosuch/b");
File.copy("/nosuch/a","b");
File.link("/nosuch/a","/nosuch/b",true);
return File.pwd();
return exec("echo hi; exit 2",{retAll:true,noError:true}); 
return exec("echo hi");
exec("exit 3");
exec("cat",{inputStr:"abc"});
var db=new Sqlite(":memory:"); db.eval("CREATE TABLE t(a,b)"); db.query("INSERT INTO t VALUES(?,?)",{values:[1,"x"]}); var r=db.query("SELECT * FROM t"); db.close(); return r;
var db=new Sqlite(":memory:"); db.eval("CREATE TABLE t(a,b)"); try { db.eval("bad sql"); } catch(e) { G.e=e; }; try { db.query("SELECT nosuch FROM t"); } catch(e) { }; delete db;
var db=new Sqlite(":memory:"); db.eval("CREATE TABLE t(a,b); INSERT INTO t VALUES(1,2),(3,4)"); db.query("SELECT * FROM t",{callback:id}); db.query("SELECT * FROM t",{mode:"json"}); db.onecolumn("SELECT a FROM t"); db.exists("SELECT 1"); 
var db=new Sqlite(":memory:"); db.eval("CREATE TABLE t(a,b); INSERT INTO t VALUES(1,2),(3,4)"); db.query("SELECT * FROM t",{callback:thrower});
var db=new Sqlite(":memory:"); db.transaction(nil); try { db.transaction(thrower); } catch(e) {};
var db=new Sqlite(":memory:"); var x=[1]; db.func("ff",add); db.onecolumn("SELECT ff(1,2)"); db.collate("cc",two); db.query("SELECT 1 AS a UNION SELECT 2 ORDER BY a COLLATE cc",{mode:"list"});
var db=new Sqlite(":memory:"); db.func("ff",thrower); db.onecolumn("SELECT ff(1)");
var db=new Sqlite(":memory:"); var v={a:1,b:"q"}; db.eval("CREATE TABLE t(a,b)"); db.query("INSERT INTO t %s",{objName:"v"}); return db.query("SELECT * FROM t",{arrays:1});
new Sqlite("/nosuch/dir/x.db");
new Sqlite(":memory:",{nosuch:1});
var z=Zvfs.deflate("hello hello hello"); return Zvfs.inflate(z);
Zvfs.inflate("junk");
Zvfs.create("Z1.zip",["/etc/passwd"],"/etc"); Zvfs.mount("Z1.zip","/zz1"); var s=File.read("/zz1/passwd"); Zvfs.list("/zz1"); Zvfs.stat("/zz1/passwd"); Zvfs.unmount("/zz1"); File.remove("Z1.zip"); return s.length;
Zvfs.mount("/nosuch.zip","/zz2");
return Zvfs.list("/nosuch"); 
var s=0; switch ("b") { case "a": s=1; break; case "b": s=[2]; default: s=[s]; } return s;
var i=0; L: while (true) { while (true) { i++; if (i>5) { break L; }; continue L; } }
do { var q={a:[1]}; } while (0);
var a=1, b=[a], c={b:b}; a=b; b=c; c=a; 
return [1,2,3].toString()+({a:1}).toString()+true.toString();
var s="abc"; s[1]; s.length; s["0"]; s.nosuch;
return G.hasOwnProperty("n")+("n" in G)+(G instanceof Object);
return arguments.length;
return this;
return new String("abc")+new Number(5)+new Boolean(true);
return new Object({a:1});
return new Date;
return strptime();
return provide("pkg14");
return require("nosuchpkg14");
require();
source("/nosuch/file.jsi");
File.write("s.jsi","var q14=[1,{a:2}];"); source("s.jsi"); File.remove("s.jsi");
File.write("s.jsi","throw [1];"); try { source("s.jsi"); } finally { File.remove("s.jsi"); }
File.write("s.jsi","var x=[1,"); try { source("s.jsi"); } finally { File.remove("s.jsi"); }
return conf?[1]:[2];
return encodeURI("a b")+decodeURI("a%20b")+encodeURIComponent("&")+escape("x y");
return "%s".concat("a",[1])+"abc".repeat(5)+"abc".padStart(5)+"a".codePointAt(0)+String.fromCharCode(65,66);
return console.args;
console.log("");
console.warn("");
console.error("");
return System.getenv("PATH")+System.getpid();
System.setenv("C14X","y"); System.getenv("C14X");
return Signal.names();
return Signal.handle("SIGUSR1");
return Interp.prototype;
return Util.getpid()+Util.times(id); 
Util.times(thrower);
return Util.verConvert("1.2.3")+Util.dbl2str;
return Util.argArray([1])+Util.argArray(1);
return Util.complete("pu");
return Util.sqlValues("v14",{a:1,b:"x"});
return Util.toCObject;
return parseOpts({},{a:1},{a:2}); 
return parseOpts({a:"x"},{b:1},{c:2});
var self={}; parseOpts(self,{a:1,b:"x"},{a:5}); return self;
return matchObj({a:1},"{a:@number}"); 
return Object.is({},{})+Object.getOwnPropertyNames;
return id.toString()+id.name+id.length;
return [id,add].length+typeof id;
return Function.prototype;
return [1,2,3].join()+[[],[1]].join("|");
var o={}; o[[1,2]]=3; o[{}]=4; o[null]=5; o[true]=6; return o;
var a=[]; a[5]=1; a[2]={}; delete a[5]; a["x"]=2; return a.length;
[1,2].splice(0,1,"a",["b"],{c:1}); [5].concat([6],[[7]]); [1,2].fill([0]); 
G.tmp=[1,2,{x:3}]; delete G.tmp;
G.o.a=[G.n]; G.s="x"+G.n; garr=[3,1,2];
new RegExp("(");
"abc".replace(/(a)(b)?/,"\\1");
return "aXbX".split("X").map(id).join("")+"x".indexOf("y");
return "abc".substring(1,2)+"abc".slice(-1)+"abc".charCodeAt(1)+"ABC".toLowerCase()+" a ".trim()+"a".localeCompare("b");
return ["b","a"].sort({mode:"desc"}); 
return [[2,"a"],[1,"b"]].sort(); 
["a"].sort({nosuch:1}); 
return 5 .nosuch;
return true.x.y; 
new 5; 
[].reduce(add); 
"x".repeat(-1); 
undefinedvar14+1;
var u; u.x=1; 
G.o.a.b.c.d=1;
G();
G.o();
(5)();
delete G.nosuch; delete nosuch14; 
nosuch14=[1,{}]; delete nosuch14;
'''

CONSTR = r'''
var a = [1,2,{b:3}];
function f(x:any) { var l=[x,{y:x}]; return l; }
f([1]); f("s");
var g = function(q:any) { return f(q); }; g(1);
var h = x=>[x,1]; [1,2].map(h);
function mk() { var c=[1,2]; return function() { return c; }; } ; var m1=mk(), m2=mk(); m1();
function R(n:number) { if (n>0) { return R(n-1); }; return [n]; } ; R(20);
var self={}; self.me=function() { return self; }; self.me();
function P(x:any) { this.x=x; } ; P.prototype.get=function() { return this.x; }; var p=new P([1]); p.get();
var s="x"; for (var i=0;i<20;i++) { s+=i; };
try { throw [1,{a:2}]; } catch(e) { var ee=e; } finally { var ff=[1]; }
L1: for (var i=0;i<5;i++) { for (var j in {a:1,b:2}) { if (i==2) { continue L1; }; if (i==3) { break L1; } } }
switch (a.length) { case 1: a=[]; break; case 3: a.push([4]); default: a.pop(); }
var re=/a(b+)c/g; "xabbc".match(re); "abc".replace(re,function(m:any,n:any) { return m+n; });
var t=setTimeout(function() { a=[9]; },0); update({maxEvents:1});
var t2=setInterval(f,100000);
var i2=new Interp(); i2.eval("var z=[1,{a:2}]; function zz(q) { return [q]; }"); i2.alias("back",f); i2.eval("back([1,2])");
var i3=new Interp({name:"c14i"}); try { i3.eval("nosuch([1])"); } catch(e) { };
var db=new Sqlite(":memory:"); db.eval("CREATE TABLE t(a,b); INSERT INTO t VALUES(1,'x')"); db.query("SELECT * FROM t"); db.func("qq",f);
db.transaction(function() { db.eval("INSERT INTO t VALUES(2,'y')"); });
File.write("T3","abc\ndef\n"); var ch=new Channel("T3","r"); ch.gets();
var j=JSON.parse('{"a":[1,{"b":"c"}]}'); JSON.stringify(j);
[3,1,2].sort(function(x,y) { return x-y; }).filter(function(x) { return x>1; });
var bb=f.bind(null,[1]); bb();
eval("var ev=[1,2]; function evf() { return ev; }"); evf();
try { eval("var bad=["); } catch(e) { };
File.write("s2.jsi","var sv=[1]; function sf() { return sv; } provide('s14');"); source("s2.jsi"); sf();
Object.freeze(a); var fz={x:[1]}; Object.freeze(fz);
var big=[]; for (var i=0;i<200;i++) { big[i]={i:i,s:"v"+i}; }; big.length=10;
console.log(""); puts(""); 
Zvfs.create("Z2.zip",["/etc/passwd"],"/etc"); Zvfs.mount("Z2.zip","/zc14"); var zs=File.read("/zc14/passwd");
function dd(a:any=[1], b="x", c=null) { return b; } ; dd();
var kk=Object.keys({a:1,b:2}); for (var k in kk) { kk[k]=[k]; } ; for (var v of kk) { var vv=[v]; }
function args() { return arguments; } ; args(1,[2],{c:3});
"a b c".split(" ").map(function(x) { return {x:x}; }).forEach(function(x) { a={q:x}; });
setTimeout(function() { throw "late"; },0); try { update({maxEvents:1}); } catch(e) { }
if (a) { var u1=[a]; } else { var u2={}; }
var d1=new Date, st=new String("x"), ob=new Object, ar=new Array(3); 
exec("true"); System.getpid(); Info.vars(); Info.funcs();
function outer() { function inner(x:any) { return [x]; } ; return inner([1]); } ; outer();
'''
ENDS = ['', '', '', '', 'throw [1,{a:2}];', 'nosuchfunc([1]);', 'function q() { var z=[1]; nosuch(z); } ; q();', '[1,2].map(function(x) { throw [x]; });', 'null.x.y;', 'exit(0);', 'exit(3);',
        '(function() { try { throw [1]; } finally { exit(1); } })();', 'return [1,2];', 'var z=[1,{a:"', 'if (1) { function x( {', '} } )', 'eval("exit(2)");', '@#', '"unterminated', '/* unterminated']


def lines(t):
    return [l.strip() for l in t.strip().split('\n') if l.strip()]


def mutate(r, t):
    k = r.randint(0, 5)
    if not t: return t
    i = r.randrange(len(t))
    if k == 0: return t[:i]
    if k == 1: return t[:i] + t[i + 1:]
    if k == 2: return t[:i] + r.choice('(){}[];:,.+=\'"/\\a1 \n?!&|<>$@#`') + t[i:]
    toks = re.findall(r'[A-Za-z_0-9]+|\s+|.', t, re.S); i = r.randrange(len(toks)); j = r.randrange(len(toks))
    if k == 3: toks[i], toks[j] = toks[j], toks[i]
    elif k == 4: toks[i:i + 1] = []
    else: toks.insert(i, toks[j])
    return ''.join(toks)


def run(ctx):
    ctx.rule = ('live heap bytes, counted by the sanitizer\'s allocator, after each of nine equal rounds of (a) calls of a script function doing one or several operations, ended normally or by an error, '
                '(b) evaluations of the same text, and (c) creating an interpreter, running a program (whole, ended by errors or exit, or with a damaged text) and deleting it: no round may end higher than the middle one for good')
    ctx.assumptions = ['function objects are kept by the interpreter on purpose until it is deleted (known finding), so the repeated operations create none; compiled texts are cached, so the same texts are repeated',
                       'objects that refer to each other in a cycle are never reclaimed (known finding), so no other program makes any']
    ctx.build('asan'); exe = build.harness('leaks.c', os.path.join(ctx.tmp, 'leaks'))
    ops = lines(OPS); con = lines(CONSTR); r = ctx.sub('mix'); jobs = []
    jobs.append(('known', 'calls', 'function op() { var f=function() { return 1; }; return f(); }', 'function-objects'))
    jobs.append(('known', 'interps', 'var o1={}, o2={}; o1.o2=o2; o2.o1=o1;', 'data-cycles'))
    for i, o in enumerate(ops): jobs.append(('op', 'calls', SETUP + 'function op() { ' + o + ' }', o))
    for i in range(ctx.size(150, 2500)):
        k = r.choice([2, 2, 3, 5]); body = []
        for _ in range(k):
            o = r.choice(ops)
            if o.startswith('return '): o = 'var rv=' + o[7:]
            w = r.randint(0, 4)
            if w == 0: o = 'try { %s } catch(e) { G.e=e; }' % o
            elif w == 1: o = 'for (var it=0; it<2; it++) { %s }' % o
            elif w == 2: o = 'if (G.n>=0) { %s }' % o
            elif w == 3: o = 'try { %s } finally { G.f=[1]; }' % o
            body.append(o)
        if 'exec' in ' '.join(body) and r.random() < .8: continue
        jobs.append(('mix', 'calls', SETUP + 'function op() { ' + '\n'.join(body) + ' }', '\n'.join(body)))
    for i, o in enumerate(ops): jobs.append(('text', 'evals', 'var G={n:0,o:{a:[1]},s:""}, garr=[3,1];\n' + o, o))
    for i, c in enumerate(con): jobs.append(('interp', 'interps', c, c))
    for e in ENDS:
        jobs.append(('interp', 'interps', e, e))
    for i in range(ctx.size(220, 3500)):
        cs = [r.choice(con) for _ in range(r.choice([1, 2, 4, 8]))]
        if len([c for c in cs if 'exec' in c or 'Zvfs' in c]) > 1: continue
        t = '\n'.join(cs + [r.choice(ENDS)])
        jobs.append(('interp', 'interps', t, t))
    for i in range(ctx.size(250, 5000)):
        t = '\n'.join(r.choice(con) for _ in range(r.choice([1, 2, 3])))
        if r.random() < .4: t = gen.Gen(r, exc=True).program()
        for _ in range(r.choice([1, 1, 2])): t = mutate(r, t)
        if re.search(r'exec|File|remove|Zvfs|Channel|while *\(|sleep|source', t): t = re.sub(r'exec|File|remove|Zvfs|Channel|while|sleep|source', 'id', t)
        jobs.append(('damaged', 'interps', t, t))

    def one(a):
        i, (kind, mode, text, what) = a
        d = ctx.mkdir(); f = os.path.join(d, 'p.js'); open(f, 'w').write(text)
        heavy = 'exec' in what or 'Interp' in what or kind in ('interp', 'damaged')
        slow = 'rec(100000)' in what
        res = ctx.run([mode, f, '1' if slow else '3' if heavy else '6', '1' if slow else '2' if heavy else '4'], exe=exe, cwd=d, timeout=60 if kind == 'damaged' else 120, retry=kind != 'damaged')   # a damaged text may well have no end
        return kind, mode, text, what, res
    nf = 0
    for kind, mode, text, what, res in ctx.pmap(one, list(enumerate(jobs))):
        rep = '%s\n%s' % (mode, text)
        if res.timeout:
            if kind == 'damaged': continue
            ctx.violation('hang:' + what[:60], 'no end: ' + what[:300], rep); continue
        if not ctx.sanity(res, kind, what, rep): continue
        m = re.search(rb'^BYTES (.*)$', res.out, re.M)
        if not m:
            if b'DEFERR' in res.out: ctx.count('not_parsed'); continue
            ctx.violation('end:' + what[:60], 'the harness ended with status %s: %s' % (res.rc, res.etext[-300:]), rep); continue
        b = [int(x) for x in m.group(1).split()]
        ctx.count('rounds_' + mode, len(b)); ctx.case((mode, what))
        if kind == 'known': ctx.count('known_probes')
        rc = int(re.search(rb'^RC (\d+)', res.out, re.M).group(1)); ctx.count('failed_runs' if rc else 'clean_runs')
        if len(ctx.samples) < 6: ctx.samples.append(dict(mode=mode, text=what[:200], bytes=b))
        if b[8] > b[1] and b[8] > b[4] and b[8] > b[6]:
            sites = re.findall(rb'^SITE (\d+) (\d+) (\S+)', res.out, re.M)
            if kind == 'known':
                ctx.violation(what, '%s: live bytes after each round %s' % (text, b), rep); continue
            big = sorted(sites, key=lambda s: -int(s[0]))
            fr = [x for x in big[0][2].decode().split('<') if x != 'backtrace'][:4] if big else ['unknown']
            nf += 1
            ctx.violation('grow:' + '<'.join(fr), '%s: live bytes after each round %s; %d sites, the largest %s; text: %s' % (mode, b, len(sites), big[0] if big else '', what[:400]), rep)
