// Package refs is a grammar of references to declarations.
package refs

import "strings"

// World are declarations: each declaration is described by a word of its own, the word of x being WxW.
const World = `
/** WIW */
interface I {
	/** WIKW */
	const IK = 11;
	/** WimW */
	public function im($a);
	/** WisW */
	public static function is($a);
}
/** WJW */
interface J extends I {
	/** WjmW */
	function jm();
}
trait T {
	/** WtmW */
	public function tm() {}
	/** WtsW */
	public static function ts() {}
	/** @var int WtpW */
	public $tp;
	/** @return C */
	public static function a() {}

	/** @var int WtspW */
	public static $tsp;
}
/** WPW */
abstract class P implements J {
	/** WPKW */
	const PK = 'pk';
	/** WPOKW */
	const OK = 'pok';
	/** @var int WppW */
	public $pp;
	/** @var int WpspW */
	public static $psp;
	/** @var int WPopW */
	public $op;
	/** WPcW */
	public function __construct($x) {}
	/** WpmW */
	public function pm() {}
	/** WpsW */
	public static function ps() {}
	/** WPoW */
	public function o() {}
	/** WPosW */
	protected static function os() {}
}
/** WCW */
class C extends P {
	use T;
	/** WCKW */
	const CK = 12;
	/** WCOKW */
	const OK = 'cok';
	/** @var int WcpW */
	private $cp;
	/** @var int WcspW */
	public static $csp;
	/** @var int WCopW */
	public $op;
	/** WcmW */
	public function cm() {}
	/** WcsW */
	public static function cs() {}
	/** WCoW */
	public function o() {}
	/** WCosW */
	protected static function os() {}
	/** WcvW */
	private function cv() {}
	//BODY
}
/** WNW */
class N {
	/** WNmW */
	public function cm() {}
	/** WNKW */
	const CK = 13;
}
/** WMW */
class M {
	/** WMcW */
	public function __construct() {}
}
/** WfW */
function f($a) {}
/**
 * WmkCW
 *
 * @return C
 */
function mkC() {}
/**
 * WmkUW
 *
 * @return C|N
 */
function mkU() {}
/**
 * WmkJW
 *
 * @return J
 */
function mkJ() {}
/** WKW */
const K = 14;
/** WDDW */
define('DD', 15);
`

// Doc is a document with references whose declarations are known.
type Doc struct {
	B    strings.Builder
	Refs []Ref
	Name func(kind byte, n string) string // how a name is written
}

type Ref struct {
	Start, End int // the name
	Lo, Hi     int // the expression it is in
	Want       []string
	What       string
}

// Emit writes text in which [name:words] is a reference to what the words describe, and {c:C}
// the name of the class C as it is written.
func (d *Doc) Emit(t string) {
	lo := d.B.Len()
	first := len(d.Refs)
	for len(t) > 0 {
		switch {
		case strings.HasPrefix(t, "«"):
			e := strings.Index(t, "»")
			in := strings.TrimPrefix(t[:e], "«")
			t = t[e+len("»"):]
			p := strings.Split(in, ":")
			r := Ref{Start: d.B.Len(), What: in}
			n := p[0]
			if n == "" {
				d.Refs = append(d.Refs, Ref{Start: -1, End: -1, Want: strings.Split(p[1], ",")})
				continue
			}
			if n[0] >= 'A' && n[0] <= 'Z' && len(n) > 1 && n[1] == '.' {
				n = d.Name(n[0], n[2:])
			}
			d.B.WriteString(n)
			r.End = d.B.Len()
			if p[1] != "" {
				r.Want = strings.Split(p[1], ",")
			}
			d.Refs = append(d.Refs, r)
		default:
			e := strings.Index(t, "«")
			if e < 0 {
				e = len(t)
			}
			d.B.WriteString(t[:e])
			t = t[e:]
		}
	}
	for i := first; i < len(d.Refs); i++ {
		d.Refs[i].Lo, d.Refs[i].Hi = lo, d.B.Len()
	}
}

// Exprs are expressions that holds references; the letters before the names tell what is named:
// C a class, F a function, K a constant.
var Exprs = []string{
	"new «C.C:Pc»(1)",
	"new «C.N:N»",
	"new «C.N:N»()",
	"new «C.M:Mc»()",
	"«C.C:C»::«CK:CK»",
	"«C.C:C»::«PK:PK»",
	"«C.C:C»::«OK:COK»",
	"«C.P:P»::«OK:POK»",
	"«C.C:C»::«IK:IK»",
	"«C.I:I»::«IK:IK»",
	"«C.J:J»::«IK:IK»",
	"«C.N:N»::«CK:NK»",
	"«C.C:C»::«cs:cs»()",
	"«C.C:C»::«ps:ps»()",
	"«C.C:C»::«ts:ts»()",
	"«C.I:I»::«is:is»(1)",
	"«C.J:J»::«is:is»(1)",
	"«C.C:C»::«$csp:csp»",
	"«C.C:C»::«$psp:psp»",
	"«C.C:C»::«$tsp:tsp»",
	"«C.C:C»::class",
	"$x instanceof «C.C:C»",
	"$x instanceof «C.I:I»",
	"«F.f:f»(1)",
	"«F.f:f»(«F.f:f»(1))",
	"«F.mkC:mkC»()->«cm:cm»()",
	"«F.mkC:mkC»()->«pm:pm»()",
	"«F.mkC:mkC»()->«o:Co»()",
	"«F.mkC:mkC»()->«tm:tm»()",
	"«F.mkC:mkC»()->«im:im»(1)",
	"«F.mkC:mkC»()->«pp:pp»",
	"«F.mkC:mkC»()->«op:Cop»",
	"«F.mkC:mkC»()->«tp:tp»",
	"«F.mkC:mkC»()->«cp:»",
	"«F.mkC:mkC»()->«cv:»()",
	"«F.mkC:mkC»()->«none:»()",
	"«F.mkC:mkC»()->«none:»",
	"«F.mkU:mkU»()->«cm:cm,Nm»()",
	"«F.mkU:mkU»()->«pp:pp»",
	"«F.mkJ:mkJ»()->«im:im»(1)",
	"«F.mkJ:mkJ»()->«jm:jm»()",
	"(new «C.C:Pc»(1))->«cm:cm»()",
	"(new «C.N:N»)->«cm:Nm»()",
	"«K.K:K»",
	"«K.DD:DD»",
	"«K.K:K» + «K.DD:DD»",
	"function («C.C:C» $q) { return $q->«cm:cm»(); }",
	"function (?«C.I:I» $q = null): «C.C:C» { return $q->«im:im»(1); }",
	"function («C.C:C» ...$q) {}",
	"new class «:Pc»extends «C.P:P» implements «C.I:I», «C.J:J» { use «C.T:T»; }",
	"«None:»::«CK:»",
	"new «None:»",
	"«none:»(1)",
	"«NONE:»",
}

// Stmts are statements.
var Stmts = []string{
	"class Z extends «C.C:C» {}",
	"abstract class Z extends «C.P:P» implements «C.I:I», «C.J:J» {}",
	"interface Z extends «C.I:I», «C.J:J» {}",
	"class Z { use «C.T:T»; }",
	"trait Z { use «C.T:T»; }",
	"try {} catch («C.N:N» $e) { $e->«cm:Nm»(); }",
	"function z(«C.C:C» $c, «C.I:I» $i): «C.N:N» { return $c->«cm:cm»($i->«im:im»(1)); }",
	"class Z { function z(«C.C:C» $c, ?«C.J:J» $j): ?«C.I:I» { $j->«jm:jm»(); } }",
	"class Z extends «C.C:C» { function z() { parent::«o:Co»(); self::«os:Cos»(); static::«os:Cos»(); $this->«pp:pp»; $this->«cp:»; $this->«o:Co»(); parent::«OK:COK»; self::«$csp:csp»; new «parent:Pc»(1); } }",
	"class Z extends «C.C:C» { const PK = self::«OK:COK»; public $z = «C.C:C»::«CK:CK»; function z($a = «C.N:N»::«CK:NK», $b = «K.K:K») {} }",
	"foreach ([new «C.N:N»] as $q) {}",
	"switch (1) { case «K.K:K»: echo «C.C:C»::«CK:CK»; break; }",
	"static $s = «C.C:C»::«CK:CK»;",
	"const Z = «C.C:C»::«CK:CK» . «K.K:K»;",
	"$o = «F.mkC:mkC»(); $o->«cm:cm»(); $o->«pp:pp»;",
	"$o = new «C.N:N»; $o::«CK:NK»;",
	"$o = «F.mkC:mkC»()\n\t->«cm:cm»();",
	"/** @var \\C|\\Q\\C $z «:C»*/ // C cm\n\"C cm $c\"; 'C'; «F.f:f»(1); /* f */",
}

// Hole is a place.
type Hole struct{ Name, Before, After string }

func Holes() []Hole {
	return []Hole{
		{"statement", "", ";"},
		{"assigned", "$v = ", ";"},
		{"returned", "return ", ";"},
		{"argument", "call($a, ", ", 2);"},
		{"method argument", "$o->call(", ");"},
		{"static argument", "ZZ::call(", ");"},
		{"new argument", "new ZZ(", ");"},
		{"echo", "echo ", ", 1;"},
		{"element", "$v = ['a' => ", ", 1];"},
		{"long element", "$v = array(1, ", ");"},
		{"index", "$v[", "] = 1;"},
		{"concatenated", "$v = 'a' . ", " . 'b';"},
		{"ternary", "$v = $a ? ", " : 1;"},
		{"ternary condition", "$v = (", ") ? 1 : 2;"},
		{"coalesce", "$v = $a ?? ", ";"},
		{"not", "$v = !(", ");"},
		{"if", "if (", ") {}"},
		{"while", "while ($a && ", ") {}"},
		{"for", "for ($i = ", "; $i; $i++) {}"},
		{"foreach", "foreach (", " as $k => $w) {}"},
		{"switch", "switch (", ") {}"},
		{"body", "if ($a) { ", "; }"},
		{"else", "if ($a) {} else { ", "; }"},
		{"try", "try { ", "; } finally {}"},
		{"function", "function zf($x) { return ", "; }"},
		{"closure", "$v = function () use ($x) { return ", "; };"},
		{"method", "class ZZ { function zm() { return ", "; } }"},
		{"static method", "class ZZ { static function zm() { ", "; } }"},
		{"trait method", "trait ZZ { function zm() { ", "; } }"},
		{"throw", "throw ", ";"},
		{"cast", "$v = (bool) (", ");"},
		{"clone", "$v = clone (", ");"},
		{"interpolated", "$v = \"a\" . ", ";"},
		{"wide", "$v = '\U0001d4b3é' . ", ";"},
		{"yield", "function zg() { yield ", "; }"},
		{"compared", "$v = 1 === ", ";"},
	}
}

// Outer are places for statements.
var Outer = []Hole{
	{"in a body", "if ($a) {\n", "\n}"},
	{"in a loop", "foreach ($a as $b): ", " endforeach;"},
	{"in a case", "switch ($a) { case 1: ", " }"},
	{"in finally", "try {} finally { ", " }"},
	{"in a function", "function zo() { ", " }"},
	{"in a closure", "$zo = function () use ($a) { ", " };"},
	{"in a method", "class ZO { private static function zo() { ", " } }"},
	{"after code", "$zo = 1; zo(); /* 𝒳 */ ", " zo();"},
}

// Ctx is files, namespaces and imports around.
type Ctx struct {
	Name     string
	WorldNS  string
	Same     bool // the world is in the document
	Open     string
	Shut     string
	NameFunc func(kind byte, n string) string
}

func Ctxs() []Ctx {
	plain := func(kind byte, n string) string { return n }
	pre := func(p string) func(byte, string) string {
		return func(kind byte, n string) string {
			if n == "DD" {
				return "\\DD"
			}
			return p + n
		}
	}
	uses := "use W\\I; use W\\J; use W\\T; use W\\P; use W\\C; use W\\N; use W\\M; use function W\\f; use function W\\mkC; use function W\\mkU; use function W\\mkJ; use const W\\K;\n"
	as := func(kind byte, n string) string {
		if n == "DD" {
			return n
		}
		return "A" + n
	}
	return []Ctx{
		{"one file", "", true, "", "", plain},
		{"two files", "", false, "", "", plain},
		{"qualified", "", false, "", "", pre("\\")},
		{"namespace", "W", true, "", "", plain},
		{"same namespace", "W", false, "namespace W;\n", "", plain},
		{"namespace block", "W", false, "namespace W {\n", "\n}", plain},
		{"from the global namespace", "W", false, "", "", pre("W\\")},
		{"qualified names", "W", false, "namespace Q;\n", "", pre("\\W\\")},
		{"relative names", "W\\X", false, "namespace W;\n", "", pre("X\\")},
		{"imported", "W", false, "namespace Q;\n" + uses, "", plain},
		{"imported in the global namespace", "W", false, uses, "", plain},
		{"imported namespace", "W\\X", false, "namespace Q;\nuse W\\X;\n", "", pre("X\\")},
		{"renamed", "W", false, "namespace Q;\nuse W\\I as AI; use W\\J as AJ; use W\\T as AT; use W\\P as AP; use W\\C as AC; use W\\N as AN; use W\\M as AM; use function W\\f as Af, W\\mkC as AmkC; use function W\\{mkU as AmkU, mkJ as AmkJ}; use const W\\K as AK;\n", "", as},
		{"grouped", "W", false, "namespace Q;\nuse W\\{I, J, T, P, C, N, M, function f, function mkC, function mkU, function mkJ, const K};\n", "", plain},
	}
}

// More are statements of other ways to refer to a declaration.
var More = []string{
	"$o = new «C.N:N»; new $o; $o->«cm:Nm»();",
	"$o = «F.mkJ:mkJ»(); $o::«is:is»(1); $o::«IK:IK»;",
	"«F.mkU:mkU»()::«CK:CK,NK»;",
	"«F.mkU:mkU»()->«none:»();",
	"interface Z extends «C.J:J» { function z(«C.C:C» $c): «C.I:I»; const ZK = self::«IK:IK»; }",
	"class Z { function z() { return new class «:Pc»extends «C.C:C» { function y() { return $this->«pp:pp» + self::«CK:CK»; } }; } }",
	"trait Z { function z(«C.C:C» $c) { return $c->«cm:cm»(); } }",
	"$v = static fn(«C.C:C» $c): «C.N:N» => $c->«cm:cm»();",
	"$v = fn($c) => «F.f:f»($c);",
	"try {} catch («C.N:N» | «C.C:C» $e) {}",
	"if ($x instanceof «C.N:N» && !$y instanceof «C.I:I») {}",
	"«F.f:f»(...$a); «F.f:f» (1); «F.f:f»(\n1\n);",
	"$v = [new «C.N:N», 'cm']; $v = [«C.C:C»::class, 'cs'];",
	"$v = ['a' => «K.K:K», «K.K:K» => 1];",
	"$a->b->c(«F.f:f»(«K.K:K»))->d(«C.C:C»::«CK:CK»);",
	"return «F.mkC:mkC»()\n\t->«cm:cm»() . «F.mkC:mkC»()->«pm:pm»();",
	"unset($a[«K.K:K»]); isset($a[«C.C:C»::«CK:CK»]); empty(«F.f:f»(1));",
	"while («F.f:f»(1)): «F.f:f»(2); endwhile; do { «F.f:f»(3); } while («F.f:f»(4));",
	"$v = function () use ($x): «C.C:C» { static $s = «K.K:K»; return new «C.C:Pc»(1); };",
	"$x = «F.f:f»(1) ?: «F.f:f»(2) ?? «F.f:f»(3); $x .= «F.f:f»(4); $x[] = «F.f:f»(5); [$y, $z] = «F.f:f»(6);",
	"function z(int $a = «K.K:K», $b = [«C.C:C»::«CK:CK»]) {}",
	"abstract class Z { abstract function z(«C.C:C» $a, «C.N:N» ...$b): «C.I:I»; }",
	"@«F.f:f»(1); print «F.f:f»(2); exit(«F.f:f»(3));",
	"include «F.f:f»(1); throw new «C.N:N»(«F.f:f»(2));",
	"/** @deprecated */ function dz() {} class Zf { function f() {} const K = 1; } (new Zf)->f(); Zf::K; $f = 'f'; $f(1); $K; $C;",
}
