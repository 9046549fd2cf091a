package p

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/union"

	"verif/h"
)

var (
	unaryOps    = []code.UnaryOperator{code.Inc, code.Dec, code.Neg, code.BitNot}
	binaryOps   = []code.BinaryOperator{code.Add, code.Sub, code.Mul, code.Div, code.Concat, code.BitAnd, code.BitOr, code.BitXor, code.BitShiftLeft, code.BitShiftRight, code.BitShiftRightArithmetic}
	booleanOps  = []code.BooleanOperator{code.Not, code.And, code.Or, code.Lesser, code.LesserEquals, code.Equals, code.GreaterEquals, code.Greater, code.Ternary}
	scalarTypes = []code.ScalarType{code.Bool, code.Uint, code.Uint8, code.Uint16, code.Uint32, code.Uint64, code.Int, code.Int8, code.Int16, code.Int32, code.Int64,
		code.Float, code.Double, code.String, code.UUID, code.Date, code.DateTimeSecs, code.DateTimeMillis, code.DurationDays, code.DurationSecs, code.DurationMillis}
	aggTypes = []code.AggregateType{code.JSON, code.Array, code.Enum, code.List, code.Map, code.Maybe, code.Object, code.Set}
	levels   = []code.AccessLevel{code.Private, code.Package, code.PackageSub, code.Public}
)

// classes checks that operators and types are distinct and fall in exactly one class.
func classes(c *h.Ctx) {
	ops := map[code.Operator]string{}
	add := func(op code.Operator, class string) {
		if was, isa := ops[op]; isa {
			c.Fail("operator-distinct", "operator %d is both %s and %s", op, was, class)
		}
		ops[op] = class
		got := []bool{op.IsUnary(), op.IsBinary(), op.IsBoolean()}
		want := []bool{class == "unary", class == "binary", class == "boolean"}
		c.Check(fmt.Sprint(got) == fmt.Sprint(want), "operator-class", "operator %d is %s: IsUnary, IsBinary, IsBoolean = %v", op, class, got)
		c.Ev("operators classified")
		c.Obs("op", op)
	}
	for _, op := range unaryOps {
		add(code.Operator(op), "unary")
	}
	for _, op := range binaryOps {
		add(code.Operator(op), "binary")
	}
	for _, op := range booleanOps {
		add(code.Operator(op), "boolean")
	}
	types := map[code.Type]bool{}
	addT := func(t code.Type, scalar bool) {
		c.Check(!types[t], "type-distinct", "type %d occurs twice", t)
		types[t] = true
		c.Check(code.IsScalar(t) == scalar && code.IsAggregate(t) == !scalar, "type-class", "type %d: IsScalar %v, IsAggregate %v, want scalar %v", t, code.IsScalar(t), code.IsAggregate(t), scalar)
		c.Ev("types classified")
		c.Obs("type", t)
	}
	for _, t := range scalarTypes {
		addT(code.Type(t), true)
	}
	for _, t := range aggTypes {
		addT(code.Type(t), false)
	}
	c.Check(code.AccessLevel(0) == code.Private && code.ValKind(0) == code.LitVal, "code-default", "zero values")
	seen := map[any]bool{}
	for _, x := range []any{code.Private, code.Package, code.PackageSub, code.Public, code.LitVal, code.VarVal, code.VarConst, code.Constant, code.Local, code.Assignment, code.Case} {
		c.Check(!seen[x], "code-distinct", "%T %v occurs twice", x, x)
		seen[x] = true
	}
}

// genType generates a type definition with the expected structure as a plain string.
func genType(c *h.Ctx, depth int) (*code.TypeDef, string) {
	R := c.R
	var (
		acc  []code.AccessLevel
		want = code.Private
	)
	for n := R.Intn(3); n > 0; n-- {
		acc = append(acc, levels[R.Intn(len(levels))])
	}
	if len(acc) > 0 {
		want = acc[0]
	}
	name := gStr(R)
	strs := func() (s []string) {
		for n := R.Intn(4); n > 0; n-- {
			s = append(s, gStr(R)+strconv.Itoa(n))
		}
		return
	}
	k := R.Intn(10)
	if depth == 0 && k > 1 {
		k %= 2
	}
	desc := func(t code.Type, bounds []uint, name string, names []string, key, val string) string {
		return fmt.Sprintf("{%d %d %v %q %q key=%s val=%s}", want, t, bounds, name, names, key, val)
	}
	// the inner type, sometimes nil, which must be refused
	inner := func() (*code.TypeDef, string) {
		if R.Intn(12) == 0 {
			return nil, "nil"
		}
		return genType(c, depth-1)
	}
	var (
		t       *code.TypeDef
		s       string
		refuse  bool
		mk      func() *code.TypeDef
		e, e2   *code.TypeDef
		es, es2 string
	)
	switch k {
	case 0:
		st := scalarTypes[R.Intn(len(scalarTypes))]
		mk = func() *code.TypeDef { return code.OfScalarType(st, acc...) }
		s = desc(code.Type(st), nil, "", nil, "-", "-")
	case 1:
		mk = func() *code.TypeDef { return code.OfJSONType(acc...) }
		s = desc(code.Type(code.JSON), nil, "", nil, "-", "-")
	case 2:
		e, es = inner()
		var bounds []uint
		for n := R.Intn(4); n > 0; n-- {
			bounds = append(bounds, uint(R.Intn(10)))
		}
		mk = func() *code.TypeDef { return code.OfArrayType(e, bounds, acc...) }
		s, refuse = desc(code.Type(code.Array), bounds, "", nil, "-", es), e == nil
	case 3:
		e, es = inner()
		names := strs()
		mk = func() *code.TypeDef { return code.OfEnumType(name, e, names, acc...) }
		s, refuse = desc(code.Type(code.Enum), nil, name, names, "-", es), e == nil || len(names) == 0
	case 4:
		e, es = inner()
		mk = func() *code.TypeDef { return code.OfListType(e, acc...) }
		s, refuse = desc(code.Type(code.List), nil, "", nil, "-", es), e == nil
	case 5, 6:
		e, es = inner()
		e2, es2 = inner()
		mk = func() *code.TypeDef { return code.OfMapType(e, e2, acc...) }
		s, refuse = desc(code.Type(code.Map), nil, "", nil, es, es2), e == nil || e2 == nil
	case 7:
		e, es = inner()
		mk = func() *code.TypeDef { return code.OfMaybeType(e, acc...) }
		s, refuse = desc(code.Type(code.Maybe), nil, "", nil, "-", es), e == nil
	case 8:
		e, es = inner()
		names := strs()
		mk = func() *code.TypeDef { return code.OfObjectType(e, name, names, acc...) }
		s, refuse = desc(code.Type(code.Object), nil, name, names, "-", es), e == nil
	default:
		e, es = inner()
		mk = func() *code.TypeDef { return code.OfSetType(e, acc...) }
		s, refuse = desc(code.Type(code.Set), nil, "", nil, "-", es), e == nil
	}
	v, did := h.Panics(func() { t = mk() })
	c.Check(did == refuse, "type-refused", "constructing %s: panic %v, want refused=%v", s, v, refuse)
	c.Ev("type constructions")
	if did {
		return code.OfScalarType(code.Bool), fmt.Sprintf("{%d %d [] \"\" [] key=- val=-}", code.Private, code.Bool)
	}
	if got := showType(t); got != s {
		c.Fail("type-fields", "constructed %s, want %s", got, s)
	}
	return t, s
}

func showType(t *code.TypeDef) string {
	m := func(x union.Maybe[*code.TypeDef]) string {
		if x.Empty() {
			return "-"
		}
		return showType(x.Get())
	}
	return fmt.Sprintf("{%d %d %v %q %q key=%s val=%s}", t.Access, t.Typ, t.ArrayBounds, t.Name, t.Names, m(t.KeyType), m(t.ValueType))
}

func codeModel(c *h.Ctx) {
	R := c.R
	t, s := genType(c, 3)
	c.Obs("model", s)
	c.Sample("%s", s)
	// values
	var acc []code.AccessLevel
	for n := R.Intn(3); n > 0; n-- {
		acc = append(acc, levels[R.Intn(len(levels))])
	}
	text, konst := gStr(R), R.Intn(2) == 0
	lit, vr := code.OfLitVal(t, text), code.OfVarVal(konst, t, text, acc...)
	kind := code.VarVal
	if konst {
		kind = code.VarConst
	}
	c.Check(lit.Kind == code.LitVal && lit.Typ == t && lit.Value == text && lit.Access.Empty(), "lit-val", "OfLitVal(%s, %q) = %v", s, text, lit)
	ok := vr.Kind == kind && vr.Typ == t && vr.Value == text && vr.Access.Present() == (len(acc) > 0)
	c.Check(ok && (len(acc) == 0 || vr.Access.Get() == acc[0]), "var-val", "OfVarVal(%v, %s, %q, %v) = %v", konst, s, text, acc, vr)
	_, did := h.Panics(func() { code.OfLitVal(nil, text) })
	_, did2 := h.Panics(func() { code.OfVarVal(konst, nil, text) })
	c.Check(did && did2, "val-nil-type", "a value without a type was not refused")

	// expressions
	vals := []*code.Val{&lit, &vr, {Value: "third"}}
	R.Shuffle(3, func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	for i := range vals {
		if R.Intn(8) == 0 {
			vals[i] = nil
		}
	}
	extra := vals[1:]
	cut := R.Intn(3)
	extra = extra[:cut]
	chk := func(what string, f func() code.Expr, op code.Operator, n int) {
		var (
			e      code.Expr
			refuse = false
			given  = append([]*code.Val{vals[0]}, extra...)
		)
		if strings.HasPrefix(what, "binary") {
			given = vals
		}
		for i := 0; i < n; i++ {
			refuse = refuse || i >= len(given) || given[i] == nil
		}
		v, did := h.Panics(func() { e = f() })
		if !c.Check(did == refuse, "expr-refused", "%s operator %d with operands %v: panic %v, want refused=%v", what, op, given, v, refuse) || did {
			return
		}
		ok := e.Op == op && e.Val1 == vals[0] && e.Val2.Present() == (n >= 2) && e.Val3.Present() == (n == 3)
		ok = ok && (n < 2 || e.Val2.Get() == vals[1]) && (n < 3 || e.Val3.Get() == vals[2])
		c.Check(ok, "expr", "%s operator %d: %v", what, op, e)
		c.Ev("expressions")
		c.Obs("expr", op, len(extra), vals[0] == nil, vals[1] == nil, vals[2] == nil)
	}
	u := unaryOps[R.Intn(len(unaryOps))]
	chk("unary", func() code.Expr { return code.OfUnaryExpr(u, vals[0]) }, code.Operator(u), 1)
	b := binaryOps[R.Intn(len(binaryOps))]
	chk("binary", func() code.Expr { return code.OfBinaryExpr(b, vals[0], vals[1]) }, code.Operator(b), 2)
	o := booleanOps[R.Intn(len(booleanOps))]
	n := 2
	switch o {
	case code.Not:
		n = 1
	case code.Ternary:
		n = 3
	}
	chk("boolean", func() code.Expr { return code.OfBooleanExpr(o, vals[0], extra...) }, code.Operator(o), n)
}

// ==== generator directories and files, run in an unprivileged child process on scratch files only

const unprivileged = 65534

type childFail struct {
	Sig, Msg string
}

type childOut struct {
	Fails   []childFail
	Events  map[string]int
	Keys    []string
	Samples []string
}

var (
	selfOnce sync.Once
	selfErr  error
	scratch  string
)

// childSetup makes a scratch directory with a copy of this program that an unprivileged user can execute.
func childSetup() {
	selfErr = func() error {
		dir, err := os.MkdirTemp("", "verif-gen-")
		if err != nil {
			return err
		}
		scratch = dir
		if err = os.Chmod(dir, 0o755); err != nil {
			return err
		}
		b, err := os.ReadFile("/proc/self/exe")
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dir, "child"), b, 0o755)
	}()
}

func generatorCase(c *h.Ctx, seed int64, n int) {
	selfOnce.Do(childSetup)
	inconclusive := func(err error) {
		os.RemoveAll(scratch)
		fmt.Fprintln(os.Stderr, "error: the unprivileged child process could not be run:", err)
		os.Exit(2)
	}
	if selfErr != nil {
		inconclusive(selfErr)
	}
	work := filepath.Join(scratch, fmt.Sprintf("w%d", c.Idx))
	if err := os.Mkdir(work, 0o755); err != nil {
		inconclusive(err)
	}
	defer os.RemoveAll(work)
	if err := os.Chown(work, unprivileged, unprivileged); err != nil {
		inconclusive(err)
	}
	var out, errs bytes.Buffer
	cmd := exec.Command(filepath.Join(scratch, "child"))
	cmd.Dir, cmd.Stdout, cmd.Stderr = work, &out, &errs
	cmd.Env = []string{"VERIF_GENERATOR_CHILD=1", fmt.Sprintf("VERIF_CHILD_SEED=%d", seed), fmt.Sprintf("VERIF_CHILD_N=%d", n), "PATH=/usr/bin:/bin"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: unprivileged, Gid: unprivileged}, Setpgid: true}
	if err := cmd.Start(); err != nil {
		inconclusive(err)
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() {
		c.Fail("generator-hang", "the generator did not finish in 60 s")
		return
	}
	var res childOut
	if err != nil || json.Unmarshal(out.Bytes(), &res) != nil {
		if strings.Contains(errs.String(), "bantling/micro") {
			c.Fail("generator-crash", "%v: %s", err, trimTo(errs.String(), 2000))
			return
		}
		inconclusive(fmt.Errorf("%v: %s", err, trimTo(errs.String(), 2000)))
	}
	for _, f := range res.Fails {
		c.Fail(f.Sig, "%s", f.Msg)
	}
	for k, v := range res.Events {
		c.EvN(k, v)
	}
	for _, k := range res.Keys {
		c.Obs(k)
	}
	for _, s := range res.Samples {
		c.Sample("%s", s)
	}
}

func trimTo(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Child runs as the unprivileged child process if asked to.
func Child() bool {
	if os.Getenv("VERIF_GENERATOR_CHILD") == "" {
		return false
	}
	if os.Getuid() == 0 {
		fmt.Fprintln(os.Stderr, "the child must not be root")
		os.Exit(3)
	}
	syscall.Umask(0o022)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_CHILD_SEED"), 10, 64)
	n, _ := strconv.Atoi(os.Getenv("VERIF_CHILD_N"))
	out := &childOut{Events: map[string]int{}}
	cwd, err := os.Getwd()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for i := 0; i < n; i++ {
		R := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		generatorHistory(R, out, filepath.Join(cwd, strconv.Itoa(i)))
		if err := os.Chdir(cwd); err != nil {
			break
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
	return true
}

// tree lists the dirs and files with contents under root.
func tree(root string) string {
	var l []string
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(root, p)
		switch {
		case err != nil:
			l = append(l, rel+" UNREADABLE")
		case d.IsDir():
			l = append(l, rel+"/")
		case d.Type()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			l = append(l, rel+" -> "+t)
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				l = append(l, rel+" UNREADABLE")
			} else {
				l = append(l, fmt.Sprintf("%s %q", rel, b))
			}
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func generatorHistory(R *rand.Rand, out *childOut, root string) {
	must := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
	}
	var (
		log  []string
		bad  bool
		fail = func(sig, format string, args ...any) {
			bad = true
			if len(out.Fails) < 20 {
				out.Fails = append(out.Fails, childFail{sig, trimTo(strings.Join(log, "; "), 3000) + ": " + trimTo(fmt.Sprintf(format, args...), 3000)})
			}
		}
	)
	must(os.Mkdir(root, 0o755))
	must(os.Chdir(root))
	// what must never be touched
	must(os.MkdirAll("keep/sub", 0o755))
	must(os.WriteFile("keep/sub/file", []byte("keep"), 0o644))
	must(os.WriteFile("sibling", []byte("sibling"), 0o644))
	must(os.Mkdir("out", 0o755))

	// model: relative to base
	var (
		bg      code.BaseGenerator
		base    string // absolute, "" until set
		given   string
		dirs    = map[string]bool{}
		files   = map[string]string{}
		made    = map[string]bool{} // dirs made with Dir
		cur     string
		haveCur bool
		src     string
	)
	before := func() string { return tree(root) }
	setBase := func() (p string, want string, refuse bool) {
		k := R.Intn(9)
		abs := ""
		if R.Intn(2) == 0 {
			abs = root + "/"
		}
		switch k {
		case 0: // new, one level
			p, want = "new", "new"
		case 1: // new, several levels
			p, want = "out/a/b", "out/a/b"
		case 2, 3: // existing from a prior run
			must(os.MkdirAll("out/gen/x/y", 0o755))
			must(os.WriteFile("out/gen/x/y/old", []byte("old"), 0o644))
			must(os.WriteFile("out/gen/old", []byte("old"), 0o600))
			p, want = []string{"out/gen", "out/gen/", "out/./gen", "out/../out/gen//"}[R.Intn(4)], "out/gen"
		case 4: // existing and empty
			must(os.MkdirAll("out/empty", 0o755))
			p, want = "out/empty", "out/empty"
		case 5: // an existing file
			p, want, refuse = "sibling", "sibling", true
		case 6: // below a file
			p, want, refuse = "sibling/x", "sibling/x", true
		case 7: // a symlink to a dir whose contents are not the generator's: the link is replaced
			must(os.Symlink("../keep", "out/link"))
			p, want = "out/link", "out/link"
		case 8: // not permitted
			must(os.MkdirAll("out/ro/x", 0o755))
			must(os.WriteFile("out/ro/x/f", []byte("f"), 0o644))
			must(os.Chmod("out/ro", 0o555))
			p, want, refuse = []string{"out/ro/new", "out/ro/new/deep"}[R.Intn(2)], "out/ro/new", true
		}
		return abs + p, want, refuse
	}
	model := func() string {
		var l []string
		l = append(l, "./")
		for d := range dirs {
			l = append(l, d+"/")
		}
		for f, s := range files {
			l = append(l, fmt.Sprintf("%s %q", f, s))
		}
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	outside := func(all, rel string) string {
		var l []string
		for _, x := range strings.Split(all, "\n") {
			if x == rel+"/" || strings.HasPrefix(x, rel+"/") || strings.HasPrefix(x, rel+" -> ") {
				continue
			}
			l = append(l, x)
		}
		return strings.Join(l, "\n")
	}
	rel := ""
	was := before()
	outsideWas := ""
	sync := func(what string) {
		now := before()
		if base == "" {
			if now != was {
				fail("generator-outside", "%s changed\n%s\nto\n%s", what, was, now)
			}
			return
		}
		if got := tree(base); got != model() {
			fail("generator-tree", "after %s the base path holds\n%s\nwant\n%s", what, got, model())
		}
		if got := outside(now, rel); got != outsideWas {
			fail("generator-outside", "%s changed files outside the base path:\n%s\nwere\n%s", what, got, outsideWas)
		}
	}
	names := []string{"a", "b", "main", "x.go", "y.go", "dir with space", "é世", "Main", "É", "UPPER", " lead", "trail ", "..a", ".hidden", "a.b.c", "-x", "$HOME", "~", "*", "back\\slash"}
	// in many histories few names are used again and again, in different dirs
	few := R.Intn(3) == 0
	if few {
		R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		names = names[:2+R.Intn(2)]
		out.Events["histories with few names"]++
	}
	// a few histories are long, with large writes, many parts, long names and deep directories
	big := R.Intn(40) == 0
	steps, maxName := 3+R.Intn(14), 60
	if few {
		steps += 15
	}
	if big {
		steps, maxName = 150+R.Intn(100), 600
		names = append(names, strings.Repeat("n", 200), strings.Repeat("é", 120)+".go")
		for i := 0; i < 60; i++ {
			names = append(names, fmt.Sprint("f", i))
		}
		out.Events["long histories"]++
	}
	for step, n := 0, steps; step < n && !bad; step++ {
		k := R.Intn(10)
		if base == "" && R.Intn(3) > 0 {
			k = 0
		}
		out.Events["generator steps"]++
		switch {
		case k == 0: // set base path
			if base != "" {
				// again: refused, and nothing changes, whatever the path
				p := []string{given, root + "/keep", "keep", "again", root}[R.Intn(5)]
				log = append(log, fmt.Sprintf("SetBasePath(%q) again", p))
				if _, did := h.Panics(func() { bg.SetBasePath(p) }); !did {
					fail("generator-base-again", "setting the base path a second time was accepted")
				}
				sync("SetBasePath")
				if v, did := h.Panics(func() {
					if g := bg.GetBasePath(); path.Clean(g) != path.Clean(given) {
						fail("generator-base", "GetBasePath is %q, want %q", g, given)
					}
				}); did {
					fail("generator-base", "GetBasePath panicked: %v", v)
				}
				continue
			}
			p, want, refuse := setBase()
			log = append(log, fmt.Sprintf("SetBasePath(%q)", p))
			was = before()
			v, did := h.Panics(func() { bg.SetBasePath(p) })
			if did != refuse {
				fail("generator-base-set", "panic %v, want refused=%v", v, refuse)
				break
			}
			if refuse {
				sync("a refused SetBasePath")
				step = n // what a generator without a base path does next is not specified
				break
			}
			given, rel, base = p, want, root+"/"+want
			// parents that were created
			outsideWas = outside(was, rel)
			for d := path.Dir(want); d != "."; d = path.Dir(d) {
				if !strings.Contains("\n"+outsideWas+"\n", "\n"+d+"/\n") {
					outsideWas += "\n" + d + "/"
				}
			}
			l := strings.Split(outsideWas, "\n")
			sort.Strings(l)
			outsideWas = strings.Join(l, "\n")
			if fi, err := os.Lstat(base); err != nil || !fi.IsDir() {
				fail("generator-base-set", "the base path is not a directory: %v %v", fi, err)
				break
			}
			sync("SetBasePath")
			if v, did := h.Panics(func() {
				if g := bg.GetBasePath(); path.Clean(g) != path.Clean(given) {
					fail("generator-base", "GetBasePath is %q, want %q", g, given)
				}
			}); did {
				fail("generator-base", "GetBasePath panicked: %v", v)
			}
		case base == "":
			switch R.Intn(3) {
			case 0:
				log = append(log, "GetBasePath")
				if _, did := h.Panics(func() { bg.GetBasePath() }); !did {
					fail("generator-no-base", "GetBasePath before SetBasePath did not panic")
				}
			case 1:
				nm := []string{"a", strings.TrimPrefix(root, "/") + "/out/stray"}[R.Intn(2)]
				log = append(log, fmt.Sprintf("Dir(%q)", nm))
				if _, did := h.Panics(func() { bg.Dir(nm) }); !did {
					fail("generator-no-base", "Dir before SetBasePath did not panic")
				}
			default:
				nm := []string{"a", strings.TrimPrefix(root, "/") + "/out/stray"}[R.Intn(2)]
				log = append(log, fmt.Sprintf("Src(%q)", nm))
				if _, did := h.Panics(func() { bg.Src(nm) }); !did {
					fail("generator-no-base", "Src before SetBasePath did not panic")
				}
			}
			sync("a call before SetBasePath")
		case k <= 4: // dir
			parents := []string{""}
			for d := range made {
				parents = append(parents, d+"/")
			}
			sort.Strings(parents)
			nm := parents[R.Intn(len(parents))] + names[R.Intn(len(names))]
			key := path.Clean(nm)
			if len(nm) > maxName {
				continue
			}
			_, isFile := files[key]
			refuse := made[key] || isFile
			nm = []string{nm, nm, nm + "/", "./" + nm, "zz/../" + nm, nm + "//."}[R.Intn(6)]
			log = append(log, fmt.Sprintf("Dir(%q)", nm))
			v, did := h.Panics(func() { bg.Dir(nm) })
			if did != refuse {
				fail("generator-dir", "panic %v, want refused=%v", v, refuse)
				break
			}
			if !refuse {
				made[key], dirs[key], cur, haveCur = true, true, key, true
				if fi, err := os.Stat(base + "/" + key); err != nil {
					fail("generator-dir", "the directory is not there: %v", err)
				} else if fi.Mode().Perm()&0o700 != 0o700 {
					fail("generator-dir-perm", "the directory cannot be used: %v", fi.Mode())
				}
			}
			sync("Dir")
		case k <= 7: // src
			nm := names[R.Intn(len(names))]
			if !haveCur {
				nm = []string{nm, strings.TrimPrefix(root, "/") + "/out/stray"}[R.Intn(2)]
			}
			key := cur + "/" + nm
			_, isFile := files[key]
			refuse := isFile || dirs[key] || !haveCur
			if haveCur { // the same file by other names
				nm = []string{nm, nm, nm, "./" + nm, "zz/../" + nm, ".//" + nm, "../" + path.Base(cur) + "/" + nm}[R.Intn(7)]
				if !refuse && R.Intn(4) == 0 {
					// something else left a file of that name: it is not of this generator, and is replaced
					if os.WriteFile(base+"/"+key, []byte(strings.Repeat("foreign text\n", 1+R.Intn(5))), 0o644) == nil {
						log = append(log, "a foreign file is put in "+key)
						out.Events["foreign files replaced"]++
					}
				}
			}
			log = append(log, fmt.Sprintf("Src(%q)", nm))
			v, did := h.Panics(func() { bg.Src(nm) })
			if did != refuse {
				fail("generator-src", "panic %v, want refused=%v", v, refuse)
				break
			}
			if !refuse {
				files[key], src = "", key
			}
			sync("Src")
		default: // write
			if src == "" {
				continue
			}
			var parts []string
			for m := 1 + R.Intn(3); m > 0; m-- {
				parts = append(parts, []string{"package x\n", "é世界🙂", "", "const a = 1\n"}[R.Intn(4)])
			}
			if total := len(files[src]); big && total < 2<<20 && R.Intn(3) == 0 {
				if R.Intn(2) == 0 {
					parts = append(parts, strings.Repeat("é世🙂const\n", 100+R.Intn(12000)))
				} else {
					for m := 50 + R.Intn(1500); m > 0; m-- {
						parts = append(parts, fmt.Sprintf("const a%d = 1\n", m))
					}
				}
				out.Events["large writes"]++
				log = append(log, fmt.Sprintf("write %d parts, %d bytes", len(parts), len(strings.Join(parts, ""))))
			} else {
				log = append(log, fmt.Sprintf("write %q", parts))
			}
			v, did := h.Panics(func() {
				if err := bg.CurrentSrc().Write(parts...); err != nil {
					panic(err)
				}
			})
			if did {
				fail("generator-write", "%v", v)
				break
			}
			files[src] += strings.Join(parts, "")
			sync("a write")
		}
	}
	out.Keys = append(out.Keys, strings.Join(log, ";"))
	if len(out.Samples) < 2 {
		out.Samples = append(out.Samples, strings.Join(log, "; "))
	}
	os.Chmod(root+"/out/ro", 0o755)
}

func init() {
	h.Register("C27", "distinct type definitions, expressions, and generator histories whose files were compared with a model", func(r *h.Run) {
		n, m := 60000, 24
		if r.Thorough() {
			n, m = 200000, 400
		}
		r.Group("classes", 1, classes)
		r.Group("model", n, codeModel)
		r.Group("generator", m, func(c *h.Ctx) { generatorCase(c, c.R.Int63n(1<<40), 40) })
		if scratch != "" {
			os.RemoveAll(scratch)
		}
	})
}
