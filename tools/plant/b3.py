LX='lexer/lexer.go'; PS='parser/parser.go'; TK='token/token.go'
WK='ast/astutils/walk.go'; PR='ast/astutils/print.go'; EN='environment/environment.go'; VA='runtime/validators/validators.go'; CF='config/config.go'
GG='transforms/codegen/golang/gen_grouped.go'; GI='transforms/codegen/golang/gen_identifiers.go'; GE='transforms/codegen/golang/gen.go'; GL='transforms/codegen/golang/gen_literals.go'; GO='transforms/codegen/golang/options.go'
CG='cmd/cddlc/commands/generate.go'; CI='cmd/cddlc/commands/init.go'; CR='cmd/cddlc/commands/repl.go'; CC='cmd/cddlc/commands.go'

GEN='''
cddl, errs := parse(%s)
check(len(errs) == 0, "%%s", errs)
log.SetOutput(io.Discard)
g := gogen.NewGenerator("p")
g.Visit(cddl)
out := &bytes.Buffer{}
err := g.String(out)
'''
GENI=['bytes','io','log','@transforms/codegen/golang']
BUGS=[
dict(id='A03-enumeration-mutates',p='A03',edits=[(PR,"""	pre := p.spaceLevel(spaceChar)
	return fmt.Sprintf("Enumeration %s (\\n%sValue: %s\\n%s)", p.formatPosition(en.Pos), pre, p.format(en.Value), pre)""","""	pre, value := p.spaceLevel(spaceChar), en.Value
	if g, ok := value.(*ast.Group); ok && len(g.Entries) > 1 {
		rest := *g
		rest.Entries = append(g.Entries[:0], g.Entries[1:]...)
		value = &rest // the first is the default
	}
	return fmt.Sprintf("Enumeration %s (\\n%sValue: %s\\n%s)", p.formatPosition(en.Pos), pre, p.format(value), pre)""")],
 needs='formatting an enumeration of a group with several entries',
 breaks='formatting moves the entries of the group in place: the tree changes',
 go='''
cddl, _ := parse("a = &( x: 1, y: 2 )")
e := cddl.Rules[0].(*ast.Rule).Value.(*ast.Enumeration)
astutils.Format(e)
n := e.Value.(*ast.Group).Entries[0].(*ast.Entry).Name.Name
check(n == "x", "%s", n)
''',imp=['@ast/astutils']),
dict(id='X01-message-order',p='X01',edits=[(PS,"""	for _, tok := range supported {
		toks = append(toks, tok.String())
	}
""","""	unique := map[string]bool{}
	for _, tok := range supported {
		unique[tok.String()] = true
	}
	for name := range unique {
		toks = append(toks, name)
	}
""")],
 needs='a diagnostic that lists several supported tokens',
 breaks='their order in the message is random',
 go='''
seen := map[string]bool{}
for i := 0; i < 200; i++ {
    _, errs := parse("a = bool .size 3")
    seen[errs[0].Error()] = true
}
check(len(seen) == 1, "%v", seen)
'''),
dict(id='G03-names-rewritten-in-tree',p='G03',edits=[(GI,"""	formatted := strcase.ToCamel(ident.Name)
""","""	ident.Name = strings.ReplaceAll(ident.Name, ".", "-")
	formatted := strcase.ToCamel(strings.TrimSpace(ident.Name))
""")],
 needs='a name with a dot',
 breaks='generating code changes the names in the syntax tree',
 go='''
cddl, errs := parse("a.b = int")
check(len(errs) == 0, "%s", errs)
log.SetOutput(io.Discard)
gogen.NewGenerator("p").Visit(cddl)
check(cddl.Rules[0].(*ast.Rule).Name.Name == "a.b", "%s", cddl.Rules[0].(*ast.Rule).Name.Name)
''',imp=['io','log','@transforms/codegen/golang']),
dict(id='G03-nested-error-swallowed',p='G03',edits=[(GG,"""			stct, err := g.transpileNode(val.Item)
			if err != nil {
				return nil, err
			}
			if cast, ok := stct.node.(*gast.Field); ok {""","""			stct, err := g.transpileNode(val.Item)
			if err != nil {
				return nil, err
			}
			if cast, ok := stct.node.(*gast.Field); !ok {
				continue // nothing to mark
			} else {"""),(GG,"""				field = cast
			} else {
				return nil, err
			}""","""				field = cast
			}""")],
 needs='an optional entry without a name in a group or array, as in [ x: int, ? tstr ]',
 breaks='the entry is left out of the generated struct without an error',
 go='''
cddl, errs := parse("a = [ x: int, ? tstr ]")
check(len(errs) == 0, "%s", errs)
log.SetOutput(io.Discard)
defer func() {
    if recover() != nil {
        os.Exit(0)
    }
}()
g := gogen.NewGenerator("p")
g.Visit(cddl)
out := &bytes.Buffer{}
err := g.String(out)
check(err != nil || bytes.Contains(out.Bytes(), []byte("string")), "generated: %s", out)
''',imp=GENI),
dict(id='F01-empty-case-conversion',p='F01',edits=[(GO,"	if _, ok := converters[o.CaseConversion]; !ok {","	if _, ok := converters[o.CaseConversion]; !ok && o.CaseConversion != \"\" {")],
 needs='generator options without a case conversion',
 breaks='options that name no known conversion are valid',
 go='''
check(gogen.Options{}.Valid() != nil, "valid")
_ = parse
''',imp=['@transforms/codegen/golang']),
dict(id='F01-plugin-validity-of-last',p='F01',edits=[(CF,"""	for _, plugin := range c.Plugins {
		err := plugin.Valid()
		if err != nil {
			return err
		}
	}
	return nil
}""","""	var err error
	for _, plugin := range c.Plugins {
		err = plugin.Valid()
	}
	return err
}""")],
 needs='several plugins of which one but the last is invalid',
 breaks='the configuration counts as valid',
 go='''
c := &config.Config{Plugins: []*config.Plugin{
    {Local: config.PluginLocal{Path: "missing"}},
    {Local: config.PluginLocal{Path: "."}},
}}
check(c.Valid() != nil, "valid")
_ = parse
''',imp=['@config']),
dict(id='F01-yaml-remote-key',p='F01',edits=[(CF,"""	Remote PluginRemote `json:"remote" yaml:"remote"`""","""	Remote PluginRemote `json:"remote" yaml:"remotes"`""")],
 needs='a YAML configuration with a plugin that has a remote',
 breaks='the remote is silently ignored',
 go='''
check(os.WriteFile("cddlc.yaml", []byte("plugins:\\n- name: a\\n  remote: {url: u}\\n"), 0o666) == nil, "write")
c, err := config.LoadConfig("cddlc.yaml")
check(err == nil && c.Plugins[0].Remote.URL == "u", "%v", err)
_ = parse
''',imp=['@config']),
dict(id='F02-empty-file-taken',p='F02',edits=[(CI,"""	_, err = os.Stat(fp)
	switch {
	case err == nil:
		// file exists
		return""","""	stat, err := os.Stat(fp)
	switch {
	case err == nil && stat.Size() == 0:
		// nothing to lose
		return os.OpenFile(fp, os.O_WRONLY, 0666)
	case err == nil:
		// file exists
		return""")],
 needs='an empty cddlc.json',
 breaks='init writes into the existing file',
 sh='''
: >cddlc.json
"$tmp/cddlc" init && exit 1
[ ! -s cddlc.json ]
'''),
dict(id='F02-default-not-loadable',p='F02',edits=[(CF,"""		Version: "1",
""","""		Version: "1", Options: map[string]interface{}{"case-conversion": "camelcase"},
"""),(CF,"""	Options map[string]interface{} `json:"options" yaml:"options"`""","""	Options map[string]interface{} `json:"-" yaml:"options"`""")],
 needs='the default configuration written by init and read again',
 breaks='its options are lost: what init writes does not load as the default; JSON options are ignored',
 go='''
d := config.NewDefaultConfig()
b, _ := json.Marshal(d)
os.WriteFile("cddlc.json", b, 0o666)
c, err := config.LoadConfig("cddlc.json")
check(err == nil && len(c.Options) == len(d.Options), "%v", c)
_ = parse
''',imp=['encoding/json','@config']),
dict(id='C01-name-cut-at-first-dot',p='C01',edits=[(CG,"""strings.TrimSuffix(file.Name(), ".cddl")+".go")""","""strings.SplitN(file.Name(), ".", 2)[0]+".go")""")],
 needs='a schema with a further dot in its name, as in common.types.cddl',
 breaks='its output gets another name and may replace the output of another schema',
 sh='''
echo 'a = int' >x.y.cddl
"$tmp/cddlc" generate >/dev/null 2>&1 || exit 1
[ -f dist/x.y.go ] && [ ! -e dist/x.go ]
'''),
dict(id='C01-extension-anywhere',p='C01',edits=[(CG,"""			if filepath.Ext(file.Name()) != ".cddl" {""","""			if !strings.Contains(file.Name(), ".cddl") {""")],
 needs='a file whose name contains .cddl but does not end in it, as in a.cddl.orig',
 breaks='it is taken for a schema and generated',
 sh='''
echo 'a = int' >a.cddl
echo 'b = int' >a.cddl.orig
"$tmp/cddlc" generate >/dev/null 2>&1 || exit 1
[ "$(ls dist)" = a.go ]
'''),
dict(id='C01-package-of-first-build',p='C01',edits=[(CG,"""	for _, build := range conf.Builds {
		stat, err := os.Stat(build.SourceDir)""","""	pkgs := map[string]string{}
	for _, build := range conf.Builds {
		if _, ok := pkgs[build.OutDir]; !ok {
			pkgs[build.OutDir] = build.Package // one package per directory
		}
		stat, err := os.Stat(build.SourceDir)"""),(CG,"generateFile(cCtx, build.Package, ","generateFile(cCtx, pkgs[build.OutDir], ")],
 needs='two builds with different packages that write to the same directory',
 breaks='the outputs of the second build have the package of the first',
 sh='''
mkdir s t
echo 'a = int' >s/a.cddl
echo 'b = int' >t/b.cddl
echo '{"builds":[{"package":"one","src":"s","output":"o"},{"package":"two","src":"t","output":"o"}]}' >cddlc.json
"$tmp/cddlc" generate >/dev/null 2>&1 || exit 1
grep -q 'package two' o/b.go
'''),
dict(id='C01-large-schema-cut',p='C01',edits=[(CG,"	src, err = ioutil.ReadAll(f)","	src, err = ioutil.ReadAll(io.LimitReader(f, 1<<20))")],
 needs='a schema of more than a megabyte',
 breaks='the rest of the schema is ignored',
 sh='''
for i in $(seq 60000); do echo "name-number-$i = int"; done >a.cddl
"$tmp/cddlc" generate >/dev/null 2>&1
if [ -f dist/a.go ]; then grep -q 'NameNumber60000 ' dist/a.go; else exit 1; fi
'''),
dict(id='C02-error-of-earlier-build-lost',p='C02',edits=[(CG,"""		for _, file := range files {
			if filepath""","""		failed = nil
		for _, file := range files {
			if filepath"""),(CG,"""			if err != nil /*&& skip failed not set*/ {
				return err
			}
		}

	}

	return nil
}""","""			if err != nil {
				fmt.Fprintln(os.Stderr, err) // the others may still be fine
				failed = err
			}
		}

	}

	return failed
}"""),(CG,"	for _, build := range conf.Builds {\n","	var failed error\n	for _, build := range conf.Builds {\n")],
 needs='several builds of which one but the last has a schema with an error',
 breaks='generate exits successfully although an output is missing',
 sh='''
mkdir s t
echo 'a = ' >s/a.cddl
echo 'b = int' >t/b.cddl
echo '{"builds":[{"package":"one","src":"s","output":"o"},{"package":"two","src":"t","output":"p"}]}' >cddlc.json
if "$tmp/cddlc" generate >/dev/null 2>&1; then exit 1; fi
exit 0
'''),
dict(id='C02-output-removed-first',p='C02',edits=[(CG,"""	gen := gogen.NewGenerator(pkgName)
	src, err := readSource(filepath)
	if err != nil {
		return err
	}
""","""	gen := gogen.NewGenerator(pkgName)
	src, err := readSource(filepath)
	if err == nil {
		err = os.Remove(outPath) // never leave an outdated output
	}
	if err != nil && !errors.Is(err, os.ErrNotExist) {
		return err
	}
""")],
 needs='a schema that had an output and has got an error since',
 breaks='the earlier output is gone although generate failed',
 sh='''
echo 'a = int' >a.cddl
"$tmp/cddlc" generate >/dev/null 2>&1 || exit 1
echo 'a = ' >a.cddl
"$tmp/cddlc" generate >/dev/null 2>&1 && exit 1
[ -f dist/a.go ]
'''),
dict(id='P08-last-line-not-shown',p='P08',edits=[(CG,"		if pos.Line <= lCount {","		if pos.Line < lCount {")],
 needs='an error on the last line of a schema without a final newline',
 breaks='generate fails without showing the diagnostic',
 sh='''
printf 'a = int\\nb = nosuch' >a.cddl
"$tmp/cddlc" generate 2>&1 | grep -q nosuch
'''),
dict(id='C03-lex-file-cut',p='C03',edits=[(CC,"	src, err = ioutil.ReadAll(f)\n	if err != nil {\n		return\n	}","	src = make([]byte, 1<<16)\n	n, err := f.Read(src)\n	if n == 0 && err == io.EOF {\n		err = nil\n	}\n	src = src[:n]"),(CC,'	"io/ioutil"\n','	"io"\n')],
 needs='a source of more than 64 KiB',
 breaks='the rest of the file is ignored by the lex and parse commands',
 sh='''
for i in $(seq 10000); do echo "name-$i = int"; done >a.cddl
"$tmp/cddlc" parse a.cddl | grep -q '"name-10000"'
'''),
dict(id='C03-only-some-diagnostics',p='C03',edits=[(CC,"""		if pos.Line <= lCount {
			line :=""","""		if pos.Line <= lCount && (len(outs) == 0 || pos.Line != lastLine) {
			lastLine = pos.Line
			line :="""),(CC,"	outs := []string{}\n\n	for","	outs, lastLine := []string{}, 0\n\n	for")],
 needs='several errors on one line',
 breaks='only the first of them is shown',
 sh='''
echo 'a = one / two' >a.cddl
"$tmp/cddlc" parse a.cddl 2>&1 >/dev/null | grep -q 'two referenced'
'''),
dict(id='C04-columns-of-trimmed-line',p='C04',edits=[(CR,"		l := lexer.NewLexer(scanner.Bytes())\n		p :=","		l := lexer.NewLexer([]byte(text))\n		p :=")],
 needs='a line that starts with blanks and has an error',
 breaks='the diagnostic names the column in the trimmed line',
 sh='''
printf '   a = }\\n:exit\\n' | "$tmp/cddlc" qrepl | grep -q 'column 8'
'''),
dict(id='C04-rejected-line-forgets',p='C04',edits=[(CR,"""		cddl, errs := p.ParseFile()
		if len(errs) != 0 {
			fmt.Println(errs.String())
		}
""","""		cddl, errs := p.ParseFile()
		switch len(errs) {
		case 0:
		case 1:
			fmt.Println(errs.String())
		default:
			fmt.Println(errs.String())
			environ = env.NewEnvironment()
		}
""")],
 needs='a line with more than one error after a definition',
 breaks='all names declared before are forgotten',
 sh='''
printf 'a = int\\nb = } }\\nc = a\\n:exit\\n' | "$tmp/cddlc" qrepl | grep -q 'a referenced' && exit 1
exit 0
'''),
]
