P='parser/parser.go';R='cmd/cddlc/commands/repl.go'
BUGS=[
dict(id='P05-duplicate-names-wrong-line',p='P05',edits=[(P,'val.Start().Line, val.Start().Column)','rule.Name.Pos.Line, val.Start().Column)')],
 needs='two declarations of a name on different lines',
 breaks='the report of the second says that the first is on the line of the second',
 imp=['strings'],
 go='''
_, errs := parse("a = int\\n\\n\\na = tstr\\n")
check(len(errs) == 1, "%v", errs)
check(strings.Contains(errs[0].Error(), "line 1, column 5"), "%s", errs[0].Error())
'''),
dict(id='C04-tree-of-eight-names',p='C04',edits=[(R,'			args := strings.Split(text, " ")[1:]\n','			args := strings.SplitN(text, " ", 10)[1:]\n			if len(args) > 8 {\n				args = args[:8]\n			}\n')],
 needs='a :tree command with more than eight names',
 breaks='the trees of the ninth name and those behind are not shown',
 sh='''
printf 'a = int\\nb = tstr\\n:tree a a a a a a a a b\\n:exit\\n' | "$tmp/cddlc" qrepl >out
grep -q '^b: ' out
'''),
]
G='cmd/cddlc/commands/generate.go'
BUGS.append(dict(id='C01-output-directory-not-usable',p='C01',edits=[(G,'os.MkdirAll(build.OutDir, os.ModePerm)','os.MkdirAll(build.OutDir, 0666)')],
 needs='an output directory that does not exist yet, and a user other than root',
 breaks='the directory is created without the permission to use it',
 sh='''
mkdir src
echo 'a = 1' >src/a.cddl
echo '{"version": "1", "builds": [{"package": "p", "src": "src", "output": "out"}]}' >cddlc.json
"$tmp/cddlc" generate >/dev/null 2>&1 || exit 2
case $(stat -c %a out) in 7*) ;; *) exit 1 ;; esac
'''))
