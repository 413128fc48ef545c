P='parser/parser.go';GL='transforms/codegen/golang/gen_literals.go'
SH='''
(cd "$OLDPWD" && GOARCH=386 go build -o "$tmp/32/cddlc" ./cmd/cddlc) || exit 2
'''
BUGS=[
dict(id='X02-tag-number-of-machine-width',p='X02',edits=[(P,'	numberUint, err := strconv.ParseUint(sections[1], 0, 64)','	numberUint, err := strconv.ParseUint(sections[1], 0, strconv.IntSize)')],
 needs='a build for 32 bits and a tag number of more than 32 bits',
 breaks='the tag is rejected by builds for 32 bits only',
 sh=SH+'''
echo 'a = #6.4294967296(int)' >a.cddl
"$tmp/32/cddlc" parse a.cddl >32.out 2>&1
"$tmp/cddlc" parse a.cddl >64.out 2>&1
cmp 32.out 64.out
'''),
dict(id='X02-literal-of-machine-width',p='X02',edits=[(GL,'		Value: strconv.FormatInt(il.Literal, 10),','		Value: strconv.Itoa(int(il.Literal)),')],
 needs='a build for 32 bits and a literal of more than 31 bits',
 breaks='the generated variable has another value',
 sh=SH+'''
mkdir src out
echo 'a = 6442450944' >src/a.cddl
echo '{"version": "1", "builds": [{"package": "p", "src": "src", "output": "out"}]}' >cddlc.json
"$tmp/32/cddlc" generate >/dev/null 2>&1 || exit 1
grep -q 'var A = 6442450944' out/a.go
'''),
]
