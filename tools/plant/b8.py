CM='cmd/cddlc/commands.go'
BUGS=[
dict(id='C06-tree-buffered',p='C06',edits=[(CM,"""	b, err := json.MarshalIndent(ast, "", "	")
	if err != nil {
		fmt.Printf("%+v", ast)
		return err
	}
	_, err = fmt.Println(string(b))
	return err
""","""	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()

	enc := json.NewEncoder(out)
	enc.SetIndent("", "	")
	return enc.Encode(ast)
"""),(CM,'import (\n','import (\n	"bufio"\n')],
 needs='an output of less than the size of the buffer, or the end of a longer one, to a destination which is full',
 breaks='parse succeeds although the tree did not arrive',
 sh='''
echo 'a = int' >a.cddl
! "$tmp/cddlc" parse a.cddl >/dev/full 2>/dev/null
'''),
dict(id='C06-lines-skipped-on-error',p='C06',edits=[(CM,"""		tok, pos, lit := lex.Scan()
		if _, err := fmt.Printf("%s: %s -> %s\\n", pos, tok, lit); err != nil {
			return err
		}
		if tok == token.EOF {
""","""		tok, pos, lit := lex.Scan()
		_, err := fmt.Printf("%s: %s -> %s\\n", pos, tok, lit)
		if tok == token.EOF || errors.Is(err, syscall.EPIPE) || errors.Is(err, syscall.ENOSPC) {
"""),(CM,'	"runtime"\n','	"runtime"\n	"syscall"\n')],
 needs='an output that can not be written completely',
 breaks='lex succeeds with a part of the tokens',
 sh='''
echo 'a = int' >a.cddl
! "$tmp/cddlc" lex a.cddl >/dev/full 2>/dev/null
'''),
]
